package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifharness/core"
)

type ev struct {
	E string `json:"e"`
	K int    `json:"k"`
	J int    `json:"j"`
	M int    `json:"m"`
	G int    `json:"g"`
	C string `json:"c"`
	V string `json:"v"`
}

type stressSc struct {
	Seed    int64 `json:"seed"`
	Runs    int   `json:"runs"`
	Keep    int   `json:"keep"`
	Subs    int   `json:"subs"`
	Msgs    int   `json:"msgs"`
	Chans   int   `json:"chans"`
	Double  bool  `json:"double"`
	Gosched int   `json:"gosched"`
	Sleep   int   `json:"sleep"`
}

func stressMode(line []byte, r *core.Result) {
	runtime.GOMAXPROCS(4)
	var s stressSc
	core.Must(json.Unmarshal(line, &s))
	rng := rand.New(rand.NewSource(s.Seed))
	core.SetYield(s.Gosched, s.Sleep)
	before := runtime.NumGoroutine()
	for i := 0; i < s.Runs; i++ {
		evs, wrong := stress(&s, rng)
		r.Steps += len(evs)
		if wrong != "" {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "concurrent execution", Expected: "everything returns",
				Observed: fmt.Sprintf("%+v\n%s", evs, wrong)})
			return
		}
		if i < s.Keep {
			r.Traces = append(r.Traces, map[string]any{"ev": evs})
		}
	}
	core.SetYield(0, 0)
	core.Must(core.Quiesce())
	if n := runtime.NumGoroutine(); n != before {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "goroutines after the end", Expected: before,
			Observed: fmt.Sprintf("%d\n%s", n, core.Stacks())})
	}
}

// stress makes one concurrent execution.
func stress(s *stressSc, rng *rand.Rand) (evs []ev, wrong string) {
	var mu sync.Mutex
	add := func(e ev) {
		mu.Lock()
		evs = append(evs, e)
		mu.Unlock()
	}
	fail := func(f string, args ...any) {
		mu.Lock()
		wrong += fmt.Sprintf(f, args...) + "\n"
		mu.Unlock()
	}
	broker := &core.Broker{}
	broker.OnSubscribe = func(_ context.Context, c string) error { add(ev{E: "bsub", C: c}); return nil }
	broker.OnCancel = func(b *core.Sub) { add(ev{E: "bcancel", C: b.Channel, G: b.N}) }
	w := newWrapper(broker, "v1", versioning.DefaultVersionHeaderKey)
	chans := []string{"A", "B"}[:s.Chans]
	vers := []string{"v1", "v2"}
	kinds := []string{"v1", "v2", "none", "unknown", "v1", "v2"}
	var wg sync.WaitGroup
	start := make(chan struct{})
	pause := func(n int) func() {
		d := rng.Intn(n)
		return func() {
			switch {
			case d == 0:
			case d < 4:
				for j := 0; j < d*3; j++ {
					runtime.Gosched()
				}
			default:
				time.Sleep(time.Duration(d*10) * time.Microsecond)
			}
		}
	}
	run := func(f func()) {
		wg.Add(1)
		p := pause(6)
		go func() {
			defer wg.Done()
			<-start
			p()
			f()
		}()
	}
	var jmu sync.Mutex
	jn := 0
	nextJ := func() int { jmu.Lock(); defer jmu.Unlock(); jn++; return jn }
	one := func(k int, c, v string, double bool, p func()) {
		add(ev{E: "sub", K: k, C: c, V: v})
		h, err := w.Subscribe(versionCtx(v, ""), c)
		if errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
			add(ev{E: "already", K: k})
			return
		}
		if err != nil {
			fail("subscription: %v", err)
			return
		}
		add(ev{E: "ok", K: k})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range h.MessagesChannel() {
				n := 0
				fmt.Sscan(string(m.Payload), &n)
				add(ev{E: "read", K: k, M: n})
			}
			add(ev{E: "closed", K: k})
		}()
		p()
		cancel := func() {
			j := nextJ()
			add(ev{E: "cancel", K: k, J: j})
			h.Cancel(context.Background())
			add(ev{E: "cancel ret", K: k, J: j})
		}
		if double {
			wg.Add(1)
			go func() { defer wg.Done(); cancel() }()
		}
		cancel()
	}
	per := 1 + rng.Intn(2)
	for k := 1; k <= s.Subs; k += per {
		first, last := k, min(k+per-1, s.Subs)
		c, v := chans[rng.Intn(len(chans))], vers[rng.Intn(2)]
		double, p := s.Double && rng.Intn(3) == 0, pause(8)
		run(func() {
			for n := first; n <= last; n++ {
				one(n, c, v, double, p)
			}
		})
	}
	for m := 1; m <= s.Msgs; m++ {
		m := m
		c, kind := chans[rng.Intn(len(chans))], kinds[rng.Intn(len(kinds))]
		p := pause(8)
		run(func() {
			p()
			var b *core.Sub
			for i := 0; i < 200 && b == nil; i++ {
				if b = broker.Last(c); b == nil {
					runtime.Gosched()
				}
			}
			if b == nil {
				return
			}
			v := kind
			if v == "none" {
				v = "v1"
			} else if v == "unknown" {
				v = "v9"
			}
			add(ev{E: "tx", M: m, C: c, G: b.N, V: v})
			b.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
				Headers: headersOf(kind, versioning.DefaultVersionHeaderKey, m), Payload: []byte(fmt.Sprint(m))}, core.Ack{}))
			add(ev{E: "tx ret", M: m})
		})
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		mu.Lock()
		defer mu.Unlock()
		return evs, "still blocked after 8 s\n" + core.Stacks()
	}
	// the listeners end
	for _, b := range broker.All() {
		if !b.IsCanceled() {
			fail("the broker subscription %s %d is not canceled", b.Channel, b.N)
		}
	}
	return evs, wrong
}
