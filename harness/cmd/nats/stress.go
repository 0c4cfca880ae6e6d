package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"verifharness/core"
	"verifharness/natsd"
)

type ev struct {
	E string `json:"e"`
	K int    `json:"k"`
	S int    `json:"s"`
	M int    `json:"m"`
	C string `json:"c"`
}

type stressSc struct {
	Seed    int64 `json:"seed"`
	Runs    int   `json:"runs"`
	Keep    int   `json:"keep"`
	Subs    int   `json:"subs"`
	Msgs    int   `json:"msgs"`
	Pubs    int   `json:"pubs"`
	Flood   bool  `json:"flood"`
	Gosched int   `json:"gosched"`
	Sleep   int   `json:"sleep"`
}

// record is what is recorded of an execution.
type record struct {
	mu    sync.Mutex
	evs   []ev
	wrong string
	wg    sync.WaitGroup
	start chan struct{}
	rng   *rand.Rand
}

func (r *record) add(e ev) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

func (r *record) fail(f string, args ...any) {
	r.mu.Lock()
	r.wrong += fmt.Sprintf(f, args...) + "\n"
	r.mu.Unlock()
}

func (r *record) pause(n int) func() {
	d := r.rng.Intn(n)
	return func() {
		switch {
		case d == 0:
		case d < 4:
			for j := 0; j < d*3; j++ {
				runtime.Gosched()
			}
		default:
			time.Sleep(time.Duration(d*20) * time.Microsecond)
		}
	}
}

func (r *record) run(f func()) {
	r.wg.Add(1)
	p := r.pause(10)
	go func() {
		defer r.wg.Done()
		<-r.start
		p()
		f()
	}()
}

func (r *record) finish() string {
	done := make(chan struct{})
	go func() { r.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(natsd.Patience):
		r.fail("something does not return:\n%s", core.Stacks())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.wrong
}

func stress(line []byte, r *core.Result, one func(s *stressSc, rng *rand.Rand) ([]ev, string)) {
	runtime.GOMAXPROCS(4)
	var s stressSc
	core.Must(json.Unmarshal(line, &s))
	rng := rand.New(rand.NewSource(s.Seed))
	core.SetYield(s.Gosched, s.Sleep)
	before := runtime.NumGoroutine()
	for i := 0; i < s.Runs; i++ {
		evs, wrong := one(&s, rng)
		r.Steps += len(evs)
		if wrong != "" {
			b, _ := json.Marshal(evs)
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "concurrent execution", Expected: "everything happens and returns",
				Observed: fmt.Sprintf("%s\n%s", wrong, b)})
			return
		}
		if i < s.Keep {
			r.Traces = append(r.Traces, map[string]any{"ev": evs})
		}
	}
	core.SetYield(0, 0)
	if !wait(func() bool { return runtime.NumGoroutine() <= before }) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "goroutines after the end", Expected: before,
			Observed: core.Stacks()})
	}
}

func number(p []byte) int {
	n := 0
	if _, err := fmt.Sscanf(string(p), "m%d", &n); err != nil {
		return -1
	}
	return n
}

// reader reads a subscription until its end.
func (r *record) reader(k int, sub extensions.BrokerChannelSubscription, begin <-chan struct{}, p func(), settle func(n int, m *extensions.AcknowledgeableBrokerMessage)) (over chan struct{}) {
	over = make(chan struct{})
	go func() {
		defer close(over)
		<-begin
		for m := range sub.MessagesChannel() {
			n := number(m.Payload)
			r.add(ev{E: "read", K: k, M: n})
			if string(m.Headers["n"]) != fmt.Sprint(n) {
				r.fail("headers of %d: %q", n, m.Headers)
			}
			if settle != nil {
				settle(n, &m)
			}
			p()
		}
		r.add(ev{E: "closed", K: k})
	}()
	return over
}

func natsMsg(ch string, n int) natsd.Msg {
	return natsd.Msg{Subject: ch, Headers: []natsd.Header{{Key: "n", Value: fmt.Sprint(n)}}, Data: []byte(fmt.Sprintf("m%d", n))}
}

func natsStress(s *stressSc, rng *rand.Rand) ([]ev, string) {
	srv := natsd.New()
	defer srv.Close()
	r := &record{start: make(chan struct{}), rng: rng}
	sids := map[*natsd.Sub]int{}
	srv.OnEvent = func(e natsd.Event) {
		switch e.Kind {
		case "sub":
			sids[e.Sub] = len(sids) + 1
			r.add(ev{E: "srvsub", S: sids[e.Sub], C: e.Sub.Subject})
		case "unsub":
			r.add(ev{E: "srvunsub", S: sids[e.Sub]})
		case "pub":
			r.add(ev{E: "srvpub", M: number(e.Msg.Data)})
		}
	}
	srv.OnSend = func(sub *natsd.Sub, m natsd.Msg) {
		r.add(ev{E: "send", S: sids[sub], M: number(m.Data)})
	}
	ctl, err := nats.NewController(srv.URL(), nats.WithQueueGroup([]string{"", "q"}[rng.Intn(2)]))
	core.Must(err)
	ctx := context.Background()
	chans := []string{"a", "b"}
	nothing := make(chan struct{})
	close(nothing)
	stop := make(chan struct{})
	var canceled, kept []chan struct{}
	var keptSubs []extensions.BrokerChannelSubscription
	var cmu sync.Mutex
	for k := 1; k <= s.Subs; k++ {
		k, ch := k, chans[rng.Intn(2)]
		lazy, cancel, double := s.Flood && k == 1, rng.Intn(3) > 0 || (s.Flood && k == 1), rng.Intn(3) == 0
		p1, p2, p3, p4 := r.pause(12), r.pause(4), r.pause(12), r.pause(3)
		begin := nothing
		if lazy {
			begin = make(chan struct{})
		}
		r.run(func() {
			r.add(ev{E: "sub", K: k, C: ch})
			sub, err := ctl.Subscribe(ctx, ch)
			if err != nil {
				r.fail("subscription: %v", err)
				return
			}
			r.add(ev{E: "ready", K: k})
			over := r.reader(k, sub, begin, p2, nil)
			p1()
			if !cancel {
				cmu.Lock()
				kept, keptSubs = append(kept, over), append(keptSubs, sub)
				cmu.Unlock()
				return
			}
			if lazy {
				<-stop
			}
			p3()
			r.add(ev{E: "cancel", K: k})
			if double {
				r.wg.Add(1)
				go func() {
					defer r.wg.Done()
					p4()
					sub.Cancel(ctx)
				}()
			}
			sub.Cancel(ctx)
			r.add(ev{E: "canceled", K: k})
			if lazy {
				close(begin)
			}
			cmu.Lock()
			canceled = append(canceled, over)
			cmu.Unlock()
		})
	}
	n := 0
	sending := sync.WaitGroup{}
	flood := 1
	if s.Flood {
		flood = 90
	}
	for i := 0; i < s.Msgs; i++ {
		first, ch, p := n+1, chans[rng.Intn(2)], r.pause(20)
		n += flood
		sending.Add(1)
		r.run(func() {
			defer sending.Done()
			p()
			for j := 0; j < flood; j++ {
				srv.Deliver(natsMsg(ch, first+j))
			}
		})
	}
	for i := 0; i < s.Pubs; i++ {
		n++
		m, ch, p := n, chans[rng.Intn(2)], r.pause(20)
		r.run(func() {
			p()
			r.add(ev{E: "pub", M: m})
			if err := ctl.Publish(ctx, ch, extensions.BrokerMessage{Headers: map[string][]byte{"n": []byte(fmt.Sprint(m))}, Payload: []byte(fmt.Sprintf("m%d", m))}); err != nil {
				r.fail("publication: %v", err)
				return
			}
			r.add(ev{E: "published", M: m})
		})
	}
	close(r.start)
	go func() { sending.Wait(); close(stop) }()
	if w := r.finish(); w != "" {
		return r.evs, w
	}
	for _, over := range canceled {
		select {
		case <-over:
		case <-time.After(natsd.Patience):
			return r.evs, "a canceled subscription is not closed"
		}
	}
	// what has been sent is read, what has been canceled is known by the server
	r.settled()
	r.mu.Lock()
	evs := append([]ev{}, r.evs...)
	r.mu.Unlock()
	for _, sub := range keptSubs {
		sub.Cancel(ctx)
	}
	for _, over := range kept {
		<-over
	}
	ctl.Close()
	return evs, ""
}

// settled waits until nothing is missing in what is recorded, or for a long time.
func (r *record) settled() {
	wait(func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		subs, unsubs, cancels, reads, sends := 0, 0, 0, map[int]int{}, 0
		ready, unknown := 0, map[int]bool{}
		for _, e := range r.evs {
			switch e.E {
			case "srvsub":
				subs++
			case "srvunsub":
				unsubs++
				unknown[e.S] = true
			case "cancel":
				cancels++
			case "ready":
				ready++
			case "read":
				reads[e.K]++
			}
		}
		gone := map[int]bool{}
		for _, e := range r.evs {
			if e.E == "cancel" {
				gone[e.K] = true
			}
		}
		n := 0
		for k, c := range reads {
			if !gone[k] {
				n += c
			}
		}
		for _, e := range r.evs {
			if e.E == "send" && !unknown[e.S] {
				sends++
			}
		}
		return subs == ready && unsubs == cancels && n == sends
	})
}

func natsStressMode(line []byte, r *core.Result) { stress(line, r, natsStress) }
