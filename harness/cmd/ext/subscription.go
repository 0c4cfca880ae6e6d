package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Walks of SubscriptionWalk.tla ---------------------------------------------------

type subObs struct {
	T  string `json:"t"`
	Ev string `json:"ev"`
	ID int    `json:"id"`
}

type subSc struct {
	Cap   int `json:"qcap"`
	Steps []struct {
		A struct {
			Op      string `json:"op"`
			ID      int    `json:"id"`
			Expired bool   `json:"expired"`
			Blocks  bool   `json:"blocks"`
		} `json:"a"`
		O []subObs `json:"o"`
	} `json:"steps"`
}

type subRun struct {
	mu      sync.Mutex
	evs     []subObs
	cleaned bool
	sent    map[int]int // serial number of the message with this id
	serial  int
	release chan struct{}
	blocks  bool
}

func (s *subRun) add(t, ev string, id int) {
	s.mu.Lock()
	s.evs = append(s.evs, subObs{t, ev, id})
	s.mu.Unlock()
}

func subMsg(serial int) extensions.AcknowledgeableBrokerMessage {
	return extensions.NewAcknowledgeableBrokerMessage(core.Msg(fmt.Sprint(serial)), core.Ack{})
}

func serialOf(m extensions.AcknowledgeableBrokerMessage) int {
	n := -1
	fmt.Sscan(string(m.Payload), &n)
	return n
}

func sortedObs(evs []subObs) []subObs {
	out := append([]subObs{}, evs...)
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.T != b.T {
			return a.T < b.T
		}
		return a.Ev < b.Ev
	})
	return out
}

func subscriptionMode(line []byte, r *core.Result) {
	core.SetYield(0, 0)
	var s subSc
	core.Must(json.Unmarshal(line, &s))
	before := runtime.NumGoroutine()
	x := &subRun{sent: map[int]int{}, release: make(chan struct{}, 1)}
	sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, s.Cap), make(chan any, 1))
	sub.WaitForCancellationAsync(func() {
		x.add("cleanup", "clean", 0)
		if x.blocks {
			<-x.release
		}
		x.mu.Lock()
		x.cleaned = true
		x.mu.Unlock()
	})
	cancels := map[int]context.CancelFunc{}
	isCleaned := func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.cleaned }
	bad := func(where string, exp, got any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: where, Expected: exp, Observed: got})
	}
	for i, st := range s.Steps {
		a := st.A
		switch a.Op {
		case "transmit":
			x.serial++
			n := x.serial
			x.mu.Lock()
			x.sent[n] = a.ID
			x.mu.Unlock()
			c := sub
			go func() {
				c.TransmitReceivedMessage(subMsg(n))
				x.add(fmt.Sprint("transmit ", a.ID), "return", a.ID)
			}()
		case "read":
			c := sub
			go func() {
				m, open := <-c.MessagesChannel()
				if !open {
					ev := "closed"
					if !isCleaned() {
						ev = "closed before the clean up"
					}
					if !m.IsUninitialized() {
						ev = "closed with a message"
					}
					x.add("reader", ev, 0)
					return
				}
				x.mu.Lock()
				id, ok := x.sent[serialOf(m)]
				delete(x.sent, serialOf(m))
				x.mu.Unlock()
				if !ok {
					id = -1
				}
				x.add("reader", "message", id)
			}()
		case "cancel":
			if a.Blocks {
				x.blocks = true
			}
			ctx, cancel := context.WithCancel(context.Background())
			cancels[a.ID] = cancel
			if a.Expired {
				cancel()
			}
			c := sub // a copy
			go func() {
				c.Cancel(ctx)
				ev := "return"
				if ctx.Err() == nil && !isCleaned() {
					ev = "return before the clean up"
				}
				x.add(fmt.Sprint("cancel ", a.ID), ev, a.ID)
			}()
		case "expire":
			cancels[a.ID]()
		case "release":
			x.release <- struct{}{}
		default:
			panic("unknown action " + a.Op)
		}
		if err := core.Quiesce(); err != nil {
			bad(fmt.Sprintf("step %d: %+v", i, a), "a stable state", err.Error())
			return
		}
		r.Steps++
		x.mu.Lock()
		got := sortedObs(x.evs)
		x.evs = nil
		x.mu.Unlock()
		if exp := sortedObs(st.O); !core.Same(exp, got) {
			bad(fmt.Sprintf("step %d: %+v", i, a), exp, got)
			return
		}
	}
	// the end
	select {
	case x.release <- struct{}{}:
	default:
	}
	go sub.Cancel(context.Background())
	for range sub.MessagesChannel() {
	}
	for _, c := range cancels {
		c()
	}
	if err := core.Quiesce(); err != nil {
		bad("end", "a stable state", err.Error())
		return
	}
	if n := runtime.NumGoroutine(); n != before {
		bad("goroutines after the end", before, fmt.Sprintf("%d\n%s", n, core.Stacks()))
	}
}

// --- Executions for SubscriptionTrace.tla ---------------------------------------------

type stressSc struct {
	Seed    int64 `json:"seed"`
	Runs    int   `json:"runs"`
	Keep    int   `json:"keep"`
	Msgs    int   `json:"msgs"`
	Cancels int   `json:"cancels"`
	Cap     int   `json:"cap"`
	Gosched int   `json:"gosched"`
	Sleep   int   `json:"sleep"`
}

type traceEv struct {
	E string `json:"e"`
	N int    `json:"n"`
}

// subStressMode makes concurrent executions, and records some of them.
func subStressMode(line []byte, r *core.Result) {
	runtime.GOMAXPROCS(4)
	var s stressSc
	core.Must(json.Unmarshal(line, &s))
	rng := rand.New(rand.NewSource(s.Seed))
	core.SetYield(s.Gosched, s.Sleep)
	before := runtime.NumGoroutine()
	var traces []any
	for i := 0; i < s.Runs; i++ {
		evs, stuck := subStress(&s, rng)
		r.Steps += len(evs)
		if stuck != "" {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "concurrent execution", Expected: "everything returns",
				Observed: fmt.Sprintf("%v\n%s", evs, stuck)})
			return
		}
		if i < s.Keep {
			traces = append(traces, map[string]any{"ev": evs, "cap": s.Cap})
		}
	}
	core.SetYield(0, 0)
	if err := core.Quiesce(); err != nil {
		panic(err)
	}
	if n := runtime.NumGoroutine(); n != before {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "goroutines after the end", Expected: before,
			Observed: fmt.Sprintf("%d\n%s", n, core.Stacks())})
	}
	r.Traces = append(r.Traces, traces...)
}

func subStress(s *stressSc, rng *rand.Rand) (evs []traceEv, stuck string) {
	var mu sync.Mutex
	add := func(e string, n int) {
		mu.Lock()
		evs = append(evs, traceEv{e, n})
		mu.Unlock()
	}
	sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, s.Cap), make(chan any, 1))
	cleanTime := time.Duration(rng.Intn(3)) * 20 * time.Microsecond
	sub.WaitForCancellationAsync(func() {
		add("clean", 0)
		time.Sleep(cleanTime)
		add("cleaned", 0)
	})
	var wg sync.WaitGroup
	start := make(chan struct{})
	pause := func() func() {
		d := rng.Intn(6)
		return func() {
			switch {
			case d == 0:
			case d < 4:
				for j := 0; j < d*3; j++ {
					runtime.Gosched()
				}
			default:
				time.Sleep(time.Duration(d*10) * time.Microsecond)
			}
		}
	}
	run := func(f func()) {
		wg.Add(1)
		p := pause()
		go func() {
			defer wg.Done()
			<-start
			p()
			f()
		}()
	}
	per := 1 + rng.Intn(3)
	for m := 1; m <= s.Msgs; m += per {
		first, last := m, min(m+per-1, s.Msgs)
		run(func() {
			for n := first; n <= last; n++ {
				add("tx", n)
				sub.TransmitReceivedMessage(subMsg(n))
				add("tx ret", n)
			}
		})
	}
	readPause, reads := pause(), rng.Intn(s.Msgs+1)
	run(func() {
		for j := 0; ; j++ {
			if j == reads {
				readPause()
			}
			m, open := <-sub.MessagesChannel()
			if !open {
				break
			}
			add("read", serialOf(m))
		}
		add("closed", 0)
	})
	for k := 1; k <= s.Cancels; k++ {
		k := k
		kind, p := rng.Intn(3), pause()
		run(func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if kind == 1 {
				add("expire", k)
				cancel()
			}
			if kind == 2 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p()
					add("expire", k)
					cancel()
				}()
			}
			add("cancel", k)
			sub.Cancel(ctx)
			add("cancel ret", k)
		})
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		return evs, core.Stacks()
	}
	return evs, ""
}
