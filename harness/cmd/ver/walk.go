package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifharness/core"
)

type obs struct {
	T  string `json:"t"`
	Ev string `json:"ev"`
	ID string `json:"id"`
}

type walkSc struct {
	Default string `json:"def"`
	Key     string `json:"key"`
	Steps   []struct {
		A struct {
			Op     string `json:"op"`
			C      string `json:"c"`
			V      string `json:"v"`
			Fails  bool   `json:"fails"`
			Slow   bool   `json:"slow"`
			Kind   string `json:"kind"`
			ID     string `json:"id"`
			N      int    `json:"n"`
			Settle string `json:"settle"`
		} `json:"a"`
		O []obs `json:"o"`
	} `json:"steps"`
}

type ctxKey struct{}

// version headers of the kinds of messages
func headersOf(kind, key string, serial int) map[string][]byte {
	other := versioning.DefaultVersionHeaderKey
	if key == other {
		other = "x-version"
	}
	h := map[string][]byte{"serial": []byte(fmt.Sprint(serial)), "raw": {0, 255}}
	switch kind {
	case "v1", "v2":
		h[key] = []byte(kind)
	case "unknown":
		h[key] = []byte("v9")
	case "empty":
		h[key] = []byte{}
	case "other":
		h[other] = []byte("v2")
	case "none":
		if serial%2 == 0 {
			return nil
		}
	default:
		panic("unknown kind " + kind)
	}
	return h
}

type sent struct {
	id     string
	serial int
	msg    extensions.BrokerMessage
}

type walkRun struct {
	mu      sync.Mutex
	evs     []obs
	bad     []string
	serial  int
	sent    map[string]sent // by payload
	settled map[int]string
	last    map[<-chan extensions.AcknowledgeableBrokerMessage]int // last serial read on a subscription
	cur     map[string]extensions.BrokerChannelSubscription
	old     map[string]extensions.BrokerChannelSubscription
	fails   bool
	slow    bool
	release chan struct{}
}

func (x *walkRun) add(t, ev, id string) {
	x.mu.Lock()
	x.evs = append(x.evs, obs{t, ev, id})
	x.mu.Unlock()
}

// wrong notes something that is never allowed.
func (x *walkRun) wrong(f string, args ...any) {
	x.mu.Lock()
	x.bad = append(x.bad, fmt.Sprintf(f, args...))
	x.mu.Unlock()
}

func sorted(evs []obs) []obs {
	out := append([]obs{}, evs...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].T < out[j].T })
	return out
}

func newWrapper(b extensions.BrokerController, def, key string) *versioning.Wrapper {
	var opts []versioning.WrapperOption
	if def != "" {
		opts = append(opts, versioning.WithDefaultVersion(def))
	}
	if key != versioning.DefaultVersionHeaderKey {
		opts = append(opts, versioning.WithVersionHeaderKey(key))
	}
	return versioning.NewWrapper(b, opts...)
}

func versionCtx(v, how string) context.Context {
	ctx := context.WithValue(context.Background(), ctxKey{}, "value of the caller")
	if v != "" || how == "empty" {
		ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, v)
	}
	return ctx
}

func walkMode(line []byte, r *core.Result) {
	core.SetYield(0, 0)
	var s walkSc
	core.Must(json.Unmarshal(line, &s))
	before := runtime.NumGoroutine()
	x := &walkRun{sent: map[string]sent{}, settled: map[int]string{}, last: map[<-chan extensions.AcknowledgeableBrokerMessage]int{}, release: make(chan struct{}, 1),
		cur: map[string]extensions.BrokerChannelSubscription{}, old: map[string]extensions.BrokerChannelSubscription{}}
	broker := &core.Broker{
		OnSubscribe: func(ctx context.Context, channel string) error {
			x.add("broker", "subscribe", channel)
			if ctx.Value(ctxKey{}) != "value of the caller" {
				x.wrong("the context given to the broker is not the one of the caller")
			}
			x.mu.Lock()
			defer x.mu.Unlock()
			if x.fails {
				return core.ErrSubscribe
			}
			return nil
		},
		OnCancel: func(s *core.Sub) {
			x.add("broker", "cancel", s.Channel)
			x.mu.Lock()
			slow := x.slow
			x.mu.Unlock()
			if slow {
				<-x.release
			}
		},
	}
	w := newWrapper(broker, s.Default, s.Key)
	bad := func(where string, exp, got any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: where, Expected: exp, Observed: got})
	}
	subscribe := func(c, v, how string) {
		name := "subscribe " + c + "/" + v
		sub, err := w.Subscribe(versionCtx(v, how), c)
		switch {
		case err == nil:
			x.mu.Lock()
			x.cur[c+"/"+v] = sub
			x.mu.Unlock()
			x.add(name, "ok", "")
		case errors.Is(err, extensions.ErrAlreadySubscribedChannel):
			x.add(name, "already subscribed", "")
		case errors.Is(err, versioning.ErrNoVersion) && errors.Is(err, extensions.ErrAsyncAPI):
			x.add(name, "no version", "")
		case errors.Is(err, core.ErrSubscribe):
			x.add(name, "broker error", "")
		default:
			x.add(name, "error "+err.Error(), "")
		}
	}
	read := func(h extensions.BrokerChannelSubscription, name, settle string) {
		m, open := <-h.MessagesChannel()
		if !open {
			ev := "closed"
			if !m.IsUninitialized() {
				ev = "closed with a message"
			}
			x.add("read "+name, ev, "")
			return
		}
		x.mu.Lock()
		o, ok := x.sent[string(m.Payload)]
		delete(x.sent, string(m.Payload))
		last := x.last[h.MessagesChannel()]
		if ok {
			x.last[h.MessagesChannel()] = o.serial
		}
		before := x.settled[o.serial]
		x.mu.Unlock()
		switch {
		case !ok:
			x.add("read "+name, "unexpected message", string(m.Payload))
			return
		case core.Show(o.msg) != core.Show(m.BrokerMessage):
			x.add("read "+name, "altered message", core.Show(m.BrokerMessage)+" instead of "+core.Show(o.msg))
			return
		case o.serial < last:
			x.add("read "+name, "message in the wrong order", o.id)
			return
		}
		if before != "" {
			x.wrong("a message is settled before it is read")
		}
		switch settle {
		case "ack":
			m.Ack()
		case "nak":
			m.Nak()
		}
		x.mu.Lock()
		got := x.settled[o.serial]
		x.mu.Unlock()
		if settle == "none" {
			settle = ""
		}
		if got != settle {
			x.wrong("the settlement of a message is %q instead of %q", got, settle)
		}
		x.add("read "+name, "message", o.id)
	}
	for i, st := range s.Steps {
		a := st.A
		name := a.C + "/" + a.V
		x.mu.Lock()
		x.fails, x.slow = a.Fails, a.Slow
		cur, old := x.cur[name], x.old[name]
		if a.Op == "cancel" {
			x.old[name] = cur
		}
		x.mu.Unlock()
		switch a.Op {
		case "subscribe":
			go subscribe(a.C, a.V, "")
		case "no version":
			go subscribe(a.C, "", a.V)
		case "transmit", "flood":
			n := max(1, a.N)
			b := broker.Last(a.C)
			if b == nil {
				bad(fmt.Sprintf("step %d: %+v", i, a), "a subscription on the broker", "none")
				return
			}
			go func() {
				for ; n > 0; n-- {
					x.mu.Lock()
					x.serial++
					k := x.serial
					m := extensions.BrokerMessage{Headers: headersOf(a.Kind, s.Key, k), Payload: []byte(fmt.Sprintf("payload %d", k))}
					x.sent[string(m.Payload)] = sent{a.ID, k, core.CloneMsg(m)}
					x.mu.Unlock()
					settle := func(how string) func() {
						return func() {
							x.mu.Lock()
							x.settled[k] += how
							x.mu.Unlock()
						}
					}
					b.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, core.Ack{OnAck: settle("ack"), OnNak: settle("nak")}))
				}
				x.add("transmit", "return", a.C)
			}()
		case "read":
			h := cur
			go func() {
				for j := 0; j < a.N; j++ {
					read(h, name, a.Settle)
				}
			}()
		case "read old":
			h := old
			go func() {
				for j := 0; j < a.N; j++ {
					read(h, name, a.Settle)
				}
			}()
		case "cancel":
			h := cur
			go func() {
				h.Cancel(context.Background())
				x.add("cancel "+name, "return", "")
			}()
		case "cancel old":
			h := old
			go func() {
				h.Cancel(context.Background())
				x.add("cancel "+name, "return", "")
			}()
		case "release":
			x.release <- struct{}{}
		default:
			panic("unknown action " + a.Op)
		}
		if err := core.Quiesce(); err != nil {
			bad(fmt.Sprintf("step %d: %+v", i, a), "a stable state", err.Error())
			return
		}
		r.Steps++
		x.mu.Lock()
		got := sorted(x.evs)
		x.evs = nil
		wrong := x.bad
		x.mu.Unlock()
		if exp := sorted(st.O); !core.Same(exp, got) {
			bad(fmt.Sprintf("step %d: %+v", i, a), exp, got)
			return
		}
		if len(wrong) > 0 {
			bad(fmt.Sprintf("step %d: %+v", i, a), "nothing wrong", wrong)
			return
		}
	}
	// the end: everything canceled, nothing is left
	x.mu.Lock()
	x.slow = false
	x.mu.Unlock()
	select {
	case x.release <- struct{}{}:
	default:
	}
	if err := core.Quiesce(); err != nil {
		bad("end", "a stable state", err.Error())
		return
	}
	x.mu.Lock()
	handles := x.cur
	x.mu.Unlock()
	for _, h := range handles {
		go func(h extensions.BrokerChannelSubscription) {
			h.Cancel(context.Background())
			for range h.MessagesChannel() {
			}
		}(h)
	}
	if err := core.Quiesce(); err != nil {
		bad("end", "a stable state", err.Error())
		return
	}
	for _, b := range broker.All() {
		if !b.IsCanceled() {
			bad("end", "every broker subscription is canceled", b.Channel)
		}
	}
	if n := runtime.NumGoroutine(); n != before {
		bad("goroutines after the end", before, fmt.Sprintf("%d\n%s", n, core.Stacks()))
	}
}
