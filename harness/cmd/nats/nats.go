package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"verifharness/core"
	"verifharness/natsd"

	natsgo "github.com/nats-io/nats.go"
)

type content struct {
	Lines   [][2]string `json:"lines"`
	Seen    [][2]string `json:"seen"`
	Payload string      `json:"payload"`
}

type natsAct struct {
	Op   string `json:"op"`
	C    int    `json:"c"`
	Ch   string `json:"ch"`
	I    int    `json:"i"`
	K    string `json:"k"`
	Pick []int  `json:"pick"`
}

type natsEv struct {
	Kind string `json:"kind"`
	C    int    `json:"c"`
	Ch   string `json:"ch"`
	Q    string `json:"q"`
}

type natsObs struct {
	Srv  []natsEv `json:"srv"`
	To   []int    `json:"to"`
	OK   bool     `json:"ok"`
	Read string   `json:"read"`
}

type natsSc struct {
	Contents map[string]content `json:"contents"`
	Groups   []string           `json:"groups"`
	Opt      string             `json:"opt"`
	Steps    []struct {
		A natsAct `json:"a"`
		O natsObs `json:"o"`
	} `json:"steps"`
}

func text(s string) string { return strings.ReplaceAll(s, "~", "é") }

// payload builds a payload that is the only one with this number (if not empty).
func payload(kind string, n int) []byte {
	switch kind {
	case "empty":
		return []byte{}
	case "text":
		return []byte(fmt.Sprintf("text %d", n))
	case "binary":
		b := []byte{}
		for i := 0; i < 256; i++ {
			b = append(b, byte(i))
		}
		return append(b, byte(n))
	case "protocol":
		return []byte(fmt.Sprintf("MSG a 1 1\r\nx\r\nPUB b 2\r\nyy\r\nPING\r\n%d\r\n", n))
	case "big":
		return append(bytes.Repeat([]byte("0123456789abcdef"), 8000), fmt.Sprint(n)...)
	}
	panic(core.MissingMethod{Msg: kind})
}

// told is a message that a subscription should give.
type told struct {
	kind    string
	payload []byte
}

func show(h map[string][]byte, p []byte) string {
	var keys []string
	for k, v := range h {
		keys = append(keys, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(keys)
	s := fmt.Sprintf("%q", p)
	if len(s) > 400 {
		s = s[:200] + "..." + s[len(s)-100:]
	}
	return strings.Join(keys, " ") + " | " + s
}

func (c content) shown(p []byte) string {
	h := map[string][]byte{}
	for _, x := range c.Seen {
		h[x[0]] = []byte(text(x[1]))
	}
	return show(h, p)
}

// wait waits for a condition.
func wait(f func() bool) bool {
	deadline := time.Now().Add(natsd.Patience)
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

type warned struct {
	mu sync.Mutex
	n  int
}

type slot struct {
	sub    extensions.BrokerChannelSubscription
	srv    *natsd.Sub
	queue  []told
	inited bool
}

func natsMode(line []byte, r *core.Result) {
	var s natsSc
	core.Must(json.Unmarshal(line, &s))
	srv := natsd.New()
	defer srv.Close()
	ctx := context.Background()
	slots := map[int]*slot{}
	var pick []int
	var mu sync.Mutex
	srv.Pick = func(_ natsd.Msg, group []*natsd.Sub) *natsd.Sub {
		mu.Lock()
		defer mu.Unlock()
		for _, i := range pick {
			for _, g := range group {
				if slots[i] != nil && slots[i].srv == g {
					return g
				}
			}
		}
		return group[0]
	}
	// the number of a controller is the one of its connection
	var ctls []*nats.Controller
	for i, g := range s.Groups {
		var opts []nats.ControllerOption
		if g != "" || i%2 == 1 {
			opts = append(opts, nats.WithQueueGroup(g))
		}
		name := ""
		if (i+len(s.Steps))%2 == 0 {
			name = fmt.Sprint("client ", i)
			opts = append(opts, nats.WithConnectionOpts(natsgo.Name(name)))
		}
		if len(s.Steps)%3 == 0 {
			opts = append(opts, nats.WithLogger(extensions.DummyLogger{}))
		}
		c, err := nats.NewController(srv.URL(), opts...)
		core.Must(err)
		ctls = append(ctls, c)
		ev, _ := srv.Events(0, i+1, func(e natsd.Event) bool { return e.Kind == "connect" })
		if len(ev) != i+1 || ev[i].Name != name {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "connection of a controller", Expected: name, Observed: fmt.Sprintf("%+v", ev)})
			return
		}
	}
	seen := 0
	last := natsAct{}
	want := func(e natsd.Event) bool { return e.Kind != "connect" }
	for n, st := range s.Steps {
		r.Steps++
		a, o := st.A, st.O
		last = a
		bad := func(what string, exp, obs any) {
			sc := s
			sc.Steps = s.Steps[:n+1]
			b, _ := json.Marshal(sc)
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: fmt.Sprintf("step %d: %+v: %s", n, a, what), Expected: exp, Observed: obs})
		}
		mu.Lock()
		pick = a.Pick
		mu.Unlock()
		var err error
		var p []byte
		min := len(o.Srv)
		switch a.Op {
		case "sub":
			var sub extensions.BrokerChannelSubscription
			if sub, err = ctls[a.C-1].Subscribe(ctx, a.Ch); err == nil {
				mu.Lock()
				slots[a.I] = &slot{sub: sub}
				mu.Unlock()
			}
		case "pub":
			min = 0 // already there
			p = payload(s.Contents[a.K].Payload, n)
			h := map[string][]byte{}
			for _, l := range s.Contents[a.K].Lines {
				h[l[0]] = []byte(text(l[1]))
			}
			m := extensions.BrokerMessage{Headers: h, Payload: p}
			if len(h) == 0 && n%2 == 0 {
				m.Headers = nil
			}
			if len(p) == 0 && n%3 == 0 {
				m.Payload = nil
			}
			err = ctls[a.C-1].Publish(ctx, a.Ch, m)
		case "raw":
			p = payload(s.Contents[a.K].Payload, n)
			m := natsd.Msg{Subject: a.Ch, Data: p}
			for _, l := range s.Contents[a.K].Lines {
				m.Headers = append(m.Headers, natsd.Header{Key: l[0], Value: text(l[1])})
			}
			if n%2 == 0 {
				m.Reply = "somewhere"
			}
			srv.Deliver(m)
		case "read":
			sl := slots[a.I]
			exp := "closed"
			if o.Read != "closed" {
				exp = s.Contents[sl.queue[0].kind].shown(sl.queue[0].payload)
				sl.queue = sl.queue[1:]
			}
			var m extensions.AcknowledgeableBrokerMessage
			var ok bool
			select {
			case m, ok = <-sl.sub.MessagesChannel():
			case <-time.After(natsd.Patience):
				bad("reading", exp, "nothing")
				return
			}
			got := "closed"
			if ok {
				got = show(m.Headers, m.Payload)
				if m.IsUninitialized() {
					got += " (taken for the end of the subscription)"
				}
				if n%2 == 0 {
					m.Ack()
				} else {
					m.Nak()
				}
			}
			if got != exp {
				bad("reading", exp, got)
				return
			}
		case "cancel":
			slots[a.I].sub.Cancel(ctx)
			if n%2 == 0 {
				slots[a.I].sub.Cancel(ctx)
			}
		case "close":
			ctls[a.C-1].Close()
		}
		if (err == nil) != o.OK {
			bad("error", o.OK, fmt.Sprint(err))
			return
		}
		evs, next := srv.Events(seen, min, want)
		seen = next
		exp, obs := []natsEv{}, []natsEv{}
		exp = append(exp, o.Srv...)
		for _, e := range evs {
			x := natsEv{Kind: e.Kind, C: e.Conn + 1, Ch: e.Msg.Subject}
			if e.Sub != nil {
				x.Ch, x.Q = e.Sub.Subject, e.Sub.Queue
			}
			if e.Kind == "sub" && slots[a.I] != nil {
				mu.Lock()
				slots[a.I].srv = e.Sub
				mu.Unlock()
			}
			obs = append(obs, x)
			if e.Kind == "pub" {
				h, lines := map[string][]byte{}, s.Contents[a.K]
				for _, l := range e.Msg.Headers {
					h[l.Key] = []byte(l.Value)
				}
				if len(h) != len(e.Msg.Headers) || e.Msg.Reply != "" || show(h, e.Msg.Data) != lines.shown(p) {
					bad("message got by the server", lines.shown(p), fmt.Sprintf("%+v", e.Msg))
					return
				}
			}
		}
		if !reflect.DeepEqual(exp, obs) {
			bad("events of the server", exp, obs)
			return
		}
		for _, i := range o.To {
			slots[i].queue = append(slots[i].queue, told{a.K, p})
		}
		for i, sl := range slots {
			if !wait(func() bool { return len(sl.sub.MessagesChannel()) == len(sl.queue) }) {
				bad(fmt.Sprintf("messages waiting on %d", i), len(sl.queue), len(sl.sub.MessagesChannel()))
				return
			}
		}
	}
	// nothing else happens
	for i, sl := range slots {
		sl.sub.Cancel(ctx)
		for _, q := range sl.queue {
			m, ok := <-sl.sub.MessagesChannel()
			exp, got := s.Contents[q.kind].shown(q.payload), show(m.Headers, m.Payload)
			if !ok || exp != got {
				r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("messages of %d at the end, after %+v", i, last), Expected: exp, Observed: got})
				return
			}
		}
		if m, ok := <-sl.sub.MessagesChannel(); ok {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("messages of %d at the end", i), Expected: "closed", Observed: show(m.Headers, m.Payload)})
			return
		}
	}
	for _, c := range ctls {
		c.Close()
	}
}
