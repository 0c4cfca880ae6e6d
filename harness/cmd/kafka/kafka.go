package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"verifharness/core"
	"verifharness/kafkad"
)

type content struct {
	H [][2]string `json:"h"`
	P string      `json:"p"`
}

type act struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	Ch string `json:"ch"`
	I  int    `json:"i"`
	N  int    `json:"n"`
	K  string `json:"k"`
}

type commit struct {
	G  string `json:"g"`
	Ch string `json:"ch"`
	N  int    `json:"n"`
}

type obs struct {
	Made    []string       `json:"made"`
	Sent    int            `json:"sent"`
	Commits []commit       `json:"commits"`
	Left    []string       `json:"left"`
	Got     [][]int        `json:"got"`
	Read    int            `json:"read"`
	Readers map[string]int `json:"readers"`
	Members map[string]int `json:"members"`
}

type scenario struct {
	Contents map[string]content `json:"contents"`
	Ctls     []struct {
		G    string `json:"g"`
		Auto bool   `json:"auto"`
	} `json:"ctls"`
	Opt   string `json:"opt"`
	Salt  int    `json:"salt"`
	Block int    `json:"block"` // messages that somebody else writes each time
	Steps []struct {
		A act `json:"a"`
		O obs `json:"o"`
	} `json:"steps"`
}

func text(s string) string { return strings.ReplaceAll(s, "~", "é") }

// payload builds a payload that is the only one with this number (if not empty).
func payload(kind string, n int) []byte {
	switch kind {
	case "empty":
		return []byte{}
	case "text":
		return []byte(fmt.Sprintf("text %d", n))
	case "binary":
		b := []byte{}
		for i := 0; i < 256; i++ {
			b = append(b, byte(i))
		}
		return append(b, byte(n))
	case "protocol":
		return []byte(fmt.Sprintf("\x00\x00\x00\x04\x00\x12{\"a\": %d}\n", n))
	case "big":
		return append(bytes.Repeat([]byte("0123456789abcdef"), 8000), fmt.Sprint(n)...)
	}
	panic(core.MissingMethod{Msg: kind})
}

func show(h map[string][]byte, p []byte) string {
	var keys []string
	for k, v := range h {
		keys = append(keys, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(keys)
	s := fmt.Sprintf("%q", p)
	if len(s) > 400 {
		s = s[:200] + "..." + s[len(s)-100:]
	}
	return strings.Join(keys, " ") + " | " + s
}

// built is a message as the user gives it, and how it is shown.
func (c content) built(n int) (extensions.BrokerMessage, string) {
	h := map[string][]byte{}
	for _, x := range c.H {
		h[text(x[0])] = []byte(text(x[1]))
	}
	p := payload(c.P, n)
	return extensions.BrokerMessage{Headers: h, Payload: p}, show(h, p)
}

func record(m extensions.BrokerMessage) (r kafkad.Rec) {
	r.Value = m.Payload
	for k, v := range m.Headers {
		r.Headers = append(r.Headers, kafkad.Header{Key: k, Value: v})
	}
	return r
}

func shown(r kafkad.Rec) string {
	h := map[string][]byte{}
	for _, x := range r.Headers {
		h[x.Key] = x.Value
	}
	if len(h) != len(r.Headers) {
		return fmt.Sprintf("%+v", r.Headers)
	}
	return show(h, r.Value)
}

// wait waits for a condition.
func wait(f func() bool) bool {
	deadline := time.Now().Add(kafkad.Patience)
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

type slot struct {
	ch    string
	sub   extensions.BrokerChannelSubscription
	queue [][]string // blocks of messages
	out   [][]extensions.AcknowledgeableBrokerMessage
}

// waiting is the number of messages that can be in the queue of the broker.
func (s *slot) waiting() (n int) {
	for _, b := range s.queue {
		n += len(b)
	}
	return min(n, brokers.BrokerMessagesQueueSize)
}

// cut keeps what can be in the queue.
func (s *slot) cut() {
	n, q := s.waiting(), s.queue
	s.queue = nil
	for _, b := range q {
		b = b[:min(n, len(b))]
		n -= len(b)
		s.queue = append(s.queue, b)
	}
}

func kafkaMode(line []byte, r *core.Result) {
	var s scenario
	core.Must(json.Unmarshal(line, &s))
	srv := kafkad.New()
	defer srv.Close()
	addr := srv.Listen(false, false)
	ctx := context.Background()
	var kinds []string
	for k := range s.Contents {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	var ctls []*kafka.Controller
	for i, x := range s.Ctls {
		var opts []kafka.ControllerOption
		if x.G != "" || (i+s.Salt)%2 == 1 {
			opts = append(opts, kafka.WithGroupID(x.G))
		}
		if !x.Auto || (i+s.Salt)%3 == 1 {
			opts = append(opts, kafka.WithAutoCommit(x.Auto))
		}
		if s.Salt%2 == 0 {
			opts = append(opts, kafka.WithLogger(extensions.DummyLogger{}))
		}
		if s.Salt%3 == 0 {
			opts = append(opts, kafka.WithConnectionTest(i == 0))
		}
		c, err := kafka.NewController([]string{addr}, opts...)
		core.Must(err)
		ctls = append(ctls, c)
	}
	slots := map[int]*slot{}
	texts := map[string][]string{} // messages of the topics, by block
	place := map[string]int{}      // where blocks begin
	size := map[string]int{}       // of the topics
	add := func(ch string, n int, l ...string) {
		k := fmt.Sprint(ch, n)
		texts[k], place[k] = l, size[ch]
		size[ch] += len(l)
	}
	want := func(e kafkad.Event) bool {
		return e.Kind == "create" && e.Code == 0 || e.Kind == "produce" || e.Kind == "commit" || e.Kind == "leave"
	}
	defer func() {
		for _, sl := range slots {
			sl.sub.Cancel(ctx)
		}
	}()
	seen := 0
	for n, st := range s.Steps {
		r.Steps++
		a, o := st.A, st.O
		bad := func(what string, exp, obs any) {
			sc := s
			sc.Steps = s.Steps[:n+1]
			b, _ := json.Marshal(sc)
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: fmt.Sprintf("step %d: %+v: %s", n, a, what), Expected: exp, Observed: obs})
		}
		var err error
		k := s.Contents[kinds[(n+s.Salt)%len(kinds)]]
		sent, settled := "", 0
		switch a.Op {
		case "sub":
			var sub extensions.BrokerChannelSubscription
			if sub, err = ctls[a.C-1].Subscribe(ctx, a.Ch); err == nil {
				slots[a.I] = &slot{ch: a.Ch, sub: sub}
			}
		case "pub":
			var m extensions.BrokerMessage
			m, sent = k.built(n)
			add(a.Ch, a.N, sent)
			if len(m.Headers) == 0 && n%2 == 0 {
				m.Headers = nil
			}
			if len(m.Payload) == 0 && n%3 == 0 {
				m.Payload = nil
			}
			err = ctls[a.C-1].Publish(ctx, a.Ch, m)
			if after := show(m.Headers, m.Payload); after != sent {
				bad("message of the user", sent, after)
				return
			}
		case "raw":
			var l []string
			var recs []kafkad.Rec
			for j := 0; j < max(1, s.Block); j++ {
				k := s.Contents[kinds[(n+j+s.Salt)%len(kinds)]]
				if k.P == "big" && s.Block > 1 {
					k.P = "text"
				}
				m, t := k.built(n*100 + j)
				l, recs = append(l, t), append(recs, record(m))
			}
			add(a.Ch, a.N, l...)
			srv.Append(a.Ch, 0, recs...)
		case "read":
			sl := slots[a.I]
			exp := []string{"closed"}
			if o.Read > 0 {
				exp = sl.queue[0]
				sl.queue = sl.queue[1:]
			}
			var block []extensions.AcknowledgeableBrokerMessage
			for _, exp := range exp {
				select {
				case m, ok := <-sl.sub.MessagesChannel():
					got := "closed"
					if ok {
						got = show(m.Headers, m.Payload)
						if m.IsUninitialized() {
							got += " (taken for the end of the subscription)"
						}
						block = append(block, m)
					}
					if got != exp {
						bad("reading", exp, got)
						return
					}
				case <-time.After(kafkad.Patience):
					bad("reading", exp, "nothing")
					return
				}
			}
			if o.Read > 0 {
				sl.out = append(sl.out, block)
			}
			if o.Read < 0 {
				delete(slots, a.I)
			}
		case "settle":
			sl := slots[a.I]
			m := sl.out[a.N-1]
			sl.out = append(append([][]extensions.AcknowledgeableBrokerMessage{}, sl.out[:a.N-1]...), sl.out[a.N:]...)
			settled = len(m)
			for _, m := range m {
				for j := 0; j <= n%2; j++ {
					if a.K == "ack" {
						m.Ack()
					} else {
						m.Nak()
					}
				}
			}
		case "cancel":
			slots[a.I].sub.Cancel(ctx)
			slots[a.I].cut()
			if n%2 == 0 {
				slots[a.I].sub.Cancel(ctx)
			}
		}
		if err != nil {
			bad("error", nil, err.Error())
			return
		}
		for i, g := range o.Got {
			for _, x := range g {
				slots[i+1].queue = append(slots[i+1].queue, texts[fmt.Sprint(slots[i+1].ch, x)])
			}
		}
		// what the broker has seen
		exp := []string{}
		for _, t := range o.Made {
			exp = append(exp, "create "+t)
		}
		if o.Sent > 0 {
			exp = append(exp, "produce "+a.Ch+" "+sent)
		}
		for _, x := range o.Commits {
			k := fmt.Sprint(x.Ch, x.N)
			l := len(texts[k])
			if a.Op == "settle" {
				l = settled // a block that was cut by the cancellation
			}
			for j := 0; j < l; j++ {
				exp = append(exp, fmt.Sprintf("commit %s %s %d", x.G, x.Ch, place[k]+j+1))
			}
		}
		for _, g := range o.Left {
			exp = append(exp, "leave "+g)
		}
		sort.Strings(exp)
		srv.Wait(func() bool {
			if len(srv.Locked(seen, want)) < len(exp) {
				return false
			}
			for g, x := range o.Members {
				if !srv.Stable(g, x) {
					return false
				}
			}
			return reflect.DeepEqual(readers(srv), nonzero(o.Readers))
		})
		for i, sl := range slots {
			if !wait(func() bool { return len(sl.sub.MessagesChannel()) == sl.waiting() }) {
				bad(fmt.Sprintf("messages waiting on %d", i), sl.waiting(), len(sl.sub.MessagesChannel()))
				return
			}
		}
		got := []string{}
		next := srv.Count()
		for _, e := range srv.Events(seen, want) {
			switch e.Kind {
			case "create":
				got = append(got, "create "+e.Topic)
			case "produce":
				x := "produce " + e.Topic + " " + shown(e.Rec)
				if e.Code != 0 {
					x += fmt.Sprint(" error ", e.Code)
				}
				got = append(got, x)
			case "commit":
				got = append(got, fmt.Sprintf("commit %s %s %d", e.Group, e.Topic, e.Offset))
			case "leave":
				got = append(got, "leave "+e.Group)
			}
		}
		seen = next
		sort.Strings(got)
		if !reflect.DeepEqual(exp, got) {
			bad("what the broker gets", exp, got)
			return
		}
		var open map[string]int
		// (a connection that is closed may be seen as such after the next one is open)
		if !srv.Wait(func() bool { open = readers(srv); return reflect.DeepEqual(open, nonzero(o.Readers)) }) {
			bad("readers", o.Readers, open)
			return
		}
	}
	// nothing else happens
	for i, sl := range slots {
		sl.sub.Cancel(ctx)
		sl.cut()
		for _, b := range sl.queue {
			for _, exp := range b {
				m, ok := <-sl.sub.MessagesChannel()
				if got := show(m.Headers, m.Payload); !ok || exp != got {
					r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("messages of %d at the end", i), Expected: exp, Observed: got})
					return
				}
			}
		}
		if m, ok := <-sl.sub.MessagesChannel(); ok {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("messages of %d at the end", i), Expected: "closed", Observed: show(m.Headers, m.Payload)})
			return
		}
	}
	if !closed(srv) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "at the end", Expected: "no connection", Observed: "some"})
	}
}

func readers(srv *kafkad.Server) map[string]int {
	res := map[string]int{}
	for k, n := range srv.Readers() {
		res[strings.TrimSuffix(k, "/0")] = n
	}
	return res
}

func nonzero(m map[string]int) map[string]int {
	res := map[string]int{}
	for k, n := range m {
		if n > 0 {
			res[k] = n
		}
	}
	return res
}
