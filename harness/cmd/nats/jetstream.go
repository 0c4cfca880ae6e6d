package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"verifharness/core"
	"verifharness/natsd"

	natsgo "github.com/nats-io/nats.go"
)

type jsAct struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	Ch string `json:"ch"`
	M  int    `json:"m"`
	K  string `json:"k"`
}

type jsAck struct {
	M int    `json:"m"`
	K string `json:"k"`
}

type jsObs struct {
	Got []struct {
		M  int   `json:"m"`
		To []int `json:"to"`
	} `json:"got"`
	Acks []jsAck  `json:"acks"`
	Srv  []string `json:"srv"`
}

type jsSc struct {
	Contents map[string]content  `json:"contents"`
	Kinds    map[string][]string `json:"kinds"`
	Steps    []struct {
		A jsAct `json:"a"`
		O jsObs `json:"o"`
	} `json:"steps"`
}

type jsGot struct {
	slot int
	msg  *extensions.AcknowledgeableBrokerMessage
}

type jsMsg struct {
	kind    string
	payload []byte
	subject string
	seq     int
	handle  *extensions.AcknowledgeableBrokerMessage
}

func jsMode(line []byte, r *core.Result) {
	var s jsSc
	core.Must(json.Unmarshal(line, &s))
	srv := natsd.New()
	defer srv.Close()
	js := natsd.NewJetStream(srv, "S", "C")
	js.Exists["C"] = true
	ctx := context.Background()
	delay := 5 * time.Second
	opts := []natsjetstream.ControllerOption{natsjetstream.WithStream("S"), natsjetstream.WithConsumer("C")}
	if len(s.Steps)%3 != 0 {
		delay = time.Duration(len(s.Steps)) * 7 * time.Millisecond
		opts = append(opts, natsjetstream.WithNakDelay(delay))
	}
	var conn *natsgo.Conn
	if len(s.Steps)%2 == 0 {
		var err error
		conn, err = natsgo.Connect(srv.URL())
		core.Must(err)
		defer conn.Close()
		opts = append(opts, natsjetstream.WithConnection(conn))
	}
	ctl, err := natsjetstream.NewController(srv.URL(), opts...)
	core.Must(err)
	msgs := map[int]*jsMsg{}
	subs := map[int]extensions.BrokerChannelSubscription{}
	overs := map[int]chan struct{}{}
	var mu sync.Mutex
	var got []jsGot
	inboxes := map[string]bool{}
	seen := 0
	want := func(e natsd.Event) bool {
		switch e.Kind {
		case "pub":
			if strings.HasPrefix(e.Msg.Subject, "$JS.API.CONSUMER.MSG.NEXT") {
				return !inboxes[e.Msg.Reply]
			}
			return !strings.HasPrefix(e.Msg.Subject, "$JS.API")
		case "unsub":
			return inboxes[e.Sub.Subject]
		}
		return false
	}
	for n, st := range s.Steps {
		r.Steps++
		a, o := st.A, st.O
		bad := func(what string, exp, obs any) {
			sc := s
			sc.Steps = s.Steps[:n+1]
			b, _ := json.Marshal(sc)
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: fmt.Sprintf("step %d: %+v: %s", n, a, what), Expected: exp, Observed: obs})
		}
		exp := append([]string{}, o.Srv...)
		min := len(o.Acks) + len(o.Srv)
		for _, x := range o.Acks {
			exp = append(exp, fmt.Sprintf("%s %d", x.K, x.M))
		}
		switch a.Op {
		case "sub":
			sub, err := ctl.Subscribe(ctx, a.Ch)
			if err != nil {
				bad("error", nil, err.Error())
				return
			}
			subs[a.I], overs[a.I] = sub, make(chan struct{})
			slot, over := a.I, overs[a.I]
			go func() {
				defer close(over)
				for m := range sub.MessagesChannel() {
					m := m
					mu.Lock()
					got = append(got, jsGot{slot, &m})
					mu.Unlock()
				}
			}()
		case "subfail":
			js.Exist("C", false)
			_, err := ctl.Subscribe(ctx, a.Ch)
			js.Exist("C", true)
			if err == nil {
				bad("error", "an error", nil)
				return
			}
		case "cancel":
			subs[a.I].Cancel(ctx)
			select {
			case <-overs[a.I]:
			case <-time.After(natsd.Patience):
				bad("messages channel", "closed", "open")
				return
			}
			delete(subs, a.I)
		case "pub":
			kinds := s.Kinds[a.K]
			kind := kinds[n%len(kinds)]
			m := &jsMsg{kind: kind, payload: payload(s.Contents[kind].Payload, n), subject: a.Ch}
			msgs[a.M] = m
			if a.K == "controller" {
				h := map[string][]byte{}
				for _, l := range s.Contents[kind].Lines {
					h[l[0]] = []byte(text(l[1]))
				}
				exp = append(exp, "pub "+a.Ch+" "+s.Contents[kind].shown(m.payload))
				min++
				if err := ctl.Publish(ctx, a.Ch, extensions.BrokerMessage{Headers: h, Payload: m.payload}); err != nil {
					bad("error", nil, err.Error())
					return
				}
			} else {
				nm := natsd.Msg{Subject: a.Ch, Data: m.payload}
				for _, l := range s.Contents[kind].Lines {
					nm.Headers = append(nm.Headers, natsd.Header{Key: l[0], Value: text(l[1])})
				}
				js.Store(nm)
			}
			m.seq = js.Last()
		case "settle":
			h := msgs[a.M].handle
			if a.K == "ack" {
				h.Ack()
			} else {
				h.Nak()
			}
			h.Ack()
			h.Nak()
		case "again":
			js.Again(msgs[a.M].seq)
		}
		if len(o.Srv) > 0 && o.Srv[0] == "stop" {
			min = len(exp)
		}
		evs, next := srv.Events(seen, min, want)
		seen = next
		obs := []string{}
		for _, e := range evs {
			switch {
			case e.Kind == "unsub":
				obs = append(obs, "stop")
			case strings.HasPrefix(e.Msg.Subject, "$JS.API"):
				inboxes[e.Msg.Reply] = true
				obs = append(obs, "start")
			case strings.HasPrefix(e.Msg.Subject, "$JS.ACK"):
				m, seq := 0, natsd.Sequence(e.Msg)
				for k, x := range msgs {
					if x.seq == seq {
						m = k
					}
				}
				k := string(e.Msg.Data)
				switch k {
				case "+ACK":
					k = "ack"
				case fmt.Sprintf("-NAK {\"delay\": %d}", delay.Nanoseconds()):
					k = "nak"
				}
				obs = append(obs, fmt.Sprintf("%s %d", k, m))
			default:
				h := map[string][]byte{}
				for _, l := range e.Msg.Headers {
					h[l.Key] = []byte(l.Value)
				}
				obs = append(obs, "pub "+e.Msg.Subject+" "+show(h, e.Msg.Data))
			}
		}
		sort.Strings(exp)
		sort.Strings(obs)
		if !reflect.DeepEqual(exp, obs) {
			bad("events of the server", exp, obs)
			return
		}
		wait(func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= len(o.Got) })
		mu.Lock()
		g := got
		got = nil
		mu.Unlock()
		if len(g) != len(o.Got) {
			bad("count of messages", len(o.Got), len(g))
			return
		}
		// each message is given to one of the subscriptions that match, in order for each of them
		used := make([]bool, len(g))
		for _, e := range o.Got {
			m := msgs[e.M]
			ok := false
			exp := s.Contents[m.kind].shown(m.payload)
			var seenBy []string
			for i, x := range g {
				if used[i] {
					continue
				}
				shown := show(x.msg.Headers, x.msg.Payload)
				seenBy = append(seenBy, fmt.Sprintf("%d: %s", x.slot, shown))
				for _, to := range e.To {
					ok = ok || (x.slot == to && shown == exp)
				}
				if ok {
					used[i] = true
					m.handle = x.msg
					break
				}
				if len(e.To) == 1 && x.slot == e.To[0] {
					break // out of order
				}
			}
			if !ok {
				bad(fmt.Sprintf("message %d for %v", e.M, e.To), exp, seenBy)
				return
			}
			if m.handle.IsUninitialized() {
				bad(fmt.Sprintf("message %d", e.M), "a message", "taken for the end of the subscription")
				return
			}
		}
	}
	for _, sub := range subs {
		sub.Cancel(ctx)
	}
	ctl.Close()
	if conn != nil && conn.IsClosed() {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "end", Expected: "the connection of the user is kept", Observed: "closed"})
	}
	if conn == nil {
		if ev, _ := srv.Events(0, 1, func(e natsd.Event) bool { return e.Kind == "end" }); len(ev) != 1 {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "end", Expected: "the connection is closed", Observed: len(ev)})
		}
	}
}

func matchMode(line []byte, r *core.Result) {
	var s struct {
		Pattern string   `json:"pattern"`
		Yes     []string `json:"yes"`
		No      []string `json:"no"`
	}
	core.Must(json.Unmarshal(line, &s))
	for want, l := range map[bool][]string{true: s.Yes, false: s.No} {
		for _, subj := range l {
			r.Steps++
			if got := natsjetstream.MatchSubjectSubscription(s.Pattern, subj); got != want {
				r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("%s matches %s", s.Pattern, subj), Expected: want, Observed: got})
				return
			}
		}
	}
}
