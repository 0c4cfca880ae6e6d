package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Both sides connected (Api.tla) ---------------------------------------------------

type apiSide struct {
	Methods  []string `json:"methods"`
	Handlers []string `json:"handlers"`
}

type apiAct struct {
	Op   string `json:"op"`
	Side string `json:"side"`
	M    string `json:"m"`
	X    string `json:"x"`
	Par  bool   `json:"par"`
	Msg  string `json:"msg"`
	Rep  string `json:"rep"`
}

type apiPub struct {
	Addr string `json:"addr"`
	Msg  string `json:"msg"`
}

type apiGot struct {
	Side string `json:"side"`
	X    string `json:"x"`
	Same bool   `json:"same"`
}

type apiObs struct {
	Pub []apiPub `json:"pub"`
	Got []apiGot `json:"got"`
	Err string   `json:"err"`
}

type apiSc struct {
	// package of each side
	Pkgs  map[string]string  `json:"pkgs"`
	API   map[string]apiSide `json:"api"`
	Addrs []string           `json:"addrs"`
	Walks [][]struct {
		A apiAct `json:"a"`
		O apiObs `json:"o"`
	} `json:"walks"`
}

// checkAPI compares the generated API with the expected one.
func checkAPI(s *apiSc) (where string, exp, obs any) {
	for side, api := range s.API {
		pkg := core.Packages[s.Pkgs[side]]
		ctrl, ok := pkg.Types[side+"Controller"]
		if !ok {
			return side + "Controller", "present", "absent"
		}
		ms := []string{}
		for i := 0; i < reflect.PointerTo(ctrl).NumMethod(); i++ {
			ms = append(ms, reflect.PointerTo(ctrl).Method(i).Name)
		}
		sort.Strings(api.Methods)
		if !reflect.DeepEqual(ms, api.Methods) {
			return "methods of " + side + "Controller", api.Methods, ms
		}
		hs := []string{}
		if it, ok := pkg.Types[side+"Subscriber"]; ok {
			for i := 0; i < it.NumMethod(); i++ {
				hs = append(hs, it.Method(i).Name)
			}
		}
		sort.Strings(api.Handlers)
		if !reflect.DeepEqual(hs, api.Handlers) && len(hs)+len(api.Handlers) > 0 {
			return "methods of " + side + "Subscriber", api.Handlers, hs
		}
		// the other side is not generated if it has not been asked for
		if _, ok := pkg.Types[other(side)+"Controller"]; ok != (s.Pkgs[side] == s.Pkgs[other(side)]) {
			return "generation of " + other(side) + "Controller with " + side + "Controller", !ok, ok
		}
		paths, _ := pkg.Values["ChannelsPaths"].([]string)
		sort.Strings(paths)
		sort.Strings(s.Addrs)
		if !reflect.DeepEqual(paths, s.Addrs) && len(paths)+len(s.Addrs) > 0 {
			return "ChannelsPaths", s.Addrs, paths
		}
	}
	return "", nil, nil
}

// loop connects both sides.
type loop struct {
	br      *core.Broker
	sides   map[string]*core.Side
	mu      sync.Mutex
	obs     apiObs
	val     string
	settled chan bool
	sent    int // number of messages to settle
	ignored int // number of subscriptions that are known
	reply   func(ctx context.Context, side, x string, msg any)
}

// content gives the name of the message with this payload.
func (l *loop) content(b []byte) string {
	m := map[string]string{}
	if err := json.Unmarshal(b, &m); err != nil || len(m) != 1 {
		return string(b)
	}
	for k, v := range m {
		if v != l.val {
			return string(b)
		}
		return strings.ToUpper(k)
	}
	return ""
}

func (l *loop) publish(_ context.Context, addr string, m extensions.BrokerMessage) error {
	l.mu.Lock()
	l.obs.Pub = append(l.obs.Pub, apiPub{addr, l.content(m.Payload)})
	l.mu.Unlock()
	for i, s := range l.br.All() {
		if s.Channel != addr || s.IsCanceled() {
			continue
		}
		ack := core.Ack{}
		if i < l.ignored {
			// every message is settled by the handlers
			l.mu.Lock()
			l.sent++
			l.mu.Unlock()
			ack = core.Ack{OnAck: func() { l.settled <- true }, OnNak: func() { l.settled <- false }}
		}
		s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(core.CloneMsg(m), ack))
	}
	return nil
}

// handler records the messages received by an operation.
func (l *loop) handler(side, x string) func(ctx context.Context, msg any) error {
	return func(ctx context.Context, msg any) error {
		b, err := json.Marshal(reflect.ValueOf(msg).FieldByName("Payload").Interface())
		core.Must(err)
		l.mu.Lock()
		g := apiGot{Side: side, X: x, Same: string(b) != "{}"}
		if g.Same && len(l.content(b)) != 1 {
			g.X += " with " + string(b)
		}
		l.obs.Got = append(l.obs.Got, g)
		reply := l.reply
		l.mu.Unlock()
		if reply != nil {
			reply(ctx, side, x, msg)
		}
		return nil
	}
}

// message builds the message that a method has in parameter.
func (l *loop) message(s *core.Side, method, msg string) any {
	m := s.Ctrl.MethodByName(method)
	if !m.IsValid() {
		panic(core.MissingMethod{Msg: s.Name + " " + method})
	}
	for i := 0; i < m.Type().NumIn(); i++ {
		t := m.Type().In(i)
		if t.Kind() == reflect.Struct && !strings.HasSuffix(t.Name(), "Parameters") {
			v := reflect.New(t)
			core.SetStr(v.Interface(), "Payload."+msg, l.val)
			return v.Interface()
		}
	}
	panic(core.MissingMethod{Msg: method + " has no message"})
}

func (l *loop) step(a apiAct) (out string) {
	s := l.sides[a.Side]
	ctx := context.Background()
	var p core.Params
	if a.Par {
		p = core.Params{"Id": "v"}
	}
	var err error
	switch a.Op {
	case "sub":
		err = s.Err(a.M, ctx, p, "", nil, l.handler(a.Side, a.X), nil)
	case "unsub":
		err = s.Err(a.M, ctx, p, "", nil, nil, nil)
	case "suball":
		err = s.SubscribeAll(a.M, ctx, func(m string, ctx context.Context, msg any) error {
			return l.handler(a.Side, strings.TrimSuffix(m, "Received"))(ctx, msg)
		})
	case "unsuball":
		err = s.Err(a.M, ctx, nil, "", nil, nil, nil)
	case "send", "reply":
		msg := a.Msg
		if a.Op == "reply" {
			msg = a.Rep
		}
		m := l.message(s, a.M, msg)
		if a.Op == "reply" && a.Rep == "K" {
			core.SetStr(m, "Headers.Corr", "given")
		}
		err = s.Err(a.M, ctx, p, "", m, nil, nil)
	case "request":
		done := false
		l.reply = func(ctx context.Context, side, x string, msg any) {
			if done || side == a.Side || x != a.X {
				return
			}
			done = true
			o := l.sides[side]
			rerr := o.Err("ReplyTo"+x, ctx, nil, "", msg, func(_ context.Context, rep any) error {
				core.SetStr(rep, "Payload."+a.Rep, l.val)
				if a.Rep == "K" && core.GetStr(rep, "Headers.Corr") == "" {
					core.SetStr(rep, "Headers.Corr", "given")
				}
				return nil
			}, nil)
			if rerr != nil {
				panic(rerr)
			}
		}
		r := s.Call(a.M, ctx, p, "", l.message(s, a.M, a.Msg), nil, nil)
		l.mu.Lock()
		l.reply = nil
		l.mu.Unlock()
		if err, _ = r[1].Interface().(error); err == nil {
			b, _ := json.Marshal(r[0].FieldByName("Payload").Interface())
			if c := l.content(b); c != a.Rep {
				return "reply " + c
			}
		}
	}
	if err != nil {
		return err.Error()
	}
	return ""
}

func apiMode(line []byte, r *core.Result) {
	var s apiSc
	core.Must(json.Unmarshal(line, &s))
	if where, exp, obs := checkAPI(&s); where != "" {
		s.Walks = nil
		b, _ := json.Marshal(s)
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: where, Expected: exp, Observed: obs})
		return
	}
	for n, w := range s.Walks {
		bad := func(i int, exp, obs any) {
			sc := s
			sc.Walks = append(s.Walks[:0:0], w[:i+1])
			b, _ := json.Marshal(sc)
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: fmt.Sprintf("step %d: %+v", i, w[i].A), Expected: exp, Observed: obs})
		}
		l := &loop{br: &core.Broker{}, sides: map[string]*core.Side{}, settled: make(chan bool, 64)}
		l.br.OnPublish = l.publish
		for side, pkg := range s.Pkgs {
			var err error
			l.sides[side], err = core.Packages[pkg].NewSide(side, l.br, core.Opts{})
			core.Must(err)
		}
		for i, st := range w {
			r.Steps++
			l.mu.Lock()
			l.obs, l.sent = apiObs{}, 0
			l.mu.Unlock()
			l.val = fmt.Sprintf("value %d.%d", n, i)
			l.ignored = len(l.br.All())
			errText := l.step(st.A)
			if (errText != "") != (st.O.Err != "") {
				bad(i, st.O.Err, errText)
				return
			}
			l.mu.Lock()
			sent := l.sent
			l.mu.Unlock()
			for j := 0; j < sent; j++ {
				if !<-l.settled {
					bad(i, "messages acked", "a message has been nacked")
					return
				}
			}
			l.mu.Lock()
			obs := l.obs
			l.mu.Unlock()
			if !sameSet(obs.Pub, st.O.Pub) || !sameSet(obs.Got, st.O.Got) {
				bad(i, st.O, obs)
				return
			}
		}
		for _, side := range l.sides {
			core.Must(side.Err("Close", context.Background(), nil, "", nil, nil, nil))
		}
		for _, sub := range l.br.All() {
			if !sub.IsCanceled() {
				bad(len(w)-1, "no subscription left by Close", sub.Channel)
				return
			}
		}
	}
}

func sameSet[T any](a, b []T) bool {
	f := func(x []T) []string {
		out := []string{}
		for _, e := range x {
			out = append(out, fmt.Sprintf("%+v", e))
		}
		sort.Strings(out)
		return out
	}
	return reflect.DeepEqual(f(a), f(b))
}
