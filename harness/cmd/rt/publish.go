package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Scenarios of Publish.tla ---------------------------------------------------

type pubEv struct {
	Ev   string `json:"ev"`
	Corr string `json:"corr"`
	Ctx  string `json:"ctx"`
}

type pubSc struct {
	Ver   int `json:"ver"`
	Shape struct {
		I     int      `json:"i"`
		Place string   `json:"place"`
		Path  []string `json:"path"`
		Msg   string   `json:"msg"`
	} `json:"shape"`
	Calls []struct {
		Call struct {
			Op   string `json:"op"`
			Corr string `json:"corr"`
			Fail bool   `json:"fail"`
		} `json:"call"`
		Obs []pubEv `json:"obs"`
	} `json:"calls"`
}

// correlated is implemented by pointers on generated messages.
type correlated interface {
	CorrelationID() string
	SetCorrelationID(id string)
}

type pubRun struct {
	s     *pubSc
	side  string
	mu    sync.Mutex
	evs   []pubEv
	fresh map[string]string
	seq   int
	fail  bool
	chans []string // expected address
	burst bool
}

func (p *pubRun) corrOf(m extensions.BrokerMessage) string {
	switch p.s.Shape.Place {
	case "none":
		return ""
	case "header":
		return string(m.Headers[p.s.Shape.Path[0]])
	}
	var v any
	if err := json.Unmarshal(m.Payload, &v); err != nil {
		return "? undecodable"
	}
	for _, k := range p.s.Shape.Path {
		o, _ := v.(map[string]any)
		v = o[k]
	}
	if v == nil {
		return ""
	}
	s, ok := v.(string)
	if !ok {
		return "? not a string"
	}
	return s
}

func (p *pubRun) symbol(id string) string {
	if id == "" || strings.HasPrefix(id, "? ") {
		return id
	}
	for _, u := range []string{"u1", "u2"} {
		if id == userID(u) {
			return u
		}
	}
	if _, ok := p.fresh[id]; !ok {
		p.fresh[id] = fmt.Sprintf("f%d", len(p.fresh)+1)
	}
	return p.fresh[id]
}

func userID(u string) string { return "id \"of\" the user/é " + u }

// record adds an event, checking everything else than correlation IDs.
func (p *pubRun) record(ev string, ctx context.Context, addr string, m extensions.BrokerMessage) {
	p.mu.Lock()
	defer p.mu.Unlock()
	i := core.GetCtx(ctx)
	e := pubEv{Ev: ev, Corr: p.symbol(p.corrOf(m))}
	if i.CorrelationID != "-" {
		e.Ctx = p.symbol(i.CorrelationID)
	}
	bad := func(f string, a ...any) { e.Ev += " " + fmt.Sprintf(f, a...) }
	if i.Direction != "publication" {
		bad("direction %s", i.Direction)
	}
	if i.Provider != strings.ToLower(p.side) {
		bad("provider %s", i.Provider)
	}
	if want := fmt.Sprintf("%d.0.1", p.s.Ver); i.Version != want {
		bad("version %s", i.Version)
	}
	if i.Channel != p.chans[0] || addr != "" && addr != p.chans[0] {
		bad("channel %s %s instead of %s", i.Channel, addr, p.chans[0])
	}
	if ctx.Value(walkCtxKey{}) != "publish" {
		bad("values of the caller lost")
	}
	for k, v := range m.Headers {
		if !strings.Contains(i.Message, fmt.Sprintf("%q:%q", k, v)) {
			bad("message of the context %s", i.Message)
		}
	}
	if !strings.Contains(i.Message, string(m.Payload)) {
		bad("message of the context %s", i.Message)
	}
	// content
	var c struct {
		Text   string
		Number int
	}
	if err := json.Unmarshal(m.Payload, &c); err != nil {
		bad("payload %s", m.Payload)
	}
	if !p.burst && (c.Text != fmt.Sprintf("text %d", p.seq) || c.Number != p.seq || string(m.Headers["note"]) != fmt.Sprintf("note %d", p.seq)) {
		bad("content %s", core.Show(m))
	}
	n := 1
	if p.s.Shape.Place == "header" {
		n = 2
	}
	if len(m.Headers) != n {
		bad("headers %s", core.Show(m))
	}
	p.evs = append(p.evs, e)
}

func (p *pubRun) msg(pkg *core.Pkg, corr string) any {
	v := pkg.NewMsg(p.s.Shape.Msg)
	if corr != "new" {
		// without what the constructor does
		v = reflect.New(v.Type().Elem())
	}
	p.fill(v.Interface())
	if corr != "" && corr != "new" {
		v.Interface().(correlated).SetCorrelationID(userID(corr))
	}
	return v.Interface()
}

func (p *pubRun) fill(v any) {
	core.SetStr(v, "Payload.Text", fmt.Sprintf("text %d", p.seq))
	core.Field(reflect.ValueOf(v), "Payload.Number", true).SetInt(int64(p.seq))
	core.SetStr(v, "Headers.Note", fmt.Sprintf("note %d", p.seq))
}

func publishMode(line []byte, r *core.Result) {
	var s pubSc
	core.Must(json.Unmarshal(line, &s))
	for _, side := range []string{"App", "User"} {
		got := runPublish(&s, side)
		for i, c := range s.Calls {
			r.Steps++
			if !core.Same(c.Obs, got[i]) {
				r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("v%d %s call %d %+v", s.Ver, side, i+1, c.Call),
					Expected: c.Obs, Observed: got[i]})
				return
			}
		}
	}
}

func runPublish(s *pubSc, side string) (out [][]pubEv) {
	pkg := core.Packages[fmt.Sprintf("corr%d", s.Ver)]
	p := &pubRun{s: s, side: side, fresh: map[string]string{}}
	br := &core.Broker{OnPublish: func(ctx context.Context, ch string, m extensions.BrokerMessage) error {
		p.record("publish", ctx, ch, m)
		if p.fail {
			return core.ErrPublish
		}
		return nil
	}}
	c, err := pkg.NewSide(side, br, core.Opts{Middlewares: []extensions.Middleware{
		func(ctx context.Context, m *extensions.BrokerMessage, _ extensions.NextMiddleware) error {
			if !p.burst {
				p.record("middleware", ctx, "", *m)
			}
			return nil
		}}})
	core.Must(err)
	// operations, for the sending side
	i := s.Shape.I
	var send, sendReply, reply, addr, raddr string
	switch {
	case s.Ver == 3 && side == "App":
		// the app sends the messages of send operations, and replies to those of receive operations
		send, addr = fmt.Sprintf("SendAsSop%dOperation", i), fmt.Sprintf("s.%d", i)
		sendReply, reply, raddr = fmt.Sprintf("SendAsReplyToProp%dOperation", i), fmt.Sprintf("ReplyToProp%dOperation", i), fmt.Sprintf("pr.%d", i)
	case s.Ver == 3:
		send, addr = fmt.Sprintf("SendToPop%dOperation", i), fmt.Sprintf("p.%d", i)
		sendReply, reply, raddr = fmt.Sprintf("SendToReplyToSrop%dOperation", i), fmt.Sprintf("ReplyToSrop%dOperation", i), fmt.Sprintf("sr.%d", i)
	case side == "App":
		send, addr = fmt.Sprintf("PublishS%d", i), fmt.Sprintf("s.%d", i)
	default:
		send, addr = fmt.Sprintf("PublishP%d", i), fmt.Sprintf("p.%d", i)
	}
	ctx := context.WithValue(context.Background(), walkCtxKey{}, "publish")
	for _, call := range s.Calls {
		a := call.Call
		p.seq++
		p.fail, p.burst = a.Fail, a.Op == "burst"
		p.evs = nil
		p.chans = []string{addr}
		var err error
		switch a.Op {
		case "send":
			err = c.Err(send, ctx, nil, "", p.msg(pkg, a.Corr), nil, nil)
		case "send reply":
			if s.Ver == 2 {
				err = c.Err(send, ctx, nil, "", p.msg(pkg, a.Corr), nil, nil)
				break
			}
			p.chans = []string{raddr}
			err = c.Err(sendReply, ctx, nil, "", p.msg(pkg, a.Corr), nil, nil)
		case "reply":
			req := p.msg(pkg, a.Corr)
			if s.Ver == 2 {
				m := p.msg(pkg, "")
				reflect.ValueOf(m).MethodByName("SetAsResponseFrom").Call([]reflect.Value{reflect.ValueOf(req)})
				err = c.Err(send, ctx, nil, "", m, nil, nil)
				break
			}
			p.chans = []string{raddr}
			err = c.Err(reply, ctx, nil, "", req, func(_ context.Context, m any) error {
				p.fill(m)
				return nil
			}, nil)
		case "burst":
			n := len(call.Obs) - 1
			errs := make(chan error, n)
			for j := 0; j < n; j++ {
				m := p.msg(pkg, a.Corr)
				go func() { errs <- c.Err(send, ctx, nil, "", m, nil, nil) }()
			}
			for j := 0; j < n; j++ {
				if e := <-errs; e != nil {
					err = e
				}
			}
		}
		out = append(out, append(append([]pubEv{}, p.evs...), pubEv{Ev: "return " + resOfCall(err)}))
	}
	return out
}
