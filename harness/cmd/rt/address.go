package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"unicode"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Scenarios of Address.tla ----------------------------------------------------

var errEnd = errors.New("end of the request")

type addrSc struct {
	Ver   int               `json:"ver"`
	Tpl   string            `json:"tpl"`
	A     map[string]string `json:"A"`
	B     map[string]string `json:"B"`
	Steps []struct {
		Op   string   `json:"op"`
		W    string   `json:"w"`
		Addr string   `json:"addr"`
		O    []string `json:"o"`
	} `json:"steps"`
	I       int    `json:"i"`
	Recv    string `json:"recv"`
	Request bool   `json:"request"`
}

type evLog struct {
	mu  sync.Mutex
	evs []string
	on  bool
}

func (l *evLog) add(f string, a ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.on {
		l.evs = append(l.evs, fmt.Sprintf(f, a...))
	}
}

func (l *evLog) start() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.evs, l.on = []string{}, true
}

func (l *evLog) get() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.on = false
	return append([]string{}, l.evs...)
}

func addressMode(line []byte, r *core.Result) {
	var s addrSc
	core.Must(json.Unmarshal(line, &s))
	pkg := core.Packages[fmt.Sprintf("addr%d", s.Ver)]
	var log evLog
	ending := false
	br := &core.Broker{
		OnSubscribe: func(ctx context.Context, ch string) error {
			log.add("broker subscribe %s", ch)
			if c := core.GetCtx(ctx).Channel; c != ch {
				log.add("channel of the context %s", c)
			}
			return nil
		},
		OnPublish: func(ctx context.Context, ch string, _ extensions.BrokerMessage) error {
			log.add("broker publish %s", ch)
			if c := core.GetCtx(ctx).Channel; c != ch && !ending {
				log.add("channel of the context %s", c)
			}
			if ending {
				return errEnd
			}
			return nil
		},
		OnCancel: func(sub *core.Sub) { log.add("broker cancel %s", sub.Channel) },
	}
	recv, send := "App", "User"
	if s.Recv == "User" {
		recv, send = send, recv
	}
	rc, err := pkg.NewSide(recv, br, core.Opts{})
	core.Must(err)
	sc, err := pkg.NewSide(send, br, core.Opts{})
	core.Must(err)
	sub, unsub, pub, req := fmt.Sprintf("SubscribeToOp%dOperation", s.I), fmt.Sprintf("UnsubscribeFromOp%dOperation", s.I),
		fmt.Sprintf("SendToOp%dOperation", s.I), fmt.Sprintf("RequestToOp%dOperation", s.I)
	if send == "App" {
		pub, req = fmt.Sprintf("SendAsOp%dOperation", s.I), fmt.Sprintf("RequestAsOp%dOperation", s.I)
	}
	reqSide := sc
	if s.Ver == 2 {
		sub, unsub, pub, req = fmt.Sprintf("SubscribeOp%d", s.I), fmt.Sprintf("UnsubscribeOp%d", s.I), fmt.Sprintf("PublishOp%d", s.I), fmt.Sprintf("WaitForOp%d", s.I)
		reqSide = rc
	}
	ctx := context.Background()
	for i, st := range s.Steps {
		vals := s.A
		if st.W == "B" {
			vals = s.B
		}
		p := core.Params{}
		for k, v := range vals {
			p[map[string]string{"a": "A", "b-c": "BC"}[k]] = v
		}
		log.start()
		switch st.Op {
		case "subscribe":
			err := rc.Err(sub, ctx, p, "", nil, func(ctx context.Context, _ any) error {
				log.add("handler %s", core.GetCtx(ctx).Channel)
				return nil
			}, nil)
			switch {
			case err == nil:
				log.add("ok")
			case errors.Is(err, extensions.ErrAlreadySubscribedChannel):
				log.add("already subscribed")
			default:
				log.add("error %v", err)
			}
		case "unsubscribe":
			rc.Call(unsub, ctx, p, "", nil, nil, nil)
		case "send":
			if err := sc.Err(pub, ctx, p, "", pkg.NewMsg("NoteMessage").Interface(), nil, nil); err != nil {
				log.add("error %v", err)
			} else {
				log.add("ok")
			}
		case "deliver":
			if b := br.Last(st.Addr); b != nil && !b.IsCanceled() {
				b.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(core.Msg(`{"text":"x"}`), core.Ack{}))
			}
		case "request":
			if !s.Request {
				continue
			}
			ending = true
			m := pkg.NewMsg("NoteMessage").Interface()
			err := reqSide.Err(req, ctx, p, "", m, nil, func(context.Context) error { return errEnd })
			ending = false
			if !errors.Is(err, errEnd) {
				log.add("request returned %v", err)
			}
		}
		core.Quiesce()
		got := log.get()
		if st.Op == "request" {
			// of everything that the request does, only what concerns the channel
			got = forChannel(got, st.O[0])
		}
		r.Steps++
		if !core.Same(got, st.O) {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("v%d channel %q step %d: %s %s %v", s.Ver, s.Tpl, i+1, st.Op, st.W, vals),
				Expected: st.O, Observed: got})
			break
		}
	}
	rc.Call("Close", ctx, nil, "", nil, nil, nil)
	core.Quiesce()
}

// forChannel gives the events of the same kind as the expected one, or errors.
func forChannel(evs []string, want string) (out []string) {
	kind := want[:len("broker publish ")]
	if want[:16] == "broker subscribe" {
		kind = "broker subscribe "
	}
	for _, e := range evs {
		if len(e) >= len(kind) && e[:len(kind)] == kind || e[:7] != "broker " {
			out = append(out, e)
		}
	}
	return out
}

// --- Scenarios of ReplyAddress.tla -----------------------------------------------

type replySc struct {
	Shape struct {
		I     int      `json:"i"`
		Place string   `json:"place"`
		Path  []string `json:"path"`
		Msg   string   `json:"msg"`
	} `json:"shape"`
	Action string `json:"action"`
	Call   struct {
		Op    string `json:"op"`
		Alloc int    `json:"alloc"`
	} `json:"call"`
	Addr string   `json:"addr"`
	O    []string `json:"o"`
}

// goName is the name of the field of a property, for the few names used by documents.
func goName(s string) string {
	var out []rune
	up := true
	for _, c := range s {
		switch {
		case !unicode.IsLetter(c) && !unicode.IsDigit(c):
			up = true
		case up:
			out = append(out, unicode.ToUpper(c))
			up = false
		default:
			out = append(out, c)
		}
	}
	return string(out)
}

func replyAddressMode(line []byte, r *core.Result) {
	var s replySc
	core.Must(json.Unmarshal(line, &s))
	pkg := core.Packages["replyaddr"]
	var log evLog
	reqAddr := fmt.Sprintf("p.%d", s.Shape.I)
	side, op := "User", fmt.Sprintf("Pop%dOperation", s.Shape.I)
	if s.Action == "send" {
		side, op, reqAddr = "App", fmt.Sprintf("Sop%dOperation", s.Shape.I), fmt.Sprintf("s.%d", s.Shape.I)
	}
	name := "RequestTo" + op
	if side == "App" {
		name = "RequestAs" + op
	}
	if s.Call.Op == "reply" {
		name = "ReplyTo" + op
		side = map[string]string{"User": "App", "App": "User"}[side]
	}
	br := &core.Broker{
		OnSubscribe: func(ctx context.Context, ch string) error {
			log.add("broker subscribe %s", ch)
			if c := core.GetCtx(ctx).Channel; c != ch {
				log.add("channel of the context %s", c)
			}
			return nil
		},
		OnPublish: func(ctx context.Context, ch string, _ extensions.BrokerMessage) error {
			if ch == reqAddr {
				log.add("broker publish request")
				return core.ErrPublish // ends the request
			}
			log.add("broker publish %s", ch)
			if c := core.GetCtx(ctx).Channel; c != ch {
				log.add("channel of the context %s", c)
			}
			return nil
		},
		OnCancel: func(sub *core.Sub) { log.add("broker cancel %s", sub.Channel) },
	}
	c, err := pkg.NewSide(side, br, core.Opts{})
	core.Must(err)
	m := pkg.NewMsg(s.Shape.Msg)
	path := "Payload"
	if s.Shape.Place == "header" {
		path = "Headers"
	}
	for i := 0; i < s.Call.Alloc; i++ {
		path += "." + goName(s.Shape.Path[i])
		f := core.Field(reflect.ValueOf(m.Interface()), path, true)
		if i == len(s.Shape.Path)-1 {
			f.SetString(s.Addr)
		}
	}
	log.start()
	err = c.Err(name, context.Background(), nil, "", m.Interface(), nil, nil)
	core.Quiesce()
	log.add("%s", resOfCall(err))
	got := log.get()
	r.Steps++
	if !core.Same(got, s.O) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("%s of %+v", name, s.Shape), Expected: s.O, Observed: got})
	}
}
