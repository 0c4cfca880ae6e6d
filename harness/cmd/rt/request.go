package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Walks of Request.tla -----------------------------------------------------------

type reqCtx struct {
	Dir  string `json:"dir"`
	Ch   string `json:"ch"`
	Msg  int    `json:"msg"`
	Corr bool   `json:"corr"`
}

type reqObs struct {
	T   string `json:"t"`
	Ev  string `json:"ev"`
	ID  int    `json:"id"`
	Ctx reqCtx `json:"ctx"`
}

type reqAct struct {
	Op    string `json:"op"`
	R     int    `json:"r"`
	Fault string `json:"fault"`
	OK    bool   `json:"ok"`
	ID    int    `json:"id"`
	Kind  string `json:"kind"`
	Mw    string `json:"mw"`
}

type reqSc struct {
	Op    string `json:"op"` // askH3...
	QCap  int    `json:"qcap"`
	Steps []struct {
		A reqAct   `json:"a"`
		O []reqObs `json:"o"`
	} `json:"steps"`
}

type reqKey struct{}

// reqState is one of the concurrent requests.
type reqState struct {
	n       int // the number of times it was made
	tag     string
	corr    string // correlation ID
	old     string // correlation ID of the previous one
	cancel  context.CancelFunc
	expired bool
	sub     *core.Sub
	lastSub *core.Sub
	publish chan error
	release chan struct{}
	replies int
	lastMw  int // last reply that went through the middleware
}

type reply struct {
	r, id    int
	kind, mw string
}

type requester struct {
	v       int
	names   opNames
	corr    bool
	inPay   bool // correlation ID in the payload
	side    string
	br      *core.Broker
	ctrl    *core.Side
	mu      sync.Mutex
	evs     []reqObs
	reqs    map[int]*reqState
	replies map[string]reply // by nonce
	failSub bool
}

var errMw = errors.New("middleware failure")

func (q *requester) add(t, ev string, id int, x reqCtx) {
	q.mu.Lock()
	q.evs = append(q.evs, reqObs{t, ev, id, x})
	q.mu.Unlock()
}

func (q *requester) reqAddr(r int) string {
	return strings.ReplaceAll(q.names.addr, "{id}", fmt.Sprintf("r%d", r))
}

func (q *requester) repAddr(r int) string {
	if q.names.repAddr != "" {
		return q.names.repAddr
	}
	return fmt.Sprintf("dynamic/%d %%s", r)
}

// ctxOf abstracts a context of the request r, id is the message expected.
func (q *requester) ctxOf(ctx context.Context, r, id int, content string, caller bool) reqCtx {
	i := core.GetCtx(ctx)
	x := reqCtx{Dir: i.Direction, Ch: "? " + i.Channel}
	if i.Channel == q.reqAddr(r) {
		x.Ch = "request"
	} else if i.Channel == q.repAddr(r) {
		x.Ch = "reply"
	}
	if want := map[int]string{2: "2.7.1", 3: "3.1.4"}[q.v]; i.Version != want {
		x.Dir += " version " + i.Version
	}
	if i.Provider != strings.ToLower(q.side) {
		x.Dir += " provider " + i.Provider
	}
	if caller && ctx.Value(reqKey{}) != r {
		x.Dir += " values of the caller lost"
	}
	if i.Message != "-" {
		x.Msg = id
		if !strings.Contains(i.Message, content) {
			x.Msg = -1
		}
	}
	if i.CorrelationID != "-" {
		x.Corr = true
		if i.CorrelationID != q.reqs[r].corr || i.CorrelationID == "" {
			x.Dir += " correlation ID " + i.CorrelationID
		}
	}
	return x
}

// tagOf gives what is between [ and ] in the content of a message.
func tagOf(p string) string {
	i, j := strings.Index(p, "["), strings.Index(p, "]")
	if i < 0 || j < i {
		return ""
	}
	return p[i+1 : j]
}

func (q *requester) corrOf(m extensions.BrokerMessage) string {
	if !q.inPay {
		return string(m.Headers["correlationId"])
	}
	var p struct{ Meta struct{ ID string } }
	_ = json.Unmarshal(m.Payload, &p)
	return p.Meta.ID
}

func (q *requester) middleware(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
	tag := tagOf(string(m.Payload))
	if core.GetCtx(ctx).Direction == "publication" {
		r := q.byTag(tag)
		if r == 0 {
			q.add("?", "publication of "+core.Show(*m), 0, reqCtx{})
			return nil
		}
		q.published(ctx, r, m)
		q.add(fmt.Sprint("req ", r), "middleware", 0, q.ctxOf(ctx, r, 100, "["+tag+"]", true))
		return nil
	}
	q.mu.Lock()
	rep, ok := q.replies[tag]
	if ok {
		q.reqs[rep.r].lastMw = rep.id
	}
	q.mu.Unlock()
	if !ok {
		q.add("?", "reception of "+core.Show(*m), 0, reqCtx{})
		return nil
	}
	q.add(fmt.Sprint("req ", rep.r), "middleware", rep.id, q.ctxOf(ctx, rep.r, rep.id, "["+tag+"]", false))
	switch rep.mw {
	case "mod":
		m.Payload = []byte(strings.Replace(string(m.Payload), `"[`, `"modified [`, 1))
	case "err":
		return fmt.Errorf("reply %d: %w", rep.id, errMw)
	case "break":
		m.Payload = m.Payload[:1]
	case "block":
		<-q.reqs[rep.r].release
	}
	return next(ctx)
}

func (q *requester) byTag(tag string) int {
	for r, s := range q.reqs {
		if s.tag == tag {
			return r
		}
	}
	return 0
}

// published checks the request as sent.
func (q *requester) published(ctx context.Context, r int, m *extensions.BrokerMessage) {
	s := q.reqs[r]
	id := q.corrOf(*m)
	if q.corr {
		if id == "" {
			q.add(fmt.Sprint("req ", r), "no correlation ID in "+core.Show(*m), 0, reqCtx{})
		}
		if s.corr == "" {
			s.corr = id
		} else if s.corr != id {
			q.add(fmt.Sprint("req ", r), "correlation ID changed in "+core.Show(*m), 0, reqCtx{})
		}
		for o, x := range q.reqs {
			if o != r && x.corr == id || id == s.old {
				q.add(fmt.Sprint("req ", r), "correlation ID used twice", 0, reqCtx{})
			}
		}
	}
	if string(m.Headers["note"]) != "note "+s.tag {
		q.add(fmt.Sprint("req ", r), "altered request "+core.Show(*m), 0, reqCtx{})
	}
}

func newRequester(s *reqSc) *requester {
	op, v := s.Op[:len(s.Op)-1], int(s.Op[len(s.Op)-1]-'0')
	q := &requester{v: v, names: names[op][v], corr: op != "askN", inPay: op == "askP", side: "User",
		reqs: map[int]*reqState{}, replies: map[string]reply{}}
	if strings.HasPrefix(op, "u") {
		q.side = "App"
	}
	for r := 1; r <= 2; r++ {
		q.reqs[r] = &reqState{publish: make(chan error), release: make(chan struct{})}
	}
	q.br = &core.Broker{QueueSize: s.QCap,
		OnSubscribe: func(ctx context.Context, ch string) error {
			r, _ := ctx.Value(reqKey{}).(int)
			if r == 0 {
				q.add("?", "subscription without the values of the caller", 0, reqCtx{})
				return nil
			}
			x := q.ctxOf(ctx, r, 0, "", true)
			if ch != q.repAddr(r) {
				x.Ch = "? subscription to " + ch
			}
			q.add(fmt.Sprint("req ", r), "subscribe", 0, x)
			if q.failSub {
				return core.ErrSubscribe
			}
			return nil
		},
		OnSubscribed: func(ctx context.Context, s *core.Sub) {
			r, _ := ctx.Value(reqKey{}).(int)
			q.mu.Lock()
			if r != 0 {
				q.reqs[r].sub = s
			}
			q.mu.Unlock()
		},
		OnCancel: func(s *core.Sub) {
			for r, x := range q.reqs {
				if x.sub == s {
					t := "req "
					if x.expired {
						t = "cleanup "
					}
					q.add(fmt.Sprint(t, r), "cancel", 0, reqCtx{})
				}
			}
		},
		OnPublish: func(ctx context.Context, ch string, m extensions.BrokerMessage) error {
			tag := tagOf(string(m.Payload))
			r := q.byTag(tag)
			if r == 0 {
				q.add("?", "publication of "+core.Show(m), 0, reqCtx{})
				return nil
			}
			x := q.ctxOf(ctx, r, 100, "["+tag+"]", true)
			if ch != q.reqAddr(r) {
				x.Ch = "? publication on " + ch
			}
			q.published(ctx, r, &m)
			q.add(fmt.Sprint("req ", r), "publish", 0, x)
			return <-q.reqs[r].publish
		},
	}
	var err error
	q.ctrl, err = pkgOf(v).NewSide(q.side, q.br, core.Opts{Middlewares: []extensions.Middleware{q.middleware}})
	core.Must(err)
	return q
}

func (q *requester) start(a reqAct) {
	s := q.reqs[a.R]
	s.n++
	s.tag = fmt.Sprintf("req %d.%d", a.R, s.n)
	if s.corr != "" {
		s.old = s.corr
	}
	s.corr, s.expired = "", a.Fault == "expired"
	if s.sub != nil {
		s.lastSub = s.sub
	}
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.WithValue(context.Background(), reqKey{}, a.R))
	if s.expired {
		s.cancel()
	}
	q.failSub = a.Fault == "sub"
	// The message: with a correlation ID one time out of two (always in v2: it is the one of the caller)
	m := pkgOf(q.v).NewMsg(q.names.msg)
	if s.n%2 == 0 && q.v == 3 {
		m = reflect.New(m.Type().Elem())
	}
	msg := m.Interface()
	core.SetStr(msg, "Payload.Text", "["+s.tag+"]")
	core.SetStr(msg, "Headers.Note", "note "+s.tag)
	if q.corr {
		if s.n%4 == 1 {
			msg.(correlated).SetCorrelationID(fmt.Sprintf("corr of %s \"é\"", s.tag))
		}
		s.corr = msg.(correlated).CorrelationID()
	}
	if q.names.repAddr == "" && a.Fault != "addr" {
		core.SetStr(msg, "Headers.ReplyTo", q.repAddr(a.R))
	}
	params := core.Params{}
	if strings.Contains(q.names.addr, "{id}") {
		params["Id"] = fmt.Sprintf("r%d", a.R)
	}
	go func() {
		var out []reflect.Value
		if q.v == 2 {
			out = q.ctrl.Call(q.names.wait, ctx, nil, "", msg, nil, func(pctx context.Context) error {
				return q.ctrl.Err(q.names.send, pctx, nil, "", msg, nil, nil)
			})
		} else {
			out = q.ctrl.Call(q.names.req, ctx, params, "", msg, nil, nil)
		}
		err, _ := out[1].Interface().(error)
		q.returned(a.R, out[0].Interface(), err)
	}()
}

func (q *requester) returned(r int, msg any, err error) {
	t := fmt.Sprint("req ", r)
	if err != nil {
		res := resOfCall(err)
		switch {
		case errors.Is(err, errMw):
			res = "middleware error"
		case strings.HasPrefix(res, "? ") && strings.Contains(res, "unexpected end of JSON input"):
			res = "decode error"
		}
		q.add(t, "return "+res, q.idOf(r, res), reqCtx{})
		return
	}
	text := core.GetStr(msg, "Payload.Text")
	tag := tagOf(text)
	q.mu.Lock()
	rep, ok := q.replies[tag]
	q.mu.Unlock()
	res, id := "reply", rep.id
	switch {
	case !ok || rep.r != r:
		res = "reply with content " + text
	case text == "modified ["+tag+"]":
		res = "modified reply"
	case text != "["+tag+"]":
		res = "reply with altered content " + text
	}
	if core.GetStr(msg, "Headers.Note") != "note "+tag {
		res += " with altered header"
	}
	if n := core.Field(reflectOf(msg), "Payload.Number", false); !n.IsValid() || n.Int() != int64(len(tag)) {
		res += " with altered number"
	}
	if q.corr {
		if c, ok := reflectOf(msg).Interface().(correlated); !ok || c.CorrelationID() != q.reqs[r].corr {
			res += " with altered correlation ID"
		}
	}
	q.add(t, "return "+res, id, reqCtx{})
}

// idOf gives the reply whose handling failed: the last one that went through the middleware.
func (q *requester) idOf(r int, res string) int {
	if res != "middleware error" && res != "decode error" {
		return 0
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.reqs[r].lastMw
}

func (q *requester) deliver(a reqAct, s *core.Sub) {
	x := q.reqs[a.R]
	x.replies++
	tag := fmt.Sprintf("rep %d.%d.%d", a.R, x.n, x.replies)
	id := x.corr
	switch a.Kind {
	case "other":
		id = q.reqs[3-a.R].corr
		if id == "" {
			id = "unknown"
		}
	case "none":
		id = ""
	case "stale":
		id = x.old
	case "near":
		id = x.corr + " "
		if a.ID%2 == 0 {
			id = x.corr[:len(x.corr)-1]
		}
	}
	p := map[string]any{"text": "[" + tag + "]", "number": len(tag)}
	hs := []string{"note", "note " + tag}
	if q.corr && id != "" && !q.inPay {
		hs = append(hs, "correlationId", id)
	}
	if q.inPay {
		p["meta"] = map[string]any{"id": id}
	}
	b, _ := json.Marshal(p)
	if a.Kind == "bad" {
		// the tag remains readable by the harness
		b = []byte(`{"text":"[` + tag + `]"`)
	}
	q.mu.Lock()
	q.replies[tag] = reply{r: a.R, id: a.ID, kind: a.Kind, mw: a.Mw}
	q.mu.Unlock()
	go func() {
		s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(core.Msg(string(b), hs...), core.Ack{
			OnAck: func() { q.add(fmt.Sprint("req ", a.R), "ack", a.ID, reqCtx{}) },
			OnNak: func() { q.add(fmt.Sprint("req ", a.R), "nak", a.ID, reqCtx{}) },
		}))
		q.add(fmt.Sprint("transmit ", a.R), "transmitted", a.ID, reqCtx{})
	}()
}

func (q *requester) do(a reqAct) {
	s := q.reqs[a.R]
	switch a.Op {
	case "start":
		q.start(a)
	case "publish returns":
		var err error
		if !a.OK {
			err = core.ErrPublish
		}
		s.publish <- err
	case "deliver":
		q.deliver(a, s.sub)
	case "deliver late":
		sub := s.sub
		if sub == nil {
			sub = s.lastSub
		}
		q.deliver(reqAct{R: a.R, Kind: "own", Mw: "ok"}, sub)
	case "release":
		s.release <- struct{}{}
	case "context done":
		s.expired = true
		s.cancel()
	case "broker closes":
		go s.sub.Cancel(context.Background())
	default:
		panic("unknown action " + a.Op)
	}
}

func reqThreads(evs []reqObs) map[string][]reqObs {
	m := map[string][]reqObs{}
	for _, e := range evs {
		m[e.T] = append(m[e.T], e)
	}
	return m
}

func requestMode(line []byte, r *core.Result) {
	var s reqSc
	core.Must(json.Unmarshal(line, &s))
	before := runtime.NumGoroutine()
	q := newRequester(&s)
	bad := func(where string, exp, got any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: s.Op + " " + where, Expected: exp, Observed: got})
	}
	running := map[int]bool{}
	for i, st := range s.Steps {
		q.do(st.A)
		if err := core.Quiesce(); err != nil {
			bad(fmt.Sprintf("step %d: %+v", i, st.A), "a stable state", err.Error())
			return
		}
		r.Steps++
		q.mu.Lock()
		got := reqThreads(q.evs)
		q.evs = nil
		q.mu.Unlock()
		if exp := reqThreads(st.O); !core.Same(exp, got) {
			bad(fmt.Sprintf("step %d: %+v", i, st.A), exp, got)
			return
		}
		running[st.A.R] = running[st.A.R] || st.A.Op == "start"
	}
	// end what is still running, nothing is left
	for _, x := range q.reqs {
		if x.cancel != nil {
			x.expired = true
			x.cancel()
		}
		close(x.publish)
		close(x.release)
	}
	q.ctrl.Err("Close", context.Background(), nil, "", nil, nil, nil)
	if err := core.Quiesce(); err != nil {
		bad("end", "a stable state", err.Error())
		return
	}
	if n := runtime.NumGoroutine(); n != before {
		bad("goroutines after the end", before, fmt.Sprintf("%d\n%s", n, core.Stacks()))
	}
}
