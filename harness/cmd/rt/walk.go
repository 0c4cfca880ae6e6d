package main

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Walks of Controller.tla ---------------------------------------------------

type walkCtx struct {
	Dir  string `json:"dir"`
	Ch   string `json:"ch"`
	Msg  int    `json:"msg"`
	Corr int    `json:"corr"`
}

type walkObs struct {
	T   string  `json:"t"`
	Ev  string  `json:"ev"`
	Ch  string  `json:"ch"`
	ID  int     `json:"id"`
	Ctx walkCtx `json:"ctx"`
}

type walkAct struct {
	Op  string `json:"op"`
	Ch  string `json:"ch"`
	ID  int    `json:"id"`
	Out string `json:"out"`
	N   int    `json:"n"`
}

type walkSc struct {
	QCap  int `json:"qcap"`
	Steps []struct {
		A walkAct   `json:"a"`
		O []walkObs `json:"o"`
	} `json:"steps"`
	Combos []string `json:"combos"`
}

// walker is a controller that follows a walk.
type walker struct {
	v     int
	side  string
	br    *core.Broker
	ctrl  *core.Side
	mu    sync.Mutex
	evs   []walkObs
	fail  int
	nonce int
	msgs  map[string]sentMsg // by nonce
	gates map[string]chan error
	// current is the nonce of the message with this id on this channel
	current map[string]string
	last    map[string]*core.Sub // last subscription canceled
	subs    map[string]*core.Sub // live subscription
}

type sentMsg struct {
	ch   string
	id   int
	corr string
}

const walkBad = 90

type walkCtxKey struct{}

func (w *walker) op(ch string) opNames {
	base := map[string]string{"App": "recv", "User": "send"}[w.side]
	return names[base+ch[:1]][w.v]
}

func (w *walker) params(ch string) core.Params {
	switch ch {
	case "G1":
		return core.Params{"First": "x", "Second": "y{first}"}
	case "G2":
		return core.Params{"First": "y{first}", "Second": "x"}
	}
	return nil
}

func (w *walker) addr(ch string) string {
	a := w.op(ch).addr
	switch ch {
	case "G1":
		return strings.NewReplacer("{first}", "x", "{second}", "y{first}").Replace(a)
	case "G2":
		return strings.NewReplacer("{first}", "y{first}", "{second}", "x").Replace(a)
	}
	return a
}

var walkChans = []string{"A", "B", "G1", "G2"}

func (w *walker) logical(addr string) string {
	for _, c := range walkChans {
		if w.addr(c) == addr {
			return c
		}
	}
	return "? " + addr
}

func (w *walker) add(t, ev, ch string, id int, ctx walkCtx) {
	w.mu.Lock()
	w.evs = append(w.evs, walkObs{t, ev, ch, id, ctx})
	w.mu.Unlock()
}

// ctxOf abstracts the context given to the user code.
func (w *walker) ctxOf(ctx context.Context) walkCtx {
	i := core.GetCtx(ctx)
	c := walkCtx{Dir: i.Direction, Ch: w.logical(i.Channel)}
	want := map[int]string{2: "4.5.6", 3: "1.2.3"}[w.v]
	if i.Version != want {
		c.Dir += " version " + i.Version
	}
	if i.Provider != strings.ToLower(w.side) {
		c.Dir += " provider " + i.Provider
	}
	if i.Message != "-" {
		c.Msg = -1
		w.mu.Lock()
		for n, m := range w.msgs {
			if !strings.Contains(i.Message, "<"+n+">") {
				continue
			}
			c.Msg = m.id
			if m.corr != "" && !strings.Contains(i.Message, m.corr) {
				c.Msg = -2
			}
		}
		w.mu.Unlock()
	}
	if i.CorrelationID != "-" {
		c.Corr = -1
		w.mu.Lock()
		for _, m := range w.msgs {
			if m.corr == i.CorrelationID {
				c.Corr = m.id
			}
		}
		w.mu.Unlock()
	}
	return c
}

// nonceOf finds a message back from its raw content.
func (w *walker) nonceOf(m extensions.BrokerMessage) (string, sentMsg) {
	p := string(m.Payload)
	i, j := strings.Index(p, "<"), strings.Index(p, ">")
	if i < 0 || j < i {
		return "", sentMsg{ch: "?", id: -1}
	}
	n := p[i+1 : j]
	w.mu.Lock()
	defer w.mu.Unlock()
	s, ok := w.msgs[n]
	if !ok {
		return "", sentMsg{ch: "?", id: -1}
	}
	return n, s
}

func (w *walker) handler(ch string) func(ctx context.Context, msg any) error {
	return func(ctx context.Context, msg any) error {
		text := core.GetStr(msg, "Payload.Text")
		n := strings.Trim(text, "<>")
		w.mu.Lock()
		s, ok := w.msgs[n]
		gate := w.gates[n]
		w.mu.Unlock()
		if !ok {
			w.add("listen "+ch, "handle unknown "+text, ch, -1, walkCtx{})
			return nil
		}
		ev := "handle"
		if core.GetStr(msg, "Headers.Note") != "note "+n {
			ev = "handle altered note"
		}
		if f := core.Field(reflectOf(msg), "Payload.Number", false); !f.IsValid() || f.Int() != int64(len(n)) {
			ev = "handle altered number"
		}
		if ch != "B" && core.GetStr(msg, "Headers.CorrelationId") != s.corr {
			ev = "handle altered correlation ID"
		}
		if s.ch != ch {
			ev = "handle message of channel " + s.ch
		}
		w.add("listen "+ch, ev, ch, s.id, w.ctxOf(ctx))
		return <-gate
	}
}

func newWalker(v int, side string, qcap int) *walker {
	w := &walker{v: v, side: side, msgs: map[string]sentMsg{}, gates: map[string]chan error{}, current: map[string]string{},
		last: map[string]*core.Sub{}, subs: map[string]*core.Sub{}}
	w.br = &core.Broker{QueueSize: qcap,
		OnSubscribe: func(ctx context.Context, ch string) error {
			c := w.logical(ch)
			x := w.ctxOf(ctx)
			if ctx.Value(walkCtxKey{}) != "walk" {
				x.Dir += " values of the caller lost"
			}
			w.add("caller", "subscribe", c, 0, x)
			if w.fail > 0 {
				w.fail--
				if w.fail == 0 {
					return core.ErrSubscribe
				}
			}
			return nil
		},
		OnSubscribed: func(_ context.Context, s *core.Sub) {
			w.mu.Lock()
			w.subs[w.logical(s.Channel)] = s
			w.mu.Unlock()
		},
		OnCancel: func(s *core.Sub) {
			c := w.logical(s.Channel)
			w.mu.Lock()
			w.last[c] = s
			w.mu.Unlock()
			w.add("caller", "cancel", c, 0, walkCtx{})
		},
	}
	var err error
	w.ctrl, err = core.Packages[fmt.Sprintf("lc%d", v)].NewSide(side, w.br, core.Opts{
		Middlewares: []extensions.Middleware{func(ctx context.Context, m *extensions.BrokerMessage, _ extensions.NextMiddleware) error {
			_, s := w.nonceOf(*m)
			w.add("listen "+s.ch, "middleware", s.ch, s.id, w.ctxOf(ctx))
			return nil
		}},
		ErrorHandler: func(ctx context.Context, ch string, m *extensions.AcknowledgeableBrokerMessage, err error) {
			_, s := w.nonceOf(m.BrokerMessage)
			ev := "error handler"
			if w.logical(ch) != s.ch {
				ev = "error handler with channel " + ch
			}
			if err == nil {
				ev = "error handler without error"
			}
			if (s.id == walkBad) == isHandlerErr(err) {
				ev = fmt.Sprint("error handler with wrong error: ", err)
			}
			w.add("listen "+s.ch, ev, s.ch, s.id, w.ctxOf(ctx))
		},
	})
	core.Must(err)
	return w
}

func (w *walker) result(err error) {
	r := resOfCall(err)
	w.add("caller", "return "+r, "", 0, walkCtx{})
}

func (w *walker) ctx() context.Context {
	return context.WithValue(context.Background(), walkCtxKey{}, "walk")
}

func (w *walker) transmit(ch string, id int, s *core.Sub, thread string) {
	w.nonce++
	n := fmt.Sprintf("%s.%d", ch, w.nonce)
	sm := sentMsg{ch: ch, id: id}
	hs := []string{"note", "note " + n}
	if id%2 == 1 {
		sm.corr = "corr " + n + "!"
		hs = append(hs, "correlationId", sm.corr)
	}
	p := fmt.Sprintf(`{"text":"<%s>","number":%d}`, n, len(n))
	if id == walkBad {
		p = fmt.Sprintf(`{"text":"<%s>","number":`, n)
	}
	w.mu.Lock()
	if ch == "B" {
		sm.corr = ""
	}
	w.msgs[n] = sm
	w.gates[n] = make(chan error, 1)
	w.current[fmt.Sprint(ch, " ", id)] = n
	w.mu.Unlock()
	go func() {
		s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(core.Msg(p, hs...), core.Ack{
			OnAck: func() { w.add("listen "+ch, "ack", ch, id, walkCtx{}) },
			OnNak: func() { w.add("listen "+ch, "nak", ch, id, walkCtx{}) },
		}))
		w.add(thread, "transmitted", ch, id, walkCtx{})
	}()
}

func (w *walker) do(a walkAct) {
	all := map[int]string{2: "SubscribeAll", 3: "SubscribeToAllChannels"}[w.v]
	unall := map[int]string{2: "UnsubscribeAll", 3: "UnsubscribeFromAllChannels"}[w.v]
	switch a.Op {
	case "subscribe":
		go func() { w.result(w.ctrl.Err(w.op(a.Ch).sub, w.ctx(), w.params(a.Ch), "", nil, w.handler(a.Ch), nil)) }()
	case "unsubscribe":
		go func() { w.result(w.ctrl.Err(w.op(a.Ch).unsub, w.ctx(), w.params(a.Ch), "", nil, nil, nil)) }()
	case "subscribe all":
		go func() {
			w.result(w.ctrl.SubscribeAll(all, w.ctx(), func(method string, ctx context.Context, msg any) error {
				ch := map[string]string{"RecvAOperationReceived": "A", "RecvBOperationReceived": "B", "SendAOperationReceived": "A",
					"SendBOperationReceived": "B", "AppAlpha": "A", "AppBeta": "B", "UserAlpha": "A", "UserBeta": "B"}[method]
				if ch == "" {
					ch = method
				}
				return w.handler(ch)(ctx, msg)
			}))
		}()
	case "subscribe all nil":
		go func() { w.result(w.ctrl.SubscribeAll(all, w.ctx(), nil)) }()
	case "unsubscribe all":
		go func() { w.result(w.ctrl.Err(unall, w.ctx(), nil, "", nil, nil, nil)) }()
	case "close":
		go func() { w.result(w.ctrl.Err("Close", w.ctx(), nil, "", nil, nil, nil)) }()
	case "broker fails":
		w.fail = a.N
	case "transmit":
		w.mu.Lock()
		s := w.subs[a.Ch]
		w.mu.Unlock()
		w.transmit(a.Ch, a.ID, s, fmt.Sprintf("transmit %s %d", a.Ch, a.ID))
	case "transmit late":
		w.mu.Lock()
		s := w.last[a.Ch]
		w.mu.Unlock()
		w.transmit(a.Ch, 0, s, "transmit late")
	case "finish":
		w.mu.Lock()
		g := w.gates[w.current[fmt.Sprint(a.Ch, " ", a.ID)]]
		w.mu.Unlock()
		var err error
		if a.Out == "err" {
			err = fmt.Errorf("message %d: %w", a.ID, core.ErrHandler)
		}
		g <- err
	default:
		panic("unknown action " + a.Op)
	}
}

// take returns what has been observed, by thread.
func (w *walker) take() map[string][]walkObs {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := byThread(w.evs)
	w.evs = nil
	return m
}

func byThread(evs []walkObs) map[string][]walkObs {
	m := map[string][]walkObs{}
	for _, e := range evs {
		m[e.T] = append(m[e.T], e)
	}
	// the order of the cancellations does not matter
	c := m["caller"]
	for i := 0; i < len(c); i++ {
		j := i
		for j < len(c) && c[j].Ev == "cancel" {
			j++
		}
		sort.Slice(c[i:j], func(x, y int) bool { return c[i+x].Ch < c[i+y].Ch })
		if j > i {
			i = j - 1
		}
	}
	return m
}

func walkMode(line []byte, r *core.Result) {
	var s walkSc
	core.Must(json.Unmarshal(line, &s))
	for _, combo := range s.Combos {
		v, side := int(combo[0]-'0'), combo[1:]
		if !runWalk(&s, v, side, line, r) {
			return
		}
	}
}

func runWalk(s *walkSc, v int, side string, line []byte, r *core.Result) bool {
	before := runtime.NumGoroutine()
	w := newWalker(v, side, s.QCap)
	for i, st := range s.Steps {
		w.do(st.A)
		if err := core.Quiesce(); err != nil {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("v%d %s step %d", v, side, i),
				Expected: "a stable state", Observed: err.Error()})
			return false
		}
		r.Steps++
		exp, got := byThread(st.O), w.take()
		if !core.Same(exp, got) {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line,
				Where: fmt.Sprintf("v%d %s step %d: %+v", v, side, i, st.A), Expected: exp, Observed: got})
			return false
		}
	}
	// Nothing is left once closed
	for _, g := range w.gates {
		select {
		case g <- nil:
		default:
		}
	}
	w.ctrl.Err("Close", w.ctx(), nil, "", nil, nil, nil)
	if err := core.Quiesce(); err != nil {
		panic(err)
	}
	if n := runtime.NumGoroutine(); n != before {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("v%d %s: goroutines after the end", v, side),
			Expected: before, Observed: fmt.Sprintf("%d\n%s", n, core.Stacks())})
		return false
	}
	return true
}
