package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"verifharness/core"
)

// --- Scenarios of Chain.tla --------------------------------------------------

type pay struct {
	Bad  bool  `json:"bad"`
	Mods []int `json:"mods"`
}

type chainEv struct {
	E   string `json:"e"`
	K   int    `json:"k"`
	R   string `json:"r"`
	Pay pay    `json:"pay"`
	Ctx []int  `json:"ctx"`
}

type chainSc struct {
	Sc struct {
		Dir   string     `json:"dir"`
		Progs [][]string `json:"progs"`
		Bad   bool       `json:"bad"`
		Out   string     `json:"out"`
		Eh    []string   `json:"eh"`
	} `json:"sc"`
	Log []chainEv `json:"log"`
}

type trailKey struct{}

func trail(ctx context.Context) []int {
	t, _ := ctx.Value(trailKey{}).([]int)
	if t == nil {
		return []int{}
	}
	return t
}

func textOf(mods []int) string {
	var b strings.Builder
	for _, m := range mods {
		fmt.Fprint(&b, m)
	}
	return b.String()
}

func modsOf(text string) []int {
	m := []int{}
	for _, c := range text {
		m = append(m, int(c-'0'))
	}
	return m
}

// content is the payload of the messages, meta is only known by some of them.
type content struct {
	Text   *string         `json:"text,omitempty"`
	Number *int            `json:"number,omitempty"`
	Meta   json.RawMessage `json:"meta,omitempty"`
}

func payOf(m *extensions.BrokerMessage) pay {
	var c content
	if err := json.Unmarshal(m.Payload, &c); err != nil {
		return pay{Bad: true, Mods: []int{}}
	}
	t := ""
	if c.Text != nil {
		t = *c.Text
	}
	return pay{Mods: modsOf(t)}
}

// modify changes both the payload and the headers of a message.
func modify(m *extensions.BrokerMessage, k int) {
	var c content
	t := ""
	if err := json.Unmarshal(m.Payload, &c); err == nil && c.Text != nil {
		t = *c.Text
	}
	t += fmt.Sprint(k)
	c.Text = &t
	m.Payload, _ = json.Marshal(c)
	if m.Headers == nil {
		m.Headers = map[string][]byte{}
	}
	m.Headers["note"] = []byte(t)
}

// typedPay is payOf for a typed message: headers and payload should agree.
func typedPay(msg any) pay {
	t, n := core.GetStr(msg, "Payload.Text"), core.GetStr(msg, "Headers.Note")
	if n != "" && n != t {
		return pay{Mods: []int{-1}}
	}
	return pay{Mods: modsOf(t)}
}

var mwErr = []error{errors.New("E0"), errors.New("E1"), errors.New("E2"), errors.New("E3"), errors.New("E4")}

func resOf(err error) string {
	if err == nil {
		return "nil"
	}
	for k, e := range mwErr {
		if errors.Is(err, e) {
			return fmt.Sprintf("E%d", k)
		}
	}
	switch {
	case errors.Is(err, core.ErrHandler):
		return "EH"
	case errors.Is(err, core.ErrPublish):
		return "EP"
	}
	return "ED"
}

type chainRec struct {
	mu   sync.Mutex
	evs  []chainEv
	pick int
}

func (c *chainRec) add(e chainEv) {
	if e.Pay.Mods == nil {
		e.Pay.Mods = []int{}
	}
	if e.Ctx == nil {
		e.Ctx = []int{}
	}
	c.mu.Lock()
	c.evs = append(c.evs, e)
	c.mu.Unlock()
}

func (c *chainRec) take() []chainEv {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := c.evs
	c.evs = nil
	return e
}

// recLogger records what is logged.
type recLogger struct {
	f func(level string, ctx context.Context, msg string)
}

func (l recLogger) Info(ctx context.Context, m string, _ ...extensions.LogInfo) { l.f("info", ctx, m) }
func (l recLogger) Warning(ctx context.Context, m string, _ ...extensions.LogInfo) {
	l.f("warning", ctx, m)
}
func (l recLogger) Error(ctx context.Context, m string, _ ...extensions.LogInfo) {
	l.f("error", ctx, m)
}

type panicValue struct{ A, B int }

// panics are values given to panic.
var panics = []func(k int){
	func(k int) { panic(fmt.Sprintf("panic of middleware %d", k)) },
	func(k int) { panic(fmt.Errorf("panic %w %d", core.ErrHandler, k)) },
	func(k int) { panic(panicValue{k, 2}) },
	func(k int) { var m map[string]int; m["x"] = k },
	func(k int) { var p *panicValue; p.A = k },
	func(k int) { panic(nil) },
	func(k int) { panic(error(nil)) },
	func(k int) { panic("%!s(MISSING) %d {") },
	func(k int) { panic(k) },
	func(k int) { panic(&net.DNSError{Err: "no such host", IsNotFound: true}) },
	func(k int) { panic(context.Canceled) },
	func(k int) { panic(http.ErrAbortHandler) },
	func(k int) { panic(fmt.Errorf("%w: %w", extensions.ErrAsyncAPI, context.DeadlineExceeded)) },
	func(k int) { panic([]string{"not", "comparable"}) },
	func(k int) { var s []int; s[k] = 1 },
}

var dirName = map[string]string{"recv": "reception", "send": "publication", "wait": "wait-for", "waitn": "wait-for"}

func program(k int, prog []string, dir string, rec *chainRec) extensions.Middleware {
	run := func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware, prog []string) error {
		out := ctx
		var last error
		for _, op := range prog {
			switch op {
			case "N":
				last = next(out)
				rec.add(chainEv{E: "next", K: k, R: resOf(last), Pay: payOf(msg)})
			case "R":
				return last
			case "0":
				return nil
			case "E":
				return mwErr[k]
			case "P":
				panics[rec.pick%len(panics)](k)
			case "M":
				modify(msg, k)
			case "B":
				msg.Payload = []byte("{")
			case "C":
				out = context.WithValue(ctx, trailKey{}, append(append([]int{}, trail(ctx)...), k))
			}
		}
		return nil
	}
	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		if core.GetCtx(ctx).Direction != dirName[dir] {
			return next(ctx)
		}
		rec.add(chainEv{E: "enter", K: k, Pay: payOf(msg), Ctx: trail(ctx)})
		switch prog[0] {
		case "L":
			return middlewares.Logging(recLogger{func(level string, ctx context.Context, m string) {
				e := chainEv{E: "log", K: k, Ctx: trail(ctx)}
				if d := core.GetCtx(ctx).Direction; d != dirName[dir] {
					e.R += " direction " + d
				}
				if level != "info" || m == "" {
					e.R += " " + level + " " + m
				}
				rec.add(e)
			}})(ctx, msg, next)
		case "I":
			ch := make(chan extensions.BrokerMessage, 4)
			err := middlewares.Intercepter(ch)(ctx, msg, next)
			close(ch)
			for m := range ch {
				e := chainEv{E: "intercepted", K: k, Pay: payOf(&m)}
				if core.Show(m) != core.Show(*msg) {
					e.R = core.Show(m)
				}
				rec.add(e)
			}
			return err
		case "X":
		default:
			return run(ctx, msg, next, prog)
		}
		// Provided recovery middleware
		mw := middlewares.Recovery(recLogger{func(level string, ctx context.Context, m string) {
			e := chainEv{E: "recovered", K: k}
			if d := core.GetCtx(ctx).Direction; d != dirName[dir] || level != "error" || m == "" {
				e.R = level + " " + m + " " + d
			}
			rec.add(e)
		}})
		return mw(ctx, msg, func(ctx context.Context) error {
			err := next(ctx)
			rec.add(chainEv{E: "next", K: k, R: resOf(err), Pay: payOf(msg)})
			return err
		})
	}
}

func chainMode(line []byte, r *core.Result) {
	var s chainSc
	core.Must(json.Unmarshal(line, &s))
	h := fnv.New32()
	h.Write(line)
	pick := int(h.Sum32())
	var ops []string
	switch s.Sc.Dir {
	case "recv", "send":
		ops = []string{[]string{"recvA", "recvB", "sendA", "sendB", "recvG", "sendG"}[pick%6]}
	case "wait":
		ops = []string{[]string{"askH", "askP", "askD", "askG", "uaskH", "askO"}[pick%6], "askH"}
	case "waitn":
		ops = []string{"askN"}
	}
	done := map[string]bool{}
	for _, op := range ops {
		for _, v := range versions(op) {
			if done[fmt.Sprint(op, v)] {
				continue
			}
			done[fmt.Sprint(op, v)] = true
			for i, got := range runChain(&s, op, v, pick/7) {
				r.Steps++
				if !core.Same(got, s.Log) {
					r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line,
						Where: fmt.Sprintf("v%d %s message %d", v, op, i), Expected: s.Log, Observed: got})
					return
				}
			}
		}
	}
}

// runChain sends two messages through the same controller, and returns what has
// been observed for each.
func runChain(s *chainSc, op string, v, pick int) (logs [][]chainEv) {
	n := names[op][v]
	rec := &chainRec{pick: pick}
	mws := make([]extensions.Middleware, len(s.Sc.Progs))
	for i, p := range s.Sc.Progs {
		mws[i] = program(i+1, p, s.Sc.Dir, rec)
	}
	last := len(mws) + 1
	br := &core.Broker{}
	ctx := context.Background()
	params := core.Params{}
	if strings.Contains(n.addr, "{first}") {
		params = core.Params{"First": "x", "Second": "y"}
	} else if strings.Contains(n.addr, "{id}") {
		params = core.Params{"Id": "z"}
	}
	opts := core.Opts{Middlewares: mws, ErrorHandler: func(ctx context.Context, ch string, m *extensions.AcknowledgeableBrokerMessage, err error) {
		rec.add(chainEv{E: "errh", R: resOf(err), Pay: payOf(&m.BrokerMessage)})
		for _, e := range s.Sc.Eh {
			switch e {
			case "L":
				errorhandlers.Logging(recLogger{func(level string, ctx context.Context, text string) {
					e := chainEv{E: "errlog", R: resOf(err)}
					i := core.GetCtx(ctx)
					if level != "error" || !strings.Contains(text, err.Error()) || !strings.Contains(text, i.Channel) || i.Direction != dirName[s.Sc.Dir] {
						e.R += " " + level + " " + text
					}
					rec.add(e)
				}})(ctx, ch, m, err)
			case "a":
				m.Ack()
			default:
				m.Nak()
			}
		}
	}}
	ack := core.Ack{OnAck: func() { rec.add(chainEv{E: "ack"}) }, OnNak: func() { rec.add(chainEv{E: "nak"}) }}
	// receiver of recv* is the app, of send* and uask* is the user
	recvSide, sendSide := "App", "User"
	if strings.HasPrefix(op, "send") || strings.HasPrefix(op, "uask") {
		recvSide, sendSide = "User", "App"
	}
	raw := func(corr string) extensions.BrokerMessage {
		p := `{"text":"","number":1}`
		if op == "askP" {
			p = fmt.Sprintf(`{"text":"","number":1,"meta":{"id":%q}}`, corr)
		}
		if s.Sc.Bad {
			p = "{"
		}
		if corr == "" {
			return core.Msg(p)
		}
		return core.Msg(p, "correlationId", corr)
	}

	switch s.Sc.Dir {
	case "recv":
		c, err := pkgOf(v).NewSide(recvSide, br, opts)
		core.Must(err)
		err = c.Err(n.sub, ctx, params, "", nil, func(ctx context.Context, msg any) error {
			rec.add(chainEv{E: "final", K: last, Pay: typedPay(msg), Ctx: trail(ctx)})
			switch s.Sc.Out {
			case "err":
				return fmt.Errorf("wrapped: %w", core.ErrHandler)
			case "panic":
				panics[rec.pick%len(panics)](last)
			}
			return nil
		}, nil)
		core.Must(err)
		sub := br.All()[0]
		for i := 0; i < 2; i++ {
			sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(raw("c1"), ack))
			core.Must(core.Quiesce())
			logs = append(logs, rec.take())
		}
		c.Err("Close", ctx, nil, "", nil, nil, nil)
	case "send":
		br.OnPublish = func(ctx context.Context, ch string, m extensions.BrokerMessage) error {
			rec.add(chainEv{E: "final", K: last, Pay: payOf(&m), Ctx: trail(ctx)})
			if note := string(m.Headers["note"]); note != "" && note != textOf(payOf(&m).Mods) && !payOf(&m).Bad {
				rec.add(chainEv{E: "header " + note})
			}
			if s.Sc.Out == "err" {
				return core.ErrPublish
			}
			return nil
		}
		c, err := pkgOf(v).NewSide(sendSide, br, opts)
		core.Must(err)
		for i := 0; i < 2; i++ {
			msg := pkgOf(v).NewMsg(n.msg)
			core.SetStr(msg.Interface(), "Payload.Text", "")
			res := func() (res string) {
				defer func() {
					if e := recover(); e != nil {
						if mm, ok := e.(core.MissingMethod); ok {
							panic(mm)
						}
						res = "PANIC"
					}
				}()
				return resOf(c.Err(n.send, ctx, params, "", msg.Interface(), nil, nil))
			}()
			rec.add(chainEv{E: "result", R: res})
			logs = append(logs, rec.take())
		}
	default:
		c, err := pkgOf(v).NewSide(sendSide, br, opts)
		core.Must(err)
		br.OnPublish = func(ctx context.Context, ch string, m extensions.BrokerMessage) error {
			corr := string(m.Headers["correlationId"])
			if op == "askP" {
				var p struct{ Meta struct{ ID string } }
				_ = json.Unmarshal(m.Payload, &p)
				corr = p.Meta.ID
			}
			addr := n.repAddr
			if addr == "" {
				addr = "the.reply.address"
			}
			// in another goroutine as the message may be consumed afterwards only
			br.Last(addr).TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(raw(corr), ack))
			return nil
		}
		for i := 0; i < 2; i++ {
			msg := pkgOf(v).NewMsg(n.msg)
			core.SetStr(msg.Interface(), "Payload.Text", "")
			if n.repAddr == "" {
				core.SetStr(msg.Interface(), "Headers.ReplyTo", "the.reply.address")
			}
			var out any
			var res string
			func() {
				defer func() {
					if e := recover(); e != nil {
						if mm, ok := e.(core.MissingMethod); ok {
							panic(mm)
						}
						res = "PANIC"
					}
				}()
				var err error
				if n.req != "" {
					o := c.Call(n.req, ctx, params, "", msg.Interface(), nil, nil)
					out = o[0].Interface()
					err, _ = o[1].Interface().(error)
				} else {
					o := c.Call(n.wait, ctx, params, "", msg.Interface(), nil, func(ctx context.Context) error {
						return c.Err(n.send, ctx, params, "", msg.Interface(), nil, nil)
					})
					out = o[0].Interface()
					err, _ = o[1].Interface().(error)
				}
				res = resOf(err)
			}()
			e := chainEv{E: "result", R: res}
			if res == "nil" {
				e.Pay = typedPay(out)
			}
			rec.add(e)
			logs = append(logs, rec.take())
		}
	}
	return logs
}
