package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Messages received, then sent again (Schema.tla) -------------------------------

type probe struct {
	// what is received
	H map[string]string `json:"h"`
	P []byte            `json:"p"`
	// headers that may not be text
	HB map[string][]byte `json:"hb,omitempty"`
	// what should happen
	Err bool              `json:"err"`
	EH  map[string]string `json:"eh"`
	EP  []byte            `json:"ep"`
	EHB map[string][]byte `json:"ehb,omitempty"`
	// value of the payload, if it is a number
	Val string `json:"val,omitempty"`
	// whether it can not be sent again
	Fails bool `json:"fails,omitempty"`
	// what is changed in the additional properties before it is sent again: key gets the value of from
	Set *struct {
		Key  string `json:"key"`
		From string `json:"from"`
	} `json:"set,omitempty"`
}

// change returns a copy of the message with the additional properties of its payload changed.
func (p *probe) change(msg any) any {
	m := reflect.New(reflect.TypeOf(msg)).Elem()
	m.Set(reflect.ValueOf(msg))
	add := m.FieldByName("Payload").FieldByName("AdditionalProperties")
	if p.Set.From == "@nil" {
		add.Set(reflect.Zero(add.Type()))
		return m.Interface()
	}
	add.SetMapIndex(reflect.ValueOf(p.Set.Key), add.MapIndex(reflect.ValueOf(p.Set.From)))
	return m.Interface()
}

func (p *probe) fresh() bool {
	for _, v := range p.EH {
		if v == fresh {
			return true
		}
	}
	return false
}

type echoSc struct {
	Pkg    string      `json:"pkg"`
	Recv   string      `json:"recv"` // side that receives
	Sub    string      `json:"sub"`  // method of this side that subscribes
	Send   string      `json:"send"` // method of the other side that sends
	Params core.Params `json:"params"`
	Addr   string      `json:"addr"` // channel
	Raw    bool        `json:"raw"`  // whether the payload is not JSON
	JSON   []string    `json:"json"` // headers that are JSON
	Probes []probe     `json:"probes"`
	// shape of the type of the payload
	Go      *goType  `json:"go,omitempty"`
	Options []string `json:"options,omitempty"`
}

func other(side string) string {
	if side == "App" {
		return "User"
	}
	return "App"
}

// wires is the pair of controllers of a scenario, on a fake broker.
type wires struct {
	br   *core.Broker
	got  chan any
	errs chan error
	sent chan extensions.BrokerMessage
	addr string
	side *core.Side
	// message of the fake broker being published
	last *extensions.BrokerMessage
}

func wire(pkg *core.Pkg, recv, sub string, p core.Params) (*wires, error) {
	w := &wires{got: make(chan any, 16), errs: make(chan error, 16), sent: make(chan extensions.BrokerMessage, 16)}
	w.br = &core.Broker{
		OnPublish: func(_ context.Context, ch string, m extensions.BrokerMessage) error {
			w.addr = ch
			w.sent <- core.CloneMsg(m)
			return nil
		},
	}
	eh := func(_ context.Context, _ string, m *extensions.AcknowledgeableBrokerMessage, err error) {
		w.errs <- err
	}
	rc, err := pkg.NewSide(recv, w.br, core.Opts{ErrorHandler: eh})
	if err != nil {
		return nil, err
	}
	w.side, err = pkg.NewSide(other(recv), w.br, core.Opts{})
	if err != nil {
		return nil, err
	}
	return w, rc.Err(sub, context.Background(), p, "", nil, func(_ context.Context, m any) error { w.got <- m; return nil }, nil)
}

// deliver gives a message to the receiving side, and returns the typed message or the error.
func (w *wires) deliver(addr string, m extensions.BrokerMessage) (any, error) {
	s := w.br.Last(addr)
	if s == nil {
		return nil, fmt.Errorf("harness: nothing is subscribed to %q", addr)
	}
	s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(core.CloneMsg(m), core.Ack{}))
	select {
	case x := <-w.got:
		return x, nil
	case err := <-w.errs:
		return nil, err
	}
}

func echoMode(line []byte, r *core.Result) {
	var s echoSc
	core.Must(json.Unmarshal(line, &s))
	pkg := core.Packages[s.Pkg]
	w, err := wire(pkg, s.Recv, s.Sub, s.Params)
	bad := func(where string, p *probe, exp, obs any) {
		type small struct {
			echoSc
			Probes []*probe `json:"probes"`
		}
		sc := small{s, []*probe{}}
		if p != nil {
			sc.Probes = append(sc.Probes, p)
		}
		b, _ := json.Marshal(sc)
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: where, Expected: exp, Observed: obs})
	}
	if err != nil {
		bad("subscription", nil, "ok", err.Error())
		return
	}
	if w.br.Last(s.Addr) == nil {
		bad("subscription", nil, s.Addr, fmt.Sprint(w.br.Subs[0].Channel))
		return
	}
	for i := range s.Probes {
		p := &s.Probes[i]
		r.Steps++
		in := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: p.P}
		for k, v := range p.H {
			in.Headers[k] = []byte(v)
		}
		for k, v := range p.HB {
			in.Headers[k] = v
		}
		msg, err := w.deliver(s.Addr, in)
		if p.Err != (err != nil) {
			bad("reception of "+core.Show(in), p, map[bool]string{true: "an error", false: "a message"}[p.Err], fmt.Sprintf("%+v, %v", msg, err))
			return
		}
		if err != nil {
			continue
		}
		if s.Go != nil && i == 0 {
			if d := s.Go.diff("Payload", reflect.TypeOf(msg).Field(fieldIndex(msg, "Payload")).Type); d != "" {
				bad("type of the payload", p, s.Go, d)
				return
			}
		}
		if p.Val != "" {
			if obs := number(reflect.ValueOf(msg).FieldByName("Payload")); obs != p.Val {
				bad("value of the payload of "+core.Show(in), p, p.Val, obs)
				return
			}
		}
		if p.Set != nil {
			msg = p.change(msg)
		}
		if p.Fails {
			if err := w.side.Err(s.Send, context.Background(), s.Params, "", ptr(msg), nil, nil); err == nil {
				bad("emission of "+core.Show(in), p, "an error", "ok")
				return
			}
			if len(w.sent) > 0 {
				bad("emission of "+core.Show(in), p, "nothing sent", core.Show(<-w.sent))
				return
			}
			continue
		}
		if err := w.side.Err(s.Send, context.Background(), s.Params, "", ptr(msg), nil, nil); err != nil {
			bad("emission of "+core.Show(in), p, "ok", err.Error())
			return
		}
		out := <-w.sent
		if w.addr != s.Addr {
			bad("channel", p, s.Addr, w.addr)
			return
		}
		if d := diff(s, p, out); d != "" {
			exp := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: p.EP}
			for k, v := range p.EH {
				exp.Headers[k] = []byte(v)
			}
			for k, v := range p.EHB {
				exp.Headers[k] = v
			}
			bad(d+" of "+core.Show(in), p, core.Show(exp), core.Show(out))
			return
		}
		// what is sent is received as it was
		if p.fresh() || p.Set != nil {
			continue
		}
		again, err := w.deliver(s.Addr, out)
		if err != nil || !equal(reflect.ValueOf(msg), reflect.ValueOf(again)) {
			bad("second reception of "+core.Show(out), p, fmt.Sprintf("%+v", msg), fmt.Sprintf("%+v, %v", again, err))
			return
		}
	}
}

func ptr(msg any) any {
	v := reflect.New(reflect.TypeOf(msg))
	v.Elem().Set(reflect.ValueOf(msg))
	return v.Interface()
}

// fresh stands for a value chosen by the library.
const fresh = "@fresh"

// diff compares what is sent with what is expected.
func diff(s echoSc, p *probe, out extensions.BrokerMessage) string {
	js := map[string]bool{}
	for _, h := range s.JSON {
		js[h] = true
	}
	for k, v := range p.EHB {
		o, ok := out.Headers[k]
		if !ok || (js[k] && !sameJSON(v, o)) || (!js[k] && !bytes.Equal(v, o)) {
			return "header " + k
		}
	}
	if len(out.Headers) != len(p.EH)+len(p.EHB) {
		return "headers"
	}
	for k, v := range p.EH {
		o, ok := out.Headers[k]
		if v == fresh && ok && len(o) > 0 {
			continue
		}
		if !ok || (js[k] && !sameJSON([]byte(v), o)) || (!js[k] && v != string(o)) {
			return "header " + k
		}
	}
	if (s.Raw && !bytes.Equal(p.EP, out.Payload)) || (!s.Raw && !sameJSON(p.EP, out.Payload)) {
		return "payload"
	}
	return ""
}

// number gives the decimal value of a number.
func number(v reflect.Value) string {
	switch {
	case v.Kind() == reflect.Pointer:
		return number(v.Elem())
	case v.CanInt():
		return strconv.FormatInt(v.Int(), 10)
	case v.CanFloat():
		return strconv.FormatFloat(v.Float(), 'g', -1, v.Type().Bits())
	}
	return v.Kind().String()
}

// sameJSON compares two JSON documents; the second one must be valid and without duplicated keys.
func sameJSON(a, b []byte) bool {
	x, err := parse(a)
	core.Must(err)
	y, err := parse(b)
	return err == nil && reflect.DeepEqual(x, y)
}

// parse gives a canonical value: numbers are rationals, duplicated keys are errors.
func parse(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := value(d)
	if err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func value(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			m := map[string]any{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				if _, dup := m[k.(string)]; dup {
					return nil, fmt.Errorf("duplicated key %q", k)
				}
				if m[k.(string)], err = value(d); err != nil {
					return nil, err
				}
			}
			_, err := d.Token()
			return m, err
		}
		s := []any{}
		for d.More() {
			v, err := value(d)
			if err != nil {
				return nil, err
			}
			s = append(s, v)
		}
		_, err := d.Token()
		return s, err
	case json.Number:
		q, ok := new(big.Rat).SetString(x.String())
		if !ok {
			return nil, fmt.Errorf("number %s", x)
		}
		return "number " + q.RatString(), nil
	case string:
		return "string " + x, nil
	}
	return t, nil
}

// equal compares two values of generated types: dates are the same instant, and nil slices or maps are empty ones.
func equal(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if t := reflect.TypeOf(time.Time{}); a.Type().ConvertibleTo(t) && a.Kind() == reflect.Struct {
		return a.Convert(t).Interface().(time.Time).Equal(b.Convert(t).Interface().(time.Time))
	}
	if a.Type() == reflect.TypeOf(netip.Addr{}) {
		return a.Interface() == b.Interface()
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		// not a number is itself
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.NumField() > 0 && !a.Field(0).CanInterface() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		ks := a.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			if !b.MapIndex(k).IsValid() || !equal(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
