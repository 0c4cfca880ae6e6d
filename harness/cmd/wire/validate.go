package main

import (
	"encoding/json"
	"fmt"

	"github.com/go-playground/validator/v10"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// --- Messages received, then validated (Validation.tla) ------------------------------

type validateSc struct {
	Pkg    string             `json:"pkg"`
	Recv   string             `json:"recv"`
	Sub    string             `json:"sub"`
	Addr   string             `json:"addr"`
	Base   map[string]rawJSON `json:"base"` // valid values
	BaseH  map[string]string  `json:"baseh"`
	Probes []validateProbe    `json:"probes"`
}

type rawJSON = json.RawMessage

// validateProbe is what differs from the base.
type validateProbe struct {
	P  map[string]rawJSON `json:"p,omitempty"` // changed properties
	H  map[string]string  `json:"h,omitempty"` // changed headers
	DP []string           `json:"dp,omitempty"`
	DH []string           `json:"dh,omitempty"` // removed ones
	OK bool               `json:"ok"`
}

func (s *validateSc) message(p validateProbe) extensions.BrokerMessage {
	payload, headers := map[string]rawJSON{}, map[string][]byte{}
	for k, v := range s.Base {
		payload[k] = v
	}
	for k, v := range s.BaseH {
		headers[k] = []byte(v)
	}
	for k, v := range p.P {
		payload[k] = v
	}
	for k, v := range p.H {
		headers[k] = []byte(v)
	}
	for _, k := range p.DP {
		delete(payload, k)
	}
	for _, k := range p.DH {
		delete(headers, k)
	}
	b, err := json.Marshal(payload)
	core.Must(err)
	return extensions.BrokerMessage{Headers: headers, Payload: b}
}

// validate runs the validator as the user does.
func validate(v *validator.Validate, msg any) (err error, panicked any) {
	defer func() { panicked = recover() }()
	return v.Struct(msg), nil
}

func validateMode(line []byte, r *core.Result) {
	var s validateSc
	core.Must(json.Unmarshal(line, &s))
	bad := func(where string, p validateProbe, exp, obs any) {
		x := s
		x.Probes = []validateProbe{p}
		b, _ := json.Marshal(x)
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: b, Where: where, Expected: exp, Observed: obs})
	}
	w, err := wire(core.Packages[s.Pkg], s.Recv, s.Sub, nil)
	if err != nil {
		bad("subscription", validateProbe{}, "ok", err.Error())
		return
	}
	v := validator.New()
	for _, p := range s.Probes {
		r.Steps++
		in := s.message(p)
		msg, err := w.deliver(s.Addr, in)
		if err != nil {
			bad("reception of "+core.Show(in), p, "a message", err.Error())
			return
		}
		err, panicked := validate(v, msg)
		if panicked != nil {
			bad("validation", p, "no panic", fmt.Sprint(panicked))
			return
		}
		if p.OK != (err == nil) {
			bad("validation", p, map[bool]string{true: "accepted", false: "rejected"}[p.OK], fmt.Sprint(err))
			return
		}
	}
}
