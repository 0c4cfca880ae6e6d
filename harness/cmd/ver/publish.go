package main

import (
	"context"
	"encoding/json"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

// publishMode replays VersioningPublish.tla.
func publishMode(line []byte, r *core.Result) {
	var s struct {
		Version string            `json:"version"`
		Headers map[string]string `json:"headers"`
		Nil     bool              `json:"nil"`
		Key     string            `json:"key"`
		Default string            `json:"def"`
		Fails   bool              `json:"fails"`
		Expect  map[string]string `json:"expect"`
	}
	core.Must(json.Unmarshal(line, &s))
	type pub struct {
		Channel string
		Headers map[string]string
		Payload string
		Caller  bool
	}
	var got []pub
	b := &core.Broker{OnPublish: func(ctx context.Context, channel string, m extensions.BrokerMessage) error {
		h := map[string]string{}
		for k, v := range m.Headers {
			h[k] = string(v)
		}
		got = append(got, pub{channel, h, string(m.Payload), ctx.Value(ctxKey{}) == "value of the caller"})
		if s.Fails {
			return core.ErrPublish
		}
		return nil
	}}
	m := extensions.BrokerMessage{Payload: []byte("payload \x00\xff")}
	if !s.Nil {
		m.Headers = map[string][]byte{}
		for k, v := range s.Headers {
			m.Headers[k] = []byte(v)
		}
	}
	err := newWrapper(b, s.Default, s.Key).Publish(versionCtx(s.Version, ""), "the channel", m)
	if errors.Is(err, core.ErrPublish) != s.Fails || (err != nil) != s.Fails {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "error", Expected: s.Fails, Observed: err})
		return
	}
	exp := []pub{{"the channel", s.Expect, "payload \x00\xff", true}}
	if s.Expect == nil {
		exp[0].Headers = map[string]string{}
	}
	r.Steps++
	if !core.Same(exp, got) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "published message", Expected: exp, Observed: got})
	}
}
