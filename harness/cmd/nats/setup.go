package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"verifharness/core"
	"verifharness/natsd"

	natsgo "github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
)

// setupMode creates controllers (StreamSetup.tla).
func setupMode(line []byte, r *core.Result) {
	var s struct {
		D struct {
			Stream   string   `json:"stream"`
			Consumer string   `json:"consumer"`
			Conn     string   `json:"conn"`
			Has      []string `json:"has"`
			Refuses  string   `json:"refuses"`
		} `json:"d"`
		Calls      []string `json:"calls"`
		OK         bool     `json:"ok"`
		Subscribes bool     `json:"subscribes"`
		Judged     bool     `json:"judged"`
		Reverse    bool     `json:"reverse"`
	}
	core.Must(json.Unmarshal(line, &s))
	r.Steps++
	bad := func(what string, exp, obs any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: what, Expected: exp, Observed: obs})
	}
	srv := natsd.New()
	defer srv.Close()
	js := natsd.NewJetStream(srv, "S", "C")
	for _, h := range s.D.Has {
		js.Exists[h] = true
	}
	js.Fails[map[string]string{"create": "STREAM.CREATE.S", "update": "STREAM.UPDATE.S", "consumer": "CONSUMER.CREATE.S.C", "nothing": ""}[s.D.Refuses]] = true
	var opts []natsjetstream.ControllerOption
	name := map[string]string{"config": "S", "anonymous": ""}[s.D.Stream]
	switch s.D.Stream {
	case "name":
		opts = append(opts, natsjetstream.WithStream("S"))
	case "config", "anonymous":
		opts = append(opts, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: name, Description: "described", Subjects: []string{"a.*", "b"}}))
	}
	name = map[string]string{"config": "C", "anonymous": ""}[s.D.Consumer]
	switch s.D.Consumer {
	case "name":
		opts = append(opts, natsjetstream.WithConsumer("C"))
	case "config", "anonymous":
		opts = append(opts, natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: name, Description: "described", MaxDeliver: 7}))
	}
	var conn *natsgo.Conn
	switch s.D.Conn {
	case "options":
		opts = append(opts, natsjetstream.WithConnectionOpts(natsgo.Name("the name")))
	case "given":
		var err error
		conn, err = natsgo.Connect(srv.URL(), natsgo.Name("the name"))
		core.Must(err)
		defer conn.Close()
		opts = append(opts, natsjetstream.WithConnection(conn))
	}
	// the order of the options does not matter
	if s.Reverse {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	ctl, err := natsjetstream.NewController(srv.URL(), opts...)
	if (err == nil) != s.OK {
		bad("creation", s.OK, fmt.Sprint(err))
		return
	}
	calls := []string{}
	for _, c := range js.Calls {
		calls = append(calls, c.Subject)
		wants := `"max_deliver":7`
		if strings.HasPrefix(c.Subject, "STREAM") {
			wants = `"subjects":["a.*","b"]`
		}
		if !strings.Contains(string(c.Data), wants) || !strings.Contains(string(c.Data), `"description":"described"`) {
			bad("configuration", wants, string(c.Data))
			return
		}
	}
	if !reflect.DeepEqual(calls, append([]string{}, s.Calls...)) {
		bad("requests", s.Calls, calls)
		return
	}
	conns, _ := srv.Events(0, 1, func(e natsd.Event) bool { return e.Kind == "connect" })
	want := ""
	if s.D.Conn != "default" {
		want = "the name"
	}
	if len(conns) != 1 || conns[0].Name != want {
		bad("connections", want, fmt.Sprintf("%+v", conns))
		return
	}
	if err != nil {
		return
	}
	if s.Judged {
		for i := 0; i < 2; i++ {
			sub, err := ctl.Subscribe(context.Background(), "a")
			if (err == nil) != s.Subscribes {
				bad("subscription", s.Subscribes, fmt.Sprint(err))
				return
			}
			if err == nil {
				sub.Cancel(context.Background())
				continue
			}
			// it can be made once the consumer exists
			js.Exist("C", true)
			s.Subscribes = true
		}
	}
	ctl.Close()
	if conn != nil && conn.IsClosed() {
		bad("end", "the given connection is kept", "closed")
	}
	if conn == nil {
		if ev, _ := srv.Events(0, 1, func(e natsd.Event) bool { return e.Kind == "end" }); len(ev) != 1 {
			bad("end", "the connection is closed", len(ev))
		}
	}
}
