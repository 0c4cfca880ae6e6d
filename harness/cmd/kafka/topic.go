package main

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"verifharness/core"
	"verifharness/kafkad"
)

type topicSc struct {
	Op   string `json:"op"`
	OK   bool   `json:"ok"`
	Plan struct {
		There   bool     `json:"there"`
		Create  string   `json:"create"`
		Hidden  int      `json:"hidden"`
		Produce []string `json:"produce"`
		Fetch   []string `json:"fetch"`
		Commit  []string `json:"commit"`
		Auto    bool     `json:"auto"`
		Group   bool     `json:"group"`
	} `json:"plan"`
}

var codes = map[string]int{"leader": 6, "large": 10, "denied": 29, "storage": 56, "replica": 9, "unknown": 3, "moving": 16}

// script gives codes one after the other.
func script(l []string) func(string) int {
	i := 0
	return func(string) int {
		if i == len(l) {
			return 0
		}
		i++
		return codes[l[i-1]]
	}
}

func topicMode(line []byte, r *core.Result) {
	var s topicSc
	core.Must(json.Unmarshal(line, &s))
	bad := func(what string, exp, obs any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: what, Expected: exp, Observed: obs})
	}
	srv := kafkad.New()
	defer srv.Close()
	p := s.Plan
	srv.Hidden = p.Hidden
	srv.OnCreate = func(name string) (int, bool) {
		if name != "top" {
			return 29, false
		}
		switch p.Create {
		case "refused":
			return 29, false
		case "other":
			return 36, true
		}
		return 0, true
	}
	srv.OnProduce, srv.OnFetch, srv.OnCommit = script(p.Produce), script(p.Fetch), script(p.Commit)
	if p.There {
		srv.Create("top", 1, 0)
	}
	ctx := context.Background()
	opts := []kafka.ControllerOption{kafka.WithAutoCommit(p.Auto)}
	if p.Group {
		opts = append(opts, kafka.WithGroupID("g"))
	}
	c, err := kafka.NewController([]string{srv.Listen(false, false)}, opts...)
	core.Must(err)
	switch s.Op {
	case "pub":
		err = c.Publish(ctx, "top", extensions.BrokerMessage{Headers: map[string][]byte{"k": []byte("v")}, Payload: []byte("text")})
		if (err == nil) != s.OK {
			bad("success of the publication", s.OK, fmt.Sprint(err))
			return
		}
		n := 0
		if s.OK {
			n = 1
		}
		if l := srv.Log("top"); len(l) != n || n == 1 && shown(l[0]) != show(map[string][]byte{"k": []byte("v")}, []byte("text")) {
			bad("messages of the topic", n, fmt.Sprintf("%+v", l))
			return
		}
	case "sub":
		sub, err := c.Subscribe(ctx, "top")
		if (err == nil) != s.OK {
			bad("success of the subscription", s.OK, fmt.Sprint(err))
			return
		}
		if err != nil {
			break
		}
		defer sub.Cancel(ctx)
		for i := 0; i < 3; i++ {
			srv.Append("top", 0, kafkad.Rec{Value: []byte(fmt.Sprint(i))})
		}
		for i := 0; i < 4; i++ {
			if i == 3 { // nothing between
				srv.Append("top", 0, kafkad.Rec{Value: []byte(fmt.Sprint(i))})
			}
			select {
			case m := <-sub.MessagesChannel():
				if string(m.Payload) != fmt.Sprint(i) {
					bad("messages", i, string(m.Payload))
					return
				}
				m.Ack()
			case <-time.After(2 * kafkad.Patience):
				bad("messages", i, "nothing")
				return
			}
			if p.Group && i > 0 && !srv.Wait(func() bool { return true }) {
				return
			}
		}
		if p.Group {
			if !wait(func() bool { return srv.Committed("g", "top", 0) == 4 }) {
				bad("committed", 4, srv.Committed("g", "top", 0))
				return
			}
		}
		sub.Cancel(ctx)
		if m, ok := <-sub.MessagesChannel(); ok {
			bad("messages after the cancellation", "closed", show(m.Headers, m.Payload))
			return
		}
	}
	if !closed(srv) {
		bad("at the end", "no connection", "some")
	}
}
