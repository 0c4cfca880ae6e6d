package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"sort"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	kafkago "github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/sasl/plain"
	"verifharness/core"
	"verifharness/kafkad"
)

type options struct {
	TLS   bool   `json:"tls"`
	SASL  string `json:"sasl"`
	Group string `json:"group"`
	Part  int    `json:"part"`
	Max   int    `json:"max"`
	Test  bool   `json:"test"`
}

type optSc struct {
	Opts []options `json:"opts"`
	Who  []struct {
		P string `json:"p"`
		B string `json:"b"`
	} `json:"who"`
	Salt  int `json:"salt"`
	Steps []struct {
		A struct {
			Op string `json:"op"`
			C  int    `json:"c"`
		} `json:"a"`
		O struct {
			OK     bool   `json:"ok"`
			Conn   bool   `json:"conn"`
			Secure bool   `json:"secure"`
			User   string `json:"user"`
			Group  string `json:"group"`
			Parts  []int  `json:"parts"`
			Max    int    `json:"max"`
		} `json:"o"`
	} `json:"steps"`
}

var passwords = map[string]string{"ann": "x y", "bob": "é"}

func (o options) list(salt int) (res []kafka.ControllerOption) {
	if o.TLS || salt%5 == 0 {
		var c *tls.Config
		if o.TLS {
			c = &tls.Config{InsecureSkipVerify: true}
		}
		res = append(res, kafka.WithTLS(c))
	}
	switch o.SASL {
	case "":
	case "bad":
		res = append(res, kafka.WithSasl(plain.Mechanism{Username: "ann", Password: "y"}))
	default:
		res = append(res, kafka.WithSasl(plain.Mechanism{Username: o.SASL, Password: passwords[o.SASL]}))
	}
	if o.Group != "" {
		res = append(res, kafka.WithGroupID(o.Group))
	}
	if o.Part != 0 {
		res = append(res, kafka.WithPartition(o.Part))
	}
	if o.Max != 0 {
		res = append(res, kafka.WithMaxBytes(o.Max))
	}
	if !o.Test || salt%3 == 0 {
		res = append(res, kafka.WithConnectionTest(o.Test))
	}
	if salt%2 == 0 { // the order does not count
		for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// closed returns whether all of the connections are closed in the end.
func closed(srv *kafkad.Server) bool {
	return srv.Wait(func() bool { return srv.Connections() == 0 })
}

func optionsMode(line []byte, r *core.Result) {
	var s optSc
	core.Must(json.Unmarshal(line, &s))
	srv := kafkad.New()
	defer srv.Close()
	srv.Users = passwords
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	core.Must(err)
	defer ln.Close()
	go func() { // nobody answers there
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			nc.Close()
		}
	}()
	addr := map[string]string{"plain": srv.Listen(false, false), "tls": srv.Listen(true, false), "auth": srv.Listen(true, true), "down": ln.Addr().String()}
	for _, t := range []string{"t1", "t2"} {
		srv.Create(t, 2, 0)
		for p := 0; p < 2; p++ {
			srv.Append(t, p, kafkad.Rec{Value: []byte(fmt.Sprint(t, "/", p))})
		}
	}
	ctx := context.Background()
	ctls := map[int]*kafka.Controller{}
	subs := map[int]extensions.BrokerChannelSubscription{}
	defer func() {
		for _, x := range subs {
			x.Cancel(ctx)
		}
	}()
	seen := 0
	size := map[int]int{}
	for n, st := range s.Steps {
		r.Steps++
		a, o := st.A, st.O
		bad := func(what string, exp, obs any) {
			r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: fmt.Sprintf("step %d: %+v: %s", n, a, what), Expected: exp, Observed: obs})
		}
		t := fmt.Sprint("t", a.C)
		var err error
		switch a.Op {
		case "skip":
			continue
		case "new":
			var c *kafka.Controller
			if c, err = kafka.NewController([]string{addr[s.Who[a.C-1].B]}, s.Opts[a.C-1].list(s.Salt+a.C)...); err == nil {
				ctls[a.C] = c
			} else if c != nil {
				bad("controller with an error", nil, fmt.Sprintf("%+v", c))
				return
			}
		case "pub":
			err = ctls[a.C].Publish(ctx, t, extensions.BrokerMessage{Payload: []byte(t + "/new")})
		case "sub":
			var sub extensions.BrokerChannelSubscription
			if sub, err = ctls[a.C].Subscribe(ctx, t); err == nil {
				subs[a.C] = sub
				var exp, got []string
				for _, p := range o.Parts {
					exp = append(exp, fmt.Sprint(t, "/", p))
				}
				for range exp {
					select {
					case m := <-sub.MessagesChannel():
						got = append(got, string(m.Payload))
						m.Ack()
					case <-time.After(kafkad.Patience):
					}
				}
				sort.Strings(got)
				if !reflect.DeepEqual(exp, got) {
					bad("messages", exp, got)
					return
				}
			}
		}
		if (err == nil) != o.OK {
			bad("success", o.OK, fmt.Sprint(err))
			return
		}
		evs := srv.Events(seen, func(e kafkad.Event) bool { return e.Kind != "end" && e.Kind != "commit" })
		seen = srv.Count()
		if !o.Conn && len(evs) != 0 {
			bad("what the broker gets", "nothing", fmt.Sprintf("%+v", evs))
			return
		}
		if !o.OK {
			continue
		}
		if o.Conn && len(evs) == 0 {
			bad("what the broker gets", "something", "nothing")
			return
		}
		parts := map[int]bool{}
		if a.Op == "sub" {
			size[a.C] = o.Max
		}
		for _, e := range evs {
			mine := func(secure bool, user string) bool {
				return e.Secure == secure && (e.Kind == "connect" || e.User == user) && (e.Kind != "auth" || user != "")
			}
			group := func(g string) bool { return e.Kind != "join" || g != "" && e.Group == g }
			// controllers can connect again at any time
			other := e.Kind == "connect" || e.Kind == "auth" || e.Kind == "join" || e.Kind == "fetch"
			ok := mine(o.Secure, o.User) && group(o.Group)
			for c := range ctls {
				ok = ok || other && mine(s.Opts[c-1].TLS, s.Opts[c-1].SASL) && group(s.Opts[c-1].Group)
			}
			what := ""
			switch {
			case !ok:
				what = "connection"
			case e.Kind == "fetch":
				// of the controller of this topic
				c := int(e.Topic[1] - '0')
				if max := size[c]; e.MaxBytes < max || e.MaxBytes > max+200 {
					what = "maximum size"
				}
				if !mine(s.Opts[c-1].TLS, s.Opts[c-1].SASL) {
					what = "connection of the reader"
				}
			case e.Topic != t && (e.Kind == "produce" || e.Kind == "create"):
				what = "topic"
			}
			if what != "" {
				bad(what, fmt.Sprintf("%+v", o), fmt.Sprintf("%+v", e))
				return
			}
			if e.Kind == "fetch" && e.Topic == t {
				parts[e.Partition] = true
			}
		}
		if a.Op == "sub" && len(parts) != len(o.Parts) {
			bad("partitions", o.Parts, parts)
			return
		}
		if d := kafkago.DefaultDialer; d.TLS != nil || d.SASLMechanism != nil {
			bad("default of the library", "unchanged", fmt.Sprintf("%+v", d))
			return
		}
	}
	for _, x := range subs {
		x.Cancel(ctx)
	}
	if !closed(srv) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: line, Where: "at the end", Expected: "no connection", Observed: "some"})
	}
}
