package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"verifharness/core"
	"verifharness/natsd"

	natsgo "github.com/nats-io/nats.go"
)

// jsStress makes one concurrent execution with the JetStream controller.
func jsStress(s *stressSc, rng *rand.Rand) ([]ev, string) {
	srv := natsd.New()
	defer srv.Close()
	js := natsd.NewJetStream(srv, "S", "C")
	js.Exists["C"] = true
	r := &record{start: make(chan struct{}), rng: rng}
	inboxes := map[string]int{}
	srv.OnEvent = func(e natsd.Event) {
		switch {
		case e.Kind == "unsub" && inboxes[e.Sub.Subject] != 0:
			r.add(ev{E: "stop", S: inboxes[e.Sub.Subject]})
		case e.Kind == "pub" && strings.HasPrefix(e.Msg.Subject, "$JS.API.CONSUMER.MSG.NEXT"):
			if inboxes[e.Msg.Reply] == 0 {
				inboxes[e.Msg.Reply] = len(inboxes) + 1
				r.add(ev{E: "start", S: inboxes[e.Msg.Reply]})
			}
		case e.Kind == "pub" && strings.HasPrefix(e.Msg.Subject, "$JS.ACK"):
			k := string(e.Msg.Data)
			switch k {
			case "+ACK":
				k = "ack"
			case `-NAK {"delay": 3000000}`:
				k = "nak"
			}
			r.add(ev{E: "srvack", M: natsd.Sequence(e.Msg), C: k})
		}
	}
	subjects := map[int]string{} // under the lock of r
	srv.OnSend = func(sub *natsd.Sub, m natsd.Msg) {
		if n := number(m.Data); n > 0 {
			r.add(ev{E: "send", S: inboxes[sub.Subject], M: n, C: m.Subject})
		}
	}
	conn, err := natsgo.Connect(srv.URL())
	core.Must(err)
	defer conn.Close()
	ctl, err := natsjetstream.NewController(srv.URL(), natsjetstream.WithStream("S"), natsjetstream.WithConsumer("C"),
		natsjetstream.WithConnection(conn), natsjetstream.WithNakDelay(3*time.Millisecond))
	core.Must(err)
	ctx := context.Background()
	chans := []string{"a", "b", "c.*", "d.>"}
	subjs := []string{"a", "b", "c.x", "c.y", "d.x.y", "d.z", "a", "c"}
	nothing := make(chan struct{})
	close(nothing)
	stop := make(chan struct{})
	var canceled, kept []chan struct{}
	var keptSubs []extensions.BrokerChannelSubscription
	var cmu sync.Mutex
	final := false // under the lock of r
	settle := func(naks map[int]bool) func(n int, m *extensions.AcknowledgeableBrokerMessage) {
		return func(n int, m *extensions.AcknowledgeableBrokerMessage) {
			r.mu.Lock()
			how := "ack"
			if naks[n] && !final {
				how = "nak"
			}
			r.evs = append(r.evs, ev{E: "settle", M: n, C: how})
			r.mu.Unlock()
			if how == "ack" {
				m.Ack()
			} else {
				m.Nak()
			}
		}
	}
	floodChan := ""
	for k := 1; k <= s.Subs; k++ {
		k, ch := k, chans[rng.Intn(len(chans))]
		lazy, cancel, double := s.Flood && k == 1, rng.Intn(3) > 0 || (s.Flood && k == 1), rng.Intn(3) == 0
		if lazy {
			floodChan = ch
		}
		p1, p2, p3, p4 := r.pause(12), r.pause(4), r.pause(12), r.pause(3)
		begin := nothing
		if lazy {
			begin = make(chan struct{})
		}
		naks := map[int]bool{}
		for i := 0; i < 6; i++ {
			naks[1+rng.Intn(20)] = true
		}
		r.run(func() {
			r.add(ev{E: "sub", K: k, C: ch})
			sub, err := ctl.Subscribe(ctx, ch)
			if err != nil {
				r.fail("subscription: %v", err)
				return
			}
			r.add(ev{E: "ready", K: k})
			over := r.reader(k, sub, begin, p2, settle(naks))
			p1()
			if !cancel {
				cmu.Lock()
				kept, keptSubs = append(kept, over), append(keptSubs, sub)
				cmu.Unlock()
				return
			}
			if lazy {
				<-stop
			}
			p3()
			r.add(ev{E: "cancel", K: k})
			if double {
				r.wg.Add(1)
				go func() {
					defer r.wg.Done()
					p4()
					sub.Cancel(ctx)
				}()
			}
			sub.Cancel(ctx)
			r.add(ev{E: "canceled", K: k})
			if lazy {
				close(begin)
			}
			cmu.Lock()
			canceled = append(canceled, over)
			cmu.Unlock()
		})
	}
	n := 0
	sending := sync.WaitGroup{}
	var smu sync.Mutex
	store := func(subject string, direct bool) {
		// the number of a message is its sequence number
		smu.Lock()
		defer smu.Unlock()
		n++
		r.mu.Lock()
		subjects[n] = subject
		r.mu.Unlock()
		if direct {
			js.Store(natsMsg(subject, n))
			return
		}
		if err := ctl.Publish(ctx, subject, extensions.BrokerMessage{Headers: map[string][]byte{"n": []byte(fmt.Sprint(n))}, Payload: []byte(fmt.Sprintf("m%d", n))}); err != nil {
			r.fail("publication: %v", err)
		}
	}
	for i := 0; i < s.Msgs; i++ {
		subject, p, direct, flood := subjs[rng.Intn(len(subjs))], r.pause(30), i%4 != 0, 1
		if s.Flood && i == 0 {
			flood = 80
			subject = map[string]string{"a": "a", "b": "b", "c.*": "c.x", "d.>": "d.z"}[floodChan]
		}
		sending.Add(1)
		r.run(func() {
			defer sending.Done()
			p()
			for j := 0; j < flood; j++ {
				store(subject, direct)
			}
		})
	}
	close(r.start)
	go func() { sending.Wait(); close(stop) }()
	if w := r.finish(); w != "" {
		return r.evs, w
	}
	for _, over := range canceled {
		select {
		case <-over:
		case <-time.After(natsd.Patience):
			return r.evs, "a canceled subscription is not closed"
		}
	}
	calm := func() {
		for i := 0; i < 3; i++ {
			core.Must(conn.Flush())
			core.Must(core.Quiesce())
		}
		r.add(ev{E: "calm"})
	}
	core.SetYield(0, 0)
	calm()
	// everything that has not been acknowledged is sent again
	r.mu.Lock()
	final = true
	acked := map[int]bool{}
	sent := map[int]bool{}
	for _, e := range r.evs {
		if e.E == "srvack" && e.C == "ack" {
			acked[e.M] = true
		}
		if e.E == "send" {
			sent[e.M] = true
		}
	}
	r.mu.Unlock()
	if js.Consuming() {
		for m := 1; m <= n; m++ {
			if !acked[m] && sent[m] {
				js.Again(m)
			}
		}
	}
	calm()
	r.mu.Lock()
	evs := append([]ev{}, r.evs...)
	r.mu.Unlock()
	for _, sub := range keptSubs {
		sub.Cancel(ctx)
	}
	for _, over := range kept {
		<-over
	}
	ctl.Close()
	core.SetYield(s.Gosched, s.Sleep)
	return evs, ""
}

func jsStressMode(line []byte, r *core.Result) { stress(line, r, jsStress) }
