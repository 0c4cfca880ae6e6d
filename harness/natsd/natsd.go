// Package natsd is a NATS server for tests: it speaks enough of the protocol for
// the client, records what it receives and sends what it is told to.
package natsd

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Header is a header line.
type Header struct{ Key, Value string }

// Msg is a message.
type Msg struct {
	Subject string
	Reply   string
	Headers []Header
	Data    []byte
}

// Event is something received by the server.
type Event struct {
	Kind  string // connect, pub, sub, unsub, end
	Conn  int
	Name  string // connect: name of the client
	Sub   *Sub   // sub, unsub
	Msg   Msg    // pub
	Bytes string // connect: first bytes
}

// Sub is a subscription of a client.
type Sub struct {
	Conn           int
	Subject, Queue string
	sid            string
	c              *client
	max, sent      int
	Gone           bool
}

type client struct {
	n    int
	conn net.Conn
	w    *bufio.Writer
	wmu  sync.Mutex
}

// Server is the server.
type Server struct {
	ln     net.Listener
	mu     sync.Mutex
	sendMu sync.Mutex
	cond   *sync.Cond
	subs   []*Sub
	conns  []*client
	events []Event

	// Pick chooses, between the members of a queue group, the one that gets a message.
	Pick func(m Msg, group []*Sub) *Sub
	// OnPub, when it returns true, replaces the delivery of the messages.
	OnPub func(m Msg) bool
	// OnEvent is called with the events, in order.
	OnEvent func(e Event)
	// OnSend is called before a message is sent.
	OnSend func(sub *Sub, m Msg)
}

// New starts a server.
func New() *Server {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &Server{ln: ln}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			c := &client{n: len(s.conns), conn: conn, w: bufio.NewWriter(conn)}
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s
}

// URL returns the address of the server.
func (s *Server) URL() string { return "nats://" + s.ln.Addr().String() }

// Close ends the server and its connections.
func (s *Server) Close() {
	s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.conn.Close()
	}
}

func (s *Server) event(e Event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.locked(e)
}

func (s *Server) locked(e Event) {
	s.events = append(s.events, e)
	if s.OnEvent != nil {
		s.OnEvent(e)
	}
	s.cond.Broadcast()
}

// Events returns the events since the one given, once there are at least min of
// them that are wanted (or after a long time).
func (s *Server) Events(since, min int, want func(e Event) bool) ([]Event, int) {
	deadline := time.Now().Add(Patience)
	stop := time.AfterFunc(Patience, s.cond.Broadcast)
	defer stop.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		var res []Event
		for _, e := range s.events[since:] {
			if want(e) {
				res = append(res, e)
			}
		}
		if len(res) >= min || time.Now().After(deadline) {
			return res, len(s.events)
		}
		s.cond.Wait()
	}
}

// Patience is the time given to what is expected.
var Patience = 20 * time.Second

func (c *client) write(f func(w *bufio.Writer)) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	f(c.w)
	c.w.Flush()
}

func (s *Server) serve(c *client) {
	info := map[string]any{"server_id": "VERIF", "server_name": "verif", "version": "2.10.0", "proto": 1, "headers": true,
		"max_payload": 1 << 20, "client_id": c.n + 1, "go": "go", "jetstream": true}
	b, _ := json.Marshal(info)
	c.write(func(w *bufio.Writer) { fmt.Fprintf(w, "INFO %s\r\n", b) })
	defer func() {
		c.conn.Close()
		s.mu.Lock()
		for _, sub := range s.subs {
			if sub.c == c {
				sub.Gone = true
			}
		}
		s.mu.Unlock()
		s.event(Event{Kind: "end", Conn: c.n})
	}()
	r := bufio.NewReader(c.conn)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct{ Name string }
			_ = json.Unmarshal([]byte(strings.TrimSpace(line[len(f[0]):])), &o)
			s.event(Event{Kind: "connect", Conn: c.n, Name: o.Name})
		case "PING":
			c.write(func(w *bufio.Writer) { fmt.Fprint(w, "PONG\r\n") })
		case "PONG":
		case "SUB":
			sub := &Sub{Conn: c.n, Subject: f[1], sid: f[len(f)-1], c: c}
			if len(f) == 4 {
				sub.Queue = f[2]
			}
			s.mu.Lock()
			s.subs = append(s.subs, sub)
			s.locked(Event{Kind: "sub", Conn: c.n, Sub: sub})
			s.mu.Unlock()
		case "UNSUB":
			s.mu.Lock()
			var gone *Sub
			for _, sub := range s.subs {
				if sub.c == c && sub.sid == f[1] && !sub.Gone {
					if len(f) == 3 {
						sub.max, _ = strconv.Atoi(f[2])
					}
					if len(f) == 2 || sub.sent >= sub.max {
						sub.Gone = true
						gone = sub
					}
				}
			}
			if gone != nil {
				s.locked(Event{Kind: "unsub", Conn: c.n, Sub: gone})
			}
			s.mu.Unlock()
		case "PUB", "HPUB":
			m := Msg{Subject: f[1]}
			h := strings.ToUpper(f[0]) == "HPUB"
			n := 1
			if h {
				n = 2
			}
			if len(f) == 3+n {
				m.Reply = f[2]
			}
			size, _ := strconv.Atoi(f[len(f)-1])
			data := make([]byte, size+2)
			if _, err := io.ReadFull(r, data); err != nil {
				return
			}
			data = data[:size]
			if h {
				hs, _ := strconv.Atoi(f[len(f)-2])
				m.Headers = parse(string(data[:hs]))
				data = data[hs:]
			}
			m.Data = data
			s.event(Event{Kind: "pub", Conn: c.n, Msg: m})
			if s.OnPub == nil || !s.OnPub(m) {
				s.Deliver(m)
			}
		}
	}
}

func parse(h string) []Header {
	var res []Header
	lines := strings.Split(h, "\r\n")
	for _, l := range lines[1:] {
		if l == "" {
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		res = append(res, Header{k, strings.TrimPrefix(v, " ")})
	}
	return res
}

// Match tells if a subject matches the one of a subscription.
func Match(pattern, subject string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, t := range p {
		if t == ">" {
			return len(s) > i
		}
		if i >= len(s) || (t != "*" && t != s[i]) {
			return false
		}
	}
	return len(p) == len(s)
}

// Matching returns the subscriptions that should get a message.
func (s *Server) Matching(m Msg) []*Sub {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []*Sub
	groups := map[string][]*Sub{}
	var order []string
	for _, sub := range s.subs {
		if sub.Gone || !Match(sub.Subject, m.Subject) {
			continue
		}
		if sub.Queue == "" {
			res = append(res, sub)
			continue
		}
		k := sub.Queue
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], sub)
	}
	for _, k := range order {
		g := groups[k]
		sub := g[0]
		if s.Pick != nil {
			sub = s.Pick(m, g)
		}
		if sub != nil {
			res = append(res, sub)
		}
	}
	return res
}

// Deliver sends a message to the subscriptions that match, and returns their count.
func (s *Server) Deliver(m Msg) int {
	subs := s.Matching(m)
	for _, sub := range subs {
		s.Send(sub, m)
	}
	return len(subs)
}

// Send sends a message on a subscription, if it still exists.
func (s *Server) Send(sub *Sub, m Msg) bool {
	s.sendMu.Lock()
	defer s.sendMu.Unlock()
	s.mu.Lock()
	if sub.Gone {
		s.mu.Unlock()
		return false
	}
	if s.OnSend != nil {
		s.OnSend(sub, m)
	}
	sub.sent++
	if sub.max > 0 && sub.sent >= sub.max {
		sub.Gone = true
	}
	s.mu.Unlock()
	head := m.Subject + " " + sub.sid
	if m.Reply != "" {
		head += " " + m.Reply
	}
	sub.c.write(func(w *bufio.Writer) {
		if len(m.Headers) == 0 {
			fmt.Fprintf(w, "MSG %s %d\r\n", head, len(m.Data))
		} else {
			h := "NATS/1.0\r\n"
			for _, x := range m.Headers {
				h += x.Key + ": " + x.Value + "\r\n"
			}
			h += "\r\n"
			fmt.Fprintf(w, "HMSG %s %d %d\r\n%s", head, len(h), len(h)+len(m.Data), h)
		}
		w.Write(m.Data)
		fmt.Fprint(w, "\r\n")
	})
	return true
}

// Respond answers a request.
func (s *Server) Respond(m Msg, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	s.Deliver(Msg{Subject: m.Reply, Data: b})
}
