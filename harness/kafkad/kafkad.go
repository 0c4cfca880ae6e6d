// Package kafkad is a Kafka broker for tests: it speaks enough of the protocol for
// the client, keeps topics and consumer groups in memory and records what it receives.
package kafkad

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"net"
	"sync"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/apiversions"
	"github.com/segmentio/kafka-go/protocol/createtopics"
	"github.com/segmentio/kafka-go/protocol/fetch"
	"github.com/segmentio/kafka-go/protocol/findcoordinator"
	"github.com/segmentio/kafka-go/protocol/heartbeat"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/leavegroup"
	"github.com/segmentio/kafka-go/protocol/listoffsets"
	"github.com/segmentio/kafka-go/protocol/metadata"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/offsetfetch"
	"github.com/segmentio/kafka-go/protocol/produce"
	"github.com/segmentio/kafka-go/protocol/saslauthenticate"
	"github.com/segmentio/kafka-go/protocol/saslhandshake"
	"github.com/segmentio/kafka-go/protocol/syncgroup"
)

// Header is a header of a record.
type Header struct {
	Key   string
	Value []byte
}

// Rec is a record.
type Rec struct {
	Key, Value []byte
	Headers    []Header
}

// Event is something received by the broker.
type Event struct {
	Kind      string // connect, auth, end, create, produce, fetch, commit, join, leave
	Conn      int
	Secure    bool   // the connection uses TLS
	User      string // who is authenticated on the connection
	Group     string
	Topic     string
	Partition int
	Offset    int64 // commit
	MaxBytes  int   // fetch: at most this
	Code      int   // create, produce: error
	Rec       Rec   // produce
}

type topic struct {
	parts  [][]Rec
	hidden int // number of times that it is not yet known
}

type conn struct {
	n       int
	nc      net.Conn
	secure  bool
	auth    bool // authentication is needed
	user    string
	mech    string
	host    string
	port    int32
	fetches string // what is being read on this connection
}

type member struct {
	id       string
	meta     []byte
	protos   []joingroup.RequestProtocol
	joined   bool
	conn     int
	assigned []byte
}

type group struct {
	gen      int32
	state    string // empty, joining, syncing, stable
	members  map[string]*member
	leader   string
	offsets  map[string]int64
	sequence int
}

// Server is the broker.
type Server struct {
	mu     sync.Mutex
	cond   *sync.Cond
	lns    []net.Listener
	conns  []*conn
	alive  map[int]*conn
	topics map[string]*topic
	groups map[string]*group
	events []Event
	closed bool

	// What happens to a creation (error, and whether the topic exists then), and errors.
	OnCreate  func(name string) (int, bool)
	OnProduce func(name string) int
	OnFetch   func(name string) int
	OnCommit  func(group string) int
	// Hidden is the number of times that a created topic is not known when it is asked for.
	Hidden int
	// Users are the passwords of the users.
	Users map[string]string
}

// New creates a broker.
func New() *Server {
	s := &Server{alive: map[int]*conn{}, topics: map[string]*topic{}, groups: map[string]*group{}}
	s.cond = sync.NewCond(&s.mu)
	return s
}

var certOnce struct {
	sync.Once
	cert tls.Certificate
}

func certificate() tls.Certificate {
	certOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, t, t, key.Public(), key)
		if err != nil {
			panic(err)
		}
		certOnce.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
	return certOnce.cert
}

// Listen opens a listener, with TLS or not, with authentication or not, and returns its address.
func (s *Server) Listen(secure, auth bool) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.lns = append(s.lns, ln)
	s.mu.Unlock()
	a := ln.Addr().(*net.TCPAddr)
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			c := &conn{n: len(s.conns), nc: nc, secure: secure, auth: auth, host: "127.0.0.1", port: int32(a.Port)}
			s.conns = append(s.conns, c)
			s.alive[c.n] = c
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return ln.Addr().String()
}

// Close ends the broker and its connections.
func (s *Server) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed = true
	for _, l := range s.lns {
		l.Close()
	}
	for _, c := range s.conns {
		c.nc.Close()
	}
	s.cond.Broadcast()
}

// Patience is the time given to what is expected.
var Patience = 20 * time.Second

// wake wakes everybody up, nobody being about to fall asleep.
func (s *Server) wake() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cond.Broadcast()
}

// Wait waits for a condition on the broker, and returns whether it came true.
func (s *Server) Wait(f func() bool) bool {
	deadline := time.Now().Add(Patience)
	stop := time.AfterFunc(Patience, s.wake)
	defer stop.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		s.cond.Wait()
	}
	return true
}

// Locked events: to be called from Wait only.
func (s *Server) Locked(since int, want func(e Event) bool) (res []Event) {
	for _, e := range s.events[since:] {
		if want(e) {
			res = append(res, e)
		}
	}
	return res
}

// Count is the number of events.
func (s *Server) Count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.events)
}

// Events returns the events since the one given.
func (s *Server) Events(since int, want func(e Event) bool) []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Locked(since, want)
}

// Readers returns what is being read on the connections: from Wait only.
func (s *Server) Readers() map[string]int {
	res := map[string]int{}
	for _, c := range s.alive {
		if c.fetches != "" {
			res[c.fetches]++
		}
	}
	return res
}

// Connections returns how many there are: from Wait only.
func (s *Server) Connections() int { return len(s.alive) }

// Committed returns the offset of a group (or -1).
func (s *Server) Committed(group, topic string, partition int) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	o, ok := s.group(group).offsets[key(topic, partition)]
	if !ok {
		return -1
	}
	return o
}

// Stable returns whether all of the members of a group have what they read: from Wait only.
func (s *Server) Stable(name string, members int) bool {
	g := s.groups[name]
	if members == 0 {
		return g == nil || len(g.members) == 0
	}
	return g != nil && len(g.members) == members && g.state == "stable"
}

// Create adds a topic.
func (s *Server) Create(name string, partitions, hidden int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.create(name, partitions, hidden)
}

func (s *Server) create(name string, partitions, hidden int) {
	if s.topics[name] == nil {
		s.topics[name] = &topic{parts: make([][]Rec, partitions), hidden: hidden}
	}
}

// Append adds records to a topic.
func (s *Server) Append(name string, partition int, recs ...Rec) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.topics[name].parts[partition] = append(s.topics[name].parts[partition], recs...)
	s.cond.Broadcast()
}

// Log returns the records of a topic.
func (s *Server) Log(name string) []Rec {
	s.mu.Lock()
	defer s.mu.Unlock()
	var res []Rec
	if t := s.topics[name]; t != nil {
		for _, p := range t.parts {
			res = append(res, p...)
		}
	}
	return res
}

func (s *Server) event(c *conn, e Event) {
	e.Conn, e.Secure, e.User = c.n, c.secure, c.user
	s.events = append(s.events, e)
	s.cond.Broadcast()
}

// known tells what happens to somebody that asks for a topic.
func (t *topic) known() bool {
	if t == nil {
		return false
	}
	if t.hidden > 0 {
		t.hidden--
		return false
	}
	return true
}

func (s *Server) serve(c *conn) {
	defer func() {
		c.nc.Close()
		s.mu.Lock()
		delete(s.alive, c.n)
		s.event(c, Event{Kind: "end"})
		s.mu.Unlock()
	}()
	if c.secure {
		t := tls.Server(c.nc, &tls.Config{Certificates: []tls.Certificate{certificate()}})
		if t.Handshake() != nil {
			return
		}
		c.nc = t
	}
	raw, first := false, true
	for {
		if raw { // authentication without envelope
			var size [4]byte
			if _, err := io.ReadFull(c.nc, size[:]); err != nil {
				return
			}
			n := int(size[0])<<24 | int(size[1])<<16 | int(size[2])<<8 | int(size[3])
			if n < 0 || n > 1<<16 {
				return
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(c.nc, b); err != nil || !s.login(c, b) {
				return
			}
			if _, err := c.nc.Write([]byte{0, 0, 0, 0}); err != nil {
				return
			}
			raw = false
			continue
		}
		version, id, _, msg, err := protocol.ReadRequest(c.nc)
		if err != nil {
			return
		}
		if first {
			s.mu.Lock()
			s.event(c, Event{Kind: "connect"})
			s.mu.Unlock()
			first = false
		}
		var res protocol.Message
		switch m := msg.(type) {
		case *apiversions.Request:
			res = versions()
		case *saslhandshake.Request:
			c.mech = m.Mechanism
			r := &saslhandshake.Response{Mechanisms: []string{"PLAIN"}}
			if m.Mechanism != "PLAIN" {
				r.ErrorCode = 33
			}
			raw = version == 0
			res = r
		case *saslauthenticate.Request:
			r := &saslauthenticate.Response{}
			if !s.login(c, m.AuthBytes) {
				r.ErrorCode, r.ErrorMessage = 58, "no"
			}
			res = r
		default:
			if c.auth && c.user == "" {
				return
			}
			if m, ok := msg.(*fetch.Request); ok {
				s.mu.Lock()
				b := s.fetch(c, id, m)
				s.mu.Unlock()
				if _, err := c.nc.Write(b); err != nil {
					return
				}
				continue
			}
			res = s.answer(c, msg)
		}
		if res == nil {
			continue
		}
		var b bytes.Buffer
		if err := protocol.WriteResponse(&b, version, id, res); err != nil {
			panic(fmt.Sprintf("%T v%d: %v", res, version, err))
		}
		if _, err := c.nc.Write(b.Bytes()); err != nil {
			return
		}
	}
}

// login checks "\0user\0password".
func (s *Server) login(c *conn, b []byte) bool {
	f := bytes.Split(b, []byte{0})
	if len(f) != 3 || s.Users[string(f[1])] == "" || s.Users[string(f[1])] != string(f[2]) {
		return false
	}
	s.mu.Lock()
	c.user = string(f[1])
	s.event(c, Event{Kind: "auth"})
	s.mu.Unlock()
	return true
}

func versions() *apiversions.Response {
	r := &apiversions.Response{}
	for _, x := range [][3]int16{{0, 3, 7}, {1, 10, 10}, {2, 1, 1}, {3, 1, 6}, {8, 2, 2}, {9, 1, 1}, {10, 0, 0}, {11, 1, 1}, {12, 0, 0},
		{13, 0, 0}, {14, 0, 0}, {17, 0, 1}, {18, 0, 2}, {19, 0, 0}, {36, 0, 0}} {
		r.ApiKeys = append(r.ApiKeys, apiversions.ApiKeyResponse{ApiKey: x[0], MinVersion: x[1], MaxVersion: x[2]})
	}
	return r
}

func (s *Server) answer(c *conn, msg protocol.Message) protocol.Message {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch m := msg.(type) {
	case *metadata.Request:
		r := &metadata.Response{ClusterID: "verif", ControllerID: 1, Brokers: []metadata.ResponseBroker{{NodeID: 1, Host: c.host, Port: c.port}}}
		names := m.TopicNames
		all := len(names) == 0
		if all {
			for n := range s.topics {
				names = append(names, n)
			}
		}
		for _, n := range names {
			t := s.topics[n]
			if !t.known() {
				if !all {
					r.Topics = append(r.Topics, metadata.ResponseTopic{Name: n, ErrorCode: 3})
				}
				continue
			}
			x := metadata.ResponseTopic{Name: n}
			for i := range t.parts {
				x.Partitions = append(x.Partitions, metadata.ResponsePartition{PartitionIndex: int32(i), LeaderID: 1, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}})
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *createtopics.Request:
		r := &createtopics.Response{}
		for _, t := range m.Topics {
			code, made := 0, true
			if s.topics[t.Name] != nil {
				code, made = 36, false
			} else if s.OnCreate != nil {
				code, made = s.OnCreate(t.Name)
			}
			if made {
				n := int(t.NumPartitions)
				if n < 1 {
					n = 1
				}
				s.create(t.Name, n, s.Hidden)
			}
			s.event(c, Event{Kind: "create", Topic: t.Name, Code: code, Partition: int(t.NumPartitions)})
			r.Topics = append(r.Topics, createtopics.ResponseTopic{Name: t.Name, ErrorCode: int16(code)})
		}
		return r
	case *produce.Request:
		r := &produce.Response{}
		for _, t := range m.Topics {
			x := produce.ResponseTopic{Topic: t.Topic}
			for _, p := range t.Partitions {
				code := 0
				if tp := s.topics[t.Topic]; tp == nil || int(p.Partition) >= len(tp.parts) {
					code = 3
				} else if s.OnProduce != nil {
					code = s.OnProduce(t.Topic)
				}
				y := produce.ResponsePartition{Partition: p.Partition, ErrorCode: int16(code)}
				for _, rec := range records(p.RecordSet) {
					if code == 0 {
						l := &s.topics[t.Topic].parts[p.Partition]
						y.BaseOffset = int64(len(*l))
						*l = append(*l, rec)
					}
					s.event(c, Event{Kind: "produce", Topic: t.Topic, Partition: int(p.Partition), Rec: rec, Code: code})
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		if m.Acks == 0 {
			return nil
		}
		return r
	case *listoffsets.Request:
		r := &listoffsets.Response{}
		for _, t := range m.Topics {
			x := listoffsets.ResponseTopic{Topic: t.Topic}
			for _, p := range t.Partitions {
				y := listoffsets.ResponsePartition{Partition: p.Partition}
				if tp := s.topics[t.Topic]; tp == nil || int(p.Partition) >= len(tp.parts) {
					y.ErrorCode = 3
				} else if p.Timestamp == -1 {
					y.Offset = int64(len(tp.parts[p.Partition]))
				}
				x.Partitions = append(x.Partitions, y)
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *findcoordinator.Request:
		return &findcoordinator.Response{NodeID: 1, Host: c.host, Port: c.port}
	case *joingroup.Request:
		return s.join(c, m)
	case *syncgroup.Request:
		return s.sync(c, m)
	case *heartbeat.Request:
		g := s.group(m.GroupID)
		return &heartbeat.Response{ErrorCode: g.check(m.MemberID, m.GenerationID, true)}
	case *leavegroup.Request:
		g := s.group(m.GroupID)
		if g.members[m.MemberID] == nil {
			return &leavegroup.Response{ErrorCode: 25}
		}
		delete(g.members, m.MemberID)
		if len(g.members) == 0 {
			g.state = "empty"
		} else {
			g.rebalance()
		}
		s.event(c, Event{Kind: "leave", Group: m.GroupID})
		return &leavegroup.Response{}
	case *offsetcommit.Request:
		g := s.group(m.GroupID)
		r := &offsetcommit.Response{}
		code := g.check(m.MemberID, m.GenerationID, false)
		if code == 0 && s.OnCommit != nil {
			code = int16(s.OnCommit(m.GroupID))
		}
		for _, t := range m.Topics {
			x := offsetcommit.ResponseTopic{Name: t.Name}
			for _, p := range t.Partitions {
				if code == 0 {
					g.offsets[key(t.Name, int(p.PartitionIndex))] = p.CommittedOffset
				}
				s.event(c, Event{Kind: "commit", Group: m.GroupID, Topic: t.Name, Partition: int(p.PartitionIndex), Offset: p.CommittedOffset, Code: int(code)})
				x.Partitions = append(x.Partitions, offsetcommit.ResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: code})
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	case *offsetfetch.Request:
		g := s.group(m.GroupID)
		r := &offsetfetch.Response{}
		for _, t := range m.Topics {
			x := offsetfetch.ResponseTopic{Name: t.Name}
			for _, p := range t.PartitionIndexes {
				o, ok := g.offsets[key(t.Name, int(p))]
				if !ok {
					o = -1
				}
				x.Partitions = append(x.Partitions, offsetfetch.ResponsePartition{PartitionIndex: p, CommittedOffset: o})
			}
			r.Topics = append(r.Topics, x)
		}
		return r
	}
	panic(fmt.Sprintf("%T", msg))
}

func key(t string, p int) string { return fmt.Sprintf("%s/%d", t, p) }

func read(b protocol.Bytes) []byte {
	if b == nil {
		return nil
	}
	x, err := io.ReadAll(b)
	if err != nil {
		panic(err)
	}
	return x
}

func records(set protocol.RecordSet) (res []Rec) {
	for set.Records != nil {
		r, err := set.Records.ReadRecord()
		if err != nil {
			break
		}
		x := Rec{Key: read(r.Key), Value: read(r.Value)}
		for _, h := range r.Headers {
			x.Headers = append(x.Headers, Header{h.Key, append([]byte{}, h.Value...)})
		}
		res = append(res, x)
	}
	return res
}

// fetch builds the answer itself: the library neither writes offsets nor empty sets.
func (s *Server) fetch(c *conn, id int32, m *fetch.Request) []byte {
	wait := time.Duration(m.MaxWaitTime) * time.Millisecond
	if wait > 50*time.Millisecond {
		wait = 50 * time.Millisecond
	}
	deadline := time.Now().Add(wait)
	stop := time.AfterFunc(wait, s.wake)
	defer stop.Stop()
	var b bytes.Buffer
	put := func(x ...any) {
		for _, v := range x {
			if err := binary.Write(&b, binary.BigEndian, v); err != nil {
				panic(err)
			}
		}
	}
	put(id, int32(0), int16(0), int32(0), int32(len(m.Topics)))
	for _, t := range m.Topics {
		put(int16(len(t.Topic)), []byte(t.Topic), int32(len(t.Partitions)))
		for _, p := range t.Partitions {
			if f := key(t.Topic, int(p.Partition)); c.fetches != f {
				c.fetches = f
				s.event(c, Event{Kind: "fetch", Topic: t.Topic, Partition: int(p.Partition), MaxBytes: int(p.PartitionMaxBytes), Offset: p.FetchOffset})
			}
			tp := s.topics[t.Topic]
			code, high := 0, int64(-1)
			var recs []Rec
			if s.OnFetch != nil {
				code = s.OnFetch(t.Topic)
			}
			switch {
			case code != 0:
			case tp == nil || int(p.Partition) >= len(tp.parts):
				code = 3
			default:
				for int64(len(tp.parts[p.Partition])) == p.FetchOffset && time.Now().Before(deadline) && !s.closed {
					s.cond.Wait()
				}
				l := tp.parts[p.Partition]
				high = int64(len(l))
				if p.FetchOffset < 0 || p.FetchOffset > high {
					code = 1
				} else {
					recs = l[p.FetchOffset:]
				}
			}
			put(p.Partition, int16(code), high, high, int64(0), int32(-1))
			if len(recs) == 0 {
				put(int32(0))
				continue
			}
			var l []protocol.Record
			for i, rec := range recs {
				x := protocol.Record{Offset: int64(i), Time: time.Unix(1700000000, 0)}
				if rec.Key != nil {
					x.Key = protocol.NewBytes(rec.Key)
				}
				if rec.Value != nil {
					x.Value = protocol.NewBytes(rec.Value)
				}
				for _, h := range rec.Headers {
					x.Headers = append(x.Headers, protocol.Header{Key: h.Key, Value: h.Value})
				}
				l = append(l, x)
			}
			var rb bytes.Buffer
			set := protocol.RecordSet{Version: 2, Records: protocol.NewRecordReader(l...)}
			if _, err := set.WriteTo(&rb); err != nil {
				panic(err)
			}
			raw := rb.Bytes()
			binary.BigEndian.PutUint64(raw[4:], uint64(p.FetchOffset))
			put(raw)
		}
	}
	res := make([]byte, 4, 4+b.Len())
	binary.BigEndian.PutUint32(res, uint32(b.Len()))
	return append(res, b.Bytes()...)
}

func (s *Server) group(name string) *group {
	if s.groups[name] == nil {
		s.groups[name] = &group{state: "empty", members: map[string]*member{}, offsets: map[string]int64{}}
	}
	return s.groups[name]
}

// check returns the error for a member.
func (g *group) check(id string, gen int32, beat bool) int16 {
	switch {
	case g.members[id] == nil:
		return 25
	case gen != g.gen:
		return 22
	case beat && g.state == "joining":
		return 27
	}
	return 0
}

func (g *group) rebalance() {
	if g.state != "joining" {
		g.state = "joining"
		for _, m := range g.members {
			m.joined = false
		}
	}
	for _, m := range g.members {
		if !m.joined {
			return
		}
	}
	// everybody is there
	g.gen++
	g.state = "syncing"
	g.leader = ""
	for id, m := range g.members {
		m.assigned = nil
		if g.leader == "" || id < g.leader {
			g.leader = id
		}
	}
}

func (s *Server) join(c *conn, m *joingroup.Request) protocol.Message {
	g := s.group(m.GroupID)
	id := m.MemberID
	if id != "" && g.members[id] == nil {
		return &joingroup.Response{ErrorCode: 25}
	}
	if id == "" {
		g.sequence++
		id = fmt.Sprintf("member-%03d", g.sequence)
	}
	if g.state != "joining" {
		g.state = "joining"
		for _, x := range g.members {
			x.joined = false
		}
	}
	x := &member{id: id, joined: true, protos: m.Protocols, conn: c.n}
	g.members[id] = x
	s.event(c, Event{Kind: "join", Group: m.GroupID})
	before := g.gen
	g.rebalance()
	s.cond.Broadcast()
	for g.gen == before && !s.closed && g.members[id] == x && s.alive[c.n] != nil {
		s.cond.Wait()
	}
	if g.members[id] != x {
		return &joingroup.Response{ErrorCode: 25}
	}
	r := &joingroup.Response{GenerationID: g.gen, LeaderID: g.leader, MemberID: id}
	if len(x.protos) > 0 {
		r.ProtocolName = x.protos[0].Name
	}
	if g.leader == id {
		for _, y := range g.members {
			z := joingroup.ResponseMember{MemberID: y.id}
			for _, p := range y.protos {
				if p.Name == r.ProtocolName {
					z.Metadata = p.Metadata
				}
			}
			r.Members = append(r.Members, z)
		}
	}
	return r
}

func (s *Server) sync(c *conn, m *syncgroup.Request) protocol.Message {
	g := s.group(m.GroupID)
	if code := g.check(m.MemberID, m.GenerationID, true); code != 0 {
		return &syncgroup.Response{ErrorCode: code}
	}
	if g.leader == m.MemberID {
		for _, a := range m.Assignments {
			if x := g.members[a.MemberID]; x != nil {
				x.assigned = append([]byte{}, a.Assignment...)
			}
		}
		g.state = "stable"
		s.cond.Broadcast()
	}
	for g.state == "syncing" && g.gen == m.GenerationID && !s.closed {
		s.cond.Wait()
	}
	if code := g.check(m.MemberID, m.GenerationID, true); code != 0 {
		return &syncgroup.Response{ErrorCode: code}
	}
	return &syncgroup.Response{Assignments: g.members[m.MemberID].assigned}
}
