package natsd

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
)

// JetStream is a stream with a consumer.
type JetStream struct {
	srv  *Server
	mu   sync.Mutex
	msgs []Msg // by sequence number (from 1)
	todo []int // sequence numbers to send
	pull []*pull
	n    int

	Stream, Consumer string
	// Exists tells if the stream and the consumer exist.
	Exists map[string]bool
	// Fails is the set of API subjects that are refused.
	Fails map[string]bool
	// Calls are the API requests, with their data, but pulls.
	Calls []Msg
}

type pull struct {
	inbox string
	left  int
}

// NewJetStream adds a stream to a server.
func NewJetStream(srv *Server, stream, consumer string) *JetStream {
	j := &JetStream{srv: srv, Stream: stream, Consumer: consumer, Exists: map[string]bool{}, Fails: map[string]bool{}}
	srv.OnPub = j.handle
	return j
}

func apiError(code, errCode int, text string) map[string]any {
	return map[string]any{"type": "error", "error": map[string]any{"code": code, "err_code": errCode, "description": text}}
}

func (j *JetStream) handle(m Msg) bool {
	if strings.HasPrefix(m.Subject, "$JS.ACK.") {
		return true
	}
	if !strings.HasPrefix(m.Subject, "$JS.API.") {
		if m.Reply == "" {
			return false
		}
		seq := j.Store(Msg{Subject: m.Subject, Headers: m.Headers, Data: m.Data})
		j.srv.Respond(m, map[string]any{"stream": j.Stream, "seq": seq})
		return true
	}
	call := strings.TrimPrefix(m.Subject, "$JS.API.")
	var req struct {
		Config map[string]any `json:"config"`
		Batch  int            `json:"batch"`
	}
	_ = json.Unmarshal(m.Data, &req)
	if call == "CONSUMER.MSG.NEXT."+j.Stream+"."+j.Consumer {
		j.mu.Lock()
		j.pull = append(j.pull, &pull{m.Reply, req.Batch})
		j.mu.Unlock()
		j.Pump()
		return true
	}
	j.mu.Lock()
	j.Calls = append(j.Calls, Msg{Subject: call, Data: m.Data})
	exists, fails := j.Exists[call[strings.LastIndex(call, ".")+1:]], j.Fails[call]
	name := call[strings.LastIndex(call, ".")+1:]
	config := req.Config
	if strings.HasPrefix(call, "STREAM.") {
		config = map[string]any{}
		_ = json.Unmarshal(m.Data, &config)
	}
	if config == nil {
		config = map[string]any{"name": name}
	}
	var res any
	switch {
	case fails:
		res = apiError(500, 10001, "refused")
	case strings.HasPrefix(call, "STREAM.CREATE.") && exists:
		res = apiError(400, 10058, "stream name already in use")
	case strings.HasPrefix(call, "STREAM.UPDATE.") && !exists:
		res = apiError(404, 10059, "stream not found")
	case strings.HasPrefix(call, "STREAM.CREATE."), strings.HasPrefix(call, "STREAM.UPDATE."):
		j.Exists[name] = true
		res = map[string]any{"type": "stream", "config": config, "created": "2024-01-01T00:00:00Z", "state": map[string]any{}}
	case strings.HasPrefix(call, "CONSUMER.CREATE."):
		j.Exists[name] = true
		res = map[string]any{"type": "consumer", "stream_name": j.Stream, "name": name, "created": "2024-01-01T00:00:00Z", "config": config}
	case strings.HasPrefix(call, "CONSUMER.INFO.") && exists:
		res = map[string]any{"type": "consumer", "stream_name": j.Stream, "name": name, "created": "2024-01-01T00:00:00Z", "config": config}
	default:
		res = apiError(404, 10014, "consumer not found")
	}
	j.mu.Unlock()
	j.srv.Respond(m, res)
	return true
}

// Store adds a message to the stream.
func (j *JetStream) Store(m Msg) int {
	j.mu.Lock()
	j.msgs = append(j.msgs, m)
	seq := len(j.msgs)
	j.todo = append(j.todo, seq)
	j.mu.Unlock()
	j.Pump()
	return seq
}

// Again sends a message again.
func (j *JetStream) Again(seq int) {
	j.mu.Lock()
	j.todo = append(j.todo, seq)
	j.mu.Unlock()
	j.Pump()
}

// Pump sends what can be sent.
func (j *JetStream) Pump() {
	j.mu.Lock()
	defer j.mu.Unlock()
	for len(j.todo) > 0 && len(j.pull) > 0 {
		p := j.pull[0]
		subs := j.srv.Matching(Msg{Subject: p.inbox})
		if p.left == 0 || len(subs) == 0 {
			j.pull = j.pull[1:]
			continue
		}
		seq := j.todo[0]
		m := j.msgs[seq-1]
		j.n++
		m.Reply = fmt.Sprintf("$JS.ACK.%s.%s.1.%d.%d.1700000000000000000.0", j.Stream, j.Consumer, seq, j.n)
		if j.srv.Send(subs[0], m) {
			j.todo = j.todo[1:]
			p.left--
		}
	}
}

// Consuming tells if there is somebody to send messages to.
func (j *JetStream) Consuming() bool {
	j.mu.Lock()
	defer j.mu.Unlock()
	for _, p := range j.pull {
		if len(j.srv.Matching(Msg{Subject: p.inbox})) > 0 {
			return true
		}
	}
	return false
}

// Sequence returns the sequence number of the message that is acknowledged.
func Sequence(m Msg) int {
	f := strings.Split(m.Subject, ".")
	if len(f) < 6 {
		return -1
	}
	n, _ := strconv.Atoi(f[5])
	return n
}

// Last returns the last sequence number.
func (j *JetStream) Last() int {
	j.mu.Lock()
	defer j.mu.Unlock()
	return len(j.msgs)
}

// Exist tells if a stream, or a consumer, exists.
func (j *JetStream) Exist(name string, yes bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.Exists[name] = yes
}
