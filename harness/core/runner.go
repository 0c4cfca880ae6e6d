package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
)

// Result is the outcome of a harness process.
type Result struct {
	Checked    int            `json:"checked"`
	Steps      int            `json:"steps"`
	Mismatches []Mismatch     `json:"mismatches"`
	Samples    []any          `json:"samples,omitempty"`
	Extra      map[string]any `json:"extra,omitempty"`
	Traces     []any          `json:"traces,omitempty"`
}

// Mismatch is a scenario where the code does not do what the specification says.
type Mismatch struct {
	Scenario json.RawMessage `json:"scenario"`
	Where    string          `json:"where"`
	Expected any             `json:"expected"`
	Observed any             `json:"observed"`
}

// Lines reads the scenarios of this shard (one JSON value per line).
func Lines(path string, shard, shards int) [][]byte {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out [][]byte
	r := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		l, err := r.ReadBytes('\n')
		if len(bytes.TrimSpace(l)) > 0 && i%shards == shard {
			out = append(out, bytes.TrimSpace(l))
		}
		if err != nil {
			return out
		}
	}
}

// Progress remembers the scenario being replayed, in order to attribute a crash.
type Progress struct{ path string }

// NewProgress creates a Progress writing in a file.
func NewProgress(path string) *Progress { return &Progress{path} }

var curMu sync.Mutex
var cur []byte

// Set sets the current scenario.
func (p *Progress) Set(s []byte) {
	curMu.Lock()
	cur = s
	curMu.Unlock()
	if p.path == "" {
		return
	}
	if err := os.WriteFile(p.path, s, 0o644); err != nil {
		panic(err)
	}
}

// Same compares two values by their JSON representation.
func Same(a, b any) bool {
	var x, y any
	ja, _ := json.Marshal(a)
	jb, _ := json.Marshal(b)
	_ = json.Unmarshal(ja, &x)
	_ = json.Unmarshal(jb, &y)
	return reflect.DeepEqual(x, y)
}

// Write writes the result.
func (r *Result) Write(path string) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Rec records events.
type Rec struct {
	mu  sync.Mutex
	evs []any
}

// Add adds an event.
func (r *Rec) Add(e any) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

// Take returns the events and forgets them.
func (r *Rec) Take() []any {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := r.evs
	r.evs = nil
	if e == nil {
		e = []any{}
	}
	return e
}

// Must panics on error.
func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness error: %v", err))
	}
}
