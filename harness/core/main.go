package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

// Mode replays one scenario.
type Mode func(line []byte, r *Result)

// StuckTimeout is the time after which a scenario that does not end is a mismatch
// (scenarios take milliseconds).
var StuckTimeout = 90 * time.Second

// Main replays the scenarios of a file.
func Main(modes map[string]Mode) {
	m := flag.String("mode", "", "what to replay")
	in := flag.String("in", "", "scenarios, one JSON value per line")
	out := flag.String("out", "", "result")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	prog := flag.String("progress", "", "file that contains the scenario being replayed")
	max := flag.Int("max", 5, "maximum number of mismatches")
	flag.Parse()
	runtime.GOMAXPROCS(2)
	f, ok := modes[*m]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness error: unknown mode", *m)
		os.Exit(3)
	}
	p := NewProgress(*prog)
	var res Result
	var turn atomic.Int64
	go watchdog(&turn, p, *out)
	for _, l := range Lines(*in, *shard, *shards) {
		p.Set(l)
		replay(f, l, &res)
		turn.Add(1)
		res.Checked++
		if len(res.Samples) < 2 {
			res.Samples = append(res.Samples, json.RawMessage(l))
		}
		if len(res.Mismatches) >= *max {
			break
		}
	}
	turn.Store(-1)
	res.Write(*out)
}

// watchdog ends the process, with a mismatch, when a scenario does not end.
func watchdog(turn *atomic.Int64, p *Progress, out string) {
	last, since := int64(0), time.Now()
	// blocked on a channel, as a sleeping goroutine is not quiescent
	for range time.Tick(time.Second) {
		t := turn.Load()
		if t < 0 {
			return
		}
		if t != last {
			last, since = t, time.Now()
			continue
		}
		if time.Since(since) < StuckTimeout {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if len(buf) > 20000 {
			buf = buf[:20000]
		}
		curMu.Lock()
		l := cur
		curMu.Unlock()
		r := Result{Checked: int(t), Mismatches: []Mismatch{{Scenario: l, Where: "the scenario does not end",
			Expected: "end", Observed: string(buf)}}}
		r.Write(out)
		os.Exit(0)
	}
}

// replay replays one scenario; a missing part of the generated API is a mismatch.
func replay(f Mode, l []byte, res *Result) {
	defer func() {
		if e := recover(); e != nil {
			mm, ok := e.(MissingMethod)
			if !ok {
				panic(e)
			}
			res.Mismatches = append(res.Mismatches, Mismatch{Scenario: l, Where: "API", Expected: "present", Observed: mm.Msg})
		}
	}()
	f(l, res)
}
