// Package core contains what every harness shares: quiescence detection, fake
// broker, recorder, access to the generated packages, scenarios replay.
package core

import (
	"bytes"
	"fmt"
	"runtime"
	"time"
)

var blockedStates = [][]byte{
	[]byte("chan receive"), []byte("chan send"), []byte("select"), []byte("sync."),
	[]byte("semacquire"), []byte("IO wait"), []byte("finalizer wait"),
}

// QuiesceTimeout is the time after which an ever running program is a livelock.
var QuiesceTimeout = 20 * time.Second

var stackBuf = make([]byte, 1<<18)

// Quiesce waits until every other goroutine is blocked, i.e. until nothing can
// happen anymore without the harness doing something. Returns an error if the
// program keeps running (livelock).
func Quiesce() error {
	start := time.Now()
	for i := 0; ; i++ {
		runtime.Gosched()
		if running() == 0 && running() == 0 {
			return nil
		}
		if i > 20 {
			time.Sleep(20 * time.Microsecond)
		}
		if i%64 == 63 && time.Since(start) > QuiesceTimeout {
			return fmt.Errorf("the program keeps running without reaching a stable state:\n%s", Stacks())
		}
	}
}

// Stacks returns the stacks of all goroutines.
func Stacks() string {
	n := runtime.Stack(stackBuf, true)
	return string(stackBuf[:n])
}

func running() int {
	var n int
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	b := stackBuf[:n]
	count, first := 0, true
	for len(b) > 0 {
		// b is at the beginning of a goroutine: "goroutine 12 [chan receive]:"
		nl := bytes.IndexByte(b, '\n')
		if nl < 0 {
			break
		}
		line := b[:nl]
		next := bytes.Index(b, []byte("\n\ngoroutine "))
		if i := bytes.IndexByte(line, '['); i >= 0 && !first {
			state := line[i+1:]
			blocked := false
			for _, s := range blockedStates {
				if bytes.HasPrefix(state, s) {
					blocked = true
					break
				}
			}
			// A goroutine in the middle of an allocation may be waiting for the garbage collector
			if blocked && bytes.HasPrefix(state, []byte("semacquire")) {
				frames := b
				if next >= 0 {
					frames = b[:next]
				}
				blocked = bytes.Contains(frames, []byte("sync.runtime_Semacquire"))
			}
			if !blocked {
				count++
			}
		}
		first = false
		if next < 0 {
			break
		}
		b = b[next+2:]
	}
	return count
}
