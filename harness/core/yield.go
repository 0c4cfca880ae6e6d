package core

import (
	"math/rand"
	"runtime"
	"sync/atomic"
	"time"
)

// Yield parameters: probabilities, out of 1000, of a yield and of a short sleep.
var yieldGosched, yieldSleep atomic.Int64

// SetYield sets how much the schedule is shaken (0, 0: not at all).
func SetYield(gosched, sleep int) {
	yieldGosched.Store(int64(gosched))
	yieldSleep.Store(int64(sleep))
}

// Yield shakes the schedule; called before each statement of instrumented code.
func Yield() {
	g, s := yieldGosched.Load(), yieldSleep.Load()
	if g == 0 && s == 0 {
		return
	}
	switch r := rand.Int63n(1000); {
	case r < s:
		time.Sleep(time.Duration(rand.Intn(100)) * time.Microsecond)
	case r < s+g:
		runtime.Gosched()
	}
}
