package h

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

var beats atomic.Int64

// Beat marks the start of another case and says which one it is.
func Beat(f string, a ...any) {
	beats.Add(1)
	current.Store(fmt.Sprintf(f, a...))
}

// Alive marks progress within a case.
func Alive() { beats.Add(1) }

var current atomic.Value

// Watchdog makes the process dump all goroutines and end when no case was
// started for that many seconds. A blocked goroutine of the code under test
// in the dump is what the runner judges.
func Watchdog(seconds int) {
	debug.SetTraceback("all")
	go func() {
		last, idle := int64(-1), 0
		for {
			time.Sleep(time.Second)
			if n := beats.Load(); n != last {
				last, idle = n, 0
				continue
			}
			if idle++; idle >= seconds {
				fmt.Fprintf(os.Stderr, "@case %v\n@watchdog no progress for %d s\n", current.Load(), seconds)
				syscall.Kill(os.Getpid(), syscall.SIGQUIT)
				return
			}
		}
	}()
}
