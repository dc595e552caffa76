// Package signal stands in for os/signal.
package signal

import (
	"os"
	"sync"
)

type entry struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var (
	mu      sync.Mutex
	entries []entry
)

// Notify relays signals to c.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	mu.Lock()
	entries = append(entries, entry{c, sig})
	mu.Unlock()
}

// Stop stops relaying to c.
func Stop(c chan<- os.Signal) {
	mu.Lock()
	for i := range entries {
		if entries[i].c == c {
			entries[i].sigs = []os.Signal{nil}
		}
	}
	mu.Unlock()
}

// Deliver sends a signal; false: nothing handles it, so that it ends the process.
func Deliver(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	handled := false
	for _, e := range entries {
		match := len(e.sigs) == 0
		for _, x := range e.sigs {
			match = match || x == s
		}
		if match {
			handled = true
			select {
			case e.c <- s:
			default:
			}
		}
	}
	return handled
}
