// Package world records what a server listens on, in place of the network.
package world

import (
	"errors"
	"sync"

	"github.com/teamlint/baron/internal/zzverif/rt"
)

// Listen is something that was started.
type Listen struct {
	Kind, Addr string
	What       interface{}
}

var (
	mu      sync.Mutex
	started []Listen
	// Fail is the address that fails; Late: when it is served, not when it is
	// listened on.
	Fail string
	Late bool
	// Reject makes the n-th NATS subscription fail.
	Reject int
	// Call answers what a client sends, where one is run.
	Call func(kind, addr, method string, request interface{}) (interface{}, error)
)

// ErrFailed is how listening fails.
var ErrFailed = errors.New("cannot listen")

// Add records a start.
func Add(kind, addr string, what interface{}) {
	mu.Lock()
	started = append(started, Listen{kind, addr, what})
	mu.Unlock()
}

// Started lists what was started, by kind.
func Started(kind string) []Listen {
	mu.Lock()
	defer mu.Unlock()
	var out []Listen
	for _, l := range started {
		if l.Kind == kind {
			out = append(out, l)
		}
	}
	return out
}

// Fails tells whether the address fails at this stage.
func Fails(addr string, late bool) bool { return Fail != "" && addr == Fail && late == Late }

// Serve serves until it fails.
func Serve(addr string) error {
	if Fail != "" && addr == Fail {
		rt.Settle()
		return ErrFailed
	}
	select {}
}
