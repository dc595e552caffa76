// Package net stands in for net: listeners are recorded.
package net

import (
	"net"

	"github.com/teamlint/baron/internal/zzverif/ext/std/world"
)

type (
	// Listener is a listener.
	Listener = net.Listener
	// Conn is a connection.
	Conn = net.Conn
	// Addr is an address.
	Addr = net.Addr
	// Error is a network error.
	Error = net.Error
)

// TCP is the listener Listen returns.
type TCP struct {
	Net, Address string
	closed       bool
}

// Where is the address.
func (l *TCP) Where() string { return l.Address }

// Accept accepts nothing.
func (l *TCP) Accept() (net.Conn, error) { return nil, world.Serve(l.Address) }

// Close closes.
func (l *TCP) Close() error { l.closed = true; return nil }

// Addr is not known.
func (l *TCP) Addr() net.Addr { return nil }

// Listen announces on an address.
func Listen(network, address string) (net.Listener, error) {
	l := &TCP{Net: network, Address: address}
	if world.Fails(address, false) {
		world.Add("failed", address, nil)
		return nil, world.ErrFailed
	}
	world.Add("listen", address, l)
	return l, nil
}
