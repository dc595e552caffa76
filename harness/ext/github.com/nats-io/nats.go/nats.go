// Package nats stands in for the NATS client: one process, synchronous.
package nats

import (
	"errors"

	"github.com/teamlint/baron/internal/zzverif/ext/std/world"
)

// Msg is a message.
type Msg struct {
	Subject string
	Reply   string
	Data    []byte
}

// MsgHandler handles messages.
type MsgHandler func(msg *Msg)

// Subscription is a subscription.
type Subscription struct{ Subject, Queue string }

// Conn is a connection; everything published goes to the queue subscriber.
type Conn struct {
	subs []sub
	// Reject makes the n-th subscription fail.
	Reject int
	reply  []byte
	done   bool
	closed bool
	server string
}

type sub struct {
	subject, queue string
	cb             MsgHandler
}

// QueueSubscribe subscribes to a subject.
func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if nc.Reject == len(nc.subs)+1 {
		return nil, errors.New("nats: rejected")
	}
	nc.subs = append(nc.subs, sub{subj, queue, cb})
	return &Subscription{subj, queue}, nil
}

// Subjects lists the subjects subscribed to.
func (nc *Conn) Subjects() []string {
	out := []string{}
	for _, s := range nc.subs {
		out = append(out, s.subject)
	}
	return out
}

// Publish answers the request being handled.
func (nc *Conn) Publish(subj string, data []byte) error {
	if subj == "_reply" {
		nc.reply, nc.done = data, true
	}
	return nil
}

// Request sends a request and waits for its reply.
func (nc *Conn) Request(subj string, data []byte) (*Msg, error) {
	if world.Call != nil {
		x, err := world.Call("nats", nc.server, subj, data)
		if err != nil {
			return nil, err
		}
		return &Msg{Subject: "_reply", Data: x.([]byte)}, nil
	}
	nc.done = false
	for _, s := range nc.subs {
		if s.subject == subj {
			s.cb(&Msg{Subject: subj, Reply: "_reply", Data: data})
			if nc.done {
				return &Msg{Subject: "_reply", Data: nc.reply}, nil
			}
		}
	}
	return nil, errors.New("nats: timeout")
}

// Subscribe subscribes to a subject.
func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.QueueSubscribe(subj, "", cb)
}

// Flush does nothing here.
func (nc *Conn) Flush() error { return nil }

// Unsubscribe does nothing here.
func (s *Subscription) Unsubscribe() error { return nil }

// Option configures a connection.
type Option func(*Conn)

// Connect connects to a server.
func Connect(url string, options ...Option) (*Conn, error) {
	if world.Fails(url, false) {
		world.Add("failed", url, nil)
		return nil, world.ErrFailed
	}
	c := &Conn{server: url}
	if world.Fails(url, true) {
		c.Reject = world.Reject
	}
	world.Add("nats", url, c)
	return c, nil
}

// Closed tells whether the connection was closed.
func (nc *Conn) Closed() bool { return nc.closed }

// Close closes the connection.
func (nc *Conn) Close() { nc.closed = true }
