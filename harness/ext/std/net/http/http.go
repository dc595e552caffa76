// Package http stands in for net/http where servers are started.
package http

import (
	"net/http"

	"github.com/teamlint/baron/internal/zzverif/ext/std/net"
	"github.com/teamlint/baron/internal/zzverif/ext/std/world"
)

type (
	// Handler responds to a request.
	Handler = http.Handler
	// HandlerFunc is a Handler.
	HandlerFunc = http.HandlerFunc
	// ResponseWriter writes a response.
	ResponseWriter = http.ResponseWriter
	// Request is a request.
	Request = http.Request
	// Header is a header.
	Header = http.Header
)

// ErrServerClosed is returned when the server was closed.
var ErrServerClosed = http.ErrServerClosed

// ServeMux knows exact paths, and paths ending in a slash.
type ServeMux struct {
	Paths    []string
	Handlers []http.Handler
}

// NewServeMux makes a ServeMux.
func NewServeMux() *ServeMux { return &ServeMux{} }

// Handle registers a handler.
func (m *ServeMux) Handle(pattern string, h http.Handler) {
	for _, p := range m.Paths {
		if p == pattern {
			panic("http: multiple registrations for " + pattern)
		}
	}
	m.Paths, m.Handlers = append(m.Paths, pattern), append(m.Handlers, h)
}

// HandleFunc registers a handler.
func (m *ServeMux) HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	m.Handle(pattern, http.HandlerFunc(h))
}

// ServeHTTP calls the handler of the longest pattern that matches.
func (m *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	best := -1
	for i, p := range m.Paths {
		q := r.URL.Path
		if p == q || p != "" && p[len(p)-1] == '/' && len(q) > len(p) && q[:len(p)] == p {
			if best < 0 || len(p) > len(m.Paths[best]) {
				best = i
			}
		}
	}
	if best < 0 {
		w.WriteHeader(404)
		return
	}
	m.Handlers[best].ServeHTTP(w, r)
}

// Server is a server.
type Server struct {
	Addr    string
	Handler http.Handler
}

// ListenAndServe listens and serves.
func (s *Server) ListenAndServe() error { return ListenAndServe(s.Addr, s.Handler) }

// Serve serves on a listener.
func (s *Server) Serve(l net.Listener) error { return Serve(l, s.Handler) }

// ListenAndServe listens and serves.
func ListenAndServe(addr string, h http.Handler) error {
	world.Add("http", addr, h)
	return world.Serve(addr)
}

// Serve serves on a listener.
func Serve(l net.Listener, h http.Handler) error {
	a := l.(*net.TCP).Address
	world.Add("http", a, h)
	return world.Serve(a)
}
