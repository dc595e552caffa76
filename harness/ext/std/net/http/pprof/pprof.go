// Package pprof stands in for the profiling pages: each names itself.
package pprof

import "net/http"

// Index is the overview.
func Index(w http.ResponseWriter, r *http.Request) { w.Write([]byte("index")) }

// Cmdline is the command line.
func Cmdline(w http.ResponseWriter, r *http.Request) { w.Write([]byte("cmdline")) }

// Profile is the CPU profile.
func Profile(w http.ResponseWriter, r *http.Request) { w.Write([]byte("profile")) }

// Symbol looks symbols up.
func Symbol(w http.ResponseWriter, r *http.Request) { w.Write([]byte("symbol")) }

// Trace is the trace.
func Trace(w http.ResponseWriter, r *http.Request) { w.Write([]byte("trace")) }
