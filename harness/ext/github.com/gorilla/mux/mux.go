// Package mux follows gorilla/mux's default router for methods and paths with
// plain {name} variables, each standing for one or more characters but '/'.
package mux

import (
	"context"
	"net/http"
	"path"
	"strings"
)

type key int

const varsKey key = 0

// Vars returns the route variables of the request.
func Vars(r *http.Request) map[string]string {
	if v, ok := r.Context().Value(varsKey).(map[string]string); ok {
		return v
	}
	return nil
}

// SetURLVars sets the route variables.
func SetURLVars(r *http.Request, vars map[string]string) *http.Request {
	return r.WithContext(context.WithValue(r.Context(), varsKey, vars))
}

// Router dispatches to the first route that matches.
type Router struct{ routes []*Route }

// Route is one route.
type Route struct {
	methods []string
	tpl     string
	handler http.Handler
}

// NewRouter returns a new router.
func NewRouter() *Router { return &Router{} }

// Methods registers a route for the methods.
func (r *Router) Methods(methods ...string) *Route {
	rt := &Route{}
	for _, m := range methods {
		rt.methods = append(rt.methods, strings.ToUpper(m))
	}
	r.routes = append(r.routes, rt)
	return rt
}

// Path sets the path template.
func (r *Route) Path(tpl string) *Route {
	r.tpl = tpl
	return r
}

// Handler sets the handler.
func (r *Route) Handler(h http.Handler) *Route {
	r.handler = h
	return r
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

// match returns the variables of a matching path: every variable is greedy, as
// in the regular expression mux builds.
func match(tpl, p string) (map[string]string, bool) {
	i := strings.IndexByte(tpl, '{')
	if i < 0 {
		return map[string]string{}, tpl == p
	}
	if len(p) < i || p[:i] != tpl[:i] {
		return nil, false
	}
	j := i + strings.IndexByte(tpl[i:], '}')
	name, rest := tpl[i+1:j], tpl[j+1:]
	p = p[i:]
	end := 0
	for end < len(p) && p[end] != '/' {
		end++
	}
	for ; end > 0; end-- {
		if vars, ok := match(rest, p[end:]); ok {
			vars[name] = p[:end]
			return vars, true
		}
	}
	return nil, false
}

// ServeHTTP implements http.Handler.
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	wrong := false
	for _, rt := range r.routes {
		vars, ok := match(rt.tpl, req.URL.Path)
		if !ok {
			continue
		}
		if len(rt.methods) == 0 {
			rt.handler.ServeHTTP(w, SetURLVars(req, vars))
			return
		}
		for _, m := range rt.methods {
			if m == req.Method {
				rt.handler.ServeHTTP(w, SetURLVars(req, vars))
				return
			}
		}
		wrong = true
	}
	if wrong {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	w.WriteHeader(http.StatusNotFound)
}

// HandlerFunc sets the handler.
func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handler(http.HandlerFunc(f))
}

// Methods restricts the route to the methods.
func (r *Route) Methods(methods ...string) *Route {
	for _, m := range methods {
		r.methods = append(r.methods, strings.ToUpper(m))
	}
	return r
}

// Name names the route.
func (r *Route) Name(string) *Route { return r }

// Path registers a route for a template.
func (r *Router) Path(tpl string) *Route {
	rt := &Route{tpl: tpl}
	r.routes = append(r.routes, rt)
	return rt
}

// NewRoute registers an empty route.
func (r *Router) NewRoute() *Route { return r.Path("") }

// Handle registers a route for a template and its handler.
func (r *Router) Handle(tpl string, h http.Handler) *Route { return r.Path(tpl).Handler(h) }

// HandleFunc registers a route for a template and its handler.
func (r *Router) HandleFunc(tpl string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Path(tpl).HandlerFunc(f)
}
