// Package mux stands in for github.com/gorilla/mux, which cannot be fetched here: exact path routing.
package mux

import (
	"net/http"
	"sync"
)

type Router struct {
	mu     sync.RWMutex
	routes []*Route
}

type Route struct {
	r       *Router
	path    string
	handler http.Handler
}

func NewRouter() *Router { return &Router{} }

func (r *Router) Path(tpl string) *Route {
	r.mu.Lock()
	defer r.mu.Unlock()
	rt := &Route{r: r, path: tpl}
	r.routes = append(r.routes, rt)
	return rt
}

func (rt *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	rt.r.mu.Lock()
	defer rt.r.mu.Unlock()
	rt.handler = http.HandlerFunc(f)
	return rt
}

func (rt *Route) Handler(h http.Handler) *Route {
	rt.r.mu.Lock()
	defer rt.r.mu.Unlock()
	rt.handler = h
	return rt
}

func (rt *Route) Methods(methods ...string) *Route { return rt }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Path(path).HandlerFunc(f)
}

func (r *Router) Handle(path string, h http.Handler) *Route { return r.Path(path).Handler(h) }

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	r.mu.RLock()
	var h http.Handler
	for _, rt := range r.routes {
		if rt.path == req.URL.Path && rt.handler != nil {
			h = rt.handler
			break
		}
	}
	r.mu.RUnlock()
	if h == nil {
		http.NotFound(w, req)
		return
	}
	h.ServeHTTP(w, req)
}
