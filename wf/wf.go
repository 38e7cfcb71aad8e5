// Package wf holds small workflow services used by the wiring-level checks.
package wf

import "context"

// Svc is implemented by services with zero to three dependencies.
type Svc interface {
	Ping(ctx context.Context, path string, n int64) (string, error)
}

type Svc0 struct{}
type Svc1 struct{ a Svc }
type Svc2 struct{ a, b Svc }
type Svc3 struct{ a, b, c Svc }

func NewSvc0(ctx context.Context) (*Svc0, error)             { return &Svc0{}, nil }
func NewSvc1(ctx context.Context, a Svc) (*Svc1, error)       { return &Svc1{a}, nil }
func NewSvc2(ctx context.Context, a, b Svc) (*Svc2, error)    { return &Svc2{a, b}, nil }
func NewSvc3(ctx context.Context, a, b, c Svc) (*Svc3, error) { return &Svc3{a, b, c}, nil }

func (s *Svc0) Ping(ctx context.Context, path string, n int64) (string, error) { return path, nil }
func (s *Svc1) Ping(ctx context.Context, path string, n int64) (string, error) {
	return s.a.Ping(ctx, path+".a", n)
}
func (s *Svc2) Ping(ctx context.Context, path string, n int64) (string, error) {
	return s.b.Ping(ctx, path+".b", n)
}
func (s *Svc3) Ping(ctx context.Context, path string, n int64) (string, error) {
	return s.c.Ping(ctx, path+".c", n)
}
