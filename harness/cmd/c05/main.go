// C05: the client pool hands out at most N clients, exclusively, never leaking a slot.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
)

type client struct {
	id     int64
	holder int32
	uses   int64 // deliberately unsynchronised: exclusive ownership must order accesses
}

type env struct {
	h        *hx.H
	cap      int64
	built    int64
	inflight int64
	calls    int64
	failed   int64
	mu       sync.Mutex
	errs     map[error]bool
	fail     func(n int64) bool
	delay    func(n int64)
	label    string
}

func (e *env) bad(key, f string, a ...any) {
	e.h.Violate(key, e.label+": "+fmt.Sprintf(f, a...), nil)
}

func (e *env) build() (*client, error) {
	n := atomic.AddInt64(&e.calls, 1)
	fl := atomic.AddInt64(&e.inflight, 1)
	if b := atomic.LoadInt64(&e.built); b+fl > e.cap && atomic.LoadInt64(&e.built)+atomic.LoadInt64(&e.inflight) > e.cap {
		e.bad("capacity", "%d clients built and %d being built with capacity %d", b, fl, e.cap)
	}
	if e.delay != nil {
		e.delay(n)
	}
	if e.fail != nil && e.fail(n) {
		err := fmt.Errorf("build %d failed", n)
		e.mu.Lock()
		e.errs[err] = true
		e.mu.Unlock()
		atomic.AddInt64(&e.failed, 1)
		atomic.AddInt64(&e.inflight, -1)
		return nil, err
	}
	b := atomic.AddInt64(&e.built, 1)
	atomic.AddInt64(&e.inflight, -1)
	if b > e.cap {
		e.bad("capacity", "%d clients were built with capacity %d", b, e.cap)
	}
	return &client{id: b}, nil
}

func newEnv(h *hx.H, n int, label string) (*env, *clientpool.ClientPool[*client]) {
	e := &env{h: h, cap: int64(n), errs: map[error]bool{}, label: label}
	return e, clientpool.NewClientPool[*client](n, e.build)
}

func (e *env) isBuildErr(err error) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for k := range e.errs {
		if errors.Is(err, k) {
			return true
		}
	}
	return false
}

// quiescent: all clients returned
func (e *env) quiescent(p *clientpool.ClientPool[*client]) {
	if p.Capacity() != int(e.cap) {
		e.bad("quiescent/capacity", "Capacity() = %d, expected %d", p.Capacity(), e.cap)
	}
	if int64(p.Size()) != e.built {
		e.bad("quiescent/size", "after all clients were returned Size() = %d but %d clients were built (%d builds failed)", p.Size(), e.built, e.failed)
	}
	if int64(p.Available()) != e.built {
		e.bad("quiescent/available", "after all clients were returned Available() = %d but %d clients were built", p.Available(), e.built)
	}
	// every slot is still usable: the full capacity can be held at once, by distinct clients
	e.fail, e.delay = nil, nil
	before := e.built
	calls := e.calls
	held := map[*client]bool{}
	var got []*client
	e.h.Run(1, "quiescent", func() any { return e.label }, func(int) {
		for i := int64(0); i < e.cap; i++ {
			c, err := p.Pop(context.Background())
			if err != nil || c == nil {
				e.bad("quiescent/slot-lost", "Pop %d of %d failed after quiescence: %v", i+1, e.cap, err)
				return
			}
			if held[c] {
				e.bad("quiescent/duplicate", "client %d handed out twice", c.id)
			}
			held[c] = true
			got = append(got, c)
			want := calls
			if i >= before {
				want = calls + i - before + 1
			}
			if e.calls != want {
				e.bad("quiescent/reuse", "Pop %d with %d idle clients made %d builds, expected %d", i+1, before, e.calls-calls, want-calls)
			}
			if p.Available() != max(0, int(before-i-1)) {
				e.bad("quiescent/available", "Available() = %d after popping %d of %d idle clients", p.Available(), i+1, before)
			}
		}
	})
	ctx, f := context.WithTimeout(context.Background(), 2*time.Millisecond)
	if c, err := p.Pop(ctx); err == nil {
		e.bad("quiescent/over-capacity", "Pop succeeded with all %d clients in use (client %v)", e.cap, c)
	}
	f()
	for _, c := range got {
		p.Push(c)
	}
	if p.Available() != len(got) || p.Size() != len(got) {
		e.bad("quiescent/final", "Size()=%d Available()=%d after returning all %d clients", p.Size(), p.Available(), len(got))
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func storm(h *hx.H, round int) {
	r := h.Rand(int64(round))
	n := 1 + r.Intn(5)
	workers := 1 + r.Intn(12)
	per := 3 + r.Intn(30)
	failPct := []int{0, 0, 10, 40, 80}[r.Intn(5)]
	timeoutPct := []int{0, 0, 20, 60}[r.Intn(4)]
	slow := r.Intn(3)
	e, p := newEnv(h, n, fmt.Sprintf("storm %d: capacity %d, %d workers x %d, %d%% failing builds, %d%% timed pops", round, n, workers, per, failPct, timeoutPct))
	var rmu sync.Mutex
	rb := rand.New(rand.NewSource(r.Int63()))
	pct := func() int { rmu.Lock(); defer rmu.Unlock(); return rb.Intn(100) }
	if failPct > 0 {
		e.fail = func(int64) bool { return pct() < failPct }
	}
	if slow > 0 {
		e.delay = func(int64) {
			for i := pct(); i > 0; i-- {
				runtime.Gosched()
			}
		}
	}
	var pops, errsSeen, timeouts, maxHeld, held, waited int64
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	h.Run(workers, "storm", func() any { return e.label }, func(w int) {
		r := rand.New(rand.NewSource(seeds[w]))
		for k := 0; k < per; k++ {
			ctx, f := context.Background(), func() {}
			timed := r.Intn(100) < timeoutPct
			if timed {
				c, g := context.WithTimeout(ctx, time.Duration(r.Intn(50))*time.Microsecond)
				ctx, f = c, g
			}
			if atomic.LoadInt64(&held) >= e.cap {
				atomic.AddInt64(&waited, 1)
			}
			c, err := p.Pop(ctx)
			if err != nil {
				if ctx.Err() == nil {
					if !e.isBuildErr(err) {
						e.bad("spurious-error", "Pop with a live context returned %v, which is no build error", err)
					}
					atomic.AddInt64(&errsSeen, 1)
				} else {
					atomic.AddInt64(&timeouts, 1)
					if e.isBuildErr(err) {
						atomic.AddInt64(&errsSeen, 1)
					}
				}
				f()
				continue
			}
			f()
			if c == nil {
				e.bad("nil-client", "Pop returned a nil client without an error")
				continue
			}
			atomic.AddInt64(&pops, 1)
			if !atomic.CompareAndSwapInt32(&c.holder, 0, int32(w+1)) {
				e.bad("exclusive", "client %d was handed to worker %d while worker %d holds it", c.id, w, c.holder-1)
			}
			hn := atomic.AddInt64(&held, 1)
			if hn > e.cap {
				e.bad("held", "%d clients held with capacity %d", hn, e.cap)
			}
			for m := atomic.LoadInt64(&maxHeld); hn > m && !atomic.CompareAndSwapInt64(&maxHeld, m, hn); m = atomic.LoadInt64(&maxHeld) {
			}
			if s := int64(p.Size()); s > e.cap || s < 1 {
				e.bad("size-bounds", "Size() = %d with capacity %d while a client is held", s, e.cap)
			}
			c.uses++
			for i := r.Intn(20); i > 0; i-- {
				runtime.Gosched()
			}
			c.uses++
			atomic.AddInt64(&held, -1)
			atomic.StoreInt32(&c.holder, 0)
			p.Push(c)
			h.Progress()
		}
	})
	if errsSeen != e.failed {
		e.bad("build-error-lost", "%d builds failed but %d callers saw a build error", e.failed, errsSeen)
	}
	h.Observe("pops", int(pops))
	h.Observe("pops_that_had_to_wait", int(waited))
	h.Observe("failed_builds", int(e.failed))
	h.Observe("timeouts", int(timeouts))
	h.Case(fmt.Sprint(e.label, pops, e.failed, timeouts, maxHeld), waited > 0 || e.failed > 0 || timeouts > 0)
	if round < 2 {
		h.Sample(map[string]any{"storm": e.label, "pops": pops, "waited": waited, "max_held": maxHeld, "failed_builds": e.failed, "timeouts": timeouts})
	}
	e.quiescent(p)
}

// sequential model: idle reuse before building, Size/Available exact at every step
func sequential(h *hx.H, round int) {
	r := h.Rand(int64(40000 + round))
	n := 1 + r.Intn(4)
	e, p := newEnv(h, n, fmt.Sprintf("sequential %d capacity %d", round, n))
	failNext := false
	e.fail = func(int64) bool { return failNext }
	var held []*client
	idle := map[*client]bool{}
	size := 0
	var log []string
	cancelled, f := context.WithCancel(context.Background())
	f()
	for k := 0; k < 40; k++ {
		switch op := r.Intn(5); {
		case op < 3:
			failNext = r.Intn(3) == 0
			calls := e.calls
			var c *client
			var err error
			if len(idle) == 0 && size == n {
				ctx, f := context.WithTimeout(context.Background(), time.Millisecond)
				c, err = p.Pop(ctx)
				f()
				if err == nil {
					e.bad("seq/over-capacity", "Pop succeeded with all clients held: %v", log)
				}
				log = append(log, "pop(blocked)")
				break
			}
			h.Run(1, "seq", func() any { return log }, func(int) { c, err = p.Pop(context.Background()) })
			if len(idle) > 0 {
				if err != nil || c == nil || !idle[c] || e.calls != calls {
					e.bad("seq/reuse", "Pop with %d idle clients returned %v,%v after %d builds (%v)", len(idle), c, err, e.calls-calls, log)
				}
				if c != nil {
					delete(idle, c)
					held = append(held, c)
				}
				log = append(log, "pop(idle)")
			} else if failNext {
				if err == nil || !e.isBuildErr(err) || e.calls != calls+1 {
					e.bad("seq/build-error", "Pop with a failing build returned %v,%v after %d builds (%v)", c, err, e.calls-calls, log)
				}
				log = append(log, "pop(fail)")
			} else {
				if err != nil || c == nil || e.calls != calls+1 {
					e.bad("seq/build", "Pop returned %v,%v after %d builds (%v)", c, err, e.calls-calls, log)
				} else {
					held = append(held, c)
					size++
				}
				log = append(log, "pop(build)")
			}
		case op == 3 && len(held) > 0:
			i := r.Intn(len(held))
			c := held[i]
			held = append(held[:i], held[i+1:]...)
			p.Push(c)
			idle[c] = true
			log = append(log, "push")
		default:
			// a pop with an ended context takes nothing if it fails
			c, err := p.Pop(cancelled)
			if err == nil && c != nil {
				if idle[c] {
					delete(idle, c)
				} else {
					size++
				}
				held = append(held, c)
			}
			log = append(log, fmt.Sprint("pop(cancelled) ", err == nil))
		}
		if p.Size() != size || p.Available() != len(idle) {
			e.bad("seq/counters", "Size()=%d Available()=%d, expected %d and %d after %v", p.Size(), p.Available(), size, len(idle), log)
			break
		}
	}
	for _, c := range held {
		p.Push(c)
	}
	e.quiescent(p)
	h.Observe("sequential_ops", len(log))
	h.Case(fmt.Sprint(n, log), true)
	if round == 0 {
		h.Sample(log)
	}
}

// gated scenarios: waiters while a build fails / a client comes back / contexts end
func gated(h *hx.H, round int) {
	r := h.Rand(int64(60000 + round))
	n := 1 + r.Intn(3)
	waiters := 1 + r.Intn(4)
	e, p := newEnv(h, n, fmt.Sprintf("gated %d capacity %d waiters %d", round, n, waiters))
	gate := make(chan bool)
	gatedBuild := true
	e.fail = func(k int64) bool {
		if gatedBuild && k <= int64(n) {
			return <-gate
		}
		return false
	}
	type res struct {
		c   *client
		err error
		ctx context.Context
	}
	results := make(chan res, n+waiters)
	pop := func(ctx context.Context) { c, err := p.Pop(ctx); results <- res{c, err, ctx} }
	for i := 0; i < n; i++ {
		go pop(context.Background())
	}
	for i := 0; atomic.LoadInt64(&e.calls) < int64(n) && i < 100000; i++ {
		time.Sleep(10 * time.Microsecond)
	}
	if atomic.LoadInt64(&e.calls) != int64(n) {
		h.Unsure("%s: only %d builds started", e.label, e.calls)
	}
	ctxs := make([]context.Context, waiters)
	stops := make([]context.CancelFunc, waiters)
	for i := range ctxs {
		ctxs[i], stops[i] = context.WithCancel(context.Background())
		go pop(ctxs[i])
	}
	for i := 0; i < 100+r.Intn(200); i++ {
		runtime.Gosched()
	}
	ncancel := r.Intn(waiters)
	for i := 0; i < ncancel; i++ {
		stops[i]()
	}
	nfail := 1 + r.Intn(n)
	for i := 0; i < n; i++ {
		gate <- i < nfail
	}
	outcome := map[string]int{}
	next := func(what string) res {
		var x res
		done := make(chan struct{})
		go func() { x = <-results; close(done) }()
		h.Await(done, "gated/"+what+"/stuck", "clientpool", func() any {
			return fmt.Sprintf("%s: %d builds failed, %d waiters cancelled, outcomes so far %v", e.label, nfail, ncancel, outcome)
		})
		return x
	}
	got := 0
	for i := 0; i < n+waiters; i++ {
		x := next("waiter-after-failed-build")
		switch {
		case x.err == nil:
			if !atomic.CompareAndSwapInt32(&x.c.holder, 0, 1) {
				e.bad("gated/exclusive", "client %d handed out twice", x.c.id)
			}
			got++
			outcome["client"]++
			// give it back so that every waiter proceeds eventually
			atomic.StoreInt32(&x.c.holder, 0)
			p.Push(x.c)
		case e.isBuildErr(x.err):
			outcome["build-error"]++
		case x.ctx.Err() != nil:
			outcome["cancelled"]++
		default:
			e.bad("gated/spurious", "Pop returned %v", x.err)
		}
	}
	if outcome["build-error"] != nfail {
		e.bad("gated/build-errors", "%d builds failed, %d callers were told", nfail, outcome["build-error"])
	}
	if outcome["cancelled"] > ncancel {
		e.bad("gated/cancelled", "%d waiters timed out, only %d were cancelled", outcome["cancelled"], ncancel)
	}
	for _, f := range stops {
		f()
	}
	h.Observe("gated_waiters", waiters)
	h.Case(fmt.Sprint(n, waiters, ncancel, nfail, outcome), true)
	if round == 0 {
		h.Sample(map[string]any{"gated": e.label, "outcomes": outcome})
	}
	e.quiescent(p)
}

func main() {
	h := hx.New()
	h.Rule = "random storms (capacity 1-5, 1-12 workers, failing/slow builds, timed-out pops), sequential model runs, and gated scenarios with waiters during failing builds; non-trivial when some Pop waited, a build failed or a context ended"
	if h.Part("sequential") {
		for i := 0; i < h.N(300, 4000); i++ {
			sequential(h, i)
		}
	}
	if h.Part("gated") {
		for i := 0; i < h.N(300, 3000); i++ {
			gated(h, i)
		}
	}
	if h.Part("storm") {
		for i := 0; i < h.N(600, 8000); i++ {
			storm(h, i)
		}
	}
	h.Done()
}
