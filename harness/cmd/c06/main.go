// C06: the runtime namespace builds each node once, resolves arguments, and shuts down cleanly.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"golang.org/x/exp/slog"
)

// ---------------------------------------------------------------- node graphs

type inst struct {
	owner int
	name  string
	deps  map[string]*inst
	bad   string
}

type runInst struct {
	inst
	w *world
}

type world struct {
	h       *hx.H
	label   string
	builds  sync.Map // "ns/name" -> *int64 (attempts)
	runs    int64    // started
	active  []int64  // per namespace: Run invocations not yet returned
	runsOf  sync.Map // "ns/name" -> *int64
	slowRun int
	failRun string
	release chan struct{}
}

func (w *world) bad(key, f string, a ...any) {
	w.h.Violate(key, w.label+": "+fmt.Sprintf(f, a...), nil)
}

func count(m *sync.Map, k string) *int64 {
	v, _ := m.LoadOrStore(k, new(int64))
	return v.(*int64)
}

func (r *runInst) Run(ctx context.Context) error {
	w := r.w
	key := fmt.Sprintf("%d/%s", r.owner, r.name)
	atomic.AddInt64(&w.active[r.owner], 1)
	atomic.AddInt64(&w.runs, 1)
	if n := atomic.AddInt64(count(&w.runsOf, key), 1); n != 1 {
		w.bad("run-once", "node %s was run %d times", key, n)
	}
	var err error
	if w.failRun == key {
		<-w.release
		err = errors.New("run failed")
	} else {
		<-ctx.Done()
		for i := 0; i < w.slowRun; i++ {
			runtime.Gosched()
		}
		if w.slowRun > 0 {
			time.Sleep(time.Duration(w.slowRun) * 10 * time.Microsecond)
		}
	}
	atomic.AddInt64(&w.active[r.owner], -1)
	return err
}

type def struct {
	kind string // ok fail run value
	deps []string
	gen  int
}

type plan struct {
	parent []int             // parent[0] = -1
	defs   []map[string]*def // per namespace
	names  []string
}

func (p *plan) owner(ns int, name string) int {
	for ; ns >= 0; ns = p.parent[ns] {
		if _, ok := p.defs[ns][name]; ok {
			return ns
		}
	}
	return -1
}

// fails tells whether getting name from ns must fail
func (p *plan) fails(ns int, name string) bool {
	o := p.owner(ns, name)
	if o < 0 {
		return true
	}
	d := p.defs[o][name]
	if d.kind == "fail" {
		return true
	}
	for _, dep := range d.deps {
		if p.fails(o, dep) {
			return true
		}
	}
	return false
}

// needed collects the (owner,name) pairs that getting name from ns may build
func (p *plan) needed(ns int, name string, out map[string]bool) {
	o := p.owner(ns, name)
	if o < 0 {
		return
	}
	out[fmt.Sprintf("%d/%s", o, name)] = true
	for _, dep := range p.defs[o][name].deps {
		p.needed(o, dep, out)
	}
}

func (p *plan) descendants(ns int) []int {
	var out []int
	for i := range p.parent {
		for a := i; a >= 0; a = p.parent[a] {
			if a == ns {
				out = append(out, i)
				break
			}
		}
	}
	return out
}

func makePlan(r *rand.Rand) *plan {
	p := &plan{}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		if i == 0 {
			p.parent = append(p.parent, -1)
		} else if r.Intn(3) > 0 {
			p.parent = append(p.parent, i-1)
		} else {
			p.parent = append(p.parent, r.Intn(i))
		}
		p.defs = append(p.defs, map[string]*def{})
	}
	k := 3 + r.Intn(6)
	for i := 0; i < k; i++ {
		p.names = append(p.names, fmt.Sprintf("n%d", i))
	}
	for ns := range p.defs {
		for i, name := range p.names {
			if r.Intn(100) < []int{75, 40, 40, 40}[ns] {
				d := &def{kind: "ok"}
				switch x := r.Intn(20); {
				case x < 2:
					d.kind = "fail"
				case x < 7:
					d.kind = "run"
				case x < 9:
					d.kind = "value"
				}
				for j := i + 1; j < k && len(d.deps) < 3; j++ {
					if r.Intn(3) == 0 {
						d.deps = append(d.deps, p.names[j])
					}
				}
				if d.kind == "value" {
					d.deps = nil
				}
				p.defs[ns][name] = d
			}
		}
	}
	return p
}

func (w *world) buildFunc(p *plan, ns int, name string, d *def, slow int) golang.BuildFunc {
	key := fmt.Sprintf("%d/%s", ns, name)
	return func(n *golang.Namespace) (any, error) {
		attempts := atomic.AddInt64(count(&w.builds, key), 1)
		if attempts != 1 && !p.fails(ns, name) {
			w.bad("build-once", "node %s was built %d times", key, attempts)
		}
		for i := 0; i < slow; i++ {
			runtime.Gosched()
		}
		in := inst{owner: ns, name: name, deps: map[string]*inst{}}
		for _, dep := range d.deps {
			var v any
			if err := n.Get(dep, &v); err != nil {
				return nil, fmt.Errorf("dep %s of %s: %w", dep, key, err)
			}
			in.deps[dep] = unwrap(v)
		}
		for i := 0; i < slow; i++ {
			runtime.Gosched()
		}
		if d.kind == "fail" {
			return nil, fmt.Errorf("FAIL %s", key)
		}
		if d.kind == "run" {
			return &runInst{in, w}, nil
		}
		return &in, nil
	}
}

func unwrap(v any) *inst {
	switch x := v.(type) {
	case *inst:
		return x
	case *runInst:
		return &x.inst
	case string:
		return &inst{bad: x}
	}
	return nil
}

func graphs(h *hx.H, round int) {
	r := h.Rand(int64(round))
	p := makePlan(r)
	w := &world{h: h, active: make([]int64, len(p.parent)), slowRun: r.Intn(4), release: make(chan struct{})}
	w.label = fmt.Sprintf("graph %d (%d namespaces %v)", round, len(p.parent), p.parent)
	runtimes := make([]*golang.Namespace, len(p.parent))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	slow := r.Intn(3) * r.Intn(30)
	nested := 0
	eager := make([][]string, len(p.parent))
	touched := map[string]bool{}
	for ns := range p.parent {
		b := golang.NewNamespaceBuilder(fmt.Sprintf("ns%d", ns))
		var names []string
		for name := range p.defs[ns] {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			d := p.defs[ns][name]
			if r.Intn(5) == 0 { // an earlier definition that must be superseded
				nn := name
				b.Define(name, func(n *golang.Namespace) (any, error) {
					w.bad("superseded", "a superseded definition of %s was used", nn)
					return &inst{}, nil
				})
			}
			if d.kind == "value" {
				b.Set(name, fmt.Sprintf("value %d/%s", ns, name))
			} else {
				b.Define(name, w.buildFunc(p, ns, name, d, slow))
			}
		}
		for _, name := range p.names {
			if r.Intn(6) == 0 && !p.fails(ns, name) {
				eager[ns] = append(eager[ns], name)
				b.Instantiate(name)
				p.needed(ns, name, touched)
			}
		}
		var n *golang.Namespace
		var err error
		h.Run(1, "graph/build", func() any { return w.label }, func(int) {
			if p.parent[ns] < 0 {
				n, err = b.Build(ctx)
			} else {
				nested++
				n, err = b.BuildWithParent(runtimes[p.parent[ns]])
			}
		})
		if err != nil || n == nil {
			w.bad("build-error", "building namespace %d failed: %v", ns, err)
			return
		}
		runtimes[ns] = n
	}
	// laziness: nothing but the eager nodes and their dependencies has been built so far
	w.builds.Range(func(k, v any) bool {
		if !touched[k.(string)] && *(v.(*int64)) > 0 {
			w.bad("lazy", "%v was built although nothing needed it", k)
		}
		return true
	})
	for ns := range eager {
		for _, name := range eager[ns] {
			key := fmt.Sprintf("%d/%s", p.owner(ns, name), name)
			if p.defs[p.owner(ns, name)][name].kind != "value" && atomic.LoadInt64(count(&w.builds, key)) != 1 {
				w.bad("eager", "%s was to be instantiated by namespace %d but was built %d times", key, ns, *count(&w.builds, key))
			}
		}
	}
	// concurrent requests
	workers := 1 + r.Intn(8)
	type req struct {
		ns   int
		name string
	}
	type got struct {
		req
		v   *inst
		str string
		err error
	}
	reqs := make([][]req, workers)
	for i := range reqs {
		for j := 0; j < 6; j++ {
			nm := p.names[r.Intn(len(p.names))]
			if r.Intn(15) == 0 {
				nm = "nosuch"
			}
			q := req{r.Intn(len(p.parent)), nm}
			reqs[i] = append(reqs[i], q)
			p.needed(q.ns, q.name, touched)
		}
	}
	res := make([][]got, workers)
	h.Run(workers, "graph/get", func() any { return w.label }, func(i int) {
		for _, q := range reqs[i] {
			var v any
			err := runtimes[q.ns].Get(q.name, &v)
			g := got{req: q, err: err}
			if s, ok := v.(string); ok {
				g.str = s
			} else {
				g.v = unwrap(v)
			}
			res[i] = append(res[i], g)
			h.Progress()
		}
	})
	canon := map[string]*inst{}
	errsN := 0
	var verify func(i *inst, key string)
	seen := map[*inst]bool{}
	verify = func(i *inst, key string) {
		if c, ok := canon[key]; ok && c != i {
			w.bad("same-instance", "two instances of node %s were handed out", key)
		}
		canon[key] = i
		if seen[i] {
			return
		}
		seen[i] = true
		if fmt.Sprintf("%d/%s", i.owner, i.name) != key {
			w.bad("resolution", "a request for %s was answered with %d/%s", key, i.owner, i.name)
			return
		}
		d := p.defs[i.owner][i.name]
		for _, dep := range d.deps {
			o := p.owner(i.owner, dep)
			dk := fmt.Sprintf("%d/%s", o, dep)
			c := i.deps[dep]
			if c == nil {
				w.bad("dependency", "%s has no dependency %s", key, dk)
			} else if p.defs[o][dep].kind == "value" {
				if c.bad != "value "+dk {
					w.bad("dependency", "%s got value %q for %s", key, c.bad, dk)
				}
			} else {
				verify(c, dk)
			}
		}
	}
	for i := range res {
		for _, g := range res[i] {
			o := p.owner(g.ns, g.name)
			key := fmt.Sprintf("%d/%s", o, g.name)
			if p.fails(g.ns, g.name) {
				errsN++
				if g.err == nil {
					w.bad("error-lost", "Get(%s) from namespace %d succeeded although it cannot be built", g.name, g.ns)
				}
				if o < 0 && g.err != nil && !strings.Contains(g.err.Error(), g.name) {
					w.bad("unknown-error", "the error for unknown node %q does not name it: %v", g.name, g.err)
				}
				continue
			}
			if g.err != nil {
				w.bad("spurious-error", "Get(%s) from namespace %d failed: %v", g.name, g.ns, g.err)
				continue
			}
			if p.defs[o][g.name].kind == "value" {
				if g.str != "value "+key {
					w.bad("value", "Get(%s) from namespace %d = %q, expected the value set in namespace %d", g.name, g.ns, g.str, o)
				}
				continue
			}
			if g.v == nil {
				w.bad("nil", "Get(%s) from namespace %d returned nothing", g.name, g.ns)
				continue
			}
			verify(g.v, key)
		}
	}
	w.builds.Range(func(k, v any) bool {
		if !touched[k.(string)] && *(v.(*int64)) > 0 {
			w.bad("lazy", "%v was built although nothing needed it", k)
		}
		return true
	})
	// typed receiver: an incompatible receiver is an error, not a panic
	var wrong chan int
	if len(p.defs[0]) > 0 {
		for name := range p.defs[0] {
			if !p.fails(0, name) {
				if err := runtimes[0].Get(name, &wrong); err == nil {
					w.bad("receiver", "Get(%s) into a chan int succeeded", name)
				}
				break
			}
		}
	}
	// every built runnable has been started: wait for the starts, then shut down
	wantRuns := map[string]bool{}
	w.builds.Range(func(k, v any) bool {
		var ns int
		var name string
		fmt.Sscanf(k.(string), "%d/%s", &ns, &name)
		if p.defs[ns][name].kind == "run" && !p.fails(ns, name) {
			wantRuns[k.(string)] = true
		}
		return true
	})
	started := make(chan struct{})
	go func() {
		for i := 0; i < 3000 && atomic.LoadInt64(&w.runs) < int64(len(wantRuns)); i++ {
			time.Sleep(time.Millisecond)
		}
		close(started)
	}()
	<-started
	if int(atomic.LoadInt64(&w.runs)) != len(wantRuns) {
		w.bad("run-missing", "%d runnable nodes were built but %d are running", len(wantRuns), w.runs)
	}
	mode := r.Intn(4)
	victim := 0
	if mode == 1 {
		victim = r.Intn(len(p.parent))
	}
	checkDown := func(root int, when string) {
		for _, ns := range p.descendants(root) {
			if a := atomic.LoadInt64(&w.active[ns]); a != 0 {
				w.bad("await", "%s of namespace %d returned while %d nodes of namespace %d are still running", when, root, a, ns)
			}
		}
	}
	h.Run(1, "graph/shutdown", func() any { return fmt.Sprintf("%s, shutdown mode %d of namespace %d", w.label, mode, victim) }, func(int) {
		switch mode {
		case 0, 1:
			runtimes[victim].Shutdown(true)
			checkDown(victim, "Shutdown(true)")
		case 2:
			runtimes[0].Shutdown(false)
			runtimes[0].Await()
			checkDown(0, "Await")
		case 3:
			cancel()
			runtimes[0].Await()
			checkDown(0, "Await after cancelling the context")
		}
	})
	if mode == 1 && victim != 0 {
		in := map[int]bool{}
		for _, ns := range p.descendants(victim) {
			in[ns] = true
		}
		perNs := make([]int64, len(p.parent))
		for k := range wantRuns {
			var ns int
			fmt.Sscanf(k, "%d/", &ns)
			perNs[ns]++
		}
		for ns := range p.parent {
			if !in[ns] && atomic.LoadInt64(&w.active[ns]) != perNs[ns] {
				w.bad("shutdown-scope", "shutting down namespace %d stopped nodes of namespace %d", victim, ns)
			}
			if in[ns] && runtimes[ns].Context().Err() == nil {
				w.bad("shutdown-scope", "the context of namespace %d survives the shutdown of namespace %d", ns, victim)
			}
			if !in[ns] && runtimes[ns].Context().Err() != nil {
				w.bad("shutdown-scope", "the context of namespace %d ended with namespace %d", ns, victim)
			}
		}
	}
	cancel()
	h.Run(1, "graph/final", func() any { return w.label }, func(int) { runtimes[0].Await(); checkDown(0, "Await") })
	h.Observe("namespaces", len(p.parent))
	h.Observe("gets", workers*6)
	h.Observe("nodes_built", len(canon))
	h.Observe("runnables", len(wantRuns))
	h.Observe("expected_errors", errsN)
	h.Case(fmt.Sprint(w.label, p.names, reqs), len(canon) > 1 || errsN > 0)
	if round < 2 {
		h.Sample(map[string]any{"plan": w.label, "defs": fmt.Sprint(len(p.names)), "requests": reqs, "eager": eager})
	}
}

// many goroutines racing for the very same unbuilt node
func contention(h *hx.H, round int) {
	r := h.Rand(int64(200000 + round))
	var builds int64
	fail := r.Intn(4) == 0
	b := golang.NewNamespaceBuilder("root")
	b.Define("leaf", func(n *golang.Namespace) (any, error) {
		c := atomic.AddInt64(&builds, 1)
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		if fail {
			return nil, errors.New("leaf fails")
		}
		return &inst{owner: int(c)}, nil
	})
	root, err := b.Build(context.Background())
	if err != nil {
		h.Violatef("contention/build", nil, "%v", err)
		return
	}
	b2 := golang.NewNamespaceBuilder("child")
	b2.Define("mid", func(n *golang.Namespace) (any, error) {
		var l *inst
		err := n.Get("leaf", &l)
		return l, err
	})
	child, err := b2.BuildWithParent(root)
	if err != nil {
		h.Violatef("contention/build", nil, "%v", err)
		return
	}
	workers := 2 + r.Intn(10)
	out := make([]*inst, workers)
	errs := make([]error, workers)
	h.Run(workers, "contention", func() any { return fmt.Sprint("round ", round) }, func(i int) {
		if i%2 == 0 {
			errs[i] = root.Get("leaf", &out[i])
		} else {
			errs[i] = child.Get("mid", &out[i])
		}
	})
	for i := range out {
		if fail {
			if errs[i] == nil {
				h.Violatef("contention/error-lost", nil, "a requester of a failing node got no error")
			}
		} else if errs[i] != nil || out[i] == nil || out[i] != out[0] {
			h.Violatef("contention/same-instance", nil, "concurrent requesters got %p and %p (err %v)", out[0], out[i], errs[i])
		}
	}
	if !fail && builds != 1 {
		h.Violatef("contention/build-once", nil, "the node was built %d times by %d concurrent requesters", builds, workers)
	}
	h.Observe("contended_gets", workers)
	h.Case(fmt.Sprint("contention", round%50, fail, workers), true)
	root.Shutdown(true)
}

// a Run that fails cancels its namespace (and nested ones) but not the enclosing one; eager failures stop what was started
func failures(h *hx.H, round int) {
	r := h.Rand(int64(300000 + round))
	w := &world{h: h, label: fmt.Sprint("failures ", round), active: make([]int64, 3), release: make(chan struct{}), failRun: "1/bad"}
	mk := func(ns int, name string) golang.BuildFunc {
		return func(n *golang.Namespace) (any, error) {
			return &runInst{inst{owner: ns, name: name, deps: map[string]*inst{}}, w}, nil
		}
	}
	b0 := golang.NewNamespaceBuilder("f0")
	b0.Define("a", mk(0, "a"))
	b0.Instantiate("a")
	ctx, cancel := context.WithCancel(context.Background())
	n0, err := b0.Build(ctx)
	if err != nil {
		w.bad("build-error", "%v", err)
		cancel()
		return
	}
	kind := r.Intn(2)
	if kind == 0 {
		b1 := golang.NewNamespaceBuilder("f1")
		b1.Define("bad", mk(1, "bad"))
		b1.Define("c", mk(1, "c"))
		b1.Instantiate("c")
		b1.Instantiate("bad")
		n1, err := b1.BuildWithParent(n0)
		if err != nil {
			w.bad("build-error", "%v", err)
			cancel()
			return
		}
		b2 := golang.NewNamespaceBuilder("f2")
		b2.Define("d", mk(2, "d"))
		b2.Instantiate("d")
		n2, err := b2.BuildWithParent(n1)
		if err != nil {
			w.bad("build-error", "%v", err)
			cancel()
			return
		}
		close(w.release)
		h.Run(1, "failures/run", func() any { return w.label + ": a failing Run must cancel the other nodes of its namespace" }, func(int) {
			<-n1.Context().Done()
			n1.Await()
			n2.Await()
		})
		if a := atomic.LoadInt64(&w.active[1]) + atomic.LoadInt64(&w.active[2]); a != 0 {
			w.bad("await", "%d nodes still running after Await", a)
		}
		if n0.Context().Err() != nil {
			w.bad("failed-run-scope", "a failing Run in a nested namespace cancelled the enclosing one")
		}
	} else {
		b1 := golang.NewNamespaceBuilder("f1")
		var ns *golang.Namespace
		b1.Define("c", func(n *golang.Namespace) (any, error) { ns = n; return mk(1, "c")(n) })
		b1.Define("bad", func(n *golang.Namespace) (any, error) { return nil, errors.New("cannot build bad") })
		b1.Define("never", func(n *golang.Namespace) (any, error) {
			return nil, nil
		})
		b1.Instantiate("c")
		b1.Instantiate("bad")
		n1, err := b1.BuildWithParent(n0)
		if err == nil || n1 != nil {
			w.bad("eager-error-lost", "building a namespace whose eager node fails returned %v, %v", n1, err)
		} else if ns != nil {
			h.Run(1, "failures/eager", func() any {
				return w.label + ": nodes started by a namespace that failed to build must be stopped"
			}, func(int) { <-ns.Context().Done(); ns.Await() })
		}
	}
	cancel()
	h.Run(1, "failures/final", func() any { return w.label }, func(int) { n0.Await() })
	if a := atomic.LoadInt64(&w.active[0]); a != 0 {
		w.bad("await", "%d nodes still running after Await", a)
	}
	h.Observe("failing_nodes", 1)
	h.Case(fmt.Sprint("failures", kind), true)
}

// ---------------------------------------------------------------- arguments (in child processes)

type argSpec struct {
	Name     string
	Required bool
	Set      *string
	Flag     *string
	Env      *string
	Parent   bool // satisfied by the parent (BuildWithParent case)
}
type childSpec struct {
	Args   []argSpec
	Nested bool
}
type childOut struct {
	BuildErr string
	Values   map[string]string
	Errs     map[string]string
}

func child(spec string) {
	var s childSpec
	if err := json.Unmarshal([]byte(spec), &s); err != nil {
		panic(err)
	}
	out := childOut{Values: map[string]string{}, Errs: map[string]string{}}
	var n *golang.Namespace
	var err error
	b := golang.NewNamespaceBuilder("args")
	for i, a := range s.Args {
		a := a
		if a.Set != nil && i%2 == 0 {
			b.Set(a.Name, *a.Set)
		}
		if s.Nested {
			continue
		}
		if a.Required {
			b.Required(a.Name, "desc")
		} else {
			b.Optional(a.Name, "desc")
		}
		if a.Set != nil && i%2 == 1 {
			b.Set(a.Name, *a.Set)
		}
	}
	if s.Nested {
		// the argument values live in the grandparent; required args are declared by the innermost namespace
		pb := golang.NewNamespaceBuilder("grandparent")
		for _, a := range s.Args {
			if a.Parent {
				pb.Set(a.Name, "from-parent-"+a.Name)
			}
		}
		var gp, p *golang.Namespace
		gp, err = pb.Build(context.Background())
		if err == nil {
			p, err = golang.NewNamespaceBuilder("mid").BuildWithParent(gp)
		}
		if err == nil {
			b := golang.NewNamespaceBuilder("inner")
			for _, a := range s.Args {
				if a.Set != nil {
					b.Set(a.Name, *a.Set)
				}
				b.Required(a.Name, "desc")
			}
			n, err = b.BuildWithParent(p)
		}
	} else {
		n, err = b.Build(context.Background())
	}
	if err != nil {
		out.BuildErr = err.Error()
	} else {
		for _, a := range s.Args {
			var v string
			if err := n.Get(a.Name, &v); err != nil {
				out.Errs[a.Name] = err.Error()
			} else {
				out.Values[a.Name] = v
			}
		}
	}
	j, _ := json.Marshal(out)
	fmt.Println("CHILDOUT " + string(j))
}

var nonAlnum = regexp.MustCompile(`[^A-Z0-9]+`)

func envName(name string) string { return nonAlnum.ReplaceAllString(strings.ToUpper(name), "_") }

func arguments(h *hx.H, round int) {
	r := h.Rand(int64(400000 + round))
	pool := []string{"alpha.http.dial_addr", "beta-service.grpc.bind_addr", "gammaAddr", "delta_db.dial_addr", "epsilon.x.y.z", "zeta2.addr", "theta..addr"}
	vals := []string{"localhost:1234", "a b c", "x=y", `q"uo'te`, "0", "-dash", "ünï", "false", "http://h:1/?a=b&c=d"}
	perm := r.Perm(len(pool))
	s := childSpec{Nested: round%6 == 5}
	var env []string
	var argv []string
	want := map[string]string{}
	var missing []string
	missingOpt := map[string]bool{}
	for i := 0; i < 1+r.Intn(5); i++ {
		a := argSpec{Name: pool[perm[i]], Required: r.Intn(3) > 0}
		pick := func() *string { v := fmt.Sprint(vals[r.Intn(len(vals))], r.Intn(3)); return &v }
		if r.Intn(4) == 0 {
			a.Set = pick()
		}
		if s.Nested {
			a.Required = true
			a.Parent = r.Intn(2) == 0
			switch {
			case a.Set != nil:
				want[a.Name] = *a.Set
			case a.Parent:
				want[a.Name] = "from-parent-" + a.Name
			default:
				missing = append(missing, a.Name)
			}
		} else {
			if r.Intn(2) == 0 {
				a.Flag = pick()
				argv = append(argv, []string{"-", "--"}[r.Intn(2)]+a.Name+"="+*a.Flag)
			}
			if r.Intn(2) == 0 {
				a.Env = pick()
				env = append(env, envName(a.Name)+"="+*a.Env)
			}
			switch {
			case a.Set != nil:
				want[a.Name] = *a.Set
			case a.Flag != nil:
				want[a.Name] = *a.Flag
			case a.Env != nil:
				want[a.Name] = *a.Env
			case a.Required:
				missing = append(missing, a.Name)
			default:
				missingOpt[a.Name] = true
			}
		}
		s.Args = append(s.Args, a)
	}
	j, _ := json.Marshal(s)
	cmd := exec.Command(os.Args[0], argv...)
	cmd.Env = append(append([]string{}, "VERIF_CHILD="+string(j), "PATH=/usr/bin:/bin", "HOME=/tmp", "GORACE=atexit_sleep_ms=0 "+os.Getenv("GORACE")), env...)
	outb, err := cmd.CombinedOutput()
	i := strings.LastIndex(string(outb), "CHILDOUT ")
	rep := map[string]any{"spec": s, "argv": argv, "env": env, "output": string(outb)}
	if i < 0 {
		h.Violate("args/crash", fmt.Sprintf("process did not survive its arguments: %v", err), rep)
		return
	}
	var o childOut
	if err := json.Unmarshal([]byte(strings.TrimSpace(string(outb[i+9:]))), &o); err != nil {
		h.Unsure("child output: %v", err)
		return
	}
	if len(missing) > 0 {
		if o.BuildErr == "" {
			h.Violate("args/missing-accepted", fmt.Sprintf("the namespace was built although required arguments %v are missing", missing), rep)
		}
		for _, m := range missing {
			if !strings.Contains(o.BuildErr, m) && o.BuildErr != "" {
				h.Violate("args/missing-unnamed", fmt.Sprintf("the error %q does not name missing argument %s", o.BuildErr, m), rep)
			}
		}
		for k := range want {
			if strings.Contains(o.BuildErr, k) {
				h.Violate("args/missing-wrong", fmt.Sprintf("the error %q names argument %s, which was provided", o.BuildErr, k), rep)
			}
		}
	} else {
		if o.BuildErr != "" {
			h.Violate("args/rejected", fmt.Sprintf("all required arguments were given but building failed: %s", o.BuildErr), rep)
		} else {
			for k, v := range want {
				if o.Values[k] != v {
					h.Violate("args/value", fmt.Sprintf("argument %s = %q (err %q), expected %q", k, o.Values[k], o.Errs[k], v), rep)
				}
			}
			for k := range missingOpt {
				if o.Errs[k] == "" {
					h.Violate("args/optional-missing", fmt.Sprintf("unset optional argument %s was obtained as %q", k, o.Values[k]), rep)
				}
			}
		}
	}
	h.Observe("argument_processes", 1)
	h.Case(fmt.Sprint(string(j), argv, env), true)
	if round == 0 {
		h.Sample(rep)
	}
}

// an interrupted process shuts its namespaces down and awaits its nodes
func interruptChild() {
	w := &world{active: make([]int64, 2), slowRun: 3}
	mk := func(ns int, name string) golang.BuildFunc {
		return func(n *golang.Namespace) (any, error) {
			return &runInst{inst{owner: ns, name: name, deps: map[string]*inst{}}, w}, nil
		}
	}
	b := golang.NewNamespaceBuilder("p")
	b.Define("a", mk(0, "a"))
	b.Instantiate("a")
	n, err := b.Build(context.Background())
	if err != nil {
		fmt.Println("ERR", err)
		return
	}
	b1 := golang.NewNamespaceBuilder("c")
	b1.Define("b", mk(1, "b"))
	b1.Instantiate("b")
	if _, err := b1.BuildWithParent(n); err != nil {
		fmt.Println("ERR", err)
		return
	}
	for atomic.LoadInt64(&w.runs) < 2 {
		time.Sleep(time.Millisecond)
	}
	fmt.Println("READY")
	n.Await()
	fmt.Println("AWAITED", atomic.LoadInt64(&w.active[0])+atomic.LoadInt64(&w.active[1]))
}

func interrupts(h *hx.H) {
	for i := 0; i < 4; i++ {
		cmd := exec.Command(os.Args[0])
		cmd.Env = []string{"VERIF_CHILD=interrupt", "PATH=/usr/bin:/bin", "HOME=/tmp", "GORACE=atexit_sleep_ms=0 " + os.Getenv("GORACE")}
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			h.Unsure("start: %v", err)
			return
		}
		lines := make(chan string, 10)
		go func() {
			sc := bufio.NewScanner(out)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		if l := <-lines; l != "READY" {
			h.Violatef("interrupt/start", nil, "child said %q", l)
		}
		cmd.Process.Signal(os.Interrupt)
		select {
		case l := <-lines:
			if l != "AWAITED 0" {
				h.Violatef("interrupt/await", nil, "after an interrupt the process said %q; expected its two nodes to have returned", l)
			}
		case <-time.After(120 * time.Second):
			h.Violatef("interrupt/ignored", nil, "a process blocked in Await ignored an interrupt for 120 s")
			cmd.Process.Kill()
		}
		cmd.Wait()
		h.Observe("interrupted_processes", 1)
		h.Case("interrupt", true)
	}
}

func main() {
	if os.Getenv("VERIF_CHILD") == "interrupt" {
		slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
		interruptChild()
		return
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if s := os.Getenv("VERIF_CHILD"); s != "" {
		child(s)
		return
	}
	h := hx.New()
	h.Rule = "random namespace trees (1-4 levels) with shadowed, failing, runnable and value nodes, requested by 1-8 concurrent goroutines, then shut down in four ways; contention on single nodes; failing Run and failing eager nodes; argument sources in child processes. Non-trivial: more than one node built or an expected error"
	if h.Part("arguments") {
		for i := 0; i < h.N(160, 1500); i++ {
			arguments(h, i)
		}
	}
	if h.Part("interrupts") {
		interrupts(h)
	}
	if h.Part("failures") {
		for i := 0; i < h.N(60, 600); i++ {
			failures(h, i)
		}
	}
	if h.Part("contention") {
		for i := 0; i < h.N(300, 4000); i++ {
			contention(h, i)
		}
	}
	if h.Part("graphs") {
		for i := 0; i < h.N(1200, 15000); i++ {
			graphs(h, i)
		}
	}
	h.Done()
}
