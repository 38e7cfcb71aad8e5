// C22: the test service registry resolves one shared instance per service.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
	"golang.org/x/exp/slog"
)

type svc struct{ id int64 }

type op struct {
	Kind  string // reg, default, get
	Name  string
	Fails bool
}

func main() {
	h := hx.New()
	h.Rule = "a distinct sequence of registrations, defaults and Gets (failing constructors included), followed by concurrent Gets"
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	_ = os.Stdout
	if h.Part("seq") {
		r := h.Rand(220)
		for i := 0; i < h.N(4000, 200000); i++ {
			var ops []op
			names := []string{"a", "b", "c", ""}[:1+r.Intn(4)]
			for k := r.Intn(7); k > 0; k-- {
				switch r.Intn(5) {
				case 0:
					ops = append(ops, op{Kind: "default", Name: append(names, "zzz")[r.Intn(len(names)+1)]})
				case 1:
					if r.Intn(3) == 0 {
						ops = append(ops, op{Kind: "get"})
						continue
					}
					fallthrough
				default:
					ops = append(ops, op{Kind: "reg", Name: names[r.Intn(len(names))], Fails: r.Intn(4) == 0})
				}
			}
			scenario(h, i, ops, 1+r.Intn(8))
		}
	}
	if h.Part("race") {
		// registrations of other names, and Gets, all at once
		r := h.Rand(221)
		for i := 0; i < h.N(400, 20000); i++ {
			reg := registry.NewServiceRegistry[*svc](fmt.Sprint("race", i))
			var builds int64
			mk := func(id int64) func(context.Context) (*svc, error) {
				return func(context.Context) (*svc, error) {
					atomic.AddInt64(&builds, 1)
					return &svc{id}, nil
				}
			}
			reg.Register("first", mk(1))
			n := 2 + r.Intn(8)
			kinds := make([]int, n)
			for k := range kinds {
				kinds[k] = r.Intn(3)
			}
			got := make([]*svc, n)
			errs := make([]error, n)
			h.Run(n, "registry", func() any { return kinds }, func(w int) {
				switch kinds[w] {
				case 0:
					reg.Register(fmt.Sprint("other", w), mk(int64(100+w)))
				default:
					got[w], errs[w] = reg.Get(context.Background())
				}
			})
			for w := range got {
				if kinds[w] != 0 && (errs[w] != nil || got[w] == nil || got[w].id != 1) {
					h.Violatef("registry/concurrent", kinds, "concurrent Get returned %v, %v instead of the default instance", got[w], errs[w])
				}
			}
			if builds > 1 {
				h.Violatef("registry/twice", kinds, "%d builds for concurrent Gets", builds)
			}
			h.Case(fmt.Sprint("race", kinds), true)
			h.Observe("concurrent_rounds", 1)
		}
	}
	h.Done()
}

func scenario(h *hx.H, i int, ops []op, workers int) {
	reg := registry.NewServiceRegistry[*svc](fmt.Sprint("reg", i))
	type cons struct {
		id    int64
		fails bool
		calls int64
	}
	latest := map[string]*cons{}
	var all []*cons
	def := ""
	resolved := false
	var want *cons // nil: an error is due
	sig := fmt.Sprint(ops, workers)
	var firstGot *svc
	haveGot := false
	check := func(got *svc, err error) {
		h.Observe("gets", 1)
		if want == nil || want.fails {
			if err == nil {
				h.Violatef("registry/no-error", sig, "%v: Get returned %v without an error", sig, got)
			} else if want != nil && !strings.Contains(err.Error(), fmt.Sprint("cons", want.id, "failed")) {
				h.Violatef("registry/wrong-error", sig, "%v: Get returned error %v, which is not the constructor's", sig, err)
			}
			return
		}
		if err != nil || got == nil || got.id != want.id {
			h.Violatef("registry/wrong-instance", sig, "%v: Get returned %v, %v instead of the instance of constructor %d", sig, got, err, want.id)
			return
		}
		if haveGot && got != firstGot {
			h.Violatef("registry/second-instance", sig, "%v: two Gets returned different instances", sig)
		}
		firstGot, haveGot = got, true
	}
	resolve := func() {
		if !resolved {
			resolved = true
			if c, ok := latest[def]; ok && len(latest) > 0 {
				want = c
			}
		}
	}
	defSet := false
	for _, o := range ops {
		switch o.Kind {
		case "default":
			reg.SetDefault(o.Name)
			if !resolved && o.Name != "" {
				def, defSet = o.Name, true
			} else if !resolved {
				return // an empty default name is not meaningful
			}
		case "reg":
			c := &cons{id: int64(len(all) + 1), fails: o.Fails}
			all = append(all, c)
			reg.Register(o.Name, func(ctx context.Context) (*svc, error) {
				n := atomic.AddInt64(&c.calls, 1)
				time.Sleep(20 * time.Microsecond)
				if c.fails {
					return nil, errors.New(fmt.Sprint("cons", c.id, "failed"))
				}
				return &svc{c.id + 1000*(n-1)}, nil
			})
			if !defSet {
				def, defSet = o.Name, true
			}
			latest[o.Name] = c
			if resolved {
				// registrations after the first use do not matter any more
				continue
			}
		case "get":
			resolve()
			got, err := reg.Get(context.Background())
			check(got, err)
		}
	}
	resolve()
	got := make([]*svc, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	h.Run(workers, "registry", func() any { return sig }, func(w int) { got[w], errs[w] = reg.Get(context.Background()) })
	wg.Wait()
	for w := range got {
		check(got[w], errs[w])
	}
	for _, c := range all {
		if n := atomic.LoadInt64(&c.calls); n > 1 {
			h.Violatef("registry/twice", sig, "%v: constructor %d ran %d times", sig, c.id, n)
		} else if n > 0 && c != want {
			h.Violatef("registry/not-default", sig, "%v: constructor %d ran although it is not the default", sig, c.id)
		}
	}
	h.Case(sig, len(ops) > 0)
	h.Observe("constructors", len(all))
}
