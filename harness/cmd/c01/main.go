// C01: the in-memory cache is a linearizable map with atomic counters.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"time"

	"verif/harness/hx"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
)

type in struct {
	Op  string `json:"op"` // put get del incr
	Key string `json:"key"`
	Val int64  `json:"val,omitempty"`
}
type out struct {
	Ok  bool  `json:"ok"`
	Val int64 `json:"val"`
}

type state struct {
	present bool
	val     int64
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var keys []string
		for _, o := range h {
			k := o.Input.(in).Key
			if _, ok := m[k]; !ok {
				keys = append(keys, k)
			}
			m[k] = append(m[k], o)
		}
		var r [][]porcupine.Operation
		for _, k := range keys {
			r = append(r, m[k])
		}
		return r
	},
	Init: func() any { return state{} },
	Step: func(s, i, o any) (bool, any) {
		st, ii, oo := s.(state), i.(in), o.(out)
		switch ii.Op {
		case "put":
			return true, state{true, ii.Val}
		case "del":
			return true, state{}
		case "incr":
			n := int64(1)
			if st.present {
				n = st.val + 1
			}
			return oo.Val == n, state{true, n}
		case "get":
			if !st.present {
				return !oo.Ok, st
			}
			return oo.Ok && oo.Val == st.val, st
		case "mget": // absence is only visible through the untouched destination
			if !st.present {
				return oo.Val == untouched, st
			}
			return oo.Val == st.val, st
		}
		return false, st
	},
}

const untouched = -987654321

type ev struct {
	Client int   `json:"client"`
	Call   int64 `json:"call"`
	Ret    int64 `json:"ret"`
	In     in    `json:"in"`
	Out    out   `json:"out"`
}

func newCache(h *hx.H) backend.Cache {
	c, err := simplecache.NewSimpleCache(context.Background())
	if err != nil {
		h.Violatef("new", nil, "NewSimpleCache failed: %v", err)
		h.Done()
	}
	return c
}

// one short concurrent history
func history(h *hx.H, round int) {
	r := h.Rand(int64(round))
	ctx := context.Background()
	c := newCache(h)
	nclients := 2 + r.Intn(6)
	nkeys := 1 + r.Intn(3)
	nops := 4 + r.Intn(9)
	profile := r.Intn(4) // which ops dominate
	keys := []string{"a", "b", "c"}[:nkeys]
	seeds := make([]int64, nclients)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var clk hx.Clock
	evs := make([][]ev, nclients)
	key := "history"
	h.Run(nclients, key, func() any { return fmt.Sprintf("round %d", round) }, func(ci int) {
		r := rand.New(rand.NewSource(seeds[ci]))
		rec := func(call, ret int64, i in, o out) { evs[ci] = append(evs[ci], ev{ci, call, ret, i, o}) }
		for k := 0; k < nops; k++ {
			key := keys[r.Intn(len(keys))]
			val := int64(ci+1)*1000000 + int64(k)*1000
			op := r.Intn(100)
			var weights [6]int // put get del incr mset mget (cumulative)
			switch profile {
			case 0:
				weights = [6]int{15, 40, 50, 70, 85, 100}
			case 1:
				weights = [6]int{5, 15, 20, 95, 97, 100}
			case 2:
				weights = [6]int{20, 40, 60, 70, 80, 100}
			default:
				weights = [6]int{10, 25, 30, 40, 70, 100}
			}
			if r.Intn(3) == 0 {
				runtime.Gosched()
			}
			switch {
			case op < weights[0]:
				t := clk.Tick()
				err := c.Put(ctx, key, val)
				u := clk.Tick()
				if err != nil {
					h.Violatef("put-error", nil, "Put returned %v", err)
				}
				rec(t, u, in{"put", key, val}, out{})
			case op < weights[1]:
				v := int64(untouched)
				t := clk.Tick()
				ok, err := c.Get(ctx, key, &v)
				u := clk.Tick()
				if err != nil {
					h.Violatef("get-error", nil, "Get returned %v", err)
				}
				if !ok && v != untouched {
					h.Violatef("get-absent-dst", nil, "Get reported absence but set its destination to %v", v)
				}
				rec(t, u, in{"get", key, 0}, out{ok, v})
			case op < weights[2]:
				t := clk.Tick()
				err := c.Delete(ctx, key)
				u := clk.Tick()
				if err != nil {
					h.Violatef("del-error", nil, "Delete returned %v", err)
				}
				rec(t, u, in{"del", key, 0}, out{})
			case op < weights[3]:
				t := clk.Tick()
				n, err := c.Incr(ctx, key)
				u := clk.Tick()
				if err != nil {
					h.Violatef("incr-error", nil, "Incr returned %v", err)
				}
				rec(t, u, in{"incr", key, 0}, out{true, n})
			case op < weights[4]:
				var ks []string
				var vs []any
				p := r.Perm(len(keys))
				n := 1 + r.Intn(len(keys))
				for j := 0; j < n; j++ {
					ks = append(ks, keys[p[j]])
					vs = append(vs, val+int64(j))
				}
				t := clk.Tick()
				err := c.Mset(ctx, ks, vs)
				u := clk.Tick()
				if err != nil {
					h.Violatef("mset-error", nil, "Mset returned %v", err)
				}
				for j := range ks {
					rec(t, u, in{"put", ks[j], vs[j].(int64)}, out{})
				}
			default:
				var ks []string
				p := r.Perm(len(keys))
				n := 1 + r.Intn(len(keys))
				dst := make([]int64, n)
				var vs []any
				for j := 0; j < n; j++ {
					ks = append(ks, keys[p[j]])
					dst[j] = untouched
					vs = append(vs, &dst[j])
				}
				t := clk.Tick()
				err := c.Mget(ctx, ks, vs)
				u := clk.Tick()
				if err != nil {
					h.Violatef("mget-error", nil, "Mget returned %v", err)
				}
				for j := range ks {
					rec(t, u, in{"mget", ks[j], 0}, out{true, dst[j]})
				}
			}
			h.Progress()
		}
	})
	var ops []porcupine.Operation
	var all []ev
	overl := 0
	for _, l := range evs {
		for _, e := range l {
			ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e.In, Call: e.Call, Output: e.Out, Return: e.Ret})
			all = append(all, e)
		}
	}
	for i := range all {
		for j := range all {
			if i < j && all[i].Client != all[j].Client && all[i].In.Key == all[j].In.Key && all[i].Call < all[j].Ret && all[j].Call < all[i].Ret {
				overl++
			}
		}
	}
	h.Observe("events", len(all))
	h.Observe("overlapping_pairs_same_key", overl)
	h.Case(fmt.Sprint(all), overl > 0)
	if round == 0 {
		h.Sample(all)
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
	case porcupine.Illegal:
		h.Violate("history/not-linearizable", "concurrent history is not linearizable per key", map[string]any{"seed": h.Seed, "round": round, "history": all})
	case porcupine.Unknown:
		h.Unsure("porcupine timed out on round %d", round)
	}
}

// heavy Incr and heavy per-key writes from many goroutines: conservation
func hammer(h *hx.H) {
	ctx := context.Background()
	for rep := 0; rep < h.N(4, 20); rep++ {
		c := newCache(h)
		const workers = 8
		per := h.N(6000, 30000)
		seen := make([][]int64, workers)
		h.Run(workers, "hammer", func() any { return "8 goroutines calling Incr on one key" }, func(i int) {
			for k := 0; k < per; k++ {
				n, err := c.Incr(ctx, "ctr")
				if err != nil {
					h.Violatef("hammer/incr-error", nil, "Incr failed: %v", err)
					return
				}
				seen[i] = append(seen[i], n)
				if k%64 == 0 {
					c.Put(ctx, fmt.Sprintf("k%d", i), int64(k))
					var v int64
					if ok, err := c.Get(ctx, fmt.Sprintf("k%d", i), &v); !ok || err != nil || v != int64(k) {
						h.Violatef("hammer/own-write", nil, "goroutine %d read %v,%v,%v for its own key after writing %d", i, v, ok, err, k)
					}
					c.Delete(ctx, fmt.Sprintf("k%d", i))
					h.Progress()
				}
			}
		})
		var final int64
		ok, err := c.Get(ctx, "ctr", &final)
		if !ok || err != nil || final != int64(workers*per) {
			h.Violatef("hammer/lost-increment", map[string]any{"increments": workers * per, "final": final}, "%d increments left the counter at %d (ok=%v err=%v)", workers*per, final, ok, err)
		}
		got := make([]bool, workers*per+1)
		for i := range seen {
			prev := int64(0)
			for _, n := range seen[i] {
				if n <= prev {
					h.Violatef("hammer/nonmonotonic", nil, "Incr results of one client went from %d to %d", prev, n)
				}
				prev = n
				if n < 1 || n > int64(workers*per) || got[n] {
					h.Violatef("hammer/duplicate-increment", nil, "Incr returned %d twice or out of range", n)
					continue
				}
				got[n] = true
			}
		}
		h.Observe("hammer_increments", workers*per)
		h.Case(fmt.Sprint("hammer", rep, final), true)
	}
}

// torn values: concurrent Puts of multi-word values on one key and Gets
func torn(h *hx.H) {
	ctx := context.Background()
	type big struct{ A, B, C int64 }
	for rep := 0; rep < h.N(3, 12); rep++ {
		c := newCache(h)
		c.Put(ctx, "k", big{1, 1, 1})
		h.Run(8, "torn", func() any { return "concurrent Put/Get of a struct" }, func(i int) {
			for k := 0; k < h.N(3000, 20000); k++ {
				v := int64(i*1000000 + k)
				if i%2 == 0 {
					if k%2 == 0 {
						c.Put(ctx, "k", big{v, v, v})
					} else {
						c.Mset(ctx, []string{"k", "l"}, []any{big{v, v, v}, []int64{v, v}})
					}
				} else {
					var b big
					ok, err := c.Get(ctx, "k", &b)
					if !ok || err != nil || b.A != b.B || b.B != b.C {
						h.Violatef("torn/read", nil, "read %+v ok=%v err=%v", b, ok, err)
					}
				}
				if k%256 == 0 {
					h.Progress()
				}
			}
		})
		h.Observe("torn_ops", 8*h.N(3000, 20000))
		h.Case(fmt.Sprint("torn", rep), true)
	}
}

type pt struct {
	X, Y int
	S    []string
}

// sequential differential test over many value types
func sequential(h *hx.H) {
	ctx := context.Background()
	r := h.Rand(77)
	five := 5
	gen := []func() any{
		func() any { return int64(r.Intn(100)) },
		func() any { return r.Intn(100) },
		func() any { return fmt.Sprint("s", r.Intn(100)) },
		func() any { return r.Float64() },
		func() any { return r.Intn(2) == 0 },
		func() any { return []byte(fmt.Sprint("b", r.Intn(10))) },
		func() any { return pt{r.Intn(9), r.Intn(9), []string{"x", fmt.Sprint(r.Intn(9))}} },
		func() any { return []pt{{r.Intn(9), 0, nil}, {1, r.Intn(9), nil}} },
		func() any { return map[string]int{"k": r.Intn(9)} },
		func() any { return &five },
		func() any { return []any{"m", r.Intn(9)} },
		func() any { return []string{} },
		func() any { return "" },
		func() any { return int64(0) },
		func() any { return pt{} },
	}
	rounds := h.N(400, 4000)
	for round := 0; round < rounds; round++ {
		c := newCache(h)
		ref := map[string]any{}
		keys := []string{"", "a", "b", "key with space", "a.b"}
		var log []string
		bad := func(key, f string, a ...any) {
			h.Violate("sequential/"+key, fmt.Sprintf(f, a...), map[string]any{"round": round, "ops": append([]string{}, log...)})
		}
		check := func(k string) {
			v, ok := ref[k]
			var got any
			exists, err := c.Get(ctx, k, &got)
			if exists != ok || err != nil || (ok && !reflect.DeepEqual(got, v)) || (!ok && got != nil) {
				bad("get", "Get(%q) = %#v,%v,%v; expected %#v,%v", k, got, exists, err, v, ok)
			}
			if ok && v != nil {
				d := reflect.New(reflect.TypeOf(v))
				exists, err := c.Get(ctx, k, d.Interface())
				if !exists || err != nil || !reflect.DeepEqual(d.Elem().Interface(), v) {
					bad("get-typed", "typed Get(%q) = %#v,%v,%v; expected %#v", k, d.Elem().Interface(), exists, err, v)
				}
				type other struct{ Q chan int }
				w := other{}
				exists, err = c.Get(ctx, k, &w)
				if !exists || err == nil {
					bad("get-mistyped", "Get(%q) of %T into an incompatible type = %v,%v; expected true and an error", k, v, exists, err)
				}
			}
		}
		p := hx.Catch(func() {
			for step := 0; step < 25; step++ {
				k := keys[r.Intn(len(keys))]
				switch r.Intn(8) {
				case 0, 1:
					v := gen[r.Intn(len(gen))]()
					log = append(log, fmt.Sprintf("Put(%q,%#v)", k, v))
					if err := c.Put(ctx, k, v); err != nil {
						bad("put", "Put error %v", err)
					}
					ref[k] = v
				case 2:
					log = append(log, fmt.Sprintf("Delete(%q)", k))
					if err := c.Delete(ctx, k); err != nil {
						bad("delete", "Delete error %v", err)
					}
					delete(ref, k)
				case 3:
					log = append(log, fmt.Sprintf("Incr(%q)", k))
					n, err := c.Incr(ctx, k)
					cur, ok := ref[k]
					if !ok {
						if err != nil || n != 1 {
							bad("incr-absent", "Incr of absent key = %d,%v", n, err)
						}
						ref[k] = int64(1)
					} else if i, isInt := cur.(int64); isInt {
						if err != nil || n != i+1 {
							bad("incr", "Incr of %d = %d,%v", i, n, err)
						}
						ref[k] = i + 1
					} else if _, isInt := cur.(int); isInt {
						// "treats the value as an integer": either outcome, but a failure changes nothing
						if err == nil {
							ref[k] = int64(cur.(int)) + 1
							c.Put(ctx, k, ref[k])
						}
					} else if err == nil {
						bad("incr-nonint", "Incr of %#v succeeded with %d", cur, n)
					}
				case 4:
					n := r.Intn(4)
					var ks []string
					var vs []any
					for i := 0; i < n; i++ {
						ks = append(ks, keys[r.Intn(len(keys))])
						vs = append(vs, gen[r.Intn(len(gen))]())
					}
					log = append(log, fmt.Sprintf("Mset(%q,%#v)", ks, vs))
					if err := c.Mset(ctx, ks, vs); err != nil {
						bad("mset", "Mset error %v", err)
					}
					for i := range ks {
						ref[ks[i]] = vs[i]
					}
				case 5:
					n := 1 + r.Intn(4)
					var ks []string
					dst := make([]any, n)
					var ptrs []any
					for i := 0; i < n; i++ {
						ks = append(ks, keys[r.Intn(len(keys))])
						dst[i] = "untouched"
						ptrs = append(ptrs, &dst[i])
					}
					log = append(log, fmt.Sprintf("Mget(%q)", ks))
					if err := c.Mget(ctx, ks, ptrs); err != nil {
						bad("mget", "Mget error %v", err)
					}
					for i := range ks {
						if v, ok := ref[ks[i]]; ok {
							if !reflect.DeepEqual(dst[i], v) {
								bad("mget", "Mget[%d] of %q = %#v, expected %#v", i, ks[i], dst[i], v)
							}
						} else if dst[i] != "untouched" {
							bad("mget-absent", "Mget of absent key %q set its destination to %#v", ks[i], dst[i])
						}
					}
				case 6:
					log = append(log, "Mset/Mget with mismatched lengths")
					nk, nv := r.Intn(4), r.Intn(4)
					if nk == nv {
						nk++
					}
					ks := make([]string, nk)
					vs := make([]any, nv)
					for i := range ks {
						ks[i] = keys[i%len(keys)]
					}
					for i := range vs {
						vs[i] = "should not be stored"
					}
					if err := c.Mset(ctx, ks, vs); err == nil {
						bad("mset-mismatch", "Mset with %d keys and %d values succeeded", nk, nv)
					}
					sink := make([]any, nv)
					for i := range vs {
						vs[i] = &sink[i]
					}
					if err := c.Mget(ctx, ks, vs); err == nil {
						bad("mget-mismatch", "Mget with %d keys and %d values succeeded", nk, nv)
					}
					for i := range sink {
						if sink[i] != nil {
							bad("mget-mismatch", "rejected Mget wrote %v", sink[i])
						}
					}
					for _, k := range keys {
						check(k)
					}
				case 7:
					if r.Intn(4) == 0 {
						log = append(log, fmt.Sprintf("Put(%q,nil)", k))
						if err := c.Put(ctx, k, nil); err != nil {
							bad("put-nil", "Put(nil) error %v", err)
						}
						ref[k] = nil
					}
				}
				check(keys[r.Intn(len(keys))])
			}
			for _, k := range keys {
				check(k)
			}
		})
		if p != "" {
			bad("panic", "%s", p)
		}
		h.Case(fmt.Sprint(log), len(log) > 3)
		h.Observe("sequential_ops", len(log))
		if round == 0 {
			h.Sample(log)
		}
	}
}

// two caches never share entries
func instances(h *hx.H) {
	ctx := context.Background()
	a, b := newCache(h), newCache(h)
	a.Put(ctx, "k", int64(1))
	var v int64
	if ok, _ := b.Get(ctx, "k", &v); ok {
		h.Violate("instances/shared", "a key put in one cache is visible in another", nil)
	}
	if n, _ := b.Incr(ctx, "k"); n != 1 {
		h.Violatef("instances/shared", nil, "Incr in a fresh cache returned %d", n)
	}
	h.Case("instances", true)
}

func main() {
	h := hx.New()
	h.Rule = "concurrent histories of 2-7 clients x 4-12 ops over 1-3 keys (4 op mixes), counted non-trivial when operations of different clients on one key overlapped and distinct by full event log; plus counter hammering, torn-value reads and sequential differential runs over 15 value types"
	var once sync.Once
	_ = &once
	if h.Part("sequential") {
		sequential(h)
		instances(h)
	}
	if h.Part("history") {
		for i := 0; i < h.N(1500, 20000); i++ {
			history(h, i)
		}
	}
	if h.Part("hammer") {
		hammer(h)
	}
	if h.Part("torn") {
		torn(h)
	}
	h.Done()
}
