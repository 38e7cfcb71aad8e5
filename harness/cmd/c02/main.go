// C02: the in-memory queue is FIFO, bounded by 10, exactly-once under cancellation.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
)

const capacity = 10
const untouched = int64(-777)

type in struct {
	Push bool  `json:"push"`
	Val  int64 `json:"val"`
}
type out struct {
	Ok  bool  `json:"ok"`
	Val int64 `json:"val"`
}
type ev struct {
	Client int   `json:"client"`
	Call   int64 `json:"call"`
	Ret    int64 `json:"ret"`
	In     in    `json:"in"`
	Out    out   `json:"out"`
}

var model = porcupine.Model{
	Init: func() any { return "" },
	Step: func(s, i, o any) (bool, any) {
		st, ii, oo := s.(string), i.(in), o.(out)
		n := strings.Count(st, ",")
		if ii.Push {
			if oo.Ok {
				return n < capacity, st + fmt.Sprint(ii.Val) + ","
			}
			return n == capacity, st
		}
		if !oo.Ok {
			return n == 0, st
		}
		head := fmt.Sprint(oo.Val) + ","
		if strings.HasPrefix(st, head) {
			return true, st[len(head):]
		}
		return false, st
	},
	Equal: func(a, b any) bool { return a.(string) == b.(string) },
}

func newQ(h *hx.H) backend.Queue {
	q, err := simplequeue.NewSimpleQueue(context.Background())
	if err != nil {
		h.Violatef("new", nil, "NewSimpleQueue failed: %v", err)
		h.Done()
	}
	return q
}

var cancelled = func() context.Context {
	c, f := context.WithCancel(context.Background())
	f()
	return c
}()

func history(h *hx.H, round int) {
	r := h.Rand(int64(round))
	q := newQ(h)
	nclients := 2 + r.Intn(4)
	nops := 5 + r.Intn(8)
	bias := []int{50, 70, 85, 30, 55}[r.Intn(5)]
	pre := r.Intn(12)
	mode := r.Intn(3) // 0: all non-blocking (cancelled ctx), 1: timeouts, 2: mixture with external cancellation
	var clk hx.Clock
	evs := make([][]ev, nclients+1)
	push := func(ci int, ctx context.Context, v int64) bool {
		t := clk.Tick()
		ok, err := q.Push(ctx, v)
		u := clk.Tick()
		if err != nil {
			h.Violatef("push-error", nil, "Push returned error %v", err)
		}
		evs[ci] = append(evs[ci], ev{ci, t, u, in{true, v}, out{ok, 0}})
		return ok
	}
	pop := func(ci int, ctx context.Context) bool {
		v := untouched
		t := clk.Tick()
		ok, err := q.Pop(ctx, &v)
		u := clk.Tick()
		if err != nil {
			h.Violatef("pop-error", nil, "Pop returned error %v", err)
		}
		if !ok && v != untouched {
			h.Violatef("pop-false-dst", nil, "Pop reported false but wrote %v", v)
		}
		evs[ci] = append(evs[ci], ev{ci, t, u, in{false, 0}, out{ok, v}})
		return ok
	}
	for k := 0; k < pre; k++ {
		push(nclients, cancelled, int64(900000+k))
	}
	seeds := make([]int64, nclients)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	h.Run(nclients, "history", func() any { return fmt.Sprint("round ", round) }, func(ci int) {
		r := rand.New(rand.NewSource(seeds[ci]))
		for k := 0; k < nops; k++ {
			ctx, stop := cancelled, func() {}
			if mode == 1 || (mode == 2 && r.Intn(2) == 0) {
				c, f := context.WithTimeout(context.Background(), time.Duration(r.Intn(60))*time.Microsecond)
				ctx, stop = c, f
			} else if mode == 2 {
				c, f := context.WithCancel(context.Background())
				n := r.Intn(50)
				go func() {
					for i := 0; i < n; i++ {
						runtime.Gosched()
					}
					f()
				}()
				ctx = c
			}
			if r.Intn(100) < bias {
				push(ci, ctx, int64(ci+1)*1000+int64(k))
			} else {
				pop(ci, ctx)
			}
			stop()
			h.Progress()
		}
	})
	// drain
	for i := 0; pop(nclients, cancelled); i++ {
		if i > 1000 {
			h.Violate("history/endless", "queue never drains", nil)
			break
		}
	}
	var ops []porcupine.Operation
	var all []ev
	accepted, delivered := map[int64]bool{}, map[int64]int{}
	falses := 0
	for _, l := range evs {
		for _, e := range l {
			ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e.In, Call: e.Call, Output: e.Out, Return: e.Ret})
			all = append(all, e)
			if e.In.Push && e.Out.Ok {
				accepted[e.In.Val] = true
			}
			if !e.In.Push && e.Out.Ok {
				delivered[e.Out.Val]++
			}
			if !e.Out.Ok {
				falses++
			}
		}
	}
	overl := 0
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i].Client != all[j].Client && all[i].Call < all[j].Ret && all[j].Call < all[i].Ret {
				overl++
			}
		}
	}
	rep := map[string]any{"seed": h.Seed, "round": round, "history": all}
	for v := range accepted {
		if delivered[v] != 1 {
			h.Violate("history/exactly-once", fmt.Sprintf("accepted item %d was delivered %d times", v, delivered[v]), rep)
		}
	}
	for v := range delivered {
		if !accepted[v] {
			h.Violate("history/phantom", fmt.Sprintf("item %d was delivered but its Push did not report true", v), rep)
		}
	}
	h.Observe("events", len(all))
	h.Observe("cancelled_ops", falses)
	h.Observe("overlapping_pairs", overl)
	h.Case(fmt.Sprint(all), overl > 0)
	if round == 0 {
		h.Sample(all)
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
	case porcupine.Illegal:
		h.Violate("history/not-linearizable", "history is not linearizable to a FIFO queue of capacity 10", rep)
	case porcupine.Unknown:
		h.Unsure("porcupine timed out on round %d", round)
	}
}

// conservation and per-producer order on long runs with cancellations
func storm(h *hx.H, rep int) {
	r := h.Rand(int64(5000 + rep))
	q := newQ(h)
	np, nc := 1+r.Intn(5), 1+r.Intn(5)
	per := h.N(1500, 8000)
	withTimeout := rep%2 == 0
	var pushed, consumed, doneProducers int64
	accepted := make([]map[int64]bool, np)
	got := make([][]int64, nc)
	finish, stop := context.WithCancel(context.Background())
	defer stop()
	seeds := make([]int64, np+nc)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	h.Run(np+nc, "storm", func() any {
		return map[string]any{"rep": rep, "pushed": atomic.LoadInt64(&pushed), "consumed": atomic.LoadInt64(&consumed)}
	}, func(i int) {
		r := rand.New(rand.NewSource(seeds[i]))
		mk := func(base context.Context) (context.Context, func()) {
			if withTimeout && r.Intn(3) == 0 {
				return context.WithTimeout(base, time.Duration(r.Intn(40))*time.Microsecond)
			}
			return base, func() {}
		}
		if i < np {
			accepted[i] = map[int64]bool{}
			for k := 0; k < per; k++ {
				v := int64(i)*1000000 + int64(k)
				ctx, f := mk(context.Background())
				ok, err := q.Push(ctx, v)
				f()
				if err != nil {
					h.Violatef("storm/push-error", nil, "Push error %v", err)
				}
				if !ok && ctx.Err() == nil {
					h.Violatef("storm/push-false", nil, "Push reported false with a live context")
				}
				if ok {
					accepted[i][v] = true
					atomic.AddInt64(&pushed, 1)
				}
				if k%32 == 0 {
					h.Progress()
				}
			}
			if atomic.AddInt64(&doneProducers, 1) == int64(np) {
				// consumers leave once the queue is drained
				go func() {
					for atomic.LoadInt64(&consumed) < atomic.LoadInt64(&pushed) {
						time.Sleep(time.Millisecond)
					}
					stop()
				}()
			}
		} else {
			c := i - np
			for {
				v := untouched
				ctx, f := mk(finish)
				ok, err := q.Pop(ctx, &v)
				f()
				if err != nil {
					h.Violatef("storm/pop-error", nil, "Pop error %v", err)
				}
				if ok {
					got[c] = append(got[c], v)
					if atomic.AddInt64(&consumed, 1)%64 == 0 {
						h.Progress()
					}
				} else if ctx.Err() == nil {
					h.Violatef("storm/pop-false", nil, "Pop reported false with a live context")
				} else if finish.Err() != nil {
					return
				}
			}
		}
	})
	seen := map[int64]int{}
	for c := range got {
		last := map[int64]int64{}
		for _, v := range got[c] {
			p := v / 1000000
			if prev, ok := last[p]; ok && prev >= v {
				h.Violatef("storm/order", nil, "consumer %d received %d after %d", c, v, prev)
			}
			last[p] = v
			seen[v]++
		}
	}
	n := 0
	for i := range accepted {
		for v := range accepted[i] {
			n++
			if seen[v] != 1 {
				h.Violatef("storm/exactly-once", nil, "accepted item %d delivered %d times", v, seen[v])
			}
		}
	}
	if len(seen) != n {
		h.Violatef("storm/phantom", nil, "%d distinct items delivered, %d accepted", len(seen), n)
	}
	h.Observe("storm_items", n)
	h.Observe("storm_refused", np*per-n)
	h.Case(fmt.Sprint("storm", rep, np, nc, n), true)
}

// single blocked operations: bound, blocking, wake-up and cancellation, one at a time
func blocking(h *hx.H, rep int) {
	r := h.Rand(int64(9000 + rep))
	q := newQ(h)
	bg := context.Background()
	expect := func(key string, cond bool, f string, a ...any) {
		if !cond {
			h.Violate("blocking/"+key, fmt.Sprintf(f, a...), map[string]any{"rep": rep})
		}
	}
	// rotate the ring so that head/tail positions vary
	for i := 0; i < r.Intn(23); i++ {
		q.Push(cancelled, int64(i))
		var v int64
		q.Pop(cancelled, &v)
	}
	var v int64 = untouched
	ok, err := q.Pop(cancelled, &v)
	expect("pop-empty", !ok && err == nil && v == untouched, "Pop on an empty queue with a cancelled context = %v,%v dst=%v", ok, err, v)
	for i := int64(0); i < capacity; i++ {
		ctx := bg
		if r.Intn(2) == 0 {
			ctx = cancelled
		}
		ok, err := false, error(nil)
		h.Run(1, "blocking/push-free", func() any { return fmt.Sprint("push with ", i, " items held") }, func(int) { ok, err = q.Push(ctx, i) })
		expect("push-free", ok && err == nil, "Push with %d items held = %v,%v", i, ok, err)
	}
	ok, err = q.Push(cancelled, int64(99))
	expect("push-full", !ok && err == nil, "Push on a full queue with a cancelled context = %v,%v", ok, err)

	// k blocked pushes
	k := 1 + r.Intn(3)
	type res struct {
		ok  bool
		err error
		v   int64
	}
	results := make(chan res, k)
	ctxs := make([]context.Context, k)
	stops := make([]context.CancelFunc, k)
	for i := 0; i < k; i++ {
		ctxs[i], stops[i] = context.WithCancel(bg)
		go func(i int) {
			ok, err := q.Push(ctxs[i], int64(100+i))
			results <- res{ok, err, int64(100 + i)}
		}(i)
	}
	for i := 0; i < 200; i++ {
		runtime.Gosched()
	}
	time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	select {
	case x := <-results:
		expect("push-blocks", false, "Push of %d on a full queue returned %v,%v although nothing was popped or cancelled", x.v, x.ok, x.err)
	default:
	}
	ncancel := r.Intn(k + 1)
	collect := func(n int, key string) []res {
		var out []res
		done := make(chan struct{})
		go func() {
			for i := 0; i < n; i++ {
				out = append(out, <-results)
			}
			close(done)
		}()
		h.Await(done, "blocking/"+key+"/stuck", "simplequeue", func() any { return fmt.Sprint("rep ", rep) })
		return out
	}
	for i := 0; i < ncancel; i++ {
		stops[i]()
	}
	for _, x := range collect(ncancel, "cancelled-push") {
		expect("cancelled-push", !x.ok && x.err == nil && x.v < int64(100+ncancel), "cancelled Push of %d = %v,%v", x.v, x.ok, x.err)
	}
	want := map[int64]bool{}
	for i := int64(0); i < capacity; i++ {
		v := untouched
		ok, err := q.Pop(cancelled, &v)
		expect("pop-order", ok && err == nil && v == i, "Pop #%d = %v,%v value %v", i, ok, err, v)
	}
	for _, x := range collect(k-ncancel, "woken-push") {
		expect("woken-push", x.ok && x.err == nil, "Push of %d = %v,%v after space became available", x.v, x.ok, x.err)
		want[x.v] = true
	}
	for i := 0; i < k-ncancel; i++ {
		v := untouched
		ok, err := q.Pop(cancelled, &v)
		expect("pop-rest", ok && err == nil && want[v], "Pop of waiting items = %v,%v value %v, expected one of %v", ok, err, v, want)
		delete(want, v)
	}
	v = untouched
	ok, err = q.Pop(cancelled, &v)
	expect("pop-drained", !ok && err == nil && v == untouched, "Pop after draining = %v,%v value %v: a cancelled Push was delivered or an item duplicated", ok, err, v)

	// k blocked pops
	vals := make([]int64, k)
	for i := 0; i < k; i++ {
		ctxs[i], stops[i] = context.WithCancel(bg)
		vals[i] = untouched
		go func(i int) {
			ok, err := q.Pop(ctxs[i], &vals[i])
			results <- res{ok, err, int64(i)}
		}(i)
	}
	for i := 0; i < 200; i++ {
		runtime.Gosched()
	}
	select {
	case x := <-results:
		expect("pop-blocks", false, "Pop on an empty queue returned %v,%v", x.ok, x.err)
	default:
	}
	for i := 0; i < ncancel; i++ {
		stops[i]()
	}
	for _, x := range collect(ncancel, "cancelled-pop") {
		expect("cancelled-pop", !x.ok && x.err == nil && vals[x.v] == untouched, "cancelled Pop = %v,%v dst %v", x.ok, x.err, vals[x.v])
	}
	for i := 0; i < k-ncancel; i++ {
		ok, err := q.Push(cancelled, int64(200+i))
		expect("push-to-waiter", ok && err == nil, "Push with a waiting Pop = %v,%v", ok, err)
	}
	got := map[int64]bool{}
	for _, x := range collect(k-ncancel, "woken-pop") {
		expect("woken-pop", x.ok && x.err == nil, "Pop = %v,%v after an item was pushed", x.ok, x.err)
		got[vals[x.v]] = true
	}
	for i := 0; i < k-ncancel; i++ {
		expect("woken-pop-items", got[int64(200+i)], "item %d pushed to waiting Pops was not delivered (got %v)", 200+i, got)
	}
	for i := range stops {
		stops[i]()
	}
	h.Observe("blocked_ops", 2*k)
	h.Case(fmt.Sprint("blocking", k, ncancel, rep%23), true)
}

type item struct {
	A int
	B []string
}

func values(h *hx.H) {
	q, q2 := newQ(h), newQ(h)
	three := 3
	for _, v := range []any{1, int64(2), "s", "", 2.5, true, item{1, []string{"x"}}, []item{{2, nil}, {3, []string{"y"}}}, map[string]int{"a": 1}, &three, []any{1, "a"}, []byte("zz"), nil} {
		p := hx.Catch(func() {
			ok, err := q.Push(cancelled, v)
			if !ok || err != nil {
				h.Violatef("values/push", nil, "Push(%#v) = %v,%v", v, ok, err)
			}
			var other int64 = untouched
			if ok, err := q2.Pop(cancelled, &other); ok || err != nil {
				h.Violatef("values/shared", nil, "an item pushed to one queue was popped from another")
			}
			var d any
			var got any
			if v == nil {
				d = "x"
				ok, err = q.Pop(cancelled, &d)
				got = d
			} else {
				p := reflect.New(reflect.TypeOf(v))
				ok, err = q.Pop(cancelled, p.Interface())
				got = p.Elem().Interface()
			}
			if !ok || err != nil || !reflect.DeepEqual(got, v) {
				h.Violatef("values/pop", nil, "Pop of %#v = %#v,%v,%v", v, got, ok, err)
			}
		})
		if p != "" {
			h.Violatef("values/panic", nil, "passing %#v: %s", v, p)
		}
		h.Case(fmt.Sprintf("value %T", v), true)
	}
}

func main() {
	h := hx.New()
	h.Rule = "short histories of 2-5 clients (non-blocking, timed and externally cancelled contexts, pre-filled 0-11 items) checked with porcupine against a bounded FIFO; non-trivial when operations of different clients overlapped; long storms with conservation and order; controlled blocking scenarios"
	_ = sync.Once{}
	if h.Part("values") {
		values(h)
	}
	if h.Part("blocking") {
		for i := 0; i < h.N(300, 3000); i++ {
			blocking(h, i)
		}
	}
	if h.Part("history") {
		for i := 0; i < h.N(1500, 15000); i++ {
			history(h, i)
		}
	}
	if h.Part("storm") {
		for i := 0; i < h.N(12, 60); i++ {
			storm(h, i)
		}
	}
	h.Done()
}
