// C07: the workload engine issues and accounts for every request exactly once.
package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/core/workload"
)

type rec struct {
	api  int
	stat workload.Stat
}

type cfg struct {
	props  []int
	tput   int64
	dur    time.Duration
	slow   time.Duration // how long a request takes at most
	cancel time.Duration // cancel the context after this long (0: never)
	gate   bool          // requests block until well after the configured duration
	runs   int
}

func capture(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		f()
		return ""
	}
	os.Stdout = w
	done := make(chan string)
	go func() { b, _ := io.ReadAll(r); done <- string(b) }()
	f()
	os.Stdout = old
	w.Close()
	return <-done
}

func run(h *hx.H, name string, c cfg, dir string) (perAPI []int, total int, elapsed time.Duration) {
	label := fmt.Sprintf("%s %+v", name, c)
	var mu sync.Mutex
	var done []rec
	var started, finished, id int64
	perAPI = make([]int, len(c.props))
	gate := make(chan struct{})
	w := workload.NewWorkload()
	r := h.Rand(int64(len(name)) + c.tput)
	seeds := r.Int63()
	for i, p := range c.props {
		i := i
		fn := func(ctx context.Context) workload.Stat {
			atomic.AddInt64(&started, 1)
			n := atomic.AddInt64(&id, 1)
			x := uint64(n)*0x9E3779B97F4A7C15 ^ uint64(seeds)
			if c.slow > 0 {
				time.Sleep(time.Duration(x % uint64(c.slow)))
			}
			if c.gate {
				<-gate
			}
			st := workload.Stat{Start: n*1000003 + 17, Duration: int64(x % 100000), IsError: x%7 == 0}
			mu.Lock()
			done = append(done, rec{i, st})
			mu.Unlock()
			if atomic.AddInt64(&finished, 1)%64 == 0 {
				h.Progress()
			}
			return st
		}
		if err := w.AddAPI(fmt.Sprint("api", i), fn, p); err != nil {
			h.Violatef("add-api", nil, "AddAPI failed: %v", err)
		}
	}
	out := filepath.Join(dir, "stats.csv")
	e, err := workload.NewEngine(out, c.tput, c.dur.String(), w)
	if err != nil {
		h.Violatef("new-engine", label, "a valid workload was rejected: %v", err)
		return
	}
	for k := 0; k < c.runs; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		if c.cancel > 0 {
			go func() { time.Sleep(c.cancel); cancel() }()
		}
		if c.gate && k == 0 {
			go func() {
				time.Sleep(c.dur + 60*time.Millisecond)
				close(gate)
			}()
		}
		t := time.Now()
		h.Run(1, "engine", func() any { return label }, func(int) { e.RunOpenLoop(ctx) })
		elapsed += time.Since(t)
		cancel()
		if s, f := atomic.LoadInt64(&started), atomic.LoadInt64(&finished); s != f {
			h.Violatef("unfinished", label, "RunOpenLoop returned with %d requests started and %d finished", s, f)
		}
		if c.cancel == 0 && elapsed < c.dur {
			h.Violatef("short-run", label, "a run of %v ended after %v", c.dur, elapsed)
		}
	}
	// nothing may be launched after the run has returned
	n0 := atomic.LoadInt64(&started)
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	time.Sleep(3 * time.Millisecond)
	if n1 := atomic.LoadInt64(&started); n1 != n0 {
		h.Violatef("late-launch", label, "%d requests were launched after the run had returned", n1-n0)
	}
	mu.Lock()
	defer mu.Unlock()
	want := map[workload.Stat]int{}
	for _, d := range done {
		want[d.stat]++
		perAPI[d.api]++
	}
	for _, s := range e.Stats {
		want[s]--
	}
	for s, n := range want {
		if n != 0 {
			h.Violatef("recorded-once", label, "request %+v was recorded %d times too few (of %d requests, %d records)", s, n, len(done), len(e.Stats))
			break
		}
	}
	for i, p := range c.props {
		if p == 0 && perAPI[i] > 0 {
			h.Violatef("proportion-zero", label, "an operation with proportion 0 was executed %d times", perAPI[i])
		}
	}
	// the statistics file and the printed summary
	os.WriteFile(out, []byte(strings.Repeat("stale,stale,stale\n", len(done)+50)), 0644)
	var perr error
	summary := capture(func() { perr = e.PrintStats() })
	if perr != nil {
		h.Violatef("print-stats", label, "PrintStats failed: %v", perr)
	}
	b, _ := os.ReadFile(out)
	lines := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	var rows []string
	for _, s := range done {
		rows = append(rows, fmt.Sprintf("%d,%d,%t", s.stat.Start, s.stat.Duration, s.stat.IsError))
	}
	got := append([]string{}, lines[1:]...)
	if len(lines) == 1 {
		got = nil
	}
	sort.Strings(rows)
	sort.Strings(got)
	if lines[0] != "Start,Duration,IsError" || strings.Join(rows, "\n") != strings.Join(got, "\n") {
		h.Violatef("stats-file", map[string]any{"config": label, "head": lines[0], "rows": len(got), "expected": len(rows)}, "the statistics file does not contain exactly one row per request: %d rows for %d requests", len(got), len(rows))
	}
	errs, dsum := 0, int64(0)
	for _, d := range done {
		if d.stat.IsError {
			errs++
		}
		dsum += d.stat.Duration
	}
	num := func(name string) float64 {
		m := regexp.MustCompile(regexp.QuoteMeta(name) + `:? *([-0-9.eE+NaInf]+)`).FindStringSubmatch(summary)
		if m == nil {
			return math.NaN()
		}
		f, err := strconv.ParseFloat(m[1], 64)
		if err != nil {
			return math.NaN()
		}
		return f
	}
	if len(done) > 0 {
		near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-6*math.Abs(b)+1e-9 }
		if num("Total Number of Requests") != float64(len(done)) || num("Successful Requests") != float64(len(done)-errs) || num("Error Responses") != float64(errs) || !near(num("Average Latency"), float64(dsum)/float64(len(done))) {
			h.Violatef("summary", map[string]any{"config": label, "summary": summary}, "printed summary disagrees with the %d requests (%d errors, mean %f)", len(done), errs, float64(dsum)/float64(len(done)))
		}
	}
	total = len(done)
	h.Observe("requests", total)
	h.Observe("error_requests", errs)
	h.Case(label, total > 0)
	h.Sample(map[string]any{"config": label, "requests": total, "per_operation": perAPI, "elapsed": elapsed.String()})
	return
}

func main() {
	log.SetOutput(io.Discard)
	h := hx.New()
	h.Rule = "engine runs over operation mixes, rates, slow/gated/failing operations and cancellations; every request carries a unique record that must come back exactly once in Stats, the CSV file and the summary. Non-trivial: at least one request ran"
	dir, err := os.MkdirTemp(".", "c07")
	if err != nil {
		h.Unsure("%v", err)
		h.Done()
	}
	defer os.RemoveAll(dir)

	mixes := [][]int{{100}, {50, 50}, {80, 20}, {1, 99}, {10, 20, 30, 40}, {33, 33, 34}, {0, 100, 0}, {25, 0, 75}, {5, 5, 5, 5, 5, 5, 5, 5, 5, 55}, {2, 3, 95}}
	for i, m := range mixes {
		// short runs at different rates, slow requests included
		run(h, "mix", cfg{props: m, tput: []int64{1, 50, 1000, 20000}[i%4], dur: 40 * time.Millisecond, slow: time.Duration(i%3) * 5 * time.Millisecond, runs: 1 + i%2}, dir)
		// proportions
		tput := int64(40000)
		c := cfg{props: m, tput: tput, dur: time.Duration(h.N(250, 2000)) * time.Millisecond, runs: 1}
		per, total, _ := run(h, "proportions", c, dir)
		for k := range m {
			p := float64(m[k]) / 100
			sd := math.Sqrt(float64(total) * p * (1 - p))
			if math.Abs(float64(per[k])-float64(total)*p) > 7*sd+1 {
				h.Violatef("proportions", map[string]any{"mix": m, "counts": per}, "operation with proportion %d%% made up %d of %d requests", m[k], per[k], total)
			}
		}
	}
	run(h, "gated", cfg{props: []int{60, 40}, tput: 2000, dur: 50 * time.Millisecond, gate: true, runs: 1}, dir)
	run(h, "gated", cfg{props: []int{100}, tput: 20000, dur: 30 * time.Millisecond, gate: true, runs: 2}, dir)
	for _, d := range []time.Duration{0, time.Millisecond, 20 * time.Millisecond, 45 * time.Millisecond} {
		_, _, el := run(h, "cancelled", cfg{props: []int{70, 30}, tput: 5000, dur: 20 * time.Second, cancel: d + 1, slow: 3 * time.Millisecond, runs: 1}, dir)
		if el > 15*time.Second {
			h.Violatef("cancel-ignored", nil, "a run whose context was cancelled after %v took %v", d, el)
		}
	}
	// the average rate: the engine catches up after delays, so the count tracks rate x duration
	ok := false
	var seen []string
	for k := 0; k < 3 && !ok; k++ {
		const rate = 400
		_, total, el := run(h, "rate", cfg{props: []int{100}, tput: rate, dur: time.Second, runs: 1}, dir)
		seen = append(seen, fmt.Sprint(total))
		if float64(total) > 1.4*rate*el.Seconds()+5 {
			h.Violatef("rate-exceeded", nil, "%d requests in %v at a target rate of %d/s", total, el, rate)
		}
		ok = float64(total) > 0.6*rate
	}
	if !ok {
		h.Violatef("rate-missed", nil, "three runs of 1 s at 400/s made %s requests", strings.Join(seen, ", "))
	}

	// invalid configurations are errors, never crashes or floods
	nop := func(ctx context.Context) workload.Stat { return workload.Stat{} }
	bad := func(key string, out string, tput int64, dur string, props ...int) {
		w := workload.NewWorkload()
		for i, p := range props {
			w.AddAPI(fmt.Sprint(i), nop, p)
		}
		if p := hx.Catch(func() {
			if e, err := workload.NewEngine(out, tput, dur, w); err == nil || e != nil {
				h.Violatef("invalid/"+key, nil, "NewEngine(tput=%d, duration=%q, proportions=%v) was accepted", tput, dur, props)
			}
		}); p != "" {
			h.Violatef("invalid/panic", nil, "NewEngine panicked: %s", p)
		}
		h.Observe("invalid_configs", 1)
		h.Case(fmt.Sprint("invalid", tput, dur, props), true)
	}
	bad("empty", "x", 10, "1s")
	bad("sum", "x", 10, "1s", 50)
	bad("sum", "x", 10, "1s", 50, 51)
	bad("sum", "x", 10, "1s", 100, 1)
	bad("sum", "x", 10, "1s", 0)
	bad("sum", "x", 10, "1s", 99)
	bad("duration", "x", 10, "soon", 100)
	bad("duration", "x", 10, "", 100)
	bad("rate", "x", 0, "1s", 100)
	bad("rate", "x", -5, "1s", 100)

	// IsValid agrees with the rule on random mixes
	r := h.Rand(9)
	for i := 0; i < h.N(500, 5000); i++ {
		w := workload.NewWorkload()
		sum, n := 0, r.Intn(6)
		for k := 0; k < n; k++ {
			p := r.Intn(60)
			if k == n-1 && r.Intn(2) == 0 && sum <= 100 {
				p = 100 - sum
			}
			sum += p
			w.AddAPI(fmt.Sprint(k), nop, p)
		}
		if w.IsValid() != (sum == 100) {
			h.Violatef("is-valid", nil, "a workload whose proportions sum to %d is valid=%v", sum, w.IsValid())
		}
		h.Case(fmt.Sprint("valid", sum, n), sum == 100)
	}

	// unwritable output
	w := workload.NewWorkload()
	w.AddAPI("a", nop, 100)
	if e, err := workload.NewEngine(filepath.Join(dir, "no", "such", "dir", "f"), 100, "1ms", w); err == nil {
		e.RunOpenLoop(context.Background())
		capture(func() {
			if e.PrintStats() == nil {
				h.Violatef("unwritable", nil, "PrintStats to an unwritable path reported success")
			}
		})
	}
	h.Case("unwritable", true)
	os.RemoveAll(dir)
	h.Done()
}
