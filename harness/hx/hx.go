// Package hx is the shared part of the runtime monitors: results, deterministic
// randomness, logical clocks, panic capture and a stall detector.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// One violation. Key identifies the specific failing input/history class (for known findings).
type Violation struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Replay any    `json:"replay,omitempty"`
}

type Result struct {
	mu           sync.Mutex
	Evaluations  int            `json:"evaluations"`
	Distinct     int            `json:"distinct_nontrivial"`
	Rule         string         `json:"rule"`
	Samples      []any          `json:"samples"`
	Observed     map[string]int `json:"observed"`
	Violations   []Violation    `json:"violations"`
	Inconclusive []string       `json:"inconclusive"`
	Notes        []string       `json:"notes"`
	seen         map[string]bool
	nviol        map[string]int
}

type H struct {
	Result
	Seed     int64
	Tier     string
	Out      string
	Only     string
	Thorough bool
	start    time.Time
	progress int64
	watching int32
}

// New parses the standard flags.
func New() *H {
	h := &H{start: time.Now()}
	flag.Int64Var(&h.Seed, "seed", 1, "seed")
	flag.StringVar(&h.Tier, "tier", "quick", "quick|thorough")
	flag.StringVar(&h.Out, "out", "", "result file")
	flag.StringVar(&h.Only, "only", "", "only run the named part")
	flag.Parse()
	h.Thorough = h.Tier == "thorough"
	h.Observed = map[string]int{}
	h.seen = map[string]bool{}
	h.nviol = map[string]int{}
	go func() {
		// what was seen must not be lost when the tree has become slow or hangs
		for range time.Tick(time.Second) {
			h.mu.Lock()
			seen := len(h.Violations) > 0
			h.mu.Unlock()
			if seen && time.Since(h.start) > 240*time.Second && !h.Thorough {
				h.Done()
			}
		}
	}()
	return h
}

// N scales a count by tier.
func (h *H) N(quick, thorough int) int {
	if h.Thorough {
		return thorough
	}
	return quick
}

func (h *H) Rand(salt int64) *rand.Rand {
	return rand.New(rand.NewSource(h.Seed*1000003 + salt))
}

// Part reports whether a part should run, and resets the stall detector's label.
func (h *H) Part(name string) bool {
	if h.Only != "" && h.Only != name {
		return false
	}
	h.Progress()
	return true
}

// Observe counts events of a kind.
func (h *H) Observe(kind string, n int) {
	h.mu.Lock()
	h.Observed[kind] += n
	h.mu.Unlock()
	atomic.AddInt64(&h.progress, 1)
}

func (h *H) Progress() { atomic.AddInt64(&h.progress, 1) }

// Case records one evaluated case. sig identifies it; nontrivial cases are counted when distinct.
func (h *H) Case(sig string, nontrivial bool) {
	h.mu.Lock()
	h.Evaluations++
	if nontrivial && !h.seen[sig] {
		h.seen[sig] = true
		h.Distinct++
	}
	h.mu.Unlock()
	atomic.AddInt64(&h.progress, 1)
}

func (h *H) Sample(s any) {
	h.mu.Lock()
	if len(h.Samples) < 6 {
		h.Samples = append(h.Samples, s)
	}
	h.mu.Unlock()
}

// Violate records a violation (at most three per key are kept).
func (h *H) Violate(key, what string, replay any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.nviol[key]++
	if h.nviol[key] > 3 {
		return
	}
	h.Violations = append(h.Violations, Violation{key, what, replay})
}

func (h *H) Violatef(key string, replay any, f string, a ...any) {
	h.Violate(key, fmt.Sprintf(f, a...), replay)
}

func (h *H) Unsure(f string, a ...any) {
	h.mu.Lock()
	h.Inconclusive = append(h.Inconclusive, fmt.Sprintf(f, a...))
	h.mu.Unlock()
}

func (h *H) write() {
	h.mu.Lock()
	defer h.mu.Unlock()
	b, err := json.MarshalIndent(&h.Result, "", " ")
	if err != nil {
		// replay values that cannot be marshalled
		for i := range h.Violations {
			h.Violations[i].Replay = fmt.Sprintf("%+v", h.Violations[i].Replay)
		}
		for i := range h.Samples {
			h.Samples[i] = fmt.Sprintf("%+v", h.Samples[i])
		}
		b, _ = json.MarshalIndent(&h.Result, "", " ")
	}
	if h.Out != "" {
		os.WriteFile(h.Out, b, 0644)
	} else {
		os.Stdout.Write(b)
	}
}

// Done writes the result file and exits 0 (the driver decides).
func (h *H) Done() {
	h.write()
	os.Exit(0)
}

// Catch runs f and returns a description of its panic, if any.
func Catch(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			p = fmt.Sprintf("panic: %v\n%s", r, buf[:n])
		}
	}()
	f()
	return ""
}

// Clock is a logical clock: strictly increasing and consistent with real time.
type Clock struct{ v int64 }

func (c *Clock) Tick() int64 { return atomic.AddInt64(&c.v, 1) }

var goroutineHead = regexp.MustCompile(`(?m)^goroutine (\d+) .*?\[([^\],]+)[^\]]*\]:`)

// blockedStates are goroutine states in which only another goroutine can help.
var blockedStates = []string{"chan receive", "chan send", "select", "semacquire", "sync.Mutex.Lock", "sync.RWMutex", "sync.WaitGroup.Wait", "sync.Cond.Wait"}

// workersBlocked samples all goroutines whose stack contains mark and tells whether all are blocked.
func workersBlocked(mark string) (all bool, n int, dump string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	all = true
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, mark) || strings.Contains(g, "hx.workersBlocked") {
			continue
		}
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		n++
		blocked := false
		for _, s := range blockedStates {
			if strings.HasPrefix(m[2], s) {
				blocked = true
			}
		}
		if !blocked {
			all = false
		}
		keep = append(keep, g)
	}
	sort.Strings(keep)
	dump = strings.Join(keep, "\n\n")
	return all && n > 0, n, dump
}

// Await waits until done is closed. If the harness makes no progress for a long time and every
// goroutine whose stack mentions mark is blocked on another goroutine in three samples, that is
// a deadlock: a violation is recorded under key and the process ends with the results so far.
// A plain watchdog expiry is inconclusive. Workers must not sleep or wait on timers for more than a second.
func (h *H) Await(done <-chan struct{}, key, mark string, replay func() any) {
	last := atomic.LoadInt64(&h.progress)
	stuck := 0
	begin := time.Now()
	t := time.NewTicker(2 * time.Second)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		cur := atomic.LoadInt64(&h.progress)
		if cur != last {
			last, stuck = cur, 0
			begin = time.Now()
			continue
		}
		blocked, n, dump := workersBlocked(mark)
		if blocked {
			stuck++
		} else {
			stuck = 0
		}
		if stuck >= 4 {
			if len(dump) > 12000 {
				dump = dump[:12000]
			}
			h.Violate(key, fmt.Sprintf("no progress: all %d worker goroutines are blocked on each other", n), map[string]any{"history": replay(), "goroutines": dump})
			h.write()
			os.Exit(0)
		}
		if time.Since(begin) > 240*time.Second {
			h.Unsure("watchdog: %s made no progress for 240s but workers are not all blocked", key)
			h.write()
			os.Exit(0)
		}
	}
}

// Run runs n workers concurrently (released together) and waits for them under Await.
func (h *H) Run(n int, key string, replay func() any, worker func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	done := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go hxWorker(h, &wg, start, worker, i, key)
	}
	close(start)
	go func() { wg.Wait(); close(done) }()
	h.Await(done, key+"/deadlock", "hx.hxWorker", replay)
}

func hxWorker(h *H, wg *sync.WaitGroup, start <-chan struct{}, worker func(i int), i int, key string) {
	defer wg.Done()
	<-start
	if p := Catch(func() { worker(i) }); p != "" {
		h.Violate(key+"/panic", "worker panicked: "+p, nil)
	}
}
