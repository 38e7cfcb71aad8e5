package util

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- services whose failures and delays are scripted

// Scripted is an instance of a scripted service.
type Scripted struct {
	inst string
	cur  int64
}

var instances int64
var attemptsMu sync.Mutex
var attempts = map[int64]int64{}

func NewScripted(service string) *Scripted {
	lagOnce.Do(func() { go watchLag() })
	s := &Scripted{inst: strconv.Itoa(os.Getpid()) + "." + strconv.FormatInt(atomic.AddInt64(&instances, 1), 10)}
	Record("new", service, s.inst)
	return s
}

var lagOnce sync.Once

// watchLag records when this process was not scheduled in time.
func watchLag() {
	for {
		t := time.Now()
		time.Sleep(5 * time.Millisecond)
		if d := time.Since(t); d > 35*time.Millisecond {
			Record("lag", t.UnixMicro(), time.Now().UnixMicro())
		}
	}
}

// Call fails the first `fail` attempts of request id, each after `delay` milliseconds. The others succeed immediately.
func (s *Scripted) Call(service string, id, fail, delay int64) error {
	attemptsMu.Lock()
	attempts[id]++
	a := attempts[id]
	attemptsMu.Unlock()
	cur := atomic.AddInt64(&s.cur, 1)
	Record("inv", service, s.inst, id, a, cur, time.Now().UnixMicro())
	if a <= fail || fail < 0 {
		time.Sleep(time.Duration(delay) * time.Millisecond)
	}
	atomic.AddInt64(&s.cur, -1)
	Record("fin", service, s.inst, id, a, time.Now().UnixMicro())
	if a <= fail {
		return errors.New(fmt.Sprintf("scripted failure %d of %d", a, id))
	}
	return nil
}

// ---------------------------------------------------------------- the driver of scripted services

type planCall struct {
	S     string // service
	Id    int64
	Fail  int64 // attempts that fail; -1: none, but the delay applies
	Delay int64 // ms
	M     int   // 0: Do, 1: Void
}

type planPhase struct {
	Conc  int
	Wait  int64 // ms to wait before the phase
	Calls []planCall
}

type Plan struct {
	Phases []planPhase
	Settle int64 // ms to wait for stray goroutines at the end
}

// RunPlan executes the plan in $VERIF_PLAN on the services in clients (name -> client).
func RunPlan(ctx context.Context, clients map[string]any) {
	var p Plan
	data, err := os.ReadFile(os.Getenv("VERIF_PLAN"))
	if err == nil {
		err = json.Unmarshal(data, &p)
	}
	if err != nil {
		Record("badplan", err)
		return
	}
	lagOnce.Do(func() { go watchLag() })
	Record("goroutines", "start", runtime.NumGoroutine())
	for n, ph := range p.Phases {
		time.Sleep(time.Duration(ph.Wait) * time.Millisecond)
		Record("phase", n, time.Now().UnixMicro())
		ch := make(chan planCall)
		var wg sync.WaitGroup
		for w := 0; w < ph.Conc; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c := range ch {
					runCall(ctx, clients[c.S], c)
				}
			}()
		}
		for _, c := range ph.Calls {
			ch <- c
		}
		close(ch)
		wg.Wait()
	}
	// goroutines that generated wrappers started have to be gone now
	stuck := ""
	for i := int64(0); i*100 <= p.Settle; i++ {
		stuck = wrapperGoroutines()
		if stuck == "" {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	n := 0
	if stuck != "" {
		n = strings.Count(stuck, "goroutine ")
		if len(stuck) > 3000 {
			stuck = stuck[:3000]
		}
		Record("stuck", n, strings.ReplaceAll(stuck, "\n", " | "))
	}
	Record("goroutines", "end", runtime.NumGoroutine(), n)
}

// wrapperGoroutines returns the stacks of goroutines that were started by a method of a generated client wrapper.
func wrapperGoroutines() string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.Index(g, "created by ")
		if i < 0 {
			continue
		}
		by, _, _ := strings.Cut(g[i+11:], "\n")
		if strings.Contains(by, "Client).Do") || strings.Contains(by, "Client).Void") || strings.Contains(by, "Pool).Do") || strings.Contains(by, "Pool).Void") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func runCall(ctx context.Context, client any, c planCall) {
	m := reflect.ValueOf(client).MethodByName([]string{"Do", "Void"}[c.M])
	in := []reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(c.Id), reflect.ValueOf(c.Fail), reflect.ValueOf(c.Delay)}
	payload := fmt.Sprintf("p%d", c.Id)
	if c.M == 0 {
		in = append(in, reflect.ValueOf(payload))
	}
	t0 := time.Now()
	var out []reflect.Value
	var panicked any
	func() {
		defer func() { panicked = recover() }()
		out = m.Call(in)
	}()
	t1 := time.Now()
	if panicked != nil {
		Record("ret", c.S, c.Id, "panic", fmt.Sprint(panicked), t0.UnixMicro(), t1.UnixMicro())
		return
	}
	err, _ := out[len(out)-1].Interface().(error)
	if err != nil {
		Record("ret", c.S, c.Id, "err", err.Error(), t0.UnixMicro(), t1.UnixMicro())
		return
	}
	res := "ok"
	if c.M == 0 && (out[0].String() != "res:"+payload || out[1].Int() != c.Id*3) {
		res = fmt.Sprintf("wrong results %q %d", out[0].String(), out[1].Int())
	}
	Record("ret", c.S, c.Id, "ok", res, t0.UnixMicro(), t1.UnixMicro())
}
