package util

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.opentelemetry.io/otel/trace"
)

// ---------------------------------------------------------------- services that execute call trees

// Tree is what an invocation does.
type Tree struct {
	Id    string
	M     int   // method
	Fail  int   // attempts that fail
	Delay int64 // ms
	Par   bool  // calls are concurrent
	Logs  int   // additional log statements
	Prop  bool  // fails if a call fails
	Calls []SubCall
}

type SubCall struct {
	D int // dependency
	T Tree
}

type Caller func(ctx context.Context, dep int, method int, tree string) error

var tries = map[string]int{}
var triesMu sync.Mutex

func invoke(ctx context.Context, c SubCall, do Caller, par bool) error {
	b, _ := json.Marshal(c.T)
	if !par {
		backend.GetLogger().Info(ctx, "call %s", c.T.Id)
	}
	err := do(ctx, c.D, c.T.M, string(b))
	Record("ret", c.T.Id, err != nil, err)
	if !par {
		backend.GetLogger().Info(ctx, "ret %s", c.T.Id)
	}
	return err
}

// RunTree is the implementation of every method.
func RunTree(ctx context.Context, method int, tree string, do Caller) error {
	var t Tree
	if err := json.Unmarshal([]byte(tree), &t); err != nil {
		Record("badtree", tree)
		return err
	}
	triesMu.Lock()
	tries[t.Id]++
	a := tries[t.Id]
	triesMu.Unlock()
	sc := trace.SpanContextFromContext(ctx)
	tid, sid := "", ""
	if sc.IsValid() {
		tid, sid = sc.TraceID().String(), sc.SpanID().String()
	}
	Record("in", t.Id, a, method, tid, sid, sc.IsSampled(), os.Getpid())
	backend.GetLogger().Info(ctx, "in %s", t.Id)
	for i := 0; i < t.Logs; i++ {
		switch i % 4 {
		case 0:
			backend.GetLogger().Debug(ctx, "note %s %d", t.Id, i)
		case 1:
			backend.GetLogger().Warn(ctx, "note %s %d", t.Id, i)
		case 2:
			backend.GetLogger().Error(ctx, "note %s %d", t.Id, i)
		case 3:
			backend.GetLogger().Logf(ctx, backend.LogOptions{Level: backend.WARN}, "note %s %d", t.Id, i)
		}
	}
	if t.Par {
		var wg sync.WaitGroup
		for _, c := range t.Calls {
			backend.GetLogger().Info(ctx, "call %s", c.T.Id)
			wg.Add(1)
			go func(c SubCall) {
				defer wg.Done()
				invoke(ctx, c, do, true)
			}(c)
		}
		wg.Wait()
		for _, c := range t.Calls {
			backend.GetLogger().Info(ctx, "ret %s", c.T.Id)
		}
	} else {
		for _, c := range t.Calls {
			if err := invoke(ctx, c, do, false); err != nil && t.Prop {
				return err
			}
		}
	}
	time.Sleep(time.Duration(t.Delay) * time.Millisecond)
	backend.GetLogger().Info(ctx, "out %s", t.Id)
	Record("out", t.Id, a, a <= t.Fail)
	if a <= t.Fail {
		return errors.New(fmt.Sprintf("scripted failure of %s", t.Id))
	}
	return nil
}

func gate(name string) {
	for {
		if _, err := os.Stat(os.Getenv("VERIF_GATE") + name); err == nil {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// RunTrees is the driver: it waits for the go-ahead, executes the call trees, and waits until everything was collected.
func RunTrees(ctx context.Context, do Caller) {
	Record("waiting")
	gate("start")
	b, err := os.ReadFile(os.Getenv("VERIF_TREES"))
	var p struct {
		Conc  int
		Warm  []SubCall
		Calls []SubCall
	}
	if err == nil {
		err = json.Unmarshal(b, &p)
	}
	if err != nil {
		Record("badtree", err)
		return
	}
	for _, c := range p.Warm {
		var err error
		for i := 0; i < 400; i++ {
			if err = invoke(ctx, c, do, false); err == nil {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if err != nil {
			Record("notready", c.T.Id, err)
		}
	}
	time.Sleep(10 * time.Millisecond)
	Record("begin", time.Now().UnixMicro())
	time.Sleep(10 * time.Millisecond)
	work := make(chan SubCall)
	var wg sync.WaitGroup
	for i := 0; i < p.Conc; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				invoke(ctx, c, do, false)
			}
		}()
	}
	for _, c := range p.Calls {
		work <- c
	}
	close(work)
	wg.Wait()
	Record("called")
	gate("stop")
	Record("end")
}
