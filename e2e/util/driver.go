package util

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"
)

// Target is one service under test: its client and the name its implementation records.
type Target struct {
	Name   string
	Client any // a value of the service's interface type
	Iface  reflect.Type
	As     string // the service name that the implementation hashes
}

// Drive calls every method of every target with random arguments, n times each from several goroutines,
// and reports differences between the results and those of a direct invocation.
func Drive(ctx context.Context, targets []Target, n, workers int, seed uint64) {
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := NewRng(seed*1000003 + uint64(w))
			for i := 0; i < n; i++ {
				for _, t := range targets {
					for m := 0; m < t.Iface.NumMethod(); m++ {
						if t.Iface.Method(m).Name == "Ready" {
							continue
						}
						one(ctx, t, t.Iface.Method(m).Name, r, w*n+i)
					}
				}
			}
		}(w)
	}
	wg.Wait()
}

func one(ctx context.Context, t Target, name string, r *Rng, i int) {
	m := reflect.ValueOf(t.Client).MethodByName(name)
	mt := m.Type()
	in := []reflect.Value{reflect.ValueOf(ctx)}
	var args []any
	for j := 1; j < mt.NumIn(); j++ {
		p := reflect.New(mt.In(j))
		if i > 0 { // the first calls are with zero values
			r.Fill(p.Interface())
		}
		if i == 0 && NoNil {
			r.fillPointers(p.Elem())
		}
		in = append(in, p.Elem())
		args = append(args, p.Elem().Interface())
	}
	h := Hash(append([]any{t.As, name}, args...)...)
	var rets []any
	for j := 0; j < mt.NumOut()-1; j++ {
		rets = append(rets, reflect.New(mt.Out(j)).Interface())
	}
	expErr := Result(h, rets...)
	Record("send", t.As, name, strconv.FormatUint(h, 16), os.Getpid())
	before := Canon(args)
	var out []reflect.Value
	var panicked any
	func() {
		defer func() { panicked = recover() }()
		if mt.IsVariadic() {
			out = m.CallSlice(in)
		} else {
			out = m.Call(in)
		}
	}()
	if panicked != nil {
		Record("diff", "panic", t.Name, name, "args="+before, panicked)
		return
	}
	err, _ := out[len(out)-1].Interface().(error)
	if (err != nil) != (expErr != nil) {
		Record("diff", "error", t.Name, name, "args="+before, fmt.Sprintf("got error %v, the implementation returns %v", err, expErr))
		return
	}
	Record("done", t.Name, name, strconv.FormatUint(h, 16), err != nil)
	if err != nil {
		return
	}
	for j := range rets {
		got, exp := Canon(out[j].Interface()), Canon(reflect.ValueOf(rets[j]).Elem().Interface())
		if got != exp {
			Record("diff", "result", t.Name, name, "args="+before, fmt.Sprintf("result %d is %s, the implementation returns %s", j, got, exp))
			return
		}
	}
	if after := Canon(args); after != before {
		Record("diff", "args", t.Name, name, "args="+before, "changed to "+after)
	}
}

func (r *Rng) fillPointers(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		r.fillPointers(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				r.fillPointers(v.Field(i))
			}
		}
	}
}

// Sleep waits for d or until the context ends.
func Sleep(ctx context.Context, d time.Duration) {
	select {
	case <-ctx.Done():
	case <-time.After(d):
	}
}
