From 41030f542096264aa3c566e508a64862c29274d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 01/82] fix: make simplecache Get take the read lock and Incr
 atomic

---
 runtime/plugins/simplecache/cache.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..24c3989 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,7 +31,10 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
-	if v, exists := cache.values[key]; exists {
+	cache.RLock()
+	v, exists := cache.values[key]
+	cache.RUnlock()
+	if exists {
 		return true, backend.CopyResult(v, val)
 	}
 	return false, nil
@@ -73,11 +76,15 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
-	if err != nil {
-		return cur, err
+	if v, exists := cache.values[key]; exists {
+		if err := backend.CopyResult(v, &cur); err != nil {
+			return cur, err
+		}
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 6581fb24ab892b731be25bc5c7bb78403a325e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 02/82] fix: CopyResult and GetPointerValue no longer panic on
 nil

---
 runtime/core/backend/reflect.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..1413c1d 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -8,8 +8,8 @@ import (
 
 func GetPointerValue(val any) (any, error) {
 	val_ptr := reflect.ValueOf(val)
-	if val_ptr.Kind() != reflect.Pointer {
-		return nil, errors.Errorf("cannot indirect non-pointer type %v", val)
+	if val_ptr.Kind() != reflect.Pointer || val_ptr.IsNil() {
+		return nil, errors.Errorf("cannot indirect non-pointer or nil type %v", reflect.TypeOf(val))
 	}
 	return reflect.Indirect(val_ptr).Interface(), nil
 }
@@ -27,6 +27,17 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is an untyped nil; only types that have a nil value can receive it
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
+			dst_val.SetZero()
+			return nil
+		default:
+			return errors.Errorf("unable to copy nil to type %v", dst_val.Type())
+		}
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From 6aaf2aa58004f91f93bb38fda608a499995d624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 03/82] fix: client pool wakes waiters when a failed build
 frees a slot; atomic counters

---
 runtime/plugins/clientpool/clientpool.go | 32 +++++++++++++-----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..989e89e 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -15,6 +15,7 @@ import (
 // Pop and returned with Push.
 type ClientPool[T any] struct {
 	clients   chan T
+	slots     chan struct{} // one token per client that may still be instantiated
 	build     func() (T, error)
 	capacity  int64
 	size      int64
@@ -35,6 +36,10 @@ func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T]
 		size:      0,
 		available: 0,
 		waiting:   0,
+		slots:     make(chan struct{}, capacity),
+	}
+	for i := 0; i < capacity; i++ {
+		pool.slots <- struct{}{}
 	}
 	return pool
 }
@@ -55,25 +60,22 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	default:
 	}
 
-	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
-		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
-			client, err = pool.build()
-			if err != nil {
-				atomic.AddInt64(&pool.size, -1)
-			}
-			return
-		}
-		curSize = pool.size
-	}
-
-	// Pool is at capacity; wait to reuse an existing client
+	// If the pool isn't at capacity, we can instantiate a new client.
+	// Otherwise wait to reuse an existing client, or for a slot to become free because
+	// instantiating a client failed.
 	atomic.AddInt64(&pool.waiting, 1)
 	select {
 	case <-ctx.Done():
 		err = errors.New("timeout before client was available")
 	case client = <-pool.clients:
 		atomic.AddInt64(&pool.available, -1)
+	case <-pool.slots:
+		atomic.AddInt64(&pool.size, 1)
+		client, err = pool.build()
+		if err != nil {
+			atomic.AddInt64(&pool.size, -1)
+			pool.slots <- struct{}{}
+		}
 	}
 	atomic.AddInt64(&pool.waiting, -1)
 	return
@@ -92,10 +94,10 @@ func (pool *ClientPool[T]) Capacity() int {
 
 // Returns the current size of the client pool
 func (pool *ClientPool[T]) Size() int {
-	return int(pool.size)
+	return int(atomic.LoadInt64(&pool.size))
 }
 
 // Returns the current number of available clients in the client pool
 func (pool *ClientPool[T]) Available() int {
-	return int(pool.available)
+	return int(atomic.LoadInt64(&pool.available))
 }
-- 
2.43.0


From 831b0f40e814e4e35fa2146351ee58619165e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 04/82] fix: golang namespace is safe for concurrent Get, stops
 nodes of failed builds, and awaits nodes of all nested namespaces

---
 runtime/plugins/golang/namespace.go | 126 +++++++++++++++++++---------
 1 file changed, 85 insertions(+), 41 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..53f3e08 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -81,7 +81,10 @@ type NamespaceBuilder struct {
 type Namespace struct {
 	name       string
 	buildFuncs map[string]BuildFunc
-	built      map[string]any
+
+	mu       sync.Mutex // protects built and building
+	built    map[string]any
+	building map[string]*buildInProgress
 
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -90,6 +93,14 @@ type Namespace struct {
 	parent *Namespace
 }
 
+// A node that is currently being built by some goroutine; other goroutines that
+// want the node wait for done to be closed.
+type buildInProgress struct {
+	done chan struct{}
+	node any
+	err  error
+}
+
 type argNode struct {
 	name        string
 	description string
@@ -226,6 +237,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
+	n.building = make(map[string]*buildInProgress)
 	n.ctx, n.cancel = context.WithCancel(ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -233,6 +245,8 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			// Stop any nodes that were already started
+			n.cancel()
 			return nil, err
 		}
 	}
@@ -274,6 +288,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
 	n.built = make(map[string]any)
+	n.building = make(map[string]*buildInProgress)
 	n.ctx, n.cancel = context.WithCancel(parent.ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -281,6 +296,8 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	for _, name := range b.instantiate {
 		var node any
 		if err := n.Get(name, &node); err != nil {
+			// Stop any nodes that were already started
+			n.cancel()
 			return nil, err
 		}
 	}
@@ -355,9 +372,6 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
-		return true
-	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
 		return true
 	}
@@ -370,51 +384,81 @@ func (n *Namespace) has(name string) bool {
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
 func (n *Namespace) Get(name string, receiver any) error {
+	build, exists := n.buildFuncs[name]
+	if !exists {
+		if n.parent != nil {
+			return n.parent.Get(name, receiver)
+		}
+		return errors.Errorf("%v unknown %v", n.name, name)
+	}
+
+	n.mu.Lock()
 	if existing, exists := n.built[name]; exists {
+		n.mu.Unlock()
 		return backend.CopyResult(existing, receiver)
 	}
-	if build, exists := n.buildFuncs[name]; exists {
-		built, err := build(n)
-		if err != nil {
-			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
-			return err
-		} else {
-			switch v := built.(type) {
-			case string:
-				slog.Info(fmt.Sprintf("%v built %v (%v) = %v", n.name, name, reflect.TypeOf(built), v))
-			default:
-				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
-			}
-		}
-		n.built[name] = built
+	b, inProgress := n.building[name]
+	if inProgress {
+		// Another goroutine is already building the node
+		n.mu.Unlock()
+		<-b.done
+	} else {
+		b = &buildInProgress{done: make(chan struct{}), err: errors.Errorf("%v did not finish building %v", n.name, name)}
+		n.building[name] = b
+		n.mu.Unlock()
+		n.buildNode(name, build, b)
+	}
+	if b.err != nil {
+		return b.err
+	}
+	return backend.CopyResult(b.node, receiver)
+}
 
-		if runnable, isRunnable := built.(Runnable); isRunnable {
-			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
-			}
-			go func() {
-				err := runnable.Run(n.ctx)
-				if err != nil {
-					slog.Error(fmt.Sprintf("%v error running node %v: %v", n.name, name, err.Error()))
-					n.cancel()
-				} else {
-					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
-				}
-				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
-				}
-			}()
+// Builds the node, runs it if it is [Runnable], and wakes up anybody waiting for it.
+func (n *Namespace) buildNode(name string, build BuildFunc, b *buildInProgress) {
+	defer func() {
+		n.mu.Lock()
+		delete(n.building, name)
+		if b.err == nil {
+			n.built[name] = b.node
 		}
+		n.mu.Unlock()
+		close(b.done)
+	}()
 
-		return backend.CopyResult(built, receiver)
+	built, err := build(n)
+	if err != nil {
+		slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
+		b.err = err
+		return
 	}
-	if n.parent != nil {
-		return n.parent.Get(name, receiver)
+	switch v := built.(type) {
+	case string:
+		slog.Info(fmt.Sprintf("%v built %v (%v) = %v", n.name, name, reflect.TypeOf(built), v))
+	default:
+		slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
+	}
+	b.node, b.err = built, nil
+
+	if runnable, isRunnable := built.(Runnable); isRunnable {
+		slog.Info(fmt.Sprintf("%v running %v", n.name, name))
+		// All enclosing namespaces also wait for the node to finish
+		for ns := n; ns != nil; ns = ns.parent {
+			ns.wg.Add(1)
+		}
+		go func() {
+			err := runnable.Run(n.ctx)
+			if err != nil {
+				slog.Error(fmt.Sprintf("%v error running node %v: %v", n.name, name, err.Error()))
+				n.cancel()
+			} else {
+				slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
+			}
+			for ns := n; ns != nil; ns = ns.parent {
+				ns.wg.Done()
+			}
+		}()
 	}
-	return errors.Errorf("%v unknown %v", n.name, name)
 }
 
 // ctx can be used by any [BuildFunc] that wants to start background goroutines,
-- 
2.43.0


From 0bf227e93b087b14967d78b8a57a44789e734e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 05/82] fix: workload engine rejects a non-positive target
 throughput

---
 runtime/core/workload/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/core/workload/engine.go b/runtime/core/workload/engine.go
index b660689..1fab8b3 100644
--- a/runtime/core/workload/engine.go
+++ b/runtime/core/workload/engine.go
@@ -30,6 +30,9 @@ func NewEngine(outfile string, tput int64, duration string, w *Workload) (*Engin
 	if err != nil {
 		return nil, err
 	}
+	if tput <= 0 {
+		return nil, errors.New("Target throughput must be positive")
+	}
 	isValid := w.IsValid()
 	if !isValid {
 		return nil, errors.New("Workload is not valid")
-- 
2.43.0


From a2a41738dcc9c09923b79f665bc6a4fde43813e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 06/82] fix: service registry is safe for concurrent use and
 keeps an explicit default

---
 runtime/core/registry/registry.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..9ab6cfe 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -9,6 +9,7 @@ package registry
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/pkg/errors"
 	"golang.org/x/exp/slog"
@@ -16,6 +17,7 @@ import (
 
 // Used for registering constructors for different service clients
 type ServiceRegistry[T any] struct {
+	mu               sync.Mutex
 	name             string
 	defaultBuildFunc string
 	registered       map[string]func(context.Context) (T, error)
@@ -33,12 +35,16 @@ func NewServiceRegistry[T any](name string) *ServiceRegistry[T] {
 }
 
 func (r *ServiceRegistry[T]) SetDefault(name string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.defaultBuildFunc = name
 }
 
 func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Context) (T, error)) {
 	slog.Info(fmt.Sprintf("ServiceRegistry \"%v\" added client \"%v\"", r.name, name))
-	if len(r.registered) == 0 {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if len(r.registered) == 0 && r.defaultBuildFunc == "" {
 		r.defaultBuildFunc = name
 	}
 	r.registered[name] = build
@@ -48,6 +54,8 @@ func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Contex
 // then the client will be built.  The client and any build error is cached,
 // and will be returned by any subsequent calls to Get
 func (r *ServiceRegistry[T]) Get(ctx context.Context) (T, error) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	if r.isBuilt {
 		return r.built, r.buildError
 	}
-- 
2.43.0


From fe6a2ef06cdbbc76583f3b46ae9e5fd9a751b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 07/82] fix: GetSpanContext reports malformed trace flags
 instead of panicking

---
 runtime/core/backend/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/backend/trace.go b/runtime/core/backend/trace.go
index ca3c9b2..30ad85c 100644
--- a/runtime/core/backend/trace.go
+++ b/runtime/core/backend/trace.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 
+	"github.com/pkg/errors"
 	"go.opentelemetry.io/otel/trace"
 )
 
@@ -49,6 +50,9 @@ func GetSpanContext(encoded_string string) (trace.SpanContextConfig, error) {
 	if err != nil {
 		return trace.SpanContextConfig{}, err
 	}
+	if len(flag_bytes) != 1 {
+		return trace.SpanContextConfig{}, errors.Errorf("invalid trace flags %q", tCtx.TraceFlags)
+	}
 	tFlags := trace.TraceFlags(flag_bytes[0])
 	tState, err := trace.ParseTraceState(tCtx.TraceState)
 	if err != nil {
-- 
2.43.0


From e6a6733fed9b1437927cc5aea7151e8b84d91f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 08/82] fix: in-memory document filters match as MongoDB does
 ($exists, $ne, $all, $elemMatch, exact arrays, mixed numbers, null)

---
 runtime/plugins/simplenosqldb/query/filter.go |  71 +++++-
 .../simplenosqldb/query/parsefilter.go        | 232 +++++++-----------
 2 files changed, 160 insertions(+), 143 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..b43b272 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -92,7 +92,7 @@ const (
 func Lookup(selector string, next Filter) Filter {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
 			next = Index(j, next)
 		} else {
 			next = Select(splits[i], next)
@@ -122,6 +122,10 @@ func Equals(value any) Filter {
 	} else if f, isFloat := floatValue(value); isFloat {
 		return CmpFloat(f, Eq)
 	} else {
+		// Compare against the value's stored representation
+		if stored, err := toStored(value); err == nil {
+			value = stored
+		}
 		return &equals{value: value}
 	}
 }
@@ -204,20 +208,21 @@ func (f *index) Apply(item any) bool {
 }
 
 func (f *broadcast) Apply(item any) bool {
+	if f.next.Apply(item) {
+		return true
+	}
 	if a, isA := item.(bson.A); isA {
 		for _, e := range a {
 			if f.next.Apply(e) {
 				return true
 			}
 		}
-		return false
-	} else {
-		return f.next.Apply(item)
 	}
+	return false
 }
 
 func (f *equals) Apply(item any) bool {
-	return reflect.DeepEqual(item, f.value)
+	return valuesEqual(item, f.value)
 }
 
 func (f *cmpInt) Apply(item any) bool {
@@ -235,6 +240,9 @@ func (f *cmpInt) Apply(item any) bool {
 			return v <= f.value
 		}
 	}
+	if _, isFloat := floatValue(item); isFloat {
+		return CmpFloat(float64(f.value), f.cmp).Apply(item)
+	}
 	return false
 }
 
@@ -463,3 +471,56 @@ func floatValue(item any) (float64, bool) {
 		return 0, false
 	}
 }
+
+// Returns the representation that value has once it is stored in a document
+func toStored(value any) (any, error) {
+	t, bytes, err := bson.MarshalValue(value)
+	if err != nil {
+		return nil, err
+	}
+	var stored any
+	err = bson.UnmarshalValue(t, bytes, &stored)
+	return stored, err
+}
+
+// Reports whether two stored values are equal.  Numbers are compared by value regardless of their type;
+// documents are compared field by field, in order.
+func valuesEqual(a any, b any) bool {
+	ai, aIsInt := intValue(a)
+	bi, bIsInt := intValue(b)
+	if aIsInt && bIsInt {
+		return ai == bi
+	}
+	af, aIsNumber := floatValue(a)
+	bf, bIsNumber := floatValue(b)
+	if aIsNumber && bIsNumber {
+		return af == bf
+	}
+
+	switch av := a.(type) {
+	case bson.D:
+		bv, isD := b.(bson.D)
+		if !isD || len(av) != len(bv) {
+			return false
+		}
+		for i := range av {
+			if av[i].Key != bv[i].Key || !valuesEqual(av[i].Value, bv[i].Value) {
+				return false
+			}
+		}
+		return true
+	case bson.A:
+		bv, isA := b.(bson.A)
+		if !isA || len(av) != len(bv) {
+			return false
+		}
+		for i := range av {
+			if !valuesEqual(av[i], bv[i]) {
+				return false
+			}
+		}
+		return true
+	default:
+		return reflect.DeepEqual(a, b)
+	}
+}
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..df0f7be 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -25,6 +25,9 @@ func init() {
 }
 
 func parseQueries(a bson.A) ([]Filter, error) {
+	if len(a) == 0 {
+		return nil, errors.Errorf("invalid query; $and, $or, and $nor require at least one condition")
+	}
 	var filters []Filter
 	for _, v := range a {
 		d, isD := v.(bson.D)
@@ -53,82 +56,57 @@ func parseQuery(d bson.D) (Filter, error) {
 }
 
 /*
-Parses a value, e.g. the value part of
+Parses an exact value for the specified field, e.g. the value part of
 
 { <field>: <value> }
 or
 { <field1>: { <operator1>: <value1> }
-*/
-func parseValues(d bson.D) (Filter, error) {
-	var filters []Filter
-	var fieldsSeen []string
-	for _, e := range d {
-		if strings.HasPrefix(e.Key, "$") {
-			return nil, errors.Errorf("values cannot contain operators; found %v in %v", e.Key, d)
-		}
-
-		if strings.Contains(e.Key, ".") {
-			return nil, errors.Errorf("cannot use selector expression %v within value condition %v", e.Key, d)
-		}
 
-		filter, err := parseValue(e.Value)
-		if err != nil {
-			return nil, err
-		}
-		filters = append(filters, Select(e.Key, filter))
-		fieldsSeen = append(fieldsSeen, e.Key)
+Matches if the field, or an element of the field if it is an array, equals the value.
+*/
+func parseFieldValue(key string, value any) (Filter, error) {
+	if err := validateValue(value); err != nil {
+		return nil, err
 	}
-	// Struct matches must be exact matches
-	filters = append(filters, ExactFieldMatch(fieldsSeen...))
-	return And(filters...), nil
+	stored, err := toStored(value)
+	if err != nil {
+		return nil, err
+	}
+	filter := Lookup(key, Broadcast(Equals(stored)))
+	if stored == nil {
+		// null also matches if the field doesn't exist
+		filter = Or(Not(Lookup(key, Exists())), filter)
+	}
+	return filter, nil
 }
 
-func parseValue(value any) (Filter, error) {
+// Values must be bson.D, bson.A, or literals, and cannot contain operators or selectors
+func validateValue(value any) error {
 	switch v := value.(type) {
 	case bson.D:
-		return parseValues(v)
-	case bson.A:
-		return parseArrayValues(v)
-	case bson.E:
-		return nil, errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.E found in %v", v)
-	case bson.M:
-		return nil, errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.M found in %v", v)
-	default:
-		return Equals(v), nil
-	}
-}
-
-func parseArrayValues(a bson.A) (Filter, error) {
-	/* All elements of the array must match exactly */
-	var arrayFilters []Filter
-	for i := range a {
-		switch v := a[i].(type) {
-		case bson.D:
-			{
-				filter, err := parseValues(v)
-				if err != nil {
-					return nil, err
-				}
-				arrayFilters = append(arrayFilters, Index(i, filter))
+		for _, e := range v {
+			if strings.HasPrefix(e.Key, "$") {
+				return errors.Errorf("values cannot contain operators; found %v in %v", e.Key, v)
 			}
-		case bson.A:
-			{
-				filter, err := parseArrayValues(v)
-				if err != nil {
-					return nil, err
-				}
-				arrayFilters = append(arrayFilters, Index(i, filter))
+			if strings.Contains(e.Key, ".") {
+				return errors.Errorf("cannot use selector expression %v within value condition %v", e.Key, v)
+			}
+			if err := validateValue(e.Value); err != nil {
+				return err
+			}
+		}
+	case bson.A:
+		for _, e := range v {
+			if err := validateValue(e); err != nil {
+				return err
 			}
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.A found in %v", v)
-		case bson.E:
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.E found in %v", v)
-		case bson.M:
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.M found in %v", v)
-		default:
-			arrayFilters = append(arrayFilters, Index(i, Equals(v)))
 		}
+	case bson.E:
+		return errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.E found in %v", v)
+	case bson.M:
+		return errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.M found in %v", v)
 	}
-	return And(arrayFilters...), nil
+	return nil
 }
 
 /*
@@ -160,36 +138,23 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 			if !hasOperators {
 				// If no operators, then it's just a direct value match or an
 				// array OR value match
-				filter, err := parseValues(v)
-				return Lookup(e.Key, Broadcast(filter)), err
+				return parseFieldValue(e.Key, v)
 			}
 
 			// Array operators can't mix with regular value operators
-			if filter, err := parseArrayOperators(v); err != nil || filter != nil {
-				return Lookup(e.Key, filter), err
-			}
-
-			// $exists: false is a special case
-			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
+			if filter, err := parseArrayOperators(e.Key, v); err != nil || filter != nil {
 				return filter, err
 			}
 
 			// We have regular value operators
-			filter, err := parseValueOperators(v)
-			return Lookup(e.Key, Broadcast(filter)), err
-		}
-	case bson.A:
-		{
-			// Exact match an array value
-			filter, err := parseArrayValues(v)
-			return Lookup(e.Key, filter), err
+			return parseValueOperators(e.Key, v)
 		}
 	case bson.E:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.E")
 	case bson.M:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.M")
 	default:
-		return Lookup(e.Key, Broadcast(Equals(v))), nil
+		return parseFieldValue(e.Key, v)
 	}
 }
 
@@ -246,10 +211,10 @@ $all, $elemMatch, $size
 If anything is found in the document that does not match these,
 this will return nil.
 */
-func parseArrayOperators(d bson.D) (Filter, error) {
+func parseArrayOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-		filter, err := parseArrayOperator(e)
+		filter, err := parseArrayOperator(key, e)
 		if err != nil {
 			return nil, err
 		}
@@ -267,7 +232,7 @@ func parseArrayOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseArrayOperator(e bson.E) (Filter, error) {
+func parseArrayOperator(key string, e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$all":
 		{
@@ -277,13 +242,16 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 			}
 			var valuefilters []Filter
 			for _, value := range values {
-				valuefilter, err := parseValue(value)
+				valuefilter, err := parseFieldValue(key, value)
 				if err != nil {
 					return nil, err
 				}
 				valuefilters = append(valuefilters, valuefilter)
 			}
-			return All(valuefilters...), nil
+			if len(valuefilters) == 0 {
+				return Not(Exists()), nil
+			}
+			return And(valuefilters...), nil
 		}
 	case "$elemMatch":
 		{
@@ -292,40 +260,21 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
+			return Lookup(key, ElemMatch(filter)), err
 		}
 	case "$size":
 	}
 	return nil, nil
 }
 
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
-func parseExistsOperators(key string, d bson.D) (Filter, error) {
-	for _, e := range d {
-		if e.Key == "$exists" {
-			if v, isBool := e.Value.(bool); isBool {
-				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
-				} else {
-					return nil, nil
-				}
-			} else {
-				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
-			}
-		}
-	}
-	return nil, nil
-}
-
 /*
 Parses a value that has some operators in it
 */
-func parseValueOperators(d bson.D) (Filter, error) {
+func parseValueOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
 
-		filter, err := parseValueOperator(e)
+		filter, err := parseValueOperator(key, e)
 		if err != nil {
 			return nil, err
 		}
@@ -334,20 +283,31 @@ func parseValueOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseValueOperator(e bson.E) (Filter, error) {
+func parseValueOperator(key string, e bson.E) (Filter, error) {
 
 	if filter, err := parseNumericOperator(e); err != nil || filter != nil {
-		return filter, err
+		return Lookup(key, Broadcast(filter)), err
 	}
 
 	switch e.Key {
 	case "$eq":
-		return parseValue(e.Value)
+		return parseFieldValue(key, e.Value)
 	case "$ne":
 		{
-			f, err := parseValue(e.Value)
+			f, err := parseFieldValue(key, e.Value)
 			return Not(f), err
 		}
+	case "$exists":
+		{
+			v, isBool := e.Value.(bool)
+			if !isBool {
+				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			}
+			if v {
+				return Lookup(key, Exists()), nil
+			}
+			return Not(Lookup(key, Exists())), nil
+		}
 	case "$in":
 		{
 			v := reflect.ValueOf(e.Value)
@@ -356,7 +316,7 @@ func parseValueOperator(e bson.E) (Filter, error) {
 			}
 			var filters []Filter
 			for i := 0; i < v.Len(); i++ {
-				filter, err := parseValue(v.Index(i).Interface())
+				filter, err := parseFieldValue(key, v.Index(i).Interface())
 				if err != nil {
 					return nil, err
 				}
@@ -376,7 +336,8 @@ func parseValueOperator(e bson.E) (Filter, error) {
 	case "$regex":
 		{
 			if strval, isStr := e.Value.(string); isStr {
-				return Regex(strval)
+				filter, err := Regex(strval)
+				return Lookup(key, Broadcast(filter)), err
 			}
 			return nil, errors.Errorf("$regex value must be string but got %v", e.Value)
 		}
@@ -394,32 +355,27 @@ func parseValueOperator(e bson.E) (Filter, error) {
 }
 
 func parseNumericOperator(e bson.E) (Filter, error) {
-	if v, isInt := intValue(e.Value); isInt {
-		switch e.Key {
-		case "$eq":
-			return CmpInt(v, Eq), nil
-		case "$gt":
-			return CmpInt(v, Gt), nil
-		case "$gte":
-			return CmpInt(v, Gte), nil
-		case "$lt":
-			return CmpInt(v, Lt), nil
-		case "$lte":
-			return CmpInt(v, Lte), nil
-		}
-	} else if v, isFloat := floatValue(e.Value); isFloat {
-		switch e.Key {
-		case "$eq":
-			return CmpFloat(v, Eq), nil
-		case "$gt":
-			return CmpFloat(v, Gt), nil
-		case "$gte":
-			return CmpFloat(v, Gte), nil
-		case "$lt":
-			return CmpFloat(v, Lt), nil
-		case "$lte":
-			return CmpFloat(v, Lte), nil
-		}
+	var cmp CmpType
+	switch e.Key {
+	case "$gt":
+		cmp = Gt
+	case "$gte":
+		cmp = Gte
+	case "$lt":
+		cmp = Lt
+	case "$lte":
+		cmp = Lte
+	default:
+		return nil, nil
+	}
+	value, err := toStored(e.Value)
+	if err != nil {
+		return nil, err
+	}
+	if v, isInt := intValue(value); isInt {
+		return CmpInt(v, cmp), nil
+	} else if v, isFloat := floatValue(value); isFloat {
+		return CmpFloat(v, cmp), nil
 	}
 	return nil, nil
 }
-- 
2.43.0


From 1c411c7b64e980e64568a2865bf400dcd564dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 09/82] fix: in-memory document updates keep array tails,
 accept null, do not create fields when pulling, and do not overflow

---
 .../simplenosqldb/query/parseupdate.go        |  6 +-
 runtime/plugins/simplenosqldb/query/update.go | 62 ++++++++++---------
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..49e4947 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -196,7 +196,9 @@ func parsePull(args any) ([]Update, error) {
 		case bson.D:
 			filter, err = parseQuery(v)
 		default:
-			filter = Equals(v)
+			var stored any
+			stored, err = toStored(v)
+			filter = Equals(stored)
 		}
 		if err != nil {
 			return nil, err
@@ -206,7 +208,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, updatePath(e.Key, update, false))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..e45c0c2 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -110,12 +110,16 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 }
 
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
-			update = UpdateIndex(j, update, true)
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
@@ -128,14 +132,14 @@ func UnsetPath(selector string) Update {
 	splits := strings.Split(selector, ".")
 
 	var update Update
-	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil {
+	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil && i >= 0 {
 		update = UnsetElement(i)
 	} else {
 		update = UnsetField(splits[len(splits)-1])
 	}
 
 	for i := len(splits) - 2; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, err := strconv.Atoi(splits[i]); err == nil && j >= 0 {
 			update = UpdateIndex(j, update, false)
 		} else {
 			update = UpdateField(splits[i], update, false)
@@ -181,9 +185,7 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
-
-	return nil
+	return backend.CopyResult(v, itemRef)
 }
 
 func (p *push) Apply(itemRef any) error {
@@ -234,7 +236,7 @@ func (p *addtoset) Apply(itemRef any) error {
 
 	// Check if it exists
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if valuesEqual(v, a[i]) {
 			return nil
 		}
 	}
@@ -284,7 +286,7 @@ func (u *unsetfield) Apply(itemRef any) error {
 
 	v, isD := itemVal.(bson.D)
 	if !isD {
-		return errors.Errorf("unsetfield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil // nothing to unset
 	}
 
 	// See if the key exists within the document; if so remove it
@@ -305,7 +307,7 @@ func (u *unsetelement) Apply(itemRef any) error {
 
 	v, isA := itemVal.(bson.A)
 	if !isA {
-		return errors.Errorf("unsetelement expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil // nothing to unset
 	}
 
 	// Ensure the slice length
@@ -330,19 +332,20 @@ func (i *incint) Apply(itemRef any) error {
 		return backend.CopyResult(v+float64(i.amount), itemRef)
 	case float32:
 		return backend.CopyResult(v+float32(i.amount), itemRef)
-	case int64:
-		return backend.CopyResult(v+i.amount, itemRef)
-	case int32:
-		return backend.CopyResult(v+int32(i.amount), itemRef)
-	case int16:
-		return backend.CopyResult(v+int16(i.amount), itemRef)
-	case int8:
-		return backend.CopyResult(v+int8(i.amount), itemRef)
-	case int:
-		return backend.CopyResult(v+int(i.amount), itemRef)
-	default:
+	}
+
+	v, isInt := intValue(itemVal)
+	if !isInt {
 		return errors.Errorf("incint unable to increment non-integer %v", itemVal)
 	}
+	sum := v + i.amount
+	if (sum > v) != (i.amount > 0) {
+		return errors.Errorf("incint overflow incrementing %v by %v", v, i.amount)
+	}
+	if _, isInt32 := itemVal.(int32); isInt32 && sum == int64(int32(sum)) {
+		return backend.CopyResult(int32(sum), itemRef)
+	}
+	return backend.CopyResult(sum, itemRef)
 }
 
 func (s *updatefield) Apply(itemRef any) error {
@@ -356,7 +359,9 @@ func (s *updatefield) Apply(itemRef any) error {
 	}
 
 	v, isD := itemVal.(bson.D)
-	if !isD {
+	if !isD && !s.createIfAbsent {
+		return nil
+	} else if !isD {
 		return errors.Errorf("updatefield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -393,7 +398,9 @@ func (s *updateindex) Apply(itemRef any) error {
 	}
 
 	v, isA := itemVal.(bson.A)
-	if !isA {
+	if !isA && !s.createIfAbsent {
+		return nil
+	} else if !isA {
 		return errors.Errorf("updateindex expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -401,12 +408,9 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
-		v = newv
+	for len(v) <= s.index {
+		v = append(v, nil)
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From df45ddfb4801b0bc7c93f941b45c8430676fa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 10/82] fix: in-memory document store is safe for concurrent
 use, copies documents in and out, keeps _id on replace, and leaves documents
 unchanged on errors

---
 runtime/plugins/simplenosqldb/nosqldb.go | 170 +++++++++++++++++------
 1 file changed, 131 insertions(+), 39 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..314b89a 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,10 +27,15 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mu          sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
+		mu sync.RWMutex
+
+		// Stored documents and slices of documents are never modified in place, so that they
+		// can be shared with cursors; changing a document replaces it with a modified copy.
 		items []bson.D
 	}
 
@@ -46,6 +52,9 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mu.Lock()
+	defer impl.mu.Unlock()
+
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -96,37 +105,73 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 	return copyResult(c.results, obj)
 }
 
-func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
-	}
-	hasId := false
-	for _, e := range d {
-		if e.Key == "_id" {
-			hasId = true
-			break
-		}
+// Converts document to the form in which it is stored, adding an _id if it doesn't have one.
+func newItem(document any) (bson.D, error) {
+	d, err := toBson(document)
+	if err != nil {
+		return nil, err
 	}
-	if !hasId {
+	if getID(d) == nil {
 		d = append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
 	}
+	return d, nil
+}
 
-	db.items = append(db.items, d)
+// Converts document to the form in which it is stored, keeping the _id of existing if it doesn't have one.
+func replaceItem(existing bson.D, document any) (bson.D, error) {
+	d, err := toBson(document)
+	if err != nil {
+		return nil, err
+	}
+	if id := getID(existing); id != nil && getID(d) == nil {
+		d = append(bson.D{*id}, d...)
+	}
+	return d, nil
+}
+
+func getID(d bson.D) *bson.E {
+	for i := range d {
+		if d[i].Key == "_id" {
+			return &d[i]
+		}
+	}
 	return nil
 }
 
+// Returns a copy of items with the document at index i replaced
+func withItem(items []bson.D, i int, item bson.D) []bson.D {
+	items = append([]bson.D{}, items...)
+	items[i] = item
+	return items
+}
+
+// Returns a modified copy of item
+func updateItem(item bson.D, update query.Update) (bson.D, error) {
+	updated, err := toBson(item)
+	if err != nil {
+		return nil, err
+	}
+	err = update.Apply(&updated)
+	return updated, err
+}
+
+func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
+	return db.InsertMany(ctx, []interface{}{document})
+}
+
 func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interface{}) error {
-	for _, d := range documents {
-		err := db.InsertOne(ctx, d)
+	var newitems []bson.D
+	for _, document := range documents {
+		d, err := newItem(document)
 		if err != nil {
 			return err
 		}
+		newitems = append(newitems, d)
 	}
+
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	db.items = append(db.items, newitems...)
 	return nil
 }
 
@@ -138,6 +183,8 @@ func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projecti
 	if verbose {
 		fmt.Printf("---- FindOne\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -168,6 +215,8 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 	if verbose {
 		fmt.Printf("---- FindMany\n%v\n", query)
 	}
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -189,9 +238,11 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i, item := range db.items {
 		if query.Apply(item) {
-			db.items = append(db.items[:i], db.items[i+1:]...)
+			db.items = append(append([]bson.D{}, db.items[:i]...), db.items[i+1:]...)
 			return nil
 		}
 	}
@@ -203,6 +254,8 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	copyrangebegin := 0
 	newitems := make([]bson.D, 0, len(db.items))
 	for i, item := range db.items {
@@ -235,12 +288,19 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 		fmt.Printf("---- UpdateOne\n%v\n%v\n", filter, update)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			item, err := updateItem(db.items[i], updateOp)
+			if err != nil {
+				return 0, err
+			}
+			db.items = withItem(db.items, i, item)
+			return 1, nil
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -265,35 +325,50 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 		fmt.Printf(" UPDATE: %v\n", updateOp)
 	}
 
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	updated := 0
-	for i := range db.items {
-		if filterOp.Apply(db.items[i]) {
+	newitems := append([]bson.D{}, db.items...)
+	for i := range newitems {
+		if filterOp.Apply(newitems[i]) {
 			if verbose {
-				fmt.Printf("UPDATING: %v\n", db.items[i])
+				fmt.Printf("UPDATING: %v\n", newitems[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			newitems[i], err = updateItem(newitems[i], updateOp)
 			if err != nil {
-				return updated, err
+				return 0, err
 			}
 			if verbose {
-				fmt.Printf("      --> %v\n", db.items[i])
+				fmt.Printf("      --> %v\n", newitems[i])
 			}
 			updated += 1
 		} else {
 			if verbose {
-				fmt.Printf("          %v\n", db.items[i])
+				fmt.Printf("          %v\n", newitems[i])
 			}
 		}
 	}
+	db.items = newitems
 	return updated, nil
 }
 
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
+	query, err := query.ParseFilter(filter)
+	if err != nil {
+		return false, err
+	}
+	newitem, err := newItem(document)
+	if err != nil {
+		return false, err
+	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	updatedCount, err := db.replaceOne(query, document)
 	if updatedCount == 1 || err != nil {
-		return true, err
+		return err == nil, err
 	}
-	return false, db.InsertOne(ctx, document)
+	db.items = append(db.items, newitem)
+	return false, nil
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -310,10 +385,21 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 	if err != nil {
 		return 0, err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
+	return db.replaceOne(query, replacement)
+}
+
+// The caller must hold db.mu
+func (db *SimpleCollection) replaceOne(filter query.Filter, replacement interface{}) (int, error) {
 	for i, item := range db.items {
-		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+		if filter.Apply(item) {
+			item, err := replaceItem(item, replacement)
+			if err != nil {
+				return 0, err
+			}
+			db.items = withItem(db.items, i, item)
+			return 1, nil
 		}
 	}
 	return 0, nil
@@ -322,18 +408,22 @@ func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, repla
 func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
+	db.mu.Lock()
+	defer db.mu.Unlock()
 	updateCount := 0
-	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
-		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
+	newitems := append([]bson.D{}, db.items...)
+	for i := 0; updateCount < len(replacements) && i < len(newitems); i++ {
+		if query.Apply(newitems[i]) {
+			newitems[i], err = replaceItem(newitems[i], replacements[updateCount])
 			if err != nil {
-				return updateCount, err
+				return 0, err
 			}
 			updateCount++
 		}
 	}
+	db.items = newitems
 	return updateCount, nil
 }
 
@@ -356,6 +446,8 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From ae40b3a80d6ce77421a34da22ac60b590fbab185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 11/82] fix: $elemMatch and $pull conditions only match array
 elements that are documents

---
 runtime/plugins/simplenosqldb/query/filter.go     | 15 +++++++++++++++
 .../plugins/simplenosqldb/query/parsefilter.go    |  2 +-
 .../plugins/simplenosqldb/query/parseupdate.go    |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index b43b272..22c9c4b 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -79,6 +79,8 @@ type (
 	elemMatch struct {
 		queries []Filter
 	}
+
+	isDocument struct{}
 )
 
 const (
@@ -189,6 +191,10 @@ func ElemMatch(queries ...Filter) Filter {
 	return &elemMatch{queries: queries}
 }
 
+func IsDocument() Filter {
+	return &isDocument{}
+}
+
 func (f *selectFilter) Apply(item any) bool {
 	if d, isD := item.(bson.D); isD {
 		for _, e := range d {
@@ -345,6 +351,11 @@ outer:
 	return false
 }
 
+func (f *isDocument) Apply(item any) bool {
+	_, isD := item.(bson.D)
+	return isD
+}
+
 func (f *selectFilter) String() string {
 	return fmt.Sprintf(".%v %v", f.fieldName, f.next.String())
 }
@@ -434,6 +445,10 @@ func (f *elemMatch) String() string {
 	return fmt.Sprintf("elemMatch(%v)", strings.Join(queryStrings, ", "))
 }
 
+func (f *isDocument) String() string {
+	return "isDocument"
+}
+
 func intValue(item any) (int64, bool) {
 	switch v := item.(type) {
 	case int:
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index df0f7be..1ef23ff 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -260,7 +260,7 @@ func parseArrayOperator(key string, e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Lookup(key, ElemMatch(filter)), err
+			return Lookup(key, ElemMatch(IsDocument(), filter)), err
 		}
 	case "$size":
 	}
diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 49e4947..8388de4 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -195,6 +195,7 @@ func parsePull(args any) ([]Update, error) {
 		switch v := e.Value.(type) {
 		case bson.D:
 			filter, err = parseQuery(v)
+			filter = And(IsDocument(), filter)
 		default:
 			var stored any
 			stored, err = toStored(v)
-- 
2.43.0


From 293cc142e51734ffc6eb9cc6b6148ae5cbb2036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 12/82] fix: null values in document filters and updates

---
 runtime/plugins/simplenosqldb/query/filter.go | 11 ++++++++++-
 runtime/plugins/simplenosqldb/query/update.go |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 22c9c4b..df7bd35 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"go.mongodb.org/mongo-driver/bson"
+	"go.mongodb.org/mongo-driver/bson/bsontype"
 )
 
 /*
@@ -489,7 +490,7 @@ func floatValue(item any) (float64, bool) {
 
 // Returns the representation that value has once it is stored in a document
 func toStored(value any) (any, error) {
-	t, bytes, err := bson.MarshalValue(value)
+	t, bytes, err := marshalValue(value)
 	if err != nil {
 		return nil, err
 	}
@@ -498,6 +499,14 @@ func toStored(value any) (any, error) {
 	return stored, err
 }
 
+// Extends bson.MarshalValue to support nil
+func marshalValue(value any) (bsontype.Type, []byte, error) {
+	if value == nil {
+		return bsontype.Null, nil, nil
+	}
+	return bson.MarshalValue(value)
+}
+
 // Reports whether two stored values are equal.  Numbers are compared by value regardless of their type;
 // documents are compared field by field, in order.
 func valuesEqual(a any, b any) bool {
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index e45c0c2..36e068e 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -71,17 +71,17 @@ type (
 )
 
 func SetValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &set{t: t, value: v}, err
 }
 
 func PushValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &push{t: t, value: v}, err
 }
 
 func AddToSet(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &addtoset{t: t, value: v}, err
 }
 
-- 
2.43.0


From 32ca0404a24069a78a1d3542bbc9fecfffedd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 13/82] fix: a struct given to $pull is a condition on array
 elements, like the document it is stored as

---
 runtime/plugins/simplenosqldb/query/parseupdate.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 8388de4..6b4556a 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -181,8 +181,14 @@ func parsePull(args any) ([]Update, error) {
 	}
 	var updates []Update
 	for _, e := range d {
+		// A bson.D, or any other value that is stored as a document, is a condition on array elements
+		stored, err := toStored(e.Value)
+		if err != nil {
+			return nil, err
+		}
+
 		// Check that the value isn't a bunch of modifiers; not currently implemented
-		if ed, eIsD := e.Value.(bson.D); eIsD {
+		if ed, eIsD := stored.(bson.D); eIsD {
 			for _, e2 := range ed {
 				if strings.HasPrefix(e2.Key, "$") {
 					return nil, errors.Errorf("modifiers not currently supported for $pull operation; got %v", e2)
@@ -191,14 +197,11 @@ func parsePull(args any) ([]Update, error) {
 		}
 
 		var filter Filter
-		var err error
-		switch v := e.Value.(type) {
+		switch v := stored.(type) {
 		case bson.D:
 			filter, err = parseQuery(v)
 			filter = And(IsDocument(), filter)
 		default:
-			var stored any
-			stored, err = toStored(v)
 			filter = Equals(stored)
 		}
 		if err != nil {
-- 
2.43.0


From d4a41d92e481e4cf2a84cc08377291de3d4f95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 14/82] fix: workload generator checks the process name of the
 node it is given

---
 plugins/workload/wiring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/workload/wiring.go b/plugins/workload/wiring.go
index 6cf80a8..cb6afc5 100644
--- a/plugins/workload/wiring.go
+++ b/plugins/workload/wiring.go
@@ -158,8 +158,8 @@ func (w *wlgen) AddNode(name string, node ir.IRNode) error {
 	proc, isProcNode := node.(*goproc.Process)
 	if !isProcNode {
 		return blueprint.Errorf("Unexpected node %v = %v", name, node)
-	} else if proc.InstanceName != w.WorkloadName {
-		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.WorkloadName)
+	} else if proc.InstanceName != w.ProcName {
+		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.ProcName)
 	} else if w.ProcNode != nil {
 		return blueprint.Errorf("Unexpected duplicate workload proc %v", node)
 	} else {
-- 
2.43.0


From 086a4fb208fdf63a445c535b34da256798cd1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 15/82] fix: pointer.InstantiateDst returns the error of a
 failed server build

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From a369e7429ffe6c0b6ae76b2b895406b3833454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 16/82] fix: cyclic wiring aliases terminate

---
 blueprint/pkg/wiring/wiring.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..1a0dc26 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -150,7 +150,8 @@ func (def *WiringDef) String() string {
 }
 
 func (spec *wiringSpecImpl) resolveAlias(alias string) string {
-	for {
+	// A chain of aliases longer than the number of aliases is cyclic and doesn't lead to any definition
+	for i := 0; i <= len(spec.aliases); i++ {
 		name, is_alias := spec.aliases[alias]
 		if is_alias {
 			alias = name
@@ -158,6 +159,7 @@ func (spec *wiringSpecImpl) resolveAlias(alias string) string {
 			return alias
 		}
 	}
+	return alias
 }
 
 func (spec *wiringSpecImpl) getDef(name string, createIfAbsent bool) *WiringDef {
-- 
2.43.0


From 16dd71f660d029488a5c12ed07cd68fde2a050e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 17/82] fix: building the IR reports wiring and namespace
 errors, build cycles, and adds missing edges

---
 blueprint/pkg/wiring/application.go |  7 ++++
 blueprint/pkg/wiring/namespace.go   | 60 ++++++++++++++++++++++-------
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 758738e..5aff792 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -19,6 +19,11 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 	// Create the root application namespace
 	app := &ir.ApplicationNode{ApplicationName: name}
 
+	// Errors that were encountered while defining the wiring spec
+	if err := spec.Err(); err != nil {
+		return app, err
+	}
+
 	namespace := &namespaceimpl{
 		NamespaceName:   name,
 		NamespaceType:   "BlueprintApplication",
@@ -27,6 +32,8 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 		Handler:         &applicationNamespaceHandler{app: app},
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
+		Unlinked:        make(map[string]any),
+		Building:        make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
 	}
 
diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..5d527fc 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -103,6 +103,8 @@ type namespaceimpl struct {
 	Handler         NamespaceHandler     // User-provided handler
 	Seen            map[string]ir.IRNode // Cache of built nodes
 	Added           map[string]any       // Nodes that have been passed to the handler
+	Unlinked        map[string]any       // Nodes instantiated from the parent namespace, but not yet gotten
+	Building        map[string]any       // Names of nodes currently being built
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
@@ -151,9 +153,18 @@ func (namespace *namespaceimpl) lookupDef(name string) (*WiringDef, error) {
 	return def, nil
 }
 
+// Reports true if node was instantiated from the parent namespace, without yet adding an edge for it
+func (namespace *namespaceimpl) isUnlinked(name string, node ir.IRNode) bool {
+	if _, unlinked := namespace.Unlinked[node.Name()]; !unlinked {
+		return false
+	}
+	def := namespace.Wiring.GetDef(name)
+	return def != nil && !namespace.Handler.Accepts(def.NodeType)
+}
+
 func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	// If it already exists, return it
-	if node, ok := namespace.Seen[name]; ok {
+	if node, ok := namespace.Seen[name]; ok && !(addEdge && namespace.isUnlinked(name, node)) {
 		return copyResult(node, dst)
 	}
 
@@ -162,6 +173,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	if err != nil {
 		return err
 	}
+	if def.Build == nil {
+		return blueprint.Errorf("%s has properties but is not defined in the wiring spec of namespace %s", name, namespace.NamespaceName)
+	}
 
 	// Track the defs being built
 	namespace.stack = append(namespace.stack, def)
@@ -173,11 +187,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	if def.Name != name {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
-		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
-		if err != nil {
+		if err := namespace.get(def.Name, addEdge, &node); err != nil {
 			return err
 		}
+		namespace.Seen[name] = node
 		return copyResult(node, dst)
 	}
 
@@ -196,10 +209,18 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
+		_, already_added := namespace.Added[node.Name()]
+		if !already_added || (addEdge && namespace.isUnlinked(name, node)) {
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
 				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
-				namespace.Handler.AddEdge(name, node)
+				if addEdge {
+					delete(namespace.Unlinked, node.Name())
+					if err := namespace.Handler.AddEdge(name, node); err != nil {
+						return err
+					}
+				} else {
+					namespace.Unlinked[node.Name()] = true
+				}
 			}
 			namespace.Added[node.Name()] = true
 		}
@@ -214,15 +235,25 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	}
 
 	// Build the node
+	if _, isBuilding := namespace.Building[name]; isBuilding {
+		return namespace.Error("%s depends on itself", name)
+	}
+	namespace.Building[name] = true
 	node, err := def.Build(namespace)
+	delete(namespace.Building, name)
 	if err != nil {
 		namespace.Error("Unable to build %v: %s", name, err.Error())
 		return err
 	}
+	if node == nil {
+		return namespace.Error("Building %v did not return a node", name)
+	}
 
 	if _, already_added := namespace.Added[node.Name()]; !already_added {
 		if !def.Options.ProxyNode {
-			namespace.Handler.AddNode(name, node)
+			if err := namespace.Handler.AddNode(name, node); err != nil {
+				return err
+			}
 		}
 		namespace.Added[node.Name()] = true
 	}
@@ -236,22 +267,23 @@ func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 	namespace.Seen[name] = node
 
 	if namespace.Handler.Accepts(node) {
-		namespace.Handler.AddNode(name, node)
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
+		}
 		namespace.Info("%s of type %s added to namespace", name, reflect.TypeOf(node).Elem().Name())
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
+	if namespace.ParentNamespace == nil {
 		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
 	}
 
-	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace)
+	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace.Name())
 	err := namespace.ParentNamespace.Put(name, node)
 	if err != nil {
 		return err
 	}
-	namespace.Handler.AddEdge(name, node)
-	return err
+	return namespace.Handler.AddEdge(name, node)
 }
 
 // Implements [Namespace]
@@ -303,6 +335,8 @@ func (namespace *namespaceimpl) DeriveNamespace(name string, handler NamespaceHa
 		Handler:         handler,
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
+		Unlinked:        make(map[string]any),
+		Building:        make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
 	}
 	namespace.ChildNamespaces[name] = child
-- 
2.43.0


From 4ba11c6b9538182bc249b69a8f2bbc984de66a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 18/82] fix: applying a modifier to a node that is not a
 pointer is a compile error

---
 plugins/circuitbreaker/wiring.go |  3 +--
 plugins/clientpool/wiring.go     |  4 ++--
 plugins/faultinjector/wiring.go  |  8 ++++----
 plugins/govector/wiring.go       |  4 ++--
 plugins/grpc/wiring.go           |  3 +--
 plugins/healthchecker/wiring.go  |  3 +--
 plugins/http/wiring.go           |  4 ++--
 plugins/latency/wiring.go        |  4 ++--
 plugins/opentelemetry/wiring.go  |  4 ++--
 plugins/retries/wiring.go        | 11 +++++------
 plugins/thrift/wiring.go         |  3 +--
 plugins/timeouts/wiring.go       |  4 ++--
 plugins/xtrace/wiring.go         |  4 ++--
 13 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/plugins/circuitbreaker/wiring.go b/plugins/circuitbreaker/wiring.go
index fc109cc..7ea3534 100644
--- a/plugins/circuitbreaker/wiring.go
+++ b/plugins/circuitbreaker/wiring.go
@@ -9,7 +9,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds circuit breaker functionality to all clients of the specified service.
@@ -24,7 +23,7 @@ func AddCircuitBreaker(spec wiring.WiringSpec, serviceName string, min_reqs int6
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a circuit breaker to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add a circuit breaker to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/clientpool/wiring.go b/plugins/clientpool/wiring.go
index 051d354..a83563c 100644
--- a/plugins/clientpool/wiring.go
+++ b/plugins/clientpool/wiring.go
@@ -27,11 +27,11 @@
 package clientpool
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Create can be used by wiring specs to add a clientpool to the client side of a service.
@@ -51,7 +51,7 @@ func Create(spec wiring.WiringSpec, serviceName string, numClients int) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to create clientpool for " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to create clientpool for %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/faultinjector/wiring.go b/plugins/faultinjector/wiring.go
index b18f68a..66835cc 100644
--- a/plugins/faultinjector/wiring.go
+++ b/plugins/faultinjector/wiring.go
@@ -2,8 +2,6 @@
 package faultinjector
 
 import (
-	"log/slog"
-
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
@@ -29,7 +27,8 @@ func AddRandomDelay(spec wiring.WiringSpec, serviceName string, maxDelay int64)
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add random delay node to " + serviceName)
+		spec.AddError(blueprint.Errorf("unable to add random delay node to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
@@ -60,7 +59,8 @@ func AddProbabilisticFailures(spec wiring.WiringSpec, serviceName string, probab
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add probabilistic failures node to " + serviceName)
+		spec.AddError(blueprint.Errorf("unable to add probabilistic failures node to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/govector/wiring.go b/plugins/govector/wiring.go
index ccf906f..3cfe37a 100644
--- a/plugins/govector/wiring.go
+++ b/plugins/govector/wiring.go
@@ -61,7 +61,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 // [Instrument] can be used by the wiring specs to instrument the client and server side of a service with govector-instrumentation to initialize, maintain, and propagate vector clocks.
@@ -77,7 +76,8 @@ func Instrument(spec wiring.WiringSpec, serviceName string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GoVector as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using GoVector as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
diff --git a/plugins/grpc/wiring.go b/plugins/grpc/wiring.go
index 15a8fb6..a2404a1 100644
--- a/plugins/grpc/wiring.go
+++ b/plugins/grpc/wiring.go
@@ -57,7 +57,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // [Deploy] can be used by wiring specs to deploy a workflow service using gRPC.
@@ -82,7 +81,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using GRPC as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using GRPC as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/healthchecker/wiring.go b/plugins/healthchecker/wiring.go
index d845860..b21b40a 100644
--- a/plugins/healthchecker/wiring.go
+++ b/plugins/healthchecker/wiring.go
@@ -10,7 +10,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds a health check API to the server side implementation of the specified service.
@@ -40,7 +39,7 @@ func AddHealthCheckAPI(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add healthcheck API to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add healthcheck API to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/http/wiring.go b/plugins/http/wiring.go
index b2aa67d..a4efbbd 100644
--- a/plugins/http/wiring.go
+++ b/plugins/http/wiring.go
@@ -18,7 +18,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 //Deploys `serviceName` as a HTTP server.
@@ -42,7 +41,8 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using HTTP as it not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using HTTP as it is not a pointer", serviceName))
+		return
 	}
 
 	// Define the address that will be used by clients and the server
diff --git a/plugins/latency/wiring.go b/plugins/latency/wiring.go
index 1810f46..dce53f6 100644
--- a/plugins/latency/wiring.go
+++ b/plugins/latency/wiring.go
@@ -23,7 +23,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Adds fixed-amount of latency on the server side during request processing for the specified sevrice.
@@ -36,7 +35,8 @@ func AddFixed(spec wiring.WiringSpec, serviceName string, latency string) {
 	serverWrapper := serviceName + ".server.latency"
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add a latencyinjector to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add a latencyinjector to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/opentelemetry/wiring.go b/plugins/opentelemetry/wiring.go
index 62ca1b3..30c1e28 100644
--- a/plugins/opentelemetry/wiring.go
+++ b/plugins/opentelemetry/wiring.go
@@ -53,12 +53,12 @@
 package opentelemetry
 
 import (
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 func instrument(spec wiring.WiringSpec, serviceName string, collectorName string, genClientSpan bool) {
@@ -69,7 +69,7 @@ func instrument(spec wiring.WiringSpec, serviceName string, collectorName string
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to instrument " + serviceName + " with OpenTelemetry as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to instrument %s with OpenTelemetry as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/retries/wiring.go b/plugins/retries/wiring.go
index 94e9e9e..f6cbc0e 100644
--- a/plugins/retries/wiring.go
+++ b/plugins/retries/wiring.go
@@ -20,7 +20,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_MAXRETRY = "Retry-Max"
@@ -42,7 +41,7 @@ func AddRetries(spec wiring.WiringSpec, serviceName string, max_retries int64) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -95,7 +94,7 @@ func AddRetriesWithFixedDelay(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -127,7 +126,7 @@ func AddRetriesWithExponentialBackoff(spec wiring.WiringSpec, serviceName string
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -158,7 +157,7 @@ func AddRetriesRetryRateLimit(spec wiring.WiringSpec, serviceName string, max_re
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
@@ -189,7 +188,7 @@ func AddRetriesTokenBucket(spec wiring.WiringSpec, serviceName string, max_capac
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add retries to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add retries to %s as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/thrift/wiring.go b/plugins/thrift/wiring.go
index d340542..dc9e468 100644
--- a/plugins/thrift/wiring.go
+++ b/plugins/thrift/wiring.go
@@ -22,7 +22,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 // Deploys `serviceName` as a Thrift server.
@@ -47,7 +46,7 @@ func Deploy(spec wiring.WiringSpec, serviceName string) {
 	// Get the pointer metadata
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using Thrift as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using Thrift as it is not a pointer", serviceName))
 		return
 	}
 
diff --git a/plugins/timeouts/wiring.go b/plugins/timeouts/wiring.go
index 8d9577b..70a46e4 100644
--- a/plugins/timeouts/wiring.go
+++ b/plugins/timeouts/wiring.go
@@ -14,7 +14,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
-	"golang.org/x/exp/slog"
 )
 
 var PROP_TIMEOUT = "Timeout"
@@ -36,7 +35,8 @@ func Add(spec wiring.WiringSpec, serviceName string, timeout string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to add timeouts to " + serviceName + " as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to add timeouts to %s as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
diff --git a/plugins/xtrace/wiring.go b/plugins/xtrace/wiring.go
index 8eef81b..4b2362b 100644
--- a/plugins/xtrace/wiring.go
+++ b/plugins/xtrace/wiring.go
@@ -55,7 +55,6 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/goproc"
-	"golang.org/x/exp/slog"
 )
 
 var default_xtrace_server_name = "xtrace_server"
@@ -75,7 +74,8 @@ func Instrument(spec wiring.WiringSpec, serviceName string) {
 
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
-		slog.Error("Unable to deploy " + serviceName + " using XTrace as it is not a pointer")
+		spec.AddError(blueprint.Errorf("unable to deploy %s using XTrace as it is not a pointer", serviceName))
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
-- 
2.43.0


From ca39ac30248b9ab9cce0e8de3c4e889173a56523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 19/82] fix: gRPC marshalling of pointers, maps, and slices and
 fields whose proto names or types differ from Go's

Pointers were marshalled without a nil check and unmarshalled into nil, maps
were never filled on the receiving side, slices and map keys of ints and small
ints did not compile, byte and rune had no valid proto type, and the fields
that protoc-gen-go generates for names with underscores were misspelt.
---
 plugins/grpc/grpccodegen/marshallgen.go | 167 ++++++++++++++----------
 plugins/grpc/grpccodegen/protogen.go    |  37 +++++-
 2 files changed, 128 insertions(+), 76 deletions(-)

diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..7b9069f 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -3,7 +3,6 @@ package grpccodegen
 import (
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -115,115 +114,143 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 	return t.Execute(f, args)
 }
 
-func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
-	switch t := f.GRPCType.(type) {
+// Returns an expression that converts the value expr into its GRPC type
+func marshallValue(grpcType gocode.TypeName, expr string) (string, error) {
+	switch t := grpcType.(type) {
 	case *gocode.UserType:
-		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
-		}
+		return fmt.Sprintf("new(%s).marshall(&%s)", t.Name, expr), nil
 	case *gocode.BasicType:
-		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
-		}
+		return fmt.Sprintf("%s(%s)", t.Name, expr), nil
+	default:
+		return "", blueprint.Errorf("unsupported/unimplemented type %v", t)
+	}
+}
+
+// Returns a statement that assigns the value of the GRPC expression expr to the variable dst, which has type srcType
+func unmarshallValue(imports *gogen.Imports, srcType gocode.TypeName, grpcType gocode.TypeName, dst string, expr string) (string, error) {
+	switch t := grpcType.(type) {
+	case *gocode.UserType:
+		return fmt.Sprintf("%s.unmarshall(&%s)", expr, dst), nil
+	case *gocode.BasicType:
+		return fmt.Sprintf("%s = %s(%s)", dst, imports.NameOf(srcType), expr), nil
+	default:
+		return "", blueprint.Errorf("unsupported/unimplemented type %v", t)
+	}
+}
+
+func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
+	src := obj + f.Name
+	dst := "msg." + goCamelCase(f.Name)
+	switch t := f.GRPCType.(type) {
 	case *gocode.Pointer:
 		{
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = new(%s).marshall(%s) }", src, dst, pt.Name, src), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { v := %s(*%s); %s = &v }", src, pt.Name, src, dst), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
 		}
 	case *gocode.Map:
 		{
-			switch vt := t.ValueType.(type) {
-			case *gocode.UserType:
-				{
-					return fmt.Sprintf(`
-    msg.%s = make(map[%s]*%s)
-	for k, v := range %s%s {
-		msg.%s[k] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), vt.Name), nil
-				}
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
+			value, err := marshallValue(t.ValueType, "v")
+			if err != nil {
+				return "", err
 			}
+			return fmt.Sprintf(`
+	for k, v := range %s {
+		if %s == nil { %s = make(map[%s]%s) }
+		%s[%s(k)] = %s
+	}`, src, dst, dst, t.KeyType, messageType(t.ValueType), dst, t.KeyType, value), nil
 		}
 	case *gocode.Slice:
 		{
-			switch st := t.SliceOf.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf(
-					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
+			if isBytes(t) {
+				return fmt.Sprintf("%s = %s", dst, src), nil
+			}
+			value, err := marshallValue(t.SliceOf, "v")
+			if err != nil {
+				return "", err
 			}
+			return fmt.Sprintf("for _, v := range %s { %s = append(%s, %s) }", src, dst, dst, value), nil
+		}
+	default:
+		{
+			value, err := marshallValue(t, src)
+			if err != nil {
+				return "", err
+			}
+			return fmt.Sprintf("%s = %s", dst, value), nil
 		}
 	}
-	return "", nil
 }
 
 func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, error) {
+	src := "msg." + goCamelCase(f.Name)
+	dst := obj + f.Name
 	switch t := f.GRPCType.(type) {
-	case *gocode.UserType:
-		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", strings.Title(f.Name), obj, f.Name), nil
-		}
-	case *gocode.BasicType:
-		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
-		}
 	case *gocode.Pointer:
 		{
+			srcType := imports.NameOf(f.SrcType.(*gocode.Pointer).PointerTo)
 			switch pt := t.PointerTo.(type) {
 			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s.unmarshall(%s%s)", strings.Title(f.Name), obj, f.Name), nil
+				return fmt.Sprintf("if %s != nil { %s = new(%s); %s.unmarshall(%s) }", src, dst, srcType, src, dst), nil
 			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
+				return fmt.Sprintf("if %s != nil { v := %s(*%s); %s = &v }", src, srcType, src, dst), nil
 			default:
 				return "", blueprint.Errorf("unsupported pointer type %v", pt)
 			}
 		}
 	case *gocode.Map:
 		{
-			switch t.ValueType.(type) {
-			case *gocode.UserType:
-				{
-					return fmt.Sprintf(`
-    %s%s = make(%s)
-	for k, v := range msg.%s {
-		objv := %s%s[k]
-		v.unmarshall(&objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name), nil
-				}
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported map value type %v", t)
+			srcType := f.SrcType.(*gocode.Map)
+			value, err := unmarshallValue(imports, srcType.ValueType, t.ValueType, "elem", "v")
+			if err != nil {
+				return "", err
 			}
+			return fmt.Sprintf(`
+	%s = make(%s)
+	for k, v := range %s {
+		var elem %s
+		%s
+		%s[%s(k)] = elem
+	}`, dst, imports.NameOf(srcType), src, imports.NameOf(srcType.ValueType), value, dst, imports.NameOf(srcType.KeyType)), nil
 		}
 	case *gocode.Slice:
 		{
-			switch st := t.SliceOf.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf(`
-	%s%s = make(%s, len(msg.%s))
-	for i, v := range msg.%s {
-		v.unmarshall(&%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
+			if isBytes(t) {
+				return fmt.Sprintf("%s = %s", dst, src), nil
+			}
+			srcType := f.SrcType.(*gocode.Slice)
+			value, err := unmarshallValue(imports, srcType.SliceOf, t.SliceOf, dst+"[i]", "v")
+			if err != nil {
+				return "", err
 			}
+			return fmt.Sprintf(`
+	%s = make(%s, len(%s))
+	for i, v := range %s {
+		%s
+	}`, dst, imports.NameOf(srcType), src, src, value), nil
 		}
+	default:
+		return unmarshallValue(imports, f.SrcType, t, dst, src)
 	}
-	return "", nil
+}
+
+// The type of a map value in the GRPC-generated code
+func messageType(grpcType gocode.TypeName) string {
+	switch t := grpcType.(type) {
+	case *gocode.UserType:
+		return "*" + t.Name
+	default:
+		return t.String()
+	}
+}
+
+// []byte is declared as bytes and needs no conversion
+func isBytes(slice *gocode.Slice) bool {
+	basic, isBasic := slice.SliceOf.(*gocode.BasicType)
+	return isBasic && basic.Name == "byte"
 }
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..8b21031 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -200,6 +200,28 @@ func (b *gRPCProtoBuilder) newMessage(name string) *gRPCMessageDecl {
 	return s
 }
 
+// The name that protoc-gen-go gives to the Go declaration of a proto declaration with the provided name
+func goCamelCase(s string) string {
+	isLower := func(i int) bool { return i < len(s) && 'a' <= s[i] && s[i] <= 'z' }
+	var out []byte
+	for i := 0; i < len(s); i++ {
+		switch {
+		case s[i] == '_' && i == 0:
+			out = append(out, 'X')
+		case s[i] == '_' && isLower(i+1):
+			// skipped; the next character will be capitalized
+		case '0' <= s[i] && s[i] <= '9':
+			out = append(out, s[i])
+		default:
+			out = append(out, strings.ToUpper(s[i:i+1])...)
+			for ; isLower(i + 1); i++ {
+				out = append(out, s[i+1])
+			}
+		}
+	}
+	return string(out)
+}
+
 func (b *gRPCProtoBuilder) newService(name string) *gRPCServiceDecl {
 	s := &gRPCServiceDecl{}
 	s.Builder = b
@@ -326,8 +348,8 @@ var basicToGrpc = map[string]string{
 	"string": "string",
 	"int":    "sint64", "int8": "sint32", "int16": "sint32", "int32": "sint32", "int64": "sint64",
 	"uint": "uint64", "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
-	"byte":    "uint8",
-	"rune":    "uint8",
+	"byte":    "uint32",
+	"rune":    "sint32",
 	"float32": "float", "float64": "double",
 }
 
@@ -336,9 +358,8 @@ var grpcToBasic = map[string]string{
 	"string": "string",
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
-	"uint8":   "byte",
-	"float32": "float",
-	"float64": "double",
+	"float":  "float32",
+	"double": "float64",
 }
 
 var acceptableMapKeys map[string]struct{}
@@ -357,7 +378,7 @@ func getMapKeyType(t gocode.TypeName) (string, gocode.TypeName, bool) {
 	if basic, isBasic := t.(*gocode.BasicType); isBasic {
 		if grpcType, hasGrpcType := basicToGrpc[basic.Name]; hasGrpcType {
 			if _, isValid := acceptableMapKeys[grpcType]; isValid {
-				return grpcType, t, true
+				return grpcType, &gocode.BasicType{Name: grpcToBasic[grpcType]}, true
 			}
 		}
 	}
@@ -389,6 +410,10 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 			if err != nil {
 				return "", nil, err
 			}
+			if _, isBasic := pointerToGrpcType.(*gocode.BasicType); isBasic {
+				// Messages are optional anyway
+				protoType = "optional " + protoType
+			}
 			grpcType := &gocode.Pointer{PointerTo: pointerToGrpcType}
 			return protoType, grpcType, nil
 		}
-- 
2.43.0


From 041d6a741a6bb886931599383d95af006b0f220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 20/82] fix: struct declarations with several names per field
 lose all but the first

---
 plugins/golang/goparser/parser.go | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index a8efb91..99dbc68 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -565,20 +565,27 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					f.Package.Structs[struc.Name] = struc
 
 					if t.Fields != nil {
-						for i, fieldDecl := range t.Fields.List {
-							field := &ParsedField{}
-							if fieldDecl.Names != nil {
-								field.Name = fieldDecl.Names[0].Name
-								struc.Fields[field.Name] = field
-							} else if struc.PromotedField == nil {
-								struc.PromotedField = field
-							} else {
-								struc.AnonymousFields = append(struc.AnonymousFields, field)
+						for _, fieldDecl := range t.Fields.List {
+							names := fieldDecl.Names
+							if names == nil {
+								names = []*ast.Ident{nil} // a promoted or anonymous field
+							}
+							// Several fields can share a declaration
+							for _, name := range names {
+								field := &ParsedField{}
+								if name != nil {
+									field.Name = name.Name
+									struc.Fields[field.Name] = field
+								} else if struc.PromotedField == nil {
+									struc.PromotedField = field
+								} else {
+									struc.AnonymousFields = append(struc.AnonymousFields, field)
+								}
+								field.Position = len(struc.FieldsList)
+								field.Struct = struc
+								field.Ast = fieldDecl
+								struc.FieldsList = append(struc.FieldsList, field)
 							}
-							field.Position = i
-							field.Struct = struc
-							field.Ast = fieldDecl
-							struc.FieldsList = append(struc.FieldsList, field)
 						}
 					}
 				}
-- 
2.43.0


From a9ee0e22585dcc5d11c60f4f4be6fdd025c6dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 21/82] fix: gRPC messages drop embedded structs and confuse
 types of the same name in different packages

---
 plugins/grpc/grpccodegen/protogen.go | 36 ++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 8b21031..e0b20ea 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -2,6 +2,7 @@ package grpccodegen
 
 import (
 	"fmt"
+	"go/token"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -13,6 +14,8 @@ import (
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
 	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
 	"golang.org/x/exp/slog"
 )
 
@@ -275,7 +278,10 @@ and return values.
 */
 func (b *gRPCProtoBuilder) AddService(iface *gocode.ServiceInterface) error {
 	serviceDecl := b.newService(iface.Name) // TODO: (not implemented yet) possibility of name collisions
-	for _, method := range iface.Methods {
+	methodNames := maps.Keys(iface.Methods)
+	slices.Sort(methodNames)
+	for _, methodName := range methodNames {
+		method := iface.Methods[methodName]
 		argList, err := b.makeFieldList(method.Arguments)
 		if err != nil {
 			return err
@@ -316,13 +322,29 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 	}
 
 	// Create the message
-	msg := b.newMessage(fmt.Sprintf("%v_%v", b.Name, t.Name))
+	name := fmt.Sprintf("%v_%v", b.Name, t.Name)
+	for i := 2; b.Messages[name] != nil; i++ {
+		// A type in another package has the same name
+		name = fmt.Sprintf("%v_%v_%v", b.Name, t.Name, i)
+	}
+	msg := b.newMessage(name)
 	b.Structs[*t] = msg
 	for _, field := range struc.FieldsList {
-		// We ignore promoted and anonymous struct / interface extensions
-		if _, isNamed := struc.Fields[field.Name]; !isNamed {
-			// TODO (not implemented yet): support promoted and anonymous, handle interfaces and promoted struct fields
-			continue
+		name := field.Name
+		if name == "" {
+			// An embedded struct is a field with the name of its type
+			embedded := field.Type
+			if ptr, isPtr := embedded.(*gocode.Pointer); isPtr {
+				embedded = ptr.PointerTo
+			}
+			userType, isUserType := embedded.(*gocode.UserType)
+			if !isUserType {
+				return nil, blueprint.Errorf("cannot serialize embedded field %v of %v for GRPC", field.Type, t)
+			}
+			name = userType.Name
+		}
+		if !token.IsExported(name) {
+			return nil, blueprint.Errorf("cannot serialize unexported field %v of %v for GRPC", name, t)
 		}
 
 		// Gets the type name of this field, possibly internally creating the GRPC message if it's a struct
@@ -335,7 +357,7 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 			SrcType:   field.Type,
 			ProtoType: fieldProto,
 			GRPCType:  fieldGRPC,
-			Name:      field.Name,
+			Name:      name,
 			Position:  len(msg.FieldList) + 1,
 		})
 	}
-- 
2.43.0


From 29dbf62606943111ee9a3c7a4e4c1e33e52dcffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 22/82] fix: truncate files that gogen regenerates

---
 plugins/golang/gogen/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..7148443 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From ce63489a4ba0e8fba4abac6028e8509631ff98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 23/82] fix: rename interface arguments that clash with
 identifiers of generated code

---
 plugins/golang/goparser/parser.go | 66 ++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 99dbc68..d42348a 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"regexp"
 	"strings"
 
 	"golang.org/x/exp/slog"
@@ -712,12 +713,75 @@ func (struc *ParsedStruct) Type() *gocode.UserType {
 	}
 }
 
+// Extracts the package names that a type's string representation mentions
+var packageOf = regexp.MustCompile(`(\w+)\.\w`)
+
+// Matches the names of return values in generated code
+var generatedRetVar = regexp.MustCompile(`^ret\d+$`)
+
+// Identifiers that generated code uses within the methods of a service.  Interfaces can use
+// them as argument names regardless, so generated code uses different names for such arguments.
+var reservedArgNames = func() map[string]struct{} {
+	names := make(map[string]struct{})
+	for _, name := range strings.Fields(`
+		ctx err error ok i j k v elem key val value n msg req rsp r w
+		client pool server service handler balancer srv router mux router_client
+		vals addr url http json io ioutil fmt errors context time rand math strconv strings sync atomic reflect
+		request response resp resp_bytes bytes body encoded_url query_url params bodyBytes respBytes
+		delay sleepDuration waitErr cancel is_complete results res dur i64 timeout
+		span trace tracer codes attribute propagation span_ctx span_ctx_config baggage_raw trace_ctx traceCtx
+		golang backend circuitbreaker clientpool govec vector logger grpc conn metadata otel
+		append cap clear close complex copy delete imag len make max min new panic print println real recover
+		true false nil iota any comparable
+	`) {
+		names[name] = struct{}{}
+	}
+	return names
+}()
+
+// Returns args with names that generated code can use
+func safeArguments(args []gocode.Variable, packages map[string]struct{}) []gocode.Variable {
+	used := make(map[string]struct{})
+	for _, arg := range args {
+		used[arg.Name] = struct{}{}
+	}
+	unsafe := func(name string) bool {
+		_, isReserved := reservedArgNames[name]
+		_, isPackage := packages[name]
+		return name == "" || name == "_" || isReserved || isPackage || gocode.IsBasicType(name) || generatedRetVar.MatchString(name)
+	}
+	var safe []gocode.Variable
+	for i, arg := range args {
+		if unsafe(arg.Name) {
+			name := arg.Name + "_arg"
+			if arg.Name == "" || arg.Name == "_" {
+				name = fmt.Sprintf("arg%d", i)
+			}
+			for _, exists := used[name]; exists; _, exists = used[name] {
+				name += "_"
+			}
+			used[name] = struct{}{}
+			arg.Name = name
+		}
+		safe = append(safe, arg)
+	}
+	return safe
+}
+
 func (iface *ParsedInterface) ServiceInterface(ctx ir.BuildContext) *gocode.ServiceInterface {
+	packages := make(map[string]struct{})
+	for _, method := range iface.Methods {
+		for _, v := range append(append([]gocode.Variable{}, method.Arguments...), method.Returns...) {
+			for _, match := range packageOf.FindAllStringSubmatch(v.Type.String(), -1) {
+				packages[match[1]] = struct{}{}
+			}
+		}
+	}
 	methods := make(map[string]gocode.Func)
 	for name, method := range iface.Methods {
 		methods[name] = gocode.Func{
 			Name:      method.Name,
-			Arguments: method.Arguments[1:],
+			Arguments: safeArguments(method.Arguments[1:], packages),
 			Returns:   method.Returns[:len(method.Returns)-1],
 		}
 	}
-- 
2.43.0


From 49afbb84dc5e28b13deaa58b0d08701e98d62ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 24/82] fix: timeout clients raced on their return values and
 leaked a goroutine per timeout

---
 plugins/timeouts/codegen.go | 23 +++++++++++++++--------
 plugins/timeouts/ir.go      |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..8d450a5 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -20,13 +20,13 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_TimeoutClient",
+		Name:    wrapped.Name + "_TimeoutClient",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
 	client.Imports.AddPackages("context", "time", "errors")
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"_TimeoutClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_TimeoutClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.Name+"_TimeoutClient"))
+	outputFile := filepath.Join(client.Package.Path, wrapped.Name+"_TimeoutClient.go")
 
 	return gogen.ExecuteTemplateToFile("Timeouts", clientTemplate, client, outputFile)
 }
@@ -65,10 +65,17 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	type results struct {
+		{{range $i, $ret := $f.Returns -}}
+		ret{{$i}} {{NameOf $ret.Type}}
+		{{end -}}
+		err error
+	}
+	is_complete := make(chan results, 1)
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		var res results
+		{{range $i, $ret := $f.Returns}}res.ret{{$i}}, {{end}}res.err = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		is_complete <- res
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -76,8 +83,8 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	case <-ctx.Done():
 		err = errors.New("Request was timed out")
 		return
-	case <-is_complete:
-		return
+	case res := <-is_complete:
+		return {{range $i, $ret := $f.Returns}}res.ret{{$i}}, {{end}}res.err
 	}
 }
 {{end}}
diff --git a/plugins/timeouts/ir.go b/plugins/timeouts/ir.go
index 05bc8e6..9ef7e41 100644
--- a/plugins/timeouts/ir.go
+++ b/plugins/timeouts/ir.go
@@ -92,7 +92,7 @@ func (node *TimeoutClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
-- 
2.43.0


From c7f9e5cc2df4a2069137a216c635d878148ad6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 25/82] fix: circuit breakers of the same interface shared one
 instance's parameters

---
 plugins/circuitbreaker/codegen.go | 44 +++++++++++++++----------------
 plugins/circuitbreaker/ir.go      | 14 +++++++---
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 698ce54..6847d35 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -10,37 +10,31 @@ import (
 	"golang.org/x/exp/slog"
 )
 
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:     pkg,
-		Service:     wrapped,
-		Name:        wrapped.BaseName + "_CircuitBreakerClient",
-		MinReqs:     MinReqs,
-		FailureRate: FailureRate,
-		Interval:    Interval,
-		Imports:     gogen.NewImports(pkg.Name),
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_CircuitBreakerClient",
+		Imports: gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
+	client.Imports.AddPackages("context", "strconv", "time", "github.com/mercari/go-circuitbreaker")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"CircuitBreakerClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_CircuitBreakerClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.Name+"CircuitBreakerClient"))
+	outputFile := filepath.Join(client.Package.Path, wrapped.Name+"_CircuitBreakerClient.go")
 	return gogen.ExecuteTemplateToFile("CircuitBreaker", clientTemplate, client, outputFile)
 }
 
 type clientArgs struct {
-	Package     golang.PackageInfo
-	Service     *gocode.ServiceInterface
-	Name        string
-	MinReqs     int64
-	FailureRate float64
-	Interval    string
-	Imports     *gogen.Imports
+	Package golang.PackageInfo
+	Service *gocode.ServiceInterface
+	Name    string
+	Imports *gogen.Imports
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by CircuitBreaker Plugin
@@ -55,13 +49,17 @@ type {{.Name}} struct {
 	cb *circuitbreaker.CircuitBreaker
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, min_reqs string, failure_rate string, interval string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MinReqs = {{.MinReqs}}
-	handler.FailureRate = {{.FailureRate}}
-
-	dur, err := time.ParseDuration("{{.Interval}}")
+	var err error
+	if handler.MinReqs, err = strconv.ParseInt(min_reqs, 10, 64); err != nil {
+		return nil, err
+	}
+	if handler.FailureRate, err = strconv.ParseFloat(failure_rate, 64); err != nil {
+		return nil, err
+	}
+	dur, err := time.ParseDuration(interval)
 	if err != nil {
 		return nil, err
 	}
diff --git a/plugins/circuitbreaker/ir.go b/plugins/circuitbreaker/ir.go
index 21c06ce..dc52df5 100644
--- a/plugins/circuitbreaker/ir.go
+++ b/plugins/circuitbreaker/ir.go
@@ -71,7 +71,7 @@ func (node *CircuitBreakerClient) GenerateFuncs(builder golang.ModuleBuilder) er
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
+	return generateClient(builder, iface, node.outputPackage)
 }
 
 func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -87,13 +87,21 @@ func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuild
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "min_reqs", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "failure_rate", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "interval", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.Min_Reqs)},
+		&ir.IRValue{Value: fmt.Sprint(node.FailureRate)},
+		&ir.IRValue{Value: node.Interval},
+	})
 }
-- 
2.43.0


From 31ca7ee16f62427a0448bfbe5d7cf4097e7f2062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 26/82] fix: retriers of the same interface shared one
 instance's parameters; data races, crash and ignored zero rate

---
 plugins/retries/codegen.go | 180 +++++++++++++++++++++----------------
 plugins/retries/ir.go      |  65 ++++++++++----
 2 files changed, 151 insertions(+), 94 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..9f75987 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -11,7 +11,7 @@ import (
 )
 
 // code generation function called from the ir.go file.
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -20,17 +20,16 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierClient",
-		Max:     Max,
+		Name:    wrapped.Name + "_RetrierClient",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context")
+	client.Imports.AddPackages("context", "strconv")
 
 	return generateClientCommon(&client, clientTemplate)
 }
 
-func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
+func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, useJitter bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -39,19 +38,21 @@ func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package:   pkg,
 		Service:   wrapped,
-		Name:      wrapped.BaseName + "_RetrierExpBackoffClient",
+		Name:      wrapped.Name + "_RetrierExpBackoffClient",
 		Imports:   gogen.NewImports(pkg.Name),
-		Delay:     delay,
-		Limit:     limit,
 		UseJitter: useJitter,
 	}
 
+	if useJitter {
+		client.Name = wrapped.Name + "_RetrierExpBackoffJitterClient"
+	}
+
 	client.Imports.AddPackages("context", "time")
 
 	return generateClientCommon(&client, clientExponentialBackoffTemplate)
 }
 
-func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
+func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -60,54 +61,47 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierFixedDelayClient",
+		Name:    wrapped.Name + "_RetrierFixedDelayClient",
 		Imports: gogen.NewImports(pkg.Name),
-		Delay:   delay,
-		Max:     max_tries,
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "strconv", "time")
 
 	return generateClientCommon(&client, clientFixedDelayTemplate)
 }
 
-func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
+func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:        pkg,
-		Service:        wrapped,
-		Name:           wrapped.BaseName + "_RetrierRateLimiterClient",
-		Max:            Max,
-		RetryRateLimit: RetryRateLimit,
-		Imports:        gogen.NewImports(pkg.Name),
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_RetrierRateLimiterClient",
+		Imports: gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "strconv", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
 
-func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
+func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:      pkg,
-		Service:      wrapped,
-		Name:         wrapped.BaseName + "_RetrierTokenBucketClient",
-		Imports:      gogen.NewImports(pkg.Name),
-		Capacity:     capacity,
-		RetryCost:    retry_cost,
-		ReplenishAmt: replenish_amount,
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_RetrierTokenBucketClient",
+		Imports: gogen.NewImports(pkg.Name),
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "strconv", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -125,18 +119,11 @@ func generateClientCommon(client *clientArgs, clientTemplate string) error {
 }
 
 type clientArgs struct {
-	Package        golang.PackageInfo
-	Service        *gocode.ServiceInterface
-	Name           string
-	Max            int64
-	Delay          string
-	Limit          string
-	UseJitter      bool
-	RetryRateLimit int64 // retried times per second
-	Capacity       float64
-	RetryCost      float64
-	ReplenishAmt   float64
-	Imports        *gogen.Imports
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Name      string
+	UseJitter bool
+	Imports   *gogen.Imports
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by Retries Plugin
@@ -149,10 +136,13 @@ type {{.Name}} struct {
 	MaxTries int
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
+	var err error
+	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+		return nil, err
+	}
 	return handler, nil
 }
 
@@ -183,12 +173,14 @@ type {{.Name}} struct {
 	Delay time.Duration
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, delay string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
-	dur := "{{.Delay}}"
-	parsed_dur, err := time.ParseDuration(dur)
+	var err error
+	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+		return nil, err
+	}
+	parsed_dur, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
@@ -222,35 +214,27 @@ type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	Delay time.Duration
 	Limit time.Duration
-	{{if .UseJitter -}}
-	Rand *rand.Rand
-	{{- end}}
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, delay string, limit string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	parsed_delay, err := time.ParseDuration("{{.Delay}}")
+	parsed_delay, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
 	handler.Delay = parsed_delay
-	parsed_limit, err := time.ParseDuration("{{.Limit}}")
+	parsed_limit, err := time.ParseDuration(limit)
 	if err != nil {
 		return nil, err
 	}
 	handler.Limit = parsed_limit
-	
-	{{if .UseJitter -}}
-	handler.Rand = rand.New(rand.NewSource(time.Now().UnixNano()))
-	{{- end}}
-
 	return handler, nil
 }
 
 {{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
-	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
+	return d/2 + time.Duration(rand.Int63n(int64(d/2)+1))
 }
 {{end}}
 
@@ -307,18 +291,25 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	MaxTries int
+	mu sync.Mutex
 	tokens float64
 	maxTokens float64
 	refillRate float64
 	lastRefill time.Time
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, rate_limit string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
-	// rateLimit is the maximum number of retries per second
-	rateLimit := float64({{.RetryRateLimit}})
+	var err error
+	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+		return nil, err
+	}
+	// rateLimit is the maximum number of retries per second, or 0 if there is no limit
+	rateLimit, err := strconv.ParseFloat(rate_limit, 64)
+	if err != nil {
+		return nil, err
+	}
 	handler.tokens = rateLimit
 	handler.maxTokens = rateLimit
 	handler.refillRate = rateLimit
@@ -345,6 +336,11 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	if client.refillRate == 0 {
+		return true
+	}
+	client.mu.Lock()
+	defer client.mu.Unlock()
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -378,7 +374,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	// Retry attempts with rate limiting
 	for i := 1; i < client.MaxTries; i++ {
 		// Wait for rate limit token
-		ctx = context.WithValue(ctx, "attempt_num", i)
+		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		waitErr := client.waitForToken(ctx)
 		if waitErr == nil {
 			// Call the original method
@@ -403,36 +399,62 @@ package {{.Package.ShortName}}
 
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
+	Capacity float64
+	RetryCost float64
+	ReplenishAmt float64
+	mu sync.Mutex
 	TokenBucket float64
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, capacity string, retry_cost string, replenish_amount string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.TokenBucket = {{.Capacity}}
+	var err error
+	if handler.Capacity, err = strconv.ParseFloat(capacity, 64); err != nil {
+		return nil, err
+	}
+	if handler.RetryCost, err = strconv.ParseFloat(retry_cost, 64); err != nil {
+		return nil, err
+	}
+	if handler.ReplenishAmt, err = strconv.ParseFloat(replenish_amount, 64); err != nil {
+		return nil, err
+	}
+	handler.TokenBucket = handler.Capacity
 	return handler, nil
 }
 
+// spend takes the cost of a retry from the bucket if there are enough tokens
+func (client *{{.Name}}) spend() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	if client.TokenBucket - client.RetryCost < 1.0 {
+		// Not enough tokens
+		return false
+	}
+	client.TokenBucket -= client.RetryCost
+	return true
+}
+
+func (client *{{.Name}}) replenish() {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	client.TokenBucket = math.Min(client.TokenBucket + client.ReplenishAmt, client.Capacity)
+}
+
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$node := . -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
-		tb := client.TokenBucket
-		if tb - {{$node.RetryCost}} < 1.0 {
-			// Not enough tokens
+		if !client.spend() {
 			return
-		} else {
-			client.TokenBucket = tb - {{$node.RetryCost}}
-			ctx = context.WithValue(ctx, "attempt_num", 2)
-			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-			if err == nil {
-				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
-				return
-			}
+		}
+		ctx = context.WithValue(ctx, "attempt_num", 2)
+		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		if err == nil {
+			client.replenish()
 		}
 	}
 	return
diff --git a/plugins/retries/ir.go b/plugins/retries/ir.go
index 5eed3b9..6b8398f 100644
--- a/plugins/retries/ir.go
+++ b/plugins/retries/ir.go
@@ -67,7 +67,7 @@ func (node *RetrierClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Max)
+	return generateClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -83,15 +83,19 @@ func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.Max)},
+	})
 }
 
 // Blueprint IR node representing a Retrier with Fixed Delay
@@ -152,7 +156,7 @@ func (node *RetrierFixedDelayClient) GenerateFuncs(builder golang.ModuleBuilder)
 		return err
 	}
 
-	return generateFixedDelayClient(builder, iface, node.outputPackage, node.Max, node.Delay)
+	return generateFixedDelayClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -168,15 +172,21 @@ func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBu
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "delay", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.Max)},
+		&ir.IRValue{Value: fmt.Sprint(node.Delay)},
+	})
 }
 
 // Blueprint IR node representing a Retrier with Exponential Backoff
@@ -239,7 +249,7 @@ func (node *RetrierExponentialBackoffClient) GenerateFuncs(builder golang.Module
 		return err
 	}
 
-	return generateExpBackoffClient(builder, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
+	return generateExpBackoffClient(builder, iface, node.outputPackage, node.UseJitter)
 }
 
 func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -252,18 +262,29 @@ func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.Nam
 		return err
 	}
 
+	clientName := "RetrierExpBackoffClient"
+	if node.UseJitter {
+		clientName = "RetrierExpBackoffJitterClient"
+	}
+
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_%v", iface.Name, clientName),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "delay", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "limit", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.StartDelay)},
+		&ir.IRValue{Value: fmt.Sprint(node.BackoffLimit)},
+	})
 }
 
 // Blueprint IR node representing a Retry Rate Limiter Client
@@ -324,7 +345,7 @@ func (node *RetrierRateLimiterClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateRateLimiterClient(builder, iface, node.outputPackage, node.Max, node.RetryRateLimit)
+	return generateRateLimiterClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -340,15 +361,21 @@ func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "rate_limit", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.Max)},
+		&ir.IRValue{Value: fmt.Sprint(node.RetryRateLimit)},
+	})
 }
 
 // Blueprint IR node representing a Retry Token Bucket Client
@@ -411,7 +438,7 @@ func (node *RetrierTokenBucketClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateTokenBucketClient(builder, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
+	return generateTokenBucketClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -427,13 +454,21 @@ func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "capacity", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "retry_cost", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "replenish_amount", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{
+		node.Wrapped,
+		&ir.IRValue{Value: fmt.Sprint(node.Capacity)},
+		&ir.IRValue{Value: fmt.Sprint(node.RetryCost)},
+		&ir.IRValue{Value: fmt.Sprint(node.ReplenishAmt)},
+	})
 }
-- 
2.43.0


From a9371fe27f2fc3b729f22be5578b942f34d056a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 27/82] fix: client pools of the same interface shared one
 instance's clients; race on the client counter

---
 plugins/clientpool/ir.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..de1e951 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,8 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* Each pool instance has its own code, since it instantiates its own nodes */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +84,8 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	baseName := ir.CleanName(pool.PoolName)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, baseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -143,17 +140,18 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	baseName := ir.CleanName(pool.PoolName)
+	args.PoolName = baseName + "_ClientPool"
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = baseName + "_pool_client.go"
+	args.PoolFileName = baseName + "_pool.go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", baseName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", baseName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
-		"context", "fmt",
+		"context", "fmt", "sync/atomic",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/golang",
 	)
@@ -191,14 +189,13 @@ type {{.PoolName}} struct {
 }
 
 func {{.PoolConstructor}}(parent *golang.Namespace) *{{.PoolName}} {
-	i := 0
+	var created int64
 	createClient := func() ({{NameOf .Service.UserType}}, error) {
-		clientName := fmt.Sprintf("{{.InstanceName}}.%v", i)
+		clientName := fmt.Sprintf("{{.InstanceName}}.%v", atomic.AddInt64(&created, 1)-1)
 		n, err := {{.ClientConstructor}}(clientName).BuildWithParent(parent)
 		if err != nil {
 			return nil, err
 		}
-		i++
 		var client {{NameOf .Service.UserType}}
 		err = n.Get("{{.WrappedClient}}", &client)
 		return client, err
-- 
2.43.0


From a13f855badf2078c3cbb0bdb9fabb5b98b3f34a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 28/82] fix: wrappers of the same service with and without
 health checker overwrote each other's code

---
 plugins/faultinjector/delay/codegen.go         | 2 +-
 plugins/faultinjector/delay/ir.go              | 2 +-
 plugins/faultinjector/probabilistic/codegen.go | 2 +-
 plugins/faultinjector/probabilistic/ir.go      | 2 +-
 plugins/http/httpcodegen/clientgen.go          | 2 +-
 plugins/http/httpcodegen/servergen.go          | 6 +++---
 plugins/http/ir_http_client.go                 | 2 +-
 plugins/http/ir_http_server.go                 | 2 +-
 plugins/latency/codegen.go                     | 6 +++---
 plugins/latency/ir.go                          | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/plugins/faultinjector/delay/codegen.go b/plugins/faultinjector/delay/codegen.go
index 2549306..63a3c23 100644
--- a/plugins/faultinjector/delay/codegen.go
+++ b/plugins/faultinjector/delay/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_RandomDelayHandler",
+		Name:      wrapped_service.Name + "_RandomDelayHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
diff --git a/plugins/faultinjector/delay/ir.go b/plugins/faultinjector/delay/ir.go
index 645308f..17d4d24 100644
--- a/plugins/faultinjector/delay/ir.go
+++ b/plugins/faultinjector/delay/ir.go
@@ -69,7 +69,7 @@ func (node *RandomDelayServerWrapper) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/faultinjector/probabilistic/codegen.go b/plugins/faultinjector/probabilistic/codegen.go
index 6100eba..784ffac 100644
--- a/plugins/faultinjector/probabilistic/codegen.go
+++ b/plugins/faultinjector/probabilistic/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_ProbabilisticFailureHandler",
+		Name:      wrapped_service.Name + "_ProbabilisticFailureHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
diff --git a/plugins/faultinjector/probabilistic/ir.go b/plugins/faultinjector/probabilistic/ir.go
index be852ea..8f4a80e 100644
--- a/plugins/faultinjector/probabilistic/ir.go
+++ b/plugins/faultinjector/probabilistic/ir.go
@@ -69,7 +69,7 @@ func (node *ServerWrapper) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..b710284 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -20,7 +20,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPClient",
+		Name:    service.Name + "_HTTPClient",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 38bb273..95ea12e 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -22,14 +22,14 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPServerHandler",
+		Name:    service.Name + "_HTTPServerHandler",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
 	server.Imports.AddPackages("context", "encoding/json", "net/http", "github.com/gorilla/mux")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.BaseName))
-	outputFile := filepath.Join(server.Package.Path, service.BaseName+"_HTTPServer.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.Name))
+	outputFile := filepath.Join(server.Package.Path, service.Name+"_HTTPServer.go")
 	return gogen.ExecuteTemplateToFile("HTTPServer", serverTemplate, server, outputFile)
 }
 
diff --git a/plugins/http/ir_http_client.go b/plugins/http/ir_http_client.go
index e020a3c..0f753e6 100644
--- a/plugins/http/ir_http_client.go
+++ b/plugins/http/ir_http_client.go
@@ -91,7 +91,7 @@ func (node *GolangHttpClient) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/http/ir_http_server.go b/plugins/http/ir_http_server.go
index 66b1107..5120a50 100644
--- a/plugins/http/ir_http_server.go
+++ b/plugins/http/ir_http_server.go
@@ -90,7 +90,7 @@ func (node *golangHttpServer) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/latency/codegen.go b/plugins/latency/codegen.go
index c6a0c33..0bdfe9b 100644
--- a/plugins/latency/codegen.go
+++ b/plugins/latency/codegen.go
@@ -20,13 +20,13 @@ func generateServerWrapper(builder golang.ModuleBuilder, wrapped *gocode.Service
 	server := serverArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_LatencyInjector",
+		Name:    wrapped.Name + "_LatencyInjector",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
 	server.Imports.AddPackages("context", "time")
-	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.BaseName+"_LatencyInjector"))
-	outputFile := filepath.Join(server.Package.Path, wrapped.BaseName+"_LatencyInjector.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.Name+"_LatencyInjector"))
+	outputFile := filepath.Join(server.Package.Path, wrapped.Name+"_LatencyInjector.go")
 
 	return gogen.ExecuteTemplateToFile("LatencyInjector", serverTemplate, server, outputFile)
 }
diff --git a/plugins/latency/ir.go b/plugins/latency/ir.go
index 8d315e9..2d78c39 100644
--- a/plugins/latency/ir.go
+++ b/plugins/latency/ir.go
@@ -91,7 +91,7 @@ func (node *LatencyInjectorWrapper) AddInstantiation(builder golang.NamespaceBui
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "server", Type: iface},
-- 
2.43.0


From 46ed72ee01c9afe89ae805bc75986d22703fccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 29/82] fix: only parse the packages and files of a module that
 Go builds

---
 plugins/golang/goparser/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index d42348a..53a8f71 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -6,6 +6,7 @@ package goparser
 import (
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"os"
@@ -176,8 +177,17 @@ func (mod *ParsedModule) Load() error {
 		if !info.IsDir() {
 			return nil
 		}
+		if path != mod.SrcDir && !isPackageDir(path) {
+			return filepath.SkipDir
+		}
+
+		// Only parse files that are part of the build
+		isBuilt := func(info os.FileInfo) bool {
+			matches, err := build.Default.MatchFile(path, info.Name())
+			return matches || err != nil
+		}
 
-		pkgs, err := parser.ParseDir(&fset, path, nil, parser.ParseComments)
+		pkgs, err := parser.ParseDir(&fset, path, isBuilt, parser.ParseComments)
 		if err != nil {
 			return blueprint.Errorf("unable to parse package %v due to %s", path, err.Error())
 		}
@@ -225,6 +235,16 @@ func (mod *ParsedModule) Load() error {
 	return nil
 }
 
+// Reports whether a subdirectory of a module can contain packages of the module
+func isPackageDir(path string) bool {
+	name := filepath.Base(path)
+	if strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" {
+		return false
+	}
+	_, err := os.Stat(filepath.Join(path, "go.mod"))
+	return err != nil
+}
+
 func (pkg *ParsedPackage) Load() error {
 	moduleDir := pkg.Module.SrcDir
 
-- 
2.43.0


From b0ddac16170b0c6e665eef0eb537a75cb3160421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 30/82] fix: methods of non-struct and generic types, generic
 functions and embedded interfaces no longer break or hide the code around
 them

---
 plugins/golang/goparser/parser.go        | 134 ++++++++++++++---------
 plugins/workflow/workflowspec/service.go |   3 +
 2 files changed, 84 insertions(+), 53 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 53a8f71..7fb72ad 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -85,18 +85,21 @@ type (
 	}
 
 	ParsedInterface struct {
-		File    *ParsedFile
-		Ast     *ast.InterfaceType
-		Name    string
-		Methods map[string]*ParsedFunc
+		File       *ParsedFile
+		Ast        *ast.InterfaceType
+		Name       string
+		Methods    map[string]*ParsedFunc
+		Embedded   []ast.Expr // Embedded interfaces and type constraints (not implemented yet)
+		TypeParams []string   // Names of generic type parameters
 	}
 
 	ParsedFunc struct {
 		gocode.Func
-		File     *ParsedFile
-		Ast      *ast.FuncType
-		Body     *ast.BlockStmt
-		Receiver *ast.FieldList
+		File       *ParsedFile
+		Ast        *ast.FuncType
+		Body       *ast.BlockStmt
+		Receiver   *ast.FieldList
+		TypeParams []string // Names of generic type parameters, including those of the receiver or interface
 	}
 
 	// Currently we save var statements but don't do anything with them
@@ -224,7 +227,9 @@ func (mod *ParsedModule) Load() error {
 			}
 			mod.Packages[p.Name] = p
 
-			p.Load()
+			if err := p.Load(); err != nil {
+				return err
+			}
 		}
 		return nil
 	})
@@ -345,7 +350,7 @@ func (f *ParsedFunc) Parse() error {
 	if f.Ast.Params != nil {
 		for _, p := range f.Ast.Params.List {
 			// Determine the argument's type
-			argType := f.File.ResolveType(p.Type)
+			argType := f.File.ResolveType(p.Type, f.TypeParams...)
 			if argType == nil {
 				return blueprint.Errorf("%v unable to resolve type of argument %v", f.Name, p.Type)
 			}
@@ -364,7 +369,7 @@ func (f *ParsedFunc) Parse() error {
 	if f.Ast.Results != nil {
 		for _, r := range f.Ast.Results.List {
 			// Determine the retval's type
-			retType := f.File.ResolveType(r.Type)
+			retType := f.File.ResolveType(r.Type, f.TypeParams...)
 			if retType == nil {
 				return blueprint.Errorf("%v unable to resolve type of retval %v", f.Name, r.Type)
 			}
@@ -392,6 +397,10 @@ An ident can be:
   - a generic type from a struct or func's type params
 */
 func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.TypeName {
+	if slices.Contains(typeParams, name) {
+		return &gocode.GenericTypeParam{ParamName: name}
+	}
+
 	if gocode.IsBasicType(name) {
 		return &gocode.BasicType{Name: name}
 	}
@@ -405,10 +414,6 @@ func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.Type
 		return &local
 	}
 
-	if slices.Contains(typeParams, name) {
-		return &gocode.GenericTypeParam{ParamName: name}
-	}
-
 	if len(f.AnonymousImports) == 1 {
 		// Assume (possibly erroneously) that this name just comes from the anonymous imports
 		return &gocode.UserType{Package: f.AnonymousImports[0].Package, Name: name}
@@ -435,6 +440,8 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	switch e := expr.(type) {
 	case *ast.Ident:
 		return f.ResolveIdent(e.Name, typeParams...)
+	case *ast.ParenExpr:
+		return f.ResolveType(e.X, typeParams...)
 	case *ast.ArrayType:
 		return &gocode.Slice{SliceOf: f.ResolveType(e.Elt, typeParams...)}
 	case *ast.MapType:
@@ -529,16 +536,7 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 				return blueprint.Errorf("parsing error, expected typespec in decls of %v", f.Name)
 			}
 
-			var typeParams []string
-			if typespec.TypeParams != nil {
-				for _, field := range typespec.TypeParams.List {
-					if field.Names != nil {
-						for _, name := range field.Names {
-							typeParams = append(typeParams, name.Name)
-						}
-					}
-				}
-			}
+			typeParams := typeParamNames(typespec.TypeParams)
 
 			// Save all types that are declared in the file
 			u := gocode.UserType{Package: f.Package.Name, Name: typespec.Name.Name}
@@ -554,19 +552,22 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					iface.File = f
 					iface.Name = typespec.Name.Name
 					iface.Methods = make(map[string]*ParsedFunc)
+					iface.TypeParams = typeParams
 					f.Package.Interfaces[iface.Name] = iface
 
 					// Can load interface funcs immediately
 					for _, methodDecl := range t.Methods.List {
 						funcType, isFuncType := methodDecl.Type.(*ast.FuncType)
 						if !isFuncType {
-							return blueprint.Errorf("expected a function declaration in interface " + iface.Name)
+							iface.Embedded = append(iface.Embedded, methodDecl.Type)
+							continue
 						}
 
 						method := &ParsedFunc{}
 						method.Ast = funcType
 						method.File = f
 						method.Name = methodDecl.Names[0].Name
+						method.TypeParams = typeParams
 						iface.Methods[method.Name] = method
 					}
 				}
@@ -667,6 +668,7 @@ func (f *ParsedFile) LoadFuncs() error {
 		fun.Name = d.Name.Name
 		fun.Body = d.Body
 		fun.Receiver = d.Recv
+		fun.TypeParams = typeParamNames(d.Type.TypeParams)
 
 		if d.Recv == nil {
 			// This function is not associated with a struct, but it might still be a constructor
@@ -675,42 +677,68 @@ func (f *ParsedFile) LoadFuncs() error {
 			continue
 		}
 
-		// This doesn't work with generic types
-
-		// Pull out the name of the receiver struct
-		var receiverName string
-		switch receiverType := d.Recv.List[0].Type.(type) {
-		case *ast.StarExpr:
-			{
-				switch pointerReceiverType := receiverType.X.(type) {
-				case *ast.Ident:
-					{
-						receiverName = pointerReceiverType.Name
-					}
-				default:
-					{
-						return blueprint.Errorf("unable to parse receiver type of function %v", fun.Name)
-					}
-				}
-			}
-		case *ast.Ident:
-			{
-				// Declared as func(receiver MyType) funcName(...) {}
-				receiverName = receiverType.Name
-			}
+		// Pull out the name of the receiver type
+		receiverType, typeParams := receiverType(d.Recv.List[0].Type)
+		if receiverType == nil {
+			return blueprint.Errorf("unable to parse receiver type of function %v", fun.Name)
 		}
+		fun.TypeParams = typeParams
 
 		// Associate the func with the receiver struct
-		struc, exists := f.Package.Structs[receiverName]
-		if !exists {
-			return blueprint.Errorf("function declared for receiver %v that does not exist in package", receiverName)
+		if struc, exists := f.Package.Structs[receiverType.Name]; exists {
+			struc.Methods[fun.Name] = fun
+			continue
+		}
+
+		// Types that aren't structs can also have methods, but we don't need them
+		if _, exists := f.Package.DeclaredTypes[receiverType.Name]; !exists {
+			return blueprint.Errorf("function declared for receiver %v that does not exist in package", receiverType.Name)
 		}
-		struc.Methods[fun.Name] = fun
 	}
 
 	return nil
 }
 
+// Returns the name of the type of a method receiver and the names of its type parameters
+func receiverType(expr ast.Expr) (*ast.Ident, []string) {
+	var typeParams []string
+	for {
+		var params []ast.Expr
+		switch e := expr.(type) {
+		case *ast.Ident:
+			return e, typeParams
+		case *ast.StarExpr:
+			expr = e.X
+		case *ast.ParenExpr:
+			expr = e.X
+		case *ast.IndexExpr:
+			expr, params = e.X, []ast.Expr{e.Index}
+		case *ast.IndexListExpr:
+			expr, params = e.X, e.Indices
+		default:
+			return nil, nil
+		}
+		for _, param := range params {
+			if ident, isIdent := param.(*ast.Ident); isIdent {
+				typeParams = append(typeParams, ident.Name)
+			}
+		}
+	}
+}
+
+// Returns the names of type parameters declared in a type or function declaration
+func typeParamNames(fields *ast.FieldList) (names []string) {
+	if fields == nil {
+		return nil
+	}
+	for _, field := range fields.List {
+		for _, name := range field.Names {
+			names = append(names, name.Name)
+		}
+	}
+	return names
+}
+
 func indent(str string, amount int) string {
 	lines := strings.Split(str, "\n")
 	for i, line := range lines {
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 488b2ca..1099d69 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -138,6 +138,9 @@ A service interface is only valid if all methods receive ctx as
 first argument and return error as final retval
 */
 func isInterfaceAValidService(iface *goparser.ParsedInterface) (bool, error) {
+	if len(iface.Embedded) > 0 || len(iface.TypeParams) > 0 {
+		return false, blueprint.Errorf("%v is generic or embeds other interfaces, which is not supported", iface.Name)
+	}
 	for _, method := range iface.Methods {
 		if len(method.Arguments) == 0 {
 			return false, blueprint.Errorf("first argument of %v.%v must be context.Context", iface.Name, method.Name)
-- 
2.43.0


From 3c857e87b7ed7ac2d8c3f31510bfb8bcf819323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 31/82] fix: imports of packages whose name differs from the
 end of their path, parenthesised types

---
 plugins/golang/goparser/parser.go | 72 ++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 7fb72ad..a463f00 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -10,6 +10,7 @@ import (
 	"go/parser"
 	"go/token"
 	"os"
+	"path"
 	"path/filepath"
 	"reflect"
 	"regexp"
@@ -22,6 +23,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"golang.org/x/exp/slices"
 	"golang.org/x/mod/modfile"
+	"golang.org/x/tools/go/packages"
 )
 
 type (
@@ -67,6 +69,7 @@ type (
 		Name             string                   // Filename
 		Path             string                   // Fully qualified path to the file
 		PathInModule     string                   // Path within the module to the file
+		Imports          []*ParsedImport          // All import declarations
 		AnonymousImports []*ParsedImport          // Import declarations that were imported with .
 		NamedImports     map[string]*ParsedImport // Import declarations - map from shortname to fully qualified package import name
 		Ast              *ast.File                // The AST of the file
@@ -112,6 +115,7 @@ type (
 	ParsedImport struct {
 		File    *ParsedFile
 		Package string
+		Name    string // The name given to the package by the import declaration, if any
 	}
 
 	ParsedField struct {
@@ -161,6 +165,9 @@ func parseModule(srcDir string) (*ParsedModule, error) {
 	}
 
 	for _, pkg := range mod.Packages {
+		for _, f := range pkg.Files {
+			f.nameImports(mod.packageName)
+		}
 		if err := pkg.Parse(); err != nil {
 			return mod, err
 		}
@@ -426,6 +433,11 @@ func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.Type
 
 func (f *ParsedFile) ResolveSelector(packageShortName string, name string) gocode.TypeName {
 	pkg, isImported := f.NamedImports[packageShortName]
+	if !isImported {
+		// A package outside the module can have a different name than the end of its import path
+		f.nameImports(f.Package.Module.lookupPackageName)
+		pkg, isImported = f.NamedImports[packageShortName]
+	}
 	if !isImported {
 		fmt.Printf("Unable to resolve type %v.%v in file %v\n", packageShortName, name, f.Name)
 		return nil
@@ -484,6 +496,51 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	return nil
 }
 
+// Matches a major version, e.g. in math/rand/v2
+var majorVersion = regexp.MustCompile(`^v\d+$`)
+
+// The name that a package most likely has
+func defaultImportName(pkg string) string {
+	name := path.Base(pkg)
+	if majorVersion.MatchString(name) && path.Dir(pkg) != "." {
+		name = path.Base(path.Dir(pkg))
+	}
+	return name
+}
+
+// Populates NamedImports, given the names of the imported packages
+func (f *ParsedFile) nameImports(nameOf func(pkg string) string) {
+	f.NamedImports = make(map[string]*ParsedImport)
+	for _, i := range f.Imports {
+		switch i.Name {
+		case ".":
+		case "":
+			f.NamedImports[nameOf(i.Package)] = i
+		default:
+			f.NamedImports[i.Name] = i
+		}
+	}
+}
+
+// The name of a package can differ from the last element of its import path
+func (mod *ParsedModule) packageName(pkg string) string {
+	if p, isLocal := mod.Packages[pkg]; isLocal {
+		return p.ShortName
+	}
+	return defaultImportName(pkg)
+}
+
+// Looks up the name of a package in mod or on the gopath
+func (mod *ParsedModule) lookupPackageName(pkg string) string {
+	if _, isLocal := mod.Packages[pkg]; !isLocal && !gocode.IsBuiltinPackage(pkg) {
+		pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName}, pkg)
+		if err == nil && len(pkgs) == 1 && pkgs[0].Name != "" {
+			return pkgs[0].Name
+		}
+	}
+	return mod.packageName(pkg)
+}
+
 func (f *ParsedFile) LoadImports() error {
 	for _, imp := range f.Ast.Imports {
 		i := &ParsedImport{}
@@ -494,21 +551,16 @@ func (f *ParsedFile) LoadImports() error {
 		// - import "my.package"
 		// - import myp "my.package"
 		// - import . "my.package"
-		var importedAs string
-		if imp.Name == nil {
-			splits := strings.Split(i.Package, "/")
-			importedAs = splits[len(splits)-1]
-		} else {
-			importedAs = imp.Name.Name
+		if imp.Name != nil {
+			i.Name = imp.Name.Name
 		}
 
-		if importedAs == "." {
+		f.Imports = append(f.Imports, i)
+		if i.Name == "." {
 			f.AnonymousImports = append(f.AnonymousImports, i)
-		} else {
-			f.NamedImports[importedAs] = i
 		}
-
 	}
+	f.nameImports(defaultImportName)
 	return nil
 }
 
-- 
2.43.0


From d01d0a14011e905926f9a79cb2c03edf32b4c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 32/82] fix: array types were treated as slices

---
 plugins/golang/gocode/typename.go | 29 +++++++++++++++++++++++++++--
 plugins/golang/gogen/imports.go   |  8 ++++++++
 plugins/golang/goparser/parser.go |  4 ++++
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index bd352c6..37dd92a 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -81,7 +81,7 @@ func NameOf[T any]() string {
 func typeof(t reflect.Type) TypeName {
 	switch t.Kind() {
 	case reflect.Array:
-		return &Slice{SliceOf: typeof(t.Elem())}
+		return &Array{Len: fmt.Sprint(t.Len()), ArrayOf: typeof(t.Elem())}
 	case reflect.Chan:
 		{
 			switch t.ChanDir() {
@@ -150,13 +150,22 @@ type (
 	}
 
 	/*
-		A slice or fixed-size array, e.g. []byte
+		A slice, e.g. []byte
 	*/
 	Slice struct {
 		TypeName
 		SliceOf TypeName // Slice of TypeName
 	}
 
+	/*
+		A fixed-size array, e.g. [16]byte
+	*/
+	Array struct {
+		TypeName
+		Len     string // The length as it is written in the code
+		ArrayOf TypeName
+	}
+
 	/*
 		Ellipsis type used in function arguments, e.g. ...string
 	*/
@@ -275,6 +284,10 @@ func (t *Slice) String() string {
 	return fmt.Sprintf("[]%s", t.SliceOf)
 }
 
+func (t *Array) String() string {
+	return fmt.Sprintf("[%s]%s", t.Len, t.ArrayOf)
+}
+
 func (t *Ellipsis) String() string {
 	return fmt.Sprintf("...%s", t.EllipsisOf)
 }
@@ -326,6 +339,7 @@ func (t *GenericTypeParam) String() string {
 func (t *BasicType) IsTypeName()        {}
 func (t *UserType) IsTypeName()         {}
 func (t *Slice) IsTypeName()            {}
+func (t *Array) IsTypeName()            {}
 func (t *Ellipsis) IsTypeName()         {}
 func (t *Pointer) IsTypeName()          {}
 func (t *Map) IsTypeName()              {}
@@ -372,6 +386,17 @@ func (t *Slice) Equals(other TypeName) bool {
 	return t.SliceOf.Equals(t2.SliceOf)
 }
 
+func (t *Array) Equals(other TypeName) bool {
+	if t == nil || other == nil {
+		return false
+	}
+	t2, isSameType := other.(*Array)
+	if !isSameType {
+		return false
+	}
+	return t.Len == t2.Len && t.ArrayOf.Equals(t2.ArrayOf)
+}
+
 func (t *Ellipsis) Equals(other TypeName) bool {
 	if t == nil || other == nil {
 		return false
diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 0e6ec42..793738e 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -90,6 +90,10 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 		{
 			imports.AddType(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			imports.AddType(t.ArrayOf)
+		}
 	case *gocode.Map:
 		{
 			imports.AddType(t.KeyType)
@@ -159,6 +163,10 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "[]" + imports.NameOf(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			return fmt.Sprintf("[%s]%s", t.Len, imports.NameOf(t.ArrayOf))
+		}
 	case *gocode.Map:
 		{
 			return fmt.Sprintf("map[%s]%s", imports.NameOf(t.KeyType), imports.NameOf(t.ValueType))
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index a463f00..5b3012a 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -9,6 +9,7 @@ import (
 	"go/build"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"os"
 	"path"
 	"path/filepath"
@@ -455,6 +456,9 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	case *ast.ParenExpr:
 		return f.ResolveType(e.X, typeParams...)
 	case *ast.ArrayType:
+		if e.Len != nil {
+			return &gocode.Array{Len: types.ExprString(e.Len), ArrayOf: f.ResolveType(e.Elt, typeParams...)}
+		}
 		return &gocode.Slice{SliceOf: f.ResolveType(e.Elt, typeParams...)}
 	case *ast.MapType:
 		return &gocode.Map{KeyType: f.ResolveType(e.Key, typeParams...), ValueType: f.ResolveType(e.Value, typeParams...)}
-- 
2.43.0


From 775b7da88d6f2b251102feafeedf8e7a2dce75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 33/82] fix: services no longer resolve to unexported, generic
 or test-only constructors; identical basic types are equal

---
 plugins/golang/gocode/typename.go        | 14 +++++++++++++-
 plugins/golang/goparser/parser.go        | 22 ++++++++++++++++++----
 plugins/workflow/workflowspec/service.go |  8 ++++++++
 plugins/workflow/workflowspec/spec.go    |  2 +-
 4 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index 37dd92a..dd785dd 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -361,7 +361,19 @@ func (t *BasicType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.Name == t2.Name
+	return basicTypeName(t.Name) == basicTypeName(t2.Name)
+}
+
+// byte and rune are aliases
+func basicTypeName(name string) string {
+	switch name {
+	case "byte":
+		return "uint8"
+	case "rune":
+		return "int32"
+	default:
+		return name
+	}
 }
 
 func (t *UserType) Equals(other TypeName) bool {
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 5b3012a..740a439 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -289,6 +289,9 @@ func (pkg *ParsedPackage) Load() error {
 
 	// Load all of the declared structs and interfaces
 	for _, f := range pkg.Files {
+		if f.isTest() {
+			continue
+		}
 		err := f.LoadStructsAndInterfaces()
 		if err != nil {
 			return err
@@ -299,11 +302,13 @@ func (pkg *ParsedPackage) Load() error {
 	// after loading structs and interfaces since function
 	// definitions can be in different files to receiver types
 	for _, f := range pkg.Files {
-		err := f.LoadFuncs()
-		if err != nil {
-			return err
+		if !f.isTest() {
+			err := f.LoadFuncs()
+			if err != nil {
+				return err
+			}
 		}
-		err = f.LoadVars()
+		err := f.LoadVars()
 		if err != nil {
 			return err
 		}
@@ -312,6 +317,12 @@ func (pkg *ParsedPackage) Load() error {
 	return nil
 }
 
+// The types and funcs of test files only exist in tests, so generated code can't use them.
+// The vars of test files include service registries.
+func (f *ParsedFile) isTest() bool {
+	return strings.HasSuffix(f.Name, "_test.go")
+}
+
 func (pkg *ParsedPackage) Parse() error {
 	for _, iface := range pkg.Interfaces {
 		for _, method := range iface.Methods {
@@ -463,6 +474,9 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	case *ast.MapType:
 		return &gocode.Map{KeyType: f.ResolveType(e.Key, typeParams...), ValueType: f.ResolveType(e.Value, typeParams...)}
 	case *ast.InterfaceType:
+		if e.Methods.NumFields() == 0 {
+			return &gocode.AnyType{}
+		}
 		return &gocode.InterfaceType{}
 	case *ast.SelectorExpr:
 		{
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 1099d69..77e7cb7 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -2,6 +2,7 @@ package workflowspec
 
 import (
 	"fmt"
+	"go/ast"
 	"reflect"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -244,8 +245,15 @@ func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct)
 Currently Blueprint is strict about the method signatures of constructors:
   - the first argument must be context.Context
   - the final retval must be error
+  - it must be possible to call the constructor from generated code, so it must be exported and not generic
 */
 func validateConstructorSignature(f *goparser.ParsedFunc) error {
+	if !ast.IsExported(f.Name) {
+		return blueprint.Errorf("%v is not exported", f.Func)
+	}
+	if len(f.TypeParams) > 0 {
+		return blueprint.Errorf("%v is generic", f.Func)
+	}
 	if len(f.Returns) == 0 {
 		return blueprint.Errorf("%v has no return values", f.Func)
 	}
diff --git a/plugins/workflow/workflowspec/spec.go b/plugins/workflow/workflowspec/spec.go
index 28d87c7..0a899a9 100644
--- a/plugins/workflow/workflowspec/spec.go
+++ b/plugins/workflow/workflowspec/spec.go
@@ -74,7 +74,7 @@ func (spec *WorkflowSpec) get(pkgName, name string, modInfo *goparser.ModuleInfo
 	// Find the package within the module
 	pkg, pkgExists := mod.Packages[pkgName]
 	if !pkgExists {
-		return nil, err
+		return nil, blueprint.Errorf("unable to find package %v of service %v in module %v", pkgName, name, mod.Name)
 	}
 
 	// Return either the interface or struct definition
-- 
2.43.0


From 9cff0811ec257d902512dd7b294968dfa06c866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 34/82] fix: hard-coded constructor arguments with quotes,
 parameter names of constructors in generated code

---
 plugins/golang/gogen/namespacebuilder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/golang/gogen/namespacebuilder.go b/plugins/golang/gogen/namespacebuilder.go
index 946812b..bc7a411 100644
--- a/plugins/golang/gogen/namespacebuilder.go
+++ b/plugins/golang/gogen/namespacebuilder.go
@@ -3,6 +3,7 @@ package gogen
 import (
 	"fmt"
 	"path/filepath"
+	"strconv"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -180,13 +181,13 @@ func (namespace *NamespaceBuilderImpl) DeclareConstructor(name string, construct
 		}
 
 		if v, isValue := args[i].(*ir.IRValue); isValue {
-			templateArgs.Args = append(templateArgs.Args, v.String())
+			templateArgs.Args = append(templateArgs.Args, strconv.Quote(v.Value))
 			continue
 		}
 
 		arg := buildFuncConstructorArg{
 			Namespace: namespace,
-			Var:       Var,
+			Var:       gocode.Variable{Name: fmt.Sprintf("arg_%v", i), Type: Var.Type}, // Var.Name could be used by something else
 			Node:      args[i],
 			NodeName:  ir.CleanName(args[i].Name()),
 			NodeType:  &gocode.BasicType{Name: "string"},
-- 
2.43.0


From eaee14ea01e9a62f7bb99bc2a626182e1c25f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 35/82] fix: package and parameter names of a workflow could
 clash with names in generated code; types that can't be generated are
 reported

---
 plugins/golang/gocode/typename.go | 25 +++++++++++++-
 plugins/golang/gogen/imports.go   | 56 +++++++++++++++++++++----------
 plugins/golang/gogen/template.go  | 30 +++++++++++++++++
 plugins/golang/goparser/parser.go | 28 ++++++++++++----
 4 files changed, 114 insertions(+), 25 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index dd785dd..22913db 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -2,7 +2,10 @@ package gocode
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"reflect"
+	"regexp"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -41,7 +44,7 @@ func initBasics() {
 		"bool",
 		"string",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64",
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
 		"byte",
 		"rune",
 		"float32", "float64",
@@ -272,6 +275,26 @@ func shortName(Package string) string {
 	return splits[len(splits)-1]
 }
 
+var (
+	versionSuffix = regexp.MustCompile(`^v[0-9]+$`)
+	identifier    = regexp.MustCompile(`[\pL_][\pL\p{Nd}_]*`)
+)
+
+// Returns an identifier that a package can be imported as, guessing the name of the package from its path
+// in the same way as goimports does.
+func ImportName(Package string) string {
+	splits := strings.Split(Package, "/")
+	name := splits[len(splits)-1]
+	if len(splits) > 1 && versionSuffix.MatchString(name) {
+		name = splits[len(splits)-2]
+	}
+	name = identifier.FindString(strings.TrimPrefix(name, "go-"))
+	if name == "" || name == "_" || token.IsKeyword(name) || types.Universe.Lookup(name) != nil {
+		return "pkg_" + name
+	}
+	return name
+}
+
 func (t *BasicType) String() string {
 	return t.Name
 }
diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 793738e..f345404 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -3,6 +3,8 @@ package gogen
 import (
 	"fmt"
 	"reflect"
+	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
@@ -21,9 +23,7 @@ import (
 type Imports struct {
 	localPackage string              // The name of the package where the importing is happening
 	packages     map[string]string   // Map from fully qualified package name to imported name
-	named        map[string]string   // Map of fully qualified package names to chosen import name
-	anonymous    map[string]struct{} // Map of fully qualified package names with default import name
-	seen         map[string]struct{} // Map from imported name to fully qualified package name
+	seen         map[string]struct{} // The imported names
 }
 
 // Creates a new ImportedPackages struct, treating the provided
@@ -32,8 +32,6 @@ func NewImports(packageName string) *Imports {
 	imports := &Imports{}
 	imports.localPackage = packageName
 	imports.packages = make(map[string]string)
-	imports.named = make(map[string]string)
-	imports.anonymous = make(map[string]struct{})
 	imports.seen = make(map[string]struct{})
 	return imports
 }
@@ -48,8 +46,10 @@ func (imports *Imports) AddPackage(pkg string) string {
 		return importName
 	}
 
-	splits := strings.Split(pkg, "/")
-	defaultImportName := splits[len(splits)-1]
+	return imports.addPackage(pkg, gocode.ImportName(pkg))
+}
+
+func (imports *Imports) addPackage(pkg string, defaultImportName string) string {
 	importName := defaultImportName
 	i := 2
 	for {
@@ -59,16 +59,27 @@ func (imports *Imports) AddPackage(pkg string) string {
 		} else {
 			imports.packages[pkg] = importName
 			imports.seen[importName] = struct{}{}
-			if importName == defaultImportName {
-				imports.anonymous[pkg] = struct{}{}
-			} else {
-				imports.named[pkg] = importName
-			}
 			return importName
 		}
 	}
 }
 
+// Names that packages of a service's types can't be imported as, because generated code uses them for variables
+var generatedNames = regexp.MustCompile(`^(ctx|err|ret\d+|client|server|service|handler|balancer|pool|router|mux|srv|clients|n|b|c|s|i|w|r|lis|req|rsp|resp|conn|vals|val|span|tr|tp|cb|dur|delay|latency|timeout|res|results|response|collClient|cancel|duration|opts)$`)
+
+// Imports the package of a type used by a service.  Unlike the packages that templates import, it can be
+// called like a variable of the generated code.
+func (imports *Imports) addPackageOfType(pkg string) {
+	if _, exists := imports.packages[pkg]; exists || pkg == imports.localPackage {
+		return
+	}
+	name := gocode.ImportName(pkg)
+	if generatedNames.MatchString(name) {
+		name = "pkg_" + name
+	}
+	imports.addPackage(pkg, name)
+}
+
 func (imports *Imports) AddPackages(pkgs ...string) {
 	for _, pkg := range pkgs {
 		imports.AddPackage(pkg)
@@ -80,7 +91,7 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 	switch t := typeName.(type) {
 	case *gocode.UserType:
 		{
-			imports.AddPackage(t.Package)
+			imports.addPackageOfType(t.Package)
 		}
 	case *gocode.Pointer:
 		{
@@ -118,11 +129,18 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 func (imports *Imports) String() string {
 	var b strings.Builder
 	b.WriteString("import (\n")
-	for pkg := range imports.anonymous {
-		b.WriteString(fmt.Sprintf("\t\"%s\"\n", pkg))
+	var pkgs []string
+	for pkg := range imports.packages {
+		pkgs = append(pkgs, pkg)
 	}
-	for pkg, importName := range imports.named {
-		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", importName, pkg))
+	sort.Strings(pkgs)
+	for _, pkg := range pkgs {
+		splits := strings.Split(pkg, "/")
+		if importName := imports.packages[pkg]; importName == splits[len(splits)-1] && gocode.IsBuiltinPackage(pkg) {
+			b.WriteString(fmt.Sprintf("\t\"%s\"\n", pkg))
+		} else {
+			b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", importName, pkg))
+		}
 	}
 	b.WriteString(")")
 	return b.String()
@@ -183,6 +201,10 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "chan<- " + imports.NameOf(t.SendType)
 		}
+	case *gocode.AnyType:
+		{
+			return "any"
+		}
 	default:
 		{
 			slog.Warn(fmt.Sprintf("Importing unknown type %v %v", typeName, reflect.TypeOf(typeName)))
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 7148443..bf1ee13 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -102,12 +102,42 @@ func (e *templateExecutor) exec(name string, body string, args any) (string, err
 }
 
 func (e *templateExecutor) NameOf(typeName gocode.TypeName) (string, error) {
+	if unsupported := unsupportedType(typeName); unsupported != nil {
+		return "", blueprint.Errorf("unable to generate code for the type %v", unsupported)
+	}
 	if e.Imports != nil {
 		return e.Imports.NameOf(typeName), nil
 	}
 	return "", blueprint.Errorf("the NameOf template function requires that the template args have a *gocode.Imports field, but none was found")
 }
 
+// Returns a type that is part of typeName and that generated code doesn't support, or nil if there is none
+func unsupportedType(typeName gocode.TypeName) gocode.TypeName {
+	switch t := typeName.(type) {
+	case *gocode.BasicType, *gocode.UserType, *gocode.AnyType:
+		return nil
+	case *gocode.Pointer:
+		return unsupportedType(t.PointerTo)
+	case *gocode.Slice:
+		return unsupportedType(t.SliceOf)
+	case *gocode.Array:
+		return unsupportedType(t.ArrayOf)
+	case *gocode.Map:
+		if unsupported := unsupportedType(t.KeyType); unsupported != nil {
+			return unsupported
+		}
+		return unsupportedType(t.ValueType)
+	case *gocode.Chan:
+		return unsupportedType(t.ChanOf)
+	case *gocode.ReceiveChan:
+		return unsupportedType(t.ReceiveType)
+	case *gocode.SendChan:
+		return unsupportedType(t.SendType)
+	default:
+		return typeName
+	}
+}
+
 func (e *templateExecutor) DeclareArgVars(f gocode.Func) (string, error) {
 	tmpl := `{{range $i, $arg := .Arguments}}
 	var {{$arg.Name}} {{NameOf $arg.Type}}
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 740a439..7a0185d 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -831,8 +831,24 @@ func (struc *ParsedStruct) Type() *gocode.UserType {
 	}
 }
 
-// Extracts the package names that a type's string representation mentions
-var packageOf = regexp.MustCompile(`(\w+)\.\w`)
+// Adds the names that the packages of a type are imported as to names, without trailing digits
+func addPackageNames(t gocode.TypeName, names map[string]struct{}) {
+	switch t := t.(type) {
+	case *gocode.UserType:
+		name := gocode.ImportName(t.Package)
+		names[name] = struct{}{}
+		names[strings.TrimPrefix(strings.TrimRight(name, "0123456789"), "pkg_")] = struct{}{}
+	case *gocode.Pointer:
+		addPackageNames(t.PointerTo, names)
+	case *gocode.Slice:
+		addPackageNames(t.SliceOf, names)
+	case *gocode.Array:
+		addPackageNames(t.ArrayOf, names)
+	case *gocode.Map:
+		addPackageNames(t.KeyType, names)
+		addPackageNames(t.ValueType, names)
+	}
+}
 
 // Matches the names of return values in generated code
 var generatedRetVar = regexp.MustCompile(`^ret\d+$`)
@@ -847,7 +863,7 @@ var reservedArgNames = func() map[string]struct{} {
 		vals addr url http json io ioutil fmt errors context time rand math strconv strings sync atomic reflect
 		request response resp resp_bytes bytes body encoded_url query_url params bodyBytes respBytes
 		delay sleepDuration waitErr cancel is_complete results res dur i64 timeout
-		span trace tracer codes attribute propagation span_ctx span_ctx_config baggage_raw trace_ctx traceCtx
+		span trace tracer codes attribute propagation span_ctx span_ctx_config baggage_raw trace_ctx traceCtx govecctx govec_bytes govec_ret
 		golang backend circuitbreaker clientpool govec vector logger grpc conn metadata otel
 		append cap clear close complex copy delete imag len make max min new panic print println real recover
 		true false nil iota any comparable
@@ -865,7 +881,7 @@ func safeArguments(args []gocode.Variable, packages map[string]struct{}) []gocod
 	}
 	unsafe := func(name string) bool {
 		_, isReserved := reservedArgNames[name]
-		_, isPackage := packages[name]
+		_, isPackage := packages[strings.TrimPrefix(strings.TrimRight(name, "0123456789"), "pkg_")]
 		return name == "" || name == "_" || isReserved || isPackage || gocode.IsBasicType(name) || generatedRetVar.MatchString(name)
 	}
 	var safe []gocode.Variable
@@ -890,9 +906,7 @@ func (iface *ParsedInterface) ServiceInterface(ctx ir.BuildContext) *gocode.Serv
 	packages := make(map[string]struct{})
 	for _, method := range iface.Methods {
 		for _, v := range append(append([]gocode.Variable{}, method.Arguments...), method.Returns...) {
-			for _, match := range packageOf.FindAllStringSubmatch(v.Type.String(), -1) {
-				packages[match[1]] = struct{}{}
-			}
+			addPackageNames(v.Type, packages)
 		}
 	}
 	methods := make(map[string]gocode.Func)
-- 
2.43.0


From 90818b68187f825ab7972eb96dc2fd58b99dbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 36/82] fix: generated wrappers clashed with methods of the
 service that are called like their fields, and imported each other in cycles

---
 plugins/circuitbreaker/codegen.go             | 16 ++--
 plugins/faultinjector/delay/codegen.go        | 12 +--
 .../faultinjector/probabilistic/codegen.go    | 12 +--
 plugins/govector/ir_clientwrapper.go          | 60 ++++++++----
 plugins/govector/ir_serverwrapper.go          | 16 +++-
 plugins/grpc/grpccodegen/clientgen.go         | 13 ++-
 plugins/grpc/grpccodegen/servergen.go         | 23 +++--
 plugins/healthchecker/codegen.go              | 16 +++-
 plugins/http/httpcodegen/clientgen.go         | 12 +--
 plugins/http/httpcodegen/servergen.go         | 16 ++--
 plugins/latency/codegen.go                    | 12 +--
 plugins/loadbalancer/codegen.go               | 12 +--
 plugins/opentelemetry/ir_ot_client.go         | 72 ++++++++------
 plugins/opentelemetry/ir_ot_server.go         | 22 +++--
 plugins/retries/codegen.go                    | 96 +++++++++----------
 plugins/timeouts/codegen.go                   | 12 +--
 16 files changed, 243 insertions(+), 179 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 6847d35..63c101f 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -43,20 +43,20 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	MinReqs int64
-	FailureRate float64
+	client {{.Imports.NameOf .Service.UserType}}
+	minReqs int64
+	failureRate float64
 	cb *circuitbreaker.CircuitBreaker
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, min_reqs string, failure_rate string, interval string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	var err error
-	if handler.MinReqs, err = strconv.ParseInt(min_reqs, 10, 64); err != nil {
+	if handler.minReqs, err = strconv.ParseInt(min_reqs, 10, 64); err != nil {
 		return nil, err
 	}
-	if handler.FailureRate, err = strconv.ParseFloat(failure_rate, 64); err != nil {
+	if handler.failureRate, err = strconv.ParseFloat(failure_rate, 64); err != nil {
 		return nil, err
 	}
 	dur, err := time.ParseDuration(interval)
@@ -68,7 +68,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 		circuitbreaker.WithFailOnContextCancel(true),
 		circuitbreaker.WithFailOnContextDeadline(true),
 		circuitbreaker.WithCounterResetInterval(dur),
-		circuitbreaker.WithTripFunc(circuitbreaker.NewTripFuncFailureRate(handler.MinReqs,handler.FailureRate)),
+		circuitbreaker.WithTripFunc(circuitbreaker.NewTripFuncFailureRate(handler.minReqs,handler.failureRate)),
 	)
 	handler.cb = cb
 
@@ -84,7 +84,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 		return
 	}
 	defer func() { err = client.cb.Done(ctx, err)}()
-	return client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	return client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 }
 {{end}}
 `
diff --git a/plugins/faultinjector/delay/codegen.go b/plugins/faultinjector/delay/codegen.go
index 63a3c23..b1f7a1f 100644
--- a/plugins/faultinjector/delay/codegen.go
+++ b/plugins/faultinjector/delay/codegen.go
@@ -53,8 +53,8 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
-	MaxDelay int64
+	service {{.Imports.NameOf .Service.UserType}}
+	maxDelay int64
 }
 
 func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}, max_delay string) (*{{.Name}}, error) {
@@ -63,8 +63,8 @@ func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserT
 		return nil, err
 	}
 	handler := &{{.Name}}{}
-	handler.Service = service
-	handler.MaxDelay = max_delay_val
+	handler.service = service
+	handler.maxDelay = max_delay_val
 	return handler, nil
 }
 
@@ -72,9 +72,9 @@ func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetTypes $f "error"}}) {
-	val := time.Duration(rand.Int63n(handler.MaxDelay + 1))
+	val := time.Duration(rand.Int63n(handler.maxDelay + 1))
 	time.Sleep(val * time.Millisecond)
-	return handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	return handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 }
 {{end}}
 `
diff --git a/plugins/faultinjector/probabilistic/codegen.go b/plugins/faultinjector/probabilistic/codegen.go
index 784ffac..4f0a5e1 100644
--- a/plugins/faultinjector/probabilistic/codegen.go
+++ b/plugins/faultinjector/probabilistic/codegen.go
@@ -53,8 +53,8 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
-	Probability int
+	service {{.Imports.NameOf .Service.UserType}}
+	probability int
 }
 
 func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}, probability string) (*{{.Name}}, error) {
@@ -63,8 +63,8 @@ func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserT
 		return nil, err
 	}
 	handler := &{{.Name}}{}
-	handler.Service = service
-	handler.Probability = int(prob_val)
+	handler.service = service
+	handler.probability = int(prob_val)
 	return handler, nil
 }
 
@@ -73,11 +73,11 @@ func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserT
 {{ range $_, $f := .Service.Methods }}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	val := int(rand.Int31n(100))
-	if val < handler.Probability {
+	if val < handler.probability {
 		err = errors.New("Artificially induced failure from the probabilistic failure plugin")
 		return
 	}
-	return handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	return handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 }
 {{end}}
 `
diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index fc6206a..a4b7122 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -60,9 +60,12 @@ func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	}
 	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		method.Returns = method.Returns[:len(method.Returns)-1]
-		i.Methods[name] = method
+		// Methods that were added outside of the server wrapper don't exchange vector clocks
+		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "govecctx" {
+			method.Arguments = method.Arguments[:n-1]
+			method.Returns = method.Returns[:len(method.Returns)-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -123,13 +126,12 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 	}
 
 	client := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		Name:            wrapped.BaseName + "_GoVecClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_GoVecServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		Name:      wrapped.BaseName + "_GoVecClientWrapper",
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.Name),
 	}
 
 	client.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
@@ -140,13 +142,17 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
+}
+
+// Reports whether calls of f pass a vector clock to the server wrapper
+func (args *clientArgs) ExchangesClocks(f gocode.Func) bool {
+	return len(args.Service.Methods[f.Name].Arguments) > len(f.Arguments)
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by GoVector Plugin
@@ -160,14 +166,22 @@ type {{.IfaceName}} interface {
 	{{end}}
 }
 
+// The methods of the wrapped service.  Declared here, rather than imported, because the packages of
+// different wrappers would otherwise have to import each other.
+type wrapped_{{.Name}} interface {
+	{{range $_, $f := .Service.Methods -}}
+	{{Signature $f}}
+	{{end}}
+}
+
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	client wrapped_{{.Name}}
 	logger *govector.GoVecLogger
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client wrapped_{{.Name}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	handler.logger = govector.GetLogger()
 	if handler.logger == nil {
 		return nil, errors.New("GoVector logger is not initialized")
@@ -179,11 +193,15 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}
 {{$receiver := .Name -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
+	{{- if $.ExchangesClocks $f}}
 	var govec_bytes, govec_ret []byte
 	govec_bytes, _ = handler.logger.GetSendCtx(ctx, "Preparing to make request for function {{$f.Name}}")
-	{{RetVars $f "govec_ret" "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, govec_bytes)
+	{{RetVars $f "govec_ret" "err"}} = handler.client.{{$f.Name}}({{ArgVars $f "ctx"}}, govec_bytes)
 	handler.logger.UnpackReceiveCtx(ctx, "Unpacking response from server", govec_ret)
 	return
+	{{- else}}
+	return handler.client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{- end}}
 }
 {{end}}
 `
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 34c03d3..62ef6b1 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -187,14 +187,22 @@ type {{.IfaceName}} interface {
 	{{end}}
 }
 
+// The methods of the wrapped service.  Declared here, rather than imported, because the packages of
+// different wrappers would otherwise have to import each other.
+type wrapped_{{.Name}} interface {
+	{{range $_, $f := .Service.Methods -}}
+	{{Signature $f}}
+	{{end}}
+}
+
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
+	service wrapped_{{.Name}}
 	logger *govector.GoVecLogger
 }
 
-func New_{{.Name}} (ctx context.Context, service {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, service wrapped_{{.Name}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Service = service
+	handler.service = service
 	handler.logger = govector.GetLogger()
 	if handler.logger == nil {
 		return nil, errors.New("GoVector logger is not initialized")
@@ -207,7 +215,7 @@ func New_{{.Name}} (ctx context.Context, service {{.Imports.NameOf .Service.User
 {{range $_, $f := .Service.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}, govecctx []byte) ({{RetVarsAndTypes $f "govecret []byte" "err error"}}) {
 	handler.logger.UnpackReceiveCtx(ctx, "Unpacking go vec context from client request", govecctx)
-	{{RetVars $f "err"}} = handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} = handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	govecret, _ = handler.logger.GetSendCtx(ctx, "Sending response to the client")
 	return
 }
diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index 681e33b..9cd8df8 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -51,9 +51,8 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	{{.Imports.NameOf .Service.UserType}}
-	Client {{.Service.Name}}Client // The actual GRPC-generated client
-	Timeout time.Duration
+	client {{.Service.Name}}Client // The actual GRPC-generated client
+	timeout time.Duration
 }
 
 func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error) {
@@ -70,8 +69,8 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 	}
 
 	c := &{{.Name}}{}
-	c.Client = New{{.Service.Name}}Client(conn)
-	c.Timeout = duration
+	c.client = New{{.Service.Name}}Client(conn)
+	c.timeout = duration
 	return c, nil
 }
 
@@ -84,11 +83,11 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	req.marshall({{ArgVars $f}})
 
 	// Configure the client-side request timeout
-	ctx, cancel := context.WithTimeout(ctx, client.Timeout)
+	ctx, cancel := context.WithTimeout(ctx, client.timeout)
 	defer cancel()
 
 	// Make the remote call
-	rsp, err := client.Client.{{$f.Name}}(ctx, req)
+	rsp, err := client.client.{{$f.Name}}(ctx, req)
 	if err == nil {
 		err = ctx.Err()
 	}
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index f0aeff5..21c8b4b 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -54,27 +54,32 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Unimplemented{{.Service.Name}}Server
-	Service {{.Imports.NameOf .Service.UserType}}
-	Address string
+	service {{.Imports.NameOf .Service.UserType}}
+	address string
 }
 
 func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}, serverAddress string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Service = service
-	handler.Address = serverAddress
+	handler.service = service
+	handler.address = serverAddress
 	return handler, nil
 }
 
+// Receives the RPCs; separate from {{.Name}} because the service can have any methods, including Run
+type {{.Name}}_rpcs struct {
+	Unimplemented{{.Service.Name}}Server
+	service {{.Imports.NameOf .Service.UserType}}
+}
+
 // Blueprint: Run is called automatically in a separate goroutine by runtime/plugins/golang/di.go
 func (handler *{{.Name}}) Run(ctx context.Context) error {
-	lis, err := net.Listen("tcp", handler.Address)
+	lis, err := net.Listen("tcp", handler.address)
 	if err != nil {
 		return err
 	}
 
 	s := grpc.NewServer()
-	Register{{.Service.Name}}Server(s, handler)
+	Register{{.Service.Name}}Server(s, &{{.Name}}_rpcs{service: handler.service})
 
 	go func() {
 		select {
@@ -89,10 +94,10 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
-func (handler *{{$receiver}}) {{$f.Name -}}
+func (handler *{{$receiver}}_rpcs) {{$f.Name -}}
 		(ctx context.Context, req *{{$service}}_{{$f.Name}}_Request) (*{{$service}}_{{$f.Name}}_Response, error) {
 	{{ArgVarsEquals $f}} req.unmarshall()
-	{{RetVars $f "err"}} := handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} := handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		return nil, err
 	}
diff --git a/plugins/healthchecker/codegen.go b/plugins/healthchecker/codegen.go
index 4c6cf61..f537ab5 100644
--- a/plugins/healthchecker/codegen.go
+++ b/plugins/healthchecker/codegen.go
@@ -72,13 +72,21 @@ type {{.IfaceName}} interface {
 	{{end}}
 }
 
+// The methods of the wrapped service.  Declared here, rather than imported, because the packages of
+// different wrappers would otherwise have to import each other.
+type wrapped_{{.Name}} interface {
+	{{range $_, $f := .Service.Methods -}}
+	{{Signature $f}}
+	{{end}}
+}
+
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
+	service wrapped_{{.Name}}
 }
 
-func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, service wrapped_{{.Name}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Service = service
+	handler.service = service
 	return handler, nil
 }
 
@@ -86,7 +94,7 @@ func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetTypes $f "error"}}) {
-	return handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	return handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 }
 {{end}}
 func (handler *{{$receiver}}) Health(ctx context.Context) (string, error) {
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index b710284..37414b6 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -47,8 +47,8 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client *http.Client
-	ServerAddress string
+	client *http.Client
+	serverAddress string
 }
 
 func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error) {
@@ -65,8 +65,8 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 		Transport: &defaultTransport,
 	}
 	c := &{{.Name}}{}
-	c.Client = client
-	c.ServerAddress = "http://" + serverAddress
+	c.client = client
+	c.serverAddress = "http://" + serverAddress
 	return c, nil
 }
 
@@ -87,13 +87,13 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	{{- end}}
 	{{end}}
 
-	encoded_url, err := url.Parse(client.ServerAddress + "/{{$f.Name}}")
+	encoded_url, err := url.Parse(client.serverAddress + "/{{$f.Name}}")
 	if err != nil {
 		return
 	}
 	encoded_url.RawQuery = vals.Encode()
 
-	resp, err := client.Client.Get(encoded_url.String())
+	resp, err := client.client.Get(encoded_url.String())
 	if err != nil {
 		return
 	}
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 95ea12e..2060f40 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -49,14 +49,14 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
-	Address string
+	service {{.Imports.NameOf .Service.UserType}}
+	address string
 }
 
 func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}, serverAddress string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Service = service
-	handler.Address = serverAddress
+	handler.service = service
+	handler.address = serverAddress
 	return handler, nil
 }
 
@@ -65,10 +65,10 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 	router := mux.NewRouter()
 	// Add paths for the mux router
 	{{ range $_, $f := .Service.Methods }}
-	router.Path("/{{$f.Name}}").HandlerFunc(handler.{{$f.Name}})
+	router.Path("/{{$f.Name}}").HandlerFunc(handler.handle_{{$f.Name}})
 	{{end}}
 	srv := &http.Server {
-		Addr: handler.Address,
+		Addr: handler.address,
 		Handler: router,
 	}
 
@@ -85,7 +85,7 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
-func (handler *{{$receiver}}) {{$f.Name -}}
+func (handler *{{$receiver}}) handle_{{$f.Name -}}
 	(w http.ResponseWriter, r *http.Request) {
 	var err error
 	defer r.Body.Close()
@@ -105,7 +105,7 @@ func (handler *{{$receiver}}) {{$f.Name -}}
 	{{- end}}
 	{{end}}
 	ctx := context.Background()
-	{{RetVars $f "err"}} {{HasNewReturnVars $f}} handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} {{HasNewReturnVars $f}} handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		http.Error(w, err.Error(), 500)
 		return
diff --git a/plugins/latency/codegen.go b/plugins/latency/codegen.go
index 0bdfe9b..1deb129 100644
--- a/plugins/latency/codegen.go
+++ b/plugins/latency/codegen.go
@@ -44,18 +44,18 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Server {{.Imports.NameOf .Service.UserType}}
-	Latency time.Duration
+	server {{.Imports.NameOf .Service.UserType}}
+	latency time.Duration
 }
 
 func New_{{.Name}} (ctx context.Context, server {{.Imports.NameOf .Service.UserType}}, latency_str string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Server = server
+	handler.server = server
 	latency, err := time.ParseDuration(latency_str)
 	if err != nil {
 		return nil, err
 	}
-	handler.Latency = latency
+	handler.latency = latency
 	return handler, nil
 }
 
@@ -63,8 +63,8 @@ func New_{{.Name}} (ctx context.Context, server {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (server *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	time.Sleep(server.Latency)
-	return server.Server.{{$f.Name}}({{ArgVars $f "ctx"}})
+	time.Sleep(server.latency)
+	return server.server.{{$f.Name}}({{ArgVars $f "ctx"}})
 }
 {{end}}
 `
diff --git a/plugins/loadbalancer/codegen.go b/plugins/loadbalancer/codegen.go
index 8776476..b2d7a83 100644
--- a/plugins/loadbalancer/codegen.go
+++ b/plugins/loadbalancer/codegen.go
@@ -47,16 +47,16 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Clients []{{.BaseType}}
+	clients []{{.BaseType}}
 	m sync.Mutex
 	idx int
-	N int
+	n int
 }
 
 func New{{.Name}} (ctx context.Context, clients ...{{.BaseType}}) ({{.IfaceName}}, error) {
 	handler := &{{.Name}}{}
-	handler.Clients = clients
-	handler.N = len(clients)
+	handler.clients = clients
+	handler.n = len(clients)
 	return handler, nil
 }
 
@@ -64,8 +64,8 @@ func New{{.Name}} (ctx context.Context, clients ...{{.BaseType}}) ({{.IfaceName}
 func (balancer *{{.Name}}) pickClient() ({{.BaseType}}, error) {
 	balancer.m.Lock()
 	defer balancer.m.Unlock()
-	client := balancer.Clients[balancer.idx]
-	balancer.idx = (balancer.idx + 1) % balancer.N
+	client := balancer.clients[balancer.idx]
+	balancer.idx = (balancer.idx + 1) % balancer.n
 	return client, nil
 }
 
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index d187921..2c51694 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -54,8 +54,11 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	}
 	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		i.Methods[name] = method
+		// Methods that were added outside of the server wrapper don't receive a trace context
+		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "traceCtx" {
+			method.Arguments = method.Arguments[:n-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -138,15 +141,14 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 	}
 
 	server := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		CollIface:       coll_iface,
-		Name:            wrapped.BaseName + "_OTClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
-		GenSpans:        genClientSpans,
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		CollIface: coll_iface,
+		Name:      wrapped.BaseName + "_OTClientWrapper",
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.Name),
+		GenSpans:  genClientSpans,
 	}
 
 	server.Imports.AddPackages("context", "go.opentelemetry.io/otel/trace")
@@ -157,15 +159,19 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	CollIface       *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
-	GenSpans        bool
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	CollIface *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
+	GenSpans  bool
+}
+
+// Reports whether calls of f pass a trace context to the server wrapper
+func (args *clientArgs) IsTraced(f gocode.Func) bool {
+	return len(args.Service.Methods[f.Name].Arguments) > len(f.Arguments)
 }
 
 var clientSideTemplate = `// Blueprint: Auto-generated by OT Plugin
@@ -179,15 +185,23 @@ type {{.IfaceName}} interface {
 	{{end}}
 }
 
+// The methods of the wrapped service.  Declared here, rather than imported, because the packages of
+// different wrappers would otherwise have to import each other.
+type wrapped_{{.Name}} interface {
+	{{range $_, $f := .Service.Methods -}}
+	{{Signature $f}}
+	{{end}}
+}
+
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
-	CollClient {{.Imports.NameOf .CollIface.UserType}}
+	client wrapped_{{.Name}}
+	collClient {{.Imports.NameOf .CollIface.UserType}}
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client wrapped_{{.Name}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
-	handler.CollClient = coll_client
+	handler.client = client
+	handler.collClient = coll_client
 	return handler, nil
 }
 
@@ -197,19 +211,23 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client
 {{$genSpans := .GenSpans -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
+	{{- if $.IsTraced $f}}
 	span := trace.SpanFromContext(ctx)
 	{{if $genSpans}}
-	tp, _ := handler.CollClient.GetTracerProvider(ctx)
+	tp, _ := handler.collClient.GetTracerProvider(ctx)
 	tr := tp.Tracer("{{$service}}")
 	ctx, span = tr.Start(ctx, "{{$basename}}Client_{{$f.Name}}")
 	defer span.End()
 	{{end}}
 	trace_ctx, _ := span.SpanContext().MarshalJSON()
-	{{RetVars $f "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, string(trace_ctx))
+	{{RetVars $f "err"}} = handler.client.{{$f.Name}}({{ArgVars $f "ctx"}}, string(trace_ctx))
 	if err != nil {
 		span.RecordError(err)
 	}
 	return
+	{{- else}}
+	return handler.client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{- end}}
 }
 {{end}}
 `
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index 5e5bede..faeb453 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -230,15 +230,23 @@ type {{.IfaceName}} interface {
 	{{end}}
 }
 
+// The methods of the wrapped service.  Declared here, rather than imported, because the packages of
+// different wrappers would otherwise have to import each other.
+type wrapped_{{.Name}} interface {
+	{{range $_, $f := .Service.Methods -}}
+	{{Signature $f}}
+	{{end}}
+}
+
 type {{.Name}} struct {
-	Service {{.Imports.NameOf .Service.UserType}}
-	CollClient {{.Imports.NameOf .CollIface.UserType}}
+	service wrapped_{{.Name}}
+	collClient {{.Imports.NameOf .CollIface.UserType}}
 }
 
-func New_{{.Name}}(ctx context.Context, service {{.Imports.NameOf .Service.UserType}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, service wrapped_{{.Name}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Service = service
-	handler.CollClient = coll_client
+	handler.service = service
+	handler.collClient = coll_client
 	return handler, nil
 }
 
@@ -252,11 +260,11 @@ func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.C
 		ctx = trace.ContextWithRemoteSpanContext(ctx, span_ctx)
 	}
 
-	tp, _ := handler.CollClient.GetTracerProvider(ctx)
+	tp, _ := handler.collClient.GetTracerProvider(ctx)
 	tr := tp.Tracer("{{$service}}")
 	ctx, span := tr.Start(ctx, "{{$service}}Server_{{$f.Name}}")
 	defer span.End()
-	{{RetVars $f "err"}} = handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} = handler.service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		span.RecordError(err)
 	}
diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index 9f75987..21ae4b8 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -132,15 +132,15 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	MaxTries int
+	client {{.Imports.NameOf .Service.UserType}}
+	maxTries int
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	var err error
-	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+	if handler.maxTries, err = strconv.Atoi(max_tries); err != nil {
 		return nil, err
 	}
 	return handler, nil
@@ -150,9 +150,9 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i < client.maxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
 		}
@@ -168,23 +168,23 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	MaxTries int
-	Delay time.Duration
+	client {{.Imports.NameOf .Service.UserType}}
+	maxTries int
+	delay time.Duration
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, delay string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	var err error
-	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+	if handler.maxTries, err = strconv.Atoi(max_tries); err != nil {
 		return nil, err
 	}
 	parsed_dur, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
-	handler.Delay = parsed_dur
+	handler.delay = parsed_dur
 	return handler, nil
 }
 
@@ -192,13 +192,13 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i < client.maxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
 		}
-		time.Sleep(client.Delay)
+		time.Sleep(client.delay)
 	}
 	return
 }
@@ -211,24 +211,24 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	Delay time.Duration
-	Limit time.Duration
+	client {{.Imports.NameOf .Service.UserType}}
+	delay time.Duration
+	limit time.Duration
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, delay string, limit string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	parsed_delay, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
-	handler.Delay = parsed_delay
+	handler.delay = parsed_delay
 	parsed_limit, err := time.ParseDuration(limit)
 	if err != nil {
 		return nil, err
 	}
-	handler.Limit = parsed_limit
+	handler.limit = parsed_limit
 	return handler, nil
 }
 
@@ -243,16 +243,16 @@ func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
 {{$useJitter := .UseJitter -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	delay := client.Delay
+	delay := client.delay
 	i := 1
 	for {
 		ctx = context.WithValue(ctx, "attempt_num", i)
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			return
 		}
 
-		if delay >= client.Limit {
+		if delay >= client.limit {
 			return
 		}
 		
@@ -274,8 +274,8 @@ func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Conte
 		}
 		
 		delay *= 2
-		if delay > client.Limit {
-			delay = client.Limit
+		if delay > client.limit {
+			delay = client.limit
 		}
 		i += 1
 	}
@@ -289,8 +289,8 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	MaxTries int
+	client {{.Imports.NameOf .Service.UserType}}
+	maxTries int
 	mu sync.Mutex
 	tokens float64
 	maxTokens float64
@@ -300,9 +300,9 @@ type {{.Name}} struct {
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, rate_limit string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	var err error
-	if handler.MaxTries, err = strconv.Atoi(max_tries); err != nil {
+	if handler.maxTries, err = strconv.Atoi(max_tries); err != nil {
 		return nil, err
 	}
 	// rateLimit is the maximum number of retries per second, or 0 if there is no limit
@@ -366,19 +366,19 @@ func (client *{{.Name}}) acquireToken() bool {
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	// First attempt - no rate limiting
 	ctx = context.WithValue(ctx, "attempt_num", 1)
-	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err == nil {
 		return
 	}
 	
 	// Retry attempts with rate limiting
-	for i := 1; i < client.MaxTries; i++ {
+	for i := 1; i < client.maxTries; i++ {
 		// Wait for rate limit token
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		waitErr := client.waitForToken(ctx)
 		if waitErr == nil {
 			// Call the original method
-			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+			{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 			if err == nil {
 				return
 			}
@@ -398,28 +398,28 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	Capacity float64
-	RetryCost float64
-	ReplenishAmt float64
+	client {{.Imports.NameOf .Service.UserType}}
+	capacity float64
+	retryCost float64
+	replenishAmt float64
 	mu sync.Mutex
-	TokenBucket float64
+	tokenBucket float64
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, capacity string, retry_cost string, replenish_amount string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
-	handler.Client = client
+	handler.client = client
 	var err error
-	if handler.Capacity, err = strconv.ParseFloat(capacity, 64); err != nil {
+	if handler.capacity, err = strconv.ParseFloat(capacity, 64); err != nil {
 		return nil, err
 	}
-	if handler.RetryCost, err = strconv.ParseFloat(retry_cost, 64); err != nil {
+	if handler.retryCost, err = strconv.ParseFloat(retry_cost, 64); err != nil {
 		return nil, err
 	}
-	if handler.ReplenishAmt, err = strconv.ParseFloat(replenish_amount, 64); err != nil {
+	if handler.replenishAmt, err = strconv.ParseFloat(replenish_amount, 64); err != nil {
 		return nil, err
 	}
-	handler.TokenBucket = handler.Capacity
+	handler.tokenBucket = handler.capacity
 	return handler, nil
 }
 
@@ -427,18 +427,18 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{.Name}}) spend() bool {
 	client.mu.Lock()
 	defer client.mu.Unlock()
-	if client.TokenBucket - client.RetryCost < 1.0 {
+	if client.tokenBucket - client.retryCost < 1.0 {
 		// Not enough tokens
 		return false
 	}
-	client.TokenBucket -= client.RetryCost
+	client.tokenBucket -= client.retryCost
 	return true
 }
 
 func (client *{{.Name}}) replenish() {
 	client.mu.Lock()
 	defer client.mu.Unlock()
-	client.TokenBucket = math.Min(client.TokenBucket + client.ReplenishAmt, client.Capacity)
+	client.tokenBucket = math.Min(client.tokenBucket + client.replenishAmt, client.capacity)
 }
 
 {{$service := .Service.Name -}}
@@ -446,13 +446,13 @@ func (client *{{.Name}}) replenish() {
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx = context.WithValue(ctx, "attempt_num", 1)
-	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		if !client.spend() {
 			return
 		}
 		ctx = context.WithValue(ctx, "attempt_num", 2)
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		{{RetVars $f "err"}} = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
 			client.replenish()
 		}
diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 8d450a5..0d40366 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -44,8 +44,8 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Client {{.Imports.NameOf .Service.UserType}}
-	Timeout time.Duration
+	client {{.Imports.NameOf .Service.UserType}}
+	timeout time.Duration
 }
 
 func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, timeout string) (*{{.Name}}, error) {
@@ -54,8 +54,8 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 	if err != nil {
 		return nil, err
 	}
-	handler.Timeout = tout
-	handler.Client = client
+	handler.timeout = tout
+	handler.client = client
 	return handler, nil
 }
 
@@ -63,7 +63,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
+	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.timeout))
 	defer cancel()
 	type results struct {
 		{{range $i, $ret := $f.Returns -}}
@@ -74,7 +74,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 	is_complete := make(chan results, 1)
 	go func() {
 		var res results
-		{{range $i, $ret := $f.Returns}}res.ret{{$i}}, {{end}}res.err = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		{{range $i, $ret := $f.Returns}}res.ret{{$i}}, {{end}}res.err = client.client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		is_complete <- res
 	}()
 
-- 
2.43.0


From 1b8e83b3117af520a149c387ff682817a954ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 37/82] fix: gRPC code of a service used with different
 wrappers in one process, and of arguments called like methods of protobuf
 messages

---
 plugins/grpc/grpccodegen/clientgen.go   |  2 +-
 plugins/grpc/grpccodegen/marshallgen.go |  5 +++--
 plugins/grpc/grpccodegen/protogen.go    | 27 ++++++++++++++++++++-----
 plugins/grpc/grpccodegen/servergen.go   |  2 +-
 plugins/grpc/ir_grpc_client.go          |  2 +-
 plugins/grpc/ir_grpc_server.go          |  2 +-
 6 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index 9cd8df8..aea9c01 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -20,7 +20,7 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCClient",
+		Name:    service.Name + "_GRPCClient",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 7b9069f..2465a4f 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -106,6 +106,7 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	for _, msg := range args.gRPCProtoBuilder.Messages {
+		msg.nameFields()
 		for _, field := range msg.FieldList {
 			args.Imports.AddType(field.SrcType)
 		}
@@ -140,7 +141,7 @@ func unmarshallValue(imports *gogen.Imports, srcType gocode.TypeName, grpcType g
 
 func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
 	src := obj + f.Name
-	dst := "msg." + goCamelCase(f.Name)
+	dst := "msg." + f.GoName
 	switch t := f.GRPCType.(type) {
 	case *gocode.Pointer:
 		{
@@ -188,7 +189,7 @@ func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error)
 }
 
 func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, error) {
-	src := "msg." + goCamelCase(f.Name)
+	src := "msg." + f.GoName
 	dst := obj + f.Name
 	switch t := f.GRPCType.(type) {
 	case *gocode.Pointer:
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index e0b20ea..9f775f4 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -26,7 +26,7 @@ See the plugin README for the required GRPC and protocol buffers package depende
 */
 func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInterface, outputPackage string) error {
 	// No need to generate the proto more than once
-	if builder.Visited(outputPackage + "/" + service.BaseName + ".proto") {
+	if builder.Visited(outputPackage + "/" + service.Name + ".proto") {
 		return nil
 	}
 
@@ -37,7 +37,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Construct and validate the GRPC proto builder for the service
-	pb := newProtoBuilder(modules, service.BaseName)
+	pb := newProtoBuilder(modules, service.Name)
 	splits := strings.Split(outputPackage, "/")
 	outputPackageName := splits[len(splits)-1]
 	pb.Module = builder.Info()
@@ -57,7 +57,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Write the proto file
-	outputFilename := filepath.Join(outputDir, service.BaseName+".proto")
+	outputFilename := filepath.Join(outputDir, service.Name+".proto")
 	err = pb.WriteProtoFile(outputFilename)
 	if err != nil {
 		return err
@@ -70,8 +70,8 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Generate the marshalling code
-	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.BaseName))
-	marshallFile := filepath.Join(outputDir, service.BaseName+"_conversions.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.Name))
+	marshallFile := filepath.Join(outputDir, service.Name+"_conversions.go")
 	return pb.GenerateMarshallingCode(marshallFile)
 }
 
@@ -112,6 +112,7 @@ type (
 		ProtoType string          // The GRPC type in proto
 		GRPCType  gocode.TypeName // The GRPC type in golang
 		Name      string
+		GoName    string // The name of the field in the GRPC-generated type
 		Position  int
 	}
 
@@ -225,6 +226,22 @@ func goCamelCase(s string) string {
 	return string(out)
 }
 
+// Sets the names that protoc-gen-go gives to the fields of the message, which avoid the message's methods
+func (msg *gRPCMessageDecl) nameFields() {
+	used := map[string]bool{
+		"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true, "Unmarshal": true,
+		"ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true,
+	}
+	for _, field := range msg.FieldList {
+		field.GoName = goCamelCase(field.Name)
+		for used[field.GoName] || used["Get"+field.GoName] {
+			field.GoName += "_"
+		}
+		used[field.GoName] = true
+		used["Get"+field.GoName] = true
+	}
+}
+
 func (b *gRPCProtoBuilder) newService(name string) *gRPCServiceDecl {
 	s := &gRPCServiceDecl{}
 	s.Builder = b
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index 21c8b4b..3d65c7f 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -24,7 +24,7 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCServerHandler",
+		Name:    service.Name + "_GRPCServerHandler",
 		Imports: gogen.NewImports(pkg.Name),
 	}
 
diff --git a/plugins/grpc/ir_grpc_client.go b/plugins/grpc/ir_grpc_client.go
index edb6ebb..64c0176 100644
--- a/plugins/grpc/ir_grpc_client.go
+++ b/plugins/grpc/ir_grpc_client.go
@@ -109,7 +109,7 @@ func (node *golangClient) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/grpc/ir_grpc_server.go b/plugins/grpc/ir_grpc_server.go
index afc006b..626b0e3 100644
--- a/plugins/grpc/ir_grpc_server.go
+++ b/plugins/grpc/ir_grpc_server.go
@@ -101,7 +101,7 @@ func (node *golangServer) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
-- 
2.43.0


From 699d4a1be680c41c0ad619bd3abe3cb1dcead900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 38/82] fix: report that a service with a Health method can't
 have a health check API added

---
 plugins/healthchecker/ir.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/healthchecker/ir.go b/plugins/healthchecker/ir.go
index 3bf72ba..ff39f7f 100644
--- a/plugins/healthchecker/ir.go
+++ b/plugins/healthchecker/ir.go
@@ -64,6 +64,9 @@ func (node *HealthCheckerServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if err != nil {
 		return nil, err
 	}
+	if _, exists := iface.Methods["Health"]; exists {
+		return nil, blueprint.Errorf("cannot add a health check API to %v because it already has a Health method", node.Wrapped.Name())
+	}
 	module_ctx, valid := ctx.(golang.ModuleBuilder)
 	if !valid {
 		return nil, blueprint.Errorf("Healthchecker expected build context to be a ModuleBuilder, got %v", ctx)
-- 
2.43.0


From e01e3120dacc20c6f75a91c1b20b8e9b4e34d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 39/82] fix: copy all local modules that a service needs to the
 output workspace, not only the first

---
 plugins/golang/goparser/module.go        | 51 +++++++++++++++++++-----
 plugins/golang/helpers.go                | 21 +++++++++-
 plugins/loadbalancer/ir_balancer.go      |  2 +-
 plugins/workflow/ir_workflowservice.go   |  2 +-
 plugins/workflow/workflowspec/service.go | 11 ++---
 5 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/plugins/golang/goparser/module.go b/plugins/golang/goparser/module.go
index 8c28214..1dd9d72 100644
--- a/plugins/golang/goparser/module.go
+++ b/plugins/golang/goparser/module.go
@@ -74,21 +74,54 @@ func findModules(pkgName string) error {
 		if mod == nil {
 			continue
 		}
-		splits := strings.Split(mod.Path, "/")
-		info := &ModuleInfo{
-			ShortName: splits[len(splits)-1],
-			Path:      mod.Path,
-			Version:   mod.Version,
-			Dir:       mod.Dir,
-			IsLocal:   isLocal(mod),
-			GoModule:  mod,
-		}
+		info := newModuleInfo(mod)
 		cache[pkg.ID] = info
 		cache[mod.Path] = info
 	}
 	return nil
 }
 
+var localModules = make(map[string][]*ModuleInfo)
+
+// Finds and returns the local modules of the named packages and of everything that those packages import,
+// directly or indirectly.
+func FindLocalModules(pkgNames ...string) ([]*ModuleInfo, error) {
+	var modules []*ModuleInfo
+	for _, pkgName := range pkgNames {
+		if _, exists := localModules[pkgName]; !exists {
+			pkgs, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedModule | packages.NeedImports | packages.NeedDeps}, pkgName)
+			if err != nil {
+				return nil, blueprint.Errorf("could not find package %v; is it in your go.mod? %v", pkgName, err)
+			}
+			localModules[pkgName] = nil
+			seen := make(map[string]struct{})
+			packages.Visit(pkgs, nil, func(pkg *packages.Package) {
+				if pkg.Module == nil || !isLocal(pkg.Module) {
+					return
+				}
+				if _, isSeen := seen[pkg.Module.Path]; !isSeen {
+					seen[pkg.Module.Path] = struct{}{}
+					localModules[pkgName] = append(localModules[pkgName], newModuleInfo(pkg.Module))
+				}
+			})
+		}
+		modules = append(modules, localModules[pkgName]...)
+	}
+	return modules, nil
+}
+
+func newModuleInfo(mod *packages.Module) *ModuleInfo {
+	splits := strings.Split(mod.Path, "/")
+	return &ModuleInfo{
+		ShortName: splits[len(splits)-1],
+		Path:      mod.Path,
+		Version:   mod.Version,
+		Dir:       mod.Dir,
+		IsLocal:   isLocal(mod),
+		GoModule:  mod,
+	}
+}
+
 // Somewhat hacky way of figuring out of the module is a local filesystem module vs. from the go cache.
 // This is typically determined by the use of a replace directive, but for some reason the
 // packages.Module replace isn't always true when using go workspaces
diff --git a/plugins/golang/helpers.go b/plugins/golang/helpers.go
index 56711e8..4c435a9 100644
--- a/plugins/golang/helpers.go
+++ b/plugins/golang/helpers.go
@@ -101,7 +101,26 @@ func AddToWorkspace(builder WorkspaceBuilder, mods ...*goparser.ParsedModule) er
 	for _, mod := range mods {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// A convenience function that can be called by other Blueprint plugins.
+// Ensures that the local modules of the named packages, and those that the packages depend on, are copied
+// to the output workspace.
+func AddPackagesToWorkspace(builder WorkspaceBuilder, pkgNames ...string) error {
+	mods, err := goparser.FindLocalModules(pkgNames...)
+	if err != nil {
+		return err
+	}
+	for _, mod := range mods {
+		if !builder.Visited(mod.Path) {
+			if _, err := builder.AddLocalModule(mod.ShortName, mod.Dir); err != nil {
 				return err
 			}
 		}
diff --git a/plugins/loadbalancer/ir_balancer.go b/plugins/loadbalancer/ir_balancer.go
index a1ae914..4d2ac3e 100644
--- a/plugins/loadbalancer/ir_balancer.go
+++ b/plugins/loadbalancer/ir_balancer.go
@@ -95,7 +95,7 @@ func (n *dynamicLBHandler) AddInterfaces(builder golang.ModuleBuilder) error {
 
 // Client and handler side both need to add the service interface to the output
 func (node *dynamicLBNode) AddToWorkspace(builder golang.WorkspaceBuilder) error {
-	return golang.AddToWorkspace(builder, node.ServiceInfo.Iface.File.Package.Module)
+	return golang.AddPackagesToWorkspace(builder, node.ServiceInfo.Iface.File.Package.Name)
 }
 
 // The handler node needs to add the constructor package to the output
diff --git a/plugins/workflow/ir_workflowservice.go b/plugins/workflow/ir_workflowservice.go
index 7a54669..188fb96 100644
--- a/plugins/workflow/ir_workflowservice.go
+++ b/plugins/workflow/ir_workflowservice.go
@@ -65,7 +65,7 @@ func (node *workflowNode) AddInterfaces(builder golang.ModuleBuilder) error {
 
 // Client and handler side both need to add the service interface to the output
 func (node *workflowNode) AddToWorkspace(builder golang.WorkspaceBuilder) error {
-	return golang.AddToWorkspace(builder, node.ServiceInfo.Iface.File.Package.Module)
+	return golang.AddPackagesToWorkspace(builder, node.ServiceInfo.Iface.File.Package.Name)
 }
 
 // The handler node needs to add the constructor package to the output
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 77e7cb7..b37bcee 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -44,15 +44,10 @@ func (s *Service) AddToModule(builder golang.ModuleBuilder) error {
 }
 
 func (s *Service) AddToWorkspace(builder golang.WorkspaceBuilder) error {
-	for _, mod := range s.Modules() {
-		if mod.IsLocal {
-			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
-			}
-		}
+	if err := golang.AddToWorkspace(builder, s.Modules()...); err != nil {
+		return err
 	}
-	return nil
+	return golang.AddPackagesToWorkspace(builder, s.Iface.File.Package.Name, s.Constructor.File.Package.Name)
 }
 
 func (spec *WorkflowSpec) makeServiceFromStruct(struc *goparser.ParsedStruct) (*Service, error) {
-- 
2.43.0


From 287bedb08de004d50e29a6e247bd433c31428eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 40/82] fix: generic argument types crashed the compiler, more
 names that clashed with generated code

---
 plugins/golang/gocode/typename.go | 3 +++
 plugins/golang/gogen/template.go  | 4 ++++
 plugins/golang/goparser/parser.go | 8 ++++----
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index 22913db..69d400f 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -538,6 +538,9 @@ func (t *GenericType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
+	if t.TypeParam == nil || t2.TypeParam == nil {
+		return false // more than one type parameter, which is not supported
+	}
 	return t.BaseType.Equals(t2.BaseType) && t.TypeParam.Equals(t2.TypeParam)
 }
 
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index bf1ee13..cb3b188 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -121,6 +122,9 @@ func unsupportedType(typeName gocode.TypeName) gocode.TypeName {
 	case *gocode.Slice:
 		return unsupportedType(t.SliceOf)
 	case *gocode.Array:
+		if _, err := strconv.ParseUint(t.Len, 0, 64); err != nil {
+			return typeName // The length is an expression that refers to names of the package that defines it
+		}
 		return unsupportedType(t.ArrayOf)
 	case *gocode.Map:
 		if unsupported := unsupportedType(t.KeyType); unsupported != nil {
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index 7a0185d..c08cea9 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -505,7 +505,7 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 	case *ast.StructType:
 		return &gocode.StructType{}
 	case *ast.IndexExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...), TypeParam: f.ResolveType(e.Index, typeParams...)}
 	case *ast.IndexListExpr:
 		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
 	default:
@@ -850,8 +850,8 @@ func addPackageNames(t gocode.TypeName, names map[string]struct{}) {
 	}
 }
 
-// Matches the names of return values in generated code
-var generatedRetVar = regexp.MustCompile(`^ret\d+$`)
+// Matches the names of return values, and names derived from other arguments, in generated code
+var generatedRetVar = regexp.MustCompile(`^(ret\d+|bytes_.*|request_.*)$`)
 
 // Identifiers that generated code uses within the methods of a service.  Interfaces can use
 // them as argument names regardless, so generated code uses different names for such arguments.
@@ -863,7 +863,7 @@ var reservedArgNames = func() map[string]struct{} {
 		vals addr url http json io ioutil fmt errors context time rand math strconv strings sync atomic reflect
 		request response resp resp_bytes bytes body encoded_url query_url params bodyBytes respBytes
 		delay sleepDuration waitErr cancel is_complete results res dur i64 timeout
-		span trace tracer codes attribute propagation span_ctx span_ctx_config baggage_raw trace_ctx traceCtx govecctx govec_bytes govec_ret
+		span trace tracer codes attribute propagation span_ctx span_ctx_config baggage_raw trace_ctx traceCtx govecctx govec_bytes govec_ret govecret tp tr statusOk
 		golang backend circuitbreaker clientpool govec vector logger grpc conn metadata otel
 		append cap clear close complex copy delete imag len make max min new panic print println real recover
 		true false nil iota any comparable
-- 
2.43.0


From dbc5607ac735a573c29d06dae037fcdc9b093292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 41/82] fix: CleanName kept spaces, which are not valid in the
 names of variables and commands

---
 blueprint/pkg/blueprint/stringutil/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/blueprint/stringutil/name.go b/blueprint/pkg/blueprint/stringutil/name.go
index 0671dc2..c488ba9 100644
--- a/blueprint/pkg/blueprint/stringutil/name.go
+++ b/blueprint/pkg/blueprint/stringutil/name.go
@@ -13,7 +13,7 @@ func Capitalize(s string) string {
 	return string(append([]rune{unicode.ToUpper(r[0])}, r[1:]...))
 }
 
-var r = regexp.MustCompile(`[^a-zA-Z0-9 ]+`)
+var r = regexp.MustCompile(`[^a-zA-Z0-9]+`)
 
 // Returns name with only alphanumeric characters and all other
 // symbols converted to underscores.
-- 
2.43.0


From 60434732590060508d375d32964eec69144370dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 42/82] fix: run commands of Go processes passed values with
 spaces as several arguments, and ran in the wrong directory if theirs is
 missing

---
 plugins/goproc/linuxgen/goproc_runfunc.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plugins/goproc/linuxgen/goproc_runfunc.go b/plugins/goproc/linuxgen/goproc_runfunc.go
index 507c569..0e12168 100644
--- a/plugins/goproc/linuxgen/goproc_runfunc.go
+++ b/plugins/goproc/linuxgen/goproc_runfunc.go
@@ -36,9 +36,9 @@ type runFuncTemplateArgs struct {
 
 var binaryRunFuncTemplate = `
 run_{{RunFuncName .Name}} {
-	cd {{.Name}}
+	cd {{.Name}} || return $?
     ./{{.Name}}
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
@@ -46,9 +46,9 @@ run_{{RunFuncName .Name}} {
 var runFuncTemplate = `
 run_{{RunFuncName .Name}} {
 	export CGO_ENABLED=1
-	cd {{.Name}}/{{.Name}}
+	cd {{.Name}}/{{.Name}} || return $?
 	go run .
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
-- 
2.43.0


From 015fcc11bb4e52ce429e5d5a79ae957154bcd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 43/82] fix: build.sh hid failures and ran scripts in the wrong
 directory, build scripts outside of the workspace were accepted

---
 plugins/linuxcontainer/linuxgen/build.sh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plugins/linuxcontainer/linuxgen/build.sh.go b/plugins/linuxcontainer/linuxgen/build.sh.go
index fdacccc..1e5c0d8 100644
--- a/plugins/linuxcontainer/linuxgen/build.sh.go
+++ b/plugins/linuxcontainer/linuxgen/build.sh.go
@@ -57,6 +57,10 @@ func (d *BuildScript) Add(filePath string) error {
 		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v; error: %v", filePath, d.WorkspaceDir, err.Error())
 	}
 
+	if !filepath.IsLocal(pathInWorkspace) {
+		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v", filePath, d.WorkspaceDir)
+	}
+
 	dirInWorkspace, fileName := filepath.Split(pathInWorkspace)
 
 	d.Scripts[filePath] = &scriptInfo{
@@ -76,9 +80,9 @@ var buildScriptTemplate = `#!/bin/bash
 
 {{range $name, $script := .Scripts}}
 echo "Executing {{.PathInWorkspace}}"
-cd {{.DirInWorkspace}}
+cd {{.DirInWorkspace}} || exit $?
 chmod +x {{.FileName}}
-./{{.FileName}}
+./{{.FileName}} || exit $?
 cd -
 {{end}}
 `
-- 
2.43.0


From d2a5423e5d40d370a03250ff8136b1915d328c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 44/82] fix: run.sh started processes that others need twice,
 in the wrong directory, or despite their failure, and succeeded if processes
 failed to start

---
 plugins/linuxcontainer/linuxgen/run.sh.go   | 10 +++++++++-
 plugins/linuxcontainer/linuxgen/runfunc.go  |  4 ++--
 plugins/linuxcontainer/linuxgen/template.go |  4 +---
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 0f656ba..1f5c0cc 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -129,10 +129,18 @@ run_all() {
 		return 1
 	fi
 
+	# Start each process, unless it was already started because another process needs it
+	status=0
 	{{range $name, $f := .RunFuncs -}}
-	{{RunFuncName $name}}
+	unset {{EnvVarName $name}}
+	{{end}}
+	{{range $name, $f := .RunFuncs -}}
+	if [ -z "${ {{- EnvVarName $name}}+x}" ]; then
+		{{RunFuncName $name}} || status=$?
+	fi
 	{{end}}
 	wait
+	return $status
 }
 
 run_all
diff --git a/plugins/linuxcontainer/linuxgen/runfunc.go b/plugins/linuxcontainer/linuxgen/runfunc.go
index 3180c60..b000c48 100644
--- a/plugins/linuxcontainer/linuxgen/runfunc.go
+++ b/plugins/linuxcontainer/linuxgen/runfunc.go
@@ -50,13 +50,13 @@ type runFuncTemplateArgs struct {
 }
 
 var runFuncTemplate = `{{RunFuncName .Name}}() {
-	cd $WORKSPACE_DIR
-	
 	{{ range $i, $dep := .Dependencies -}}
 	{{Get $dep.Name}}
 
 	{{end -}}
 
+	cd "$WORKSPACE_DIR"
+
 	run_{{RunFuncName .Name}}() {
 		{{.RunFuncBody}}
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 650080d..b9e49f5 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -62,9 +62,7 @@ func (e *templateExecutor) exec(name string, body string, args any) (string, err
 
 func (e *templateExecutor) Get(name string) (string, error) {
 	tmpl := `if [ -z "${ {{- EnvVarName .}}+x}" ]; then
-		if ! {{RunFuncName .}}; then
-			return $?
-		fi
+		{{RunFuncName .}} || return $?
 	fi`
 	return e.exec("Get", tmpl, name)
 }
-- 
2.43.0


From 067c1eb05f7106b9db69df421ffefd80af737156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 45/82] fix: generated go.mod files depended on map iteration
 order, failures to update them were ignored

---
 plugins/golang/gogen/workspacebuilder.go | 27 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 65e0678..7b04ec5 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"path/filepath"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/ioutil"
@@ -199,13 +200,17 @@ func (workspace *WorkspaceBuilderImpl) Finish() error {
 	}
 
 	// Rewrite the go.mod files to redirect to local modules
-	for moduleSubDir, moduleName := range workspace.Modules {
-		workspace.updateModfile(moduleSubDir, moduleName)
+	for _, moduleSubDir := range sortedKeys(workspace.Modules) {
+		if err := workspace.updateModfile(moduleSubDir, workspace.Modules[moduleSubDir]); err != nil {
+			return blueprint.Errorf("unable to update the go.mod file of %v due to %v", moduleSubDir, err.Error())
+		}
 	}
 
 	// Resolve imported packages for generated modules
-	for moduleSubDir := range workspace.GeneratedModules {
-		workspace.goModTidy(moduleSubDir)
+	for _, moduleSubDir := range sortedKeys(workspace.GeneratedModules) {
+		if err := workspace.goModTidy(moduleSubDir); err != nil {
+			slog.Warn(fmt.Sprintf("go mod tidy failed for %v: %v", moduleSubDir, err.Error()))
+		}
 	}
 
 	return nil
@@ -221,8 +226,8 @@ func (workspace *WorkspaceBuilderImpl) updateModfile(moduleSubDir string, module
 	}
 
 	// Now we add replace directives
-	for otherModuleSubDir, otherModuleName := range workspace.Modules {
-		if moduleName == otherModuleName {
+	for _, otherModuleSubDir := range sortedKeys(workspace.Modules) {
+		if moduleName == workspace.Modules[otherModuleSubDir] {
 			continue
 		}
 		otherModfile, err := workspace.readModfile(otherModuleSubDir)
@@ -243,6 +248,16 @@ func (workspace *WorkspaceBuilderImpl) updateModfile(moduleSubDir string, module
 	return os.WriteFile(modFileName, data, 0755)
 }
 
+// The generated files must not depend on the iteration order of maps
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func rel(path string) string {
 	pwd, err := os.Getwd()
 	if err != nil {
-- 
2.43.0


From a9c67c95c315f531e105f6c3dd507b9d63c1837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 46/82] fix: kubernetes containers that only dial other pods
 got no environment, pods without servers got an invalid service

---
 .../kubernetes/kubepod/deploygen/deployfile.go    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..e931af8 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -52,11 +52,24 @@ func (k *KubeDeploymentFile) Generate() error {
 		return err
 	}
 	slog.Info("NUmber of instances: ", "num", len(k.Instances))
+	if !k.hasPorts() {
+		// A service without ports is invalid, and nothing can connect to this pod
+		return nil
+	}
 	serviceFilePath := filepath.Join(k.WorkspaceDir, k.ServiceFilename)
 	slog.Info(fmt.Sprintf("Generating %v/%v", k.Name, k.ServiceFilename))
 	return kubetemplate.ExecuteTemplateToFile("kubedeployment", kubernetesServiceTemplate, k, serviceFilePath)
 }
 
+func (k *KubeDeploymentFile) hasPorts() bool {
+	for _, instance := range k.Instances {
+		if len(instance.Ports) > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (k *KubeDeploymentFile) AddImageInstance(instanceName string, image string) error {
 	return k.addInstance(instanceName, image)
 }
@@ -169,7 +182,7 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-- 
2.43.0


From e051c23d67c52413cb35483333f12965571f34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 47/82] fix: port assignment of containers and pods depended on
 map iteration order, errors were ignored

---
 plugins/dockercompose/deploy.go      | 43 +++++++++++++++++++++-------
 plugins/kubernetes/kubepod/deploy.go | 35 ++++++++++++++++------
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index b391404..fa852e8 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/ioutil"
@@ -151,6 +152,16 @@ func (d *dockerComposeWorkspace) Finish() error {
 	return d.DockerComposeFile.Generate()
 }
 
+// The assignment of ports must not depend on the iteration order of maps
+func sortedInstances(instanceArgs map[string][]ir.IRNode) []string {
+	names := make([]string, 0, len(instanceArgs))
+	for instanceName := range instanceArgs {
+		names = append(names, instanceName)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // Goes through each container's arg nodes, determining which need to be passed to the container
 // as environment variables.
 //
@@ -160,8 +171,8 @@ func (d *dockerComposeWorkspace) Finish() error {
 // We don't pick external-facing ports for any addresses; these will be set by the caller or user.
 func (d *dockerComposeWorkspace) processArgNodes() error {
 	addresses := make(map[string]string)
-	for instanceName, instanceArgs := range d.InstanceArgs {
-		binds, _, remaining := address.Split(instanceArgs)
+	for _, instanceName := range sortedInstances(d.InstanceArgs) {
+		binds, _, remaining := address.Split(d.InstanceArgs[instanceName])
 
 		// First handle the non-address arguments to the node, which will need to be passed
 		// through as environment variables.
@@ -172,7 +183,9 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 			switch node := arg.(type) {
 			case ir.IRConfig:
 				if !node.HasValue() {
-					d.DockerComposeFile.PassthroughEnvVar(instanceName, node.Name(), node.Optional())
+					if err := d.DockerComposeFile.PassthroughEnvVar(instanceName, node.Name(), node.Optional()); err != nil {
+						return err
+					}
 				}
 			default:
 				return blueprint.Errorf("container instance %v can only accept IRConfig nodes as arguments, but found %v of type %v", instanceName, arg, reflect.TypeOf(arg))
@@ -187,7 +200,9 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 			return err
 		}
 		for _, bind := range assigned {
-			d.DockerComposeFile.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port))
+			if err := d.DockerComposeFile.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port)); err != nil {
+				return err
+			}
 		}
 
 		// All ports need to be exposed in the docker-compose file in order to be accessible
@@ -196,14 +211,18 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 		for _, bind := range binds {
 			hostname := ir.CleanName(instanceName)
 			addresses[bind.AddressName] = fmt.Sprintf("%v:%v", hostname, bind.Port)
-			d.DockerComposeFile.ExposePort(instanceName, bind.Port)
+			if err := d.DockerComposeFile.ExposePort(instanceName, bind.Port); err != nil {
+				return err
+			}
 		}
 
 		// The default logic for the docker-compose file is for the user to set environment
 		// variables so that internal container ports are bound to external-facing ports on the
 		// host machine.  These ports are chosen by the user at runtime and set by env vars.
 		for _, bind := range binds {
-			d.DockerComposeFile.MapPortToEnvVar(instanceName, bind.Port, bind.Name())
+			if err := d.DockerComposeFile.MapPortToEnvVar(instanceName, bind.Port, bind.Name()); err != nil {
+				return err
+			}
 		}
 		address.Clear(binds)
 	}
@@ -211,13 +230,17 @@ func (d *dockerComposeWorkspace) processArgNodes() error {
 	// Now that we know the local addresses of all servers bound within this workspace, set
 	// all dials.  Dials to local servers can have the address set directly; dials to servers
 	// that don't exist within this workspace will need to be passed through as an env var.
-	for instanceName, instanceArgs := range d.InstanceArgs {
-		_, dials, _ := address.Split(instanceArgs)
+	for _, instanceName := range sortedInstances(d.InstanceArgs) {
+		_, dials, _ := address.Split(d.InstanceArgs[instanceName])
 		for _, dial := range dials {
 			if addr, isLocalDial := addresses[dial.AddressName]; isLocalDial {
-				d.DockerComposeFile.AddEnvVar(instanceName, dial.Name(), addr)
+				if err := d.DockerComposeFile.AddEnvVar(instanceName, dial.Name(), addr); err != nil {
+					return err
+				}
 			} else {
-				d.DockerComposeFile.PassthroughEnvVar(instanceName, dial.Name(), false)
+				if err := d.DockerComposeFile.PassthroughEnvVar(instanceName, dial.Name(), false); err != nil {
+					return err
+				}
 			}
 		}
 	}
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 3c7e01b..4076234 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -151,6 +152,16 @@ func asMap[T any](s []*T) map[*T]struct{} {
 	return m
 }
 
+// The assignment of ports must not depend on the iteration order of maps
+func sortedInstances(instanceArgs map[string][]ir.IRNode) []string {
+	names := make([]string, 0, len(instanceArgs))
+	for instanceName := range instanceArgs {
+		names = append(names, instanceName)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // Goes through each container's arg nodes, determining which need to be passed to the container
 // as environment variables.
 //
@@ -170,8 +181,8 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 	var localAddresses map[string]string
 	{
 		localAddresses = make(map[string]string)
-		for _, instanceArgs := range p.InstanceArgs {
-			allBinds = append(allBinds, ir.Filter[*address.BindConfig](instanceArgs)...)
+		for _, instanceName := range sortedInstances(p.InstanceArgs) {
+			allBinds = append(allBinds, ir.Filter[*address.BindConfig](p.InstanceArgs[instanceName])...)
 		}
 
 		_, assigned, err := address.AssignPorts(allBinds)
@@ -190,8 +201,8 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 
 	// (2) Set environment variables for containers
 	// (3) Expose container ports externally
-	for instanceName, instanceArgs := range p.InstanceArgs {
-		binds, dials, remaining := address.Split(instanceArgs)
+	for _, instanceName := range sortedInstances(p.InstanceArgs) {
+		binds, dials, remaining := address.Split(p.InstanceArgs[instanceName])
 
 		// Handle the instanceArgs that are regular config args and not address related
 		for _, arg := range remaining {
@@ -213,23 +224,31 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 		// If we assigned ports for this container, then set the environment variables for them
 		for _, bind := range binds {
 			if _, isAssigned := assignedBinds[bind]; isAssigned {
-				p.F.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port))
+				if err := p.F.AddEnvVar(instanceName, bind.Name(), fmt.Sprintf("0.0.0.0:%v", bind.Port)); err != nil {
+					return err
+				}
 			}
 		}
 
 		// Expose all ports for this container
 		for _, bind := range binds {
-			p.F.ExposePort(instanceName, bind.AddressName, bind.Port)
+			if err := p.F.ExposePort(instanceName, bind.AddressName, bind.Port); err != nil {
+				return err
+			}
 		}
 
 		// If a dial is local, then it just calls localhost:port.  If it's not local
 		// then ??????????????????
 		for _, dial := range dials {
 			if addr, isLocalDial := localAddresses[dial.AddressName]; isLocalDial {
-				p.F.AddEnvVar(instanceName, dial.Name(), addr)
+				if err := p.F.AddEnvVar(instanceName, dial.Name(), addr); err != nil {
+					return err
+				}
 			} else {
 				name := linux.EnvVar(dial.Name())
-				p.F.AddConfigMapVar(instanceName, name)
+				if err := p.F.AddConfigMapVar(instanceName, name); err != nil {
+					return err
+				}
 			}
 		}
 
-- 
2.43.0


From e483ac305badd51b6fafaab43ed14cc563537b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 48/82] fix: files generated over longer ones of a previous
 compilation kept the end of the old content

---
 plugins/dockercompose/dockergen/template.go | 2 +-
 plugins/grpc/grpccodegen/marshallgen.go     | 3 ++-
 plugins/grpc/grpccodegen/protogen.go        | 3 ++-
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 plugins/linuxcontainer/linuxgen/template.go | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 679884a..33626a8 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 2465a4f..d8cd3dd 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -96,10 +96,11 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	args := &marshallArgs{}
 	args.gRPCProtoBuilder = *b
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index 9f775f4..c5f4870 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -185,10 +185,11 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	return t.Execute(f, b)
 
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index d3fcd2e..c45352e 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -14,7 +14,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index b9e49f5..0dcbb17 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1c2c71f8554eddfbb3d74d79f2228b775a56c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 49/82] fix: volumes and commands made invalid docker-compose
 files, values of environment variables were not quoted

---
 .../dockercompose/dockergen/dockercompose.go  | 32 +++++++++----------
 .../kubepod/deploygen/deployfile.go           |  2 +-
 plugins/kubernetes/kubetemplate/template.go   |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 420c5a0..d1bddcd 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -208,24 +208,24 @@ services:
     {{- if .Config}}
     environment:
     {{- range $name, $value := .Config}}
-     - {{$name}}={{$value}}
+     - {{printf "%v=%v" $name $value | printf "%q"}}
     {{- end}}
     {{- end}}
-	{{- if .Volumes}}
-	volumes:
-	{{- range $name, $value := .Volumes}}
-	 - {{$name}}:{{$value}}
-	{{- end}}
-	{{- end}}
-	{{- if .CustomCommand}}
-	command:
-	{{- range $_, $val := .CustomCommand}}
-	 - {{$val}}
-	{{- end}}
-	{{- end}}
-	{{- range $key, $val := .CustomConf}}
-	{{$key}}: {{$val}}
-	{{- end}}
+    {{- if .Volumes}}
+    volumes:
+    {{- range $name, $value := .Volumes}}
+     - {{printf "%v:%v" $name $value | printf "%q"}}
+    {{- end}}
+    {{- end}}
+    {{- if .CustomCommand}}
+    command:
+    {{- range $_, $val := .CustomCommand}}
+     - {{printf "%q" $val}}
+    {{- end}}
+    {{- end}}
+    {{- range $key, $val := .CustomConf}}
+    {{$key}}: {{$val}}
+    {{- end}}
     restart: always
 {{end}}
 `
diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index e931af8..b338c84 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -186,7 +186,7 @@ spec:
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-              value: "{{$value}}"
+              value: {{printf "%q" $value}}
           {{- end}}
           {{- range $name, $_ := .ConfigMap}}
             - name: {{$name}}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index c45352e..29b7431 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -2,9 +2,9 @@ package kubetemplate
 
 import (
 	"bytes"
-	"html/template"
 	"os"
 	"strings"
+	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
-- 
2.43.0


From 6985c87d898240b98ccdddef3f745ed5b82085c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 50/82] fix: ports beyond 65535 wrapped around to ports in use
 or port 0 instead of being rejected

---
 .../pkg/coreplugins/address/portassignment.go | 11 ++++++++--
 plugins/cmdbuilder/cmdbuilder.go              | 22 +++++++++++++++++--
 plugins/environment/wiring.go                 |  5 +++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..665d757 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -1,6 +1,8 @@
 package address
 
 import (
+	"math"
+
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
@@ -69,8 +71,13 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 		if candidatePort == 0 {
 			candidatePort = 2000
 		}
-		for {
-			if _, alreadyAssigned := ports[candidatePort]; !alreadyAssigned {
+		for attempts := 0; ; attempts++ {
+			if attempts > math.MaxUint16 {
+				err = blueprint.Errorf("no port available for %v", addr.Name())
+				return
+			}
+			// Port 0 is not a valid port; continue with the low ports after the highest port
+			if _, alreadyAssigned := ports[candidatePort]; !alreadyAssigned && candidatePort != 0 {
 				addr.Port = candidatePort
 				ports[addr.Port] = addr
 				break
diff --git a/plugins/cmdbuilder/cmdbuilder.go b/plugins/cmdbuilder/cmdbuilder.go
index 316d2d4..0760ec3 100644
--- a/plugins/cmdbuilder/cmdbuilder.go
+++ b/plugins/cmdbuilder/cmdbuilder.go
@@ -57,6 +57,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strconv"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -153,12 +154,29 @@ func (b *CmdBuilder) RegisterPasses(passes ...analysis.IRAnalysisPass) {
 	b.Passes = append(b.Passes, passes...)
 }
 
+// A flag that only accepts valid ports
+type portFlag uint16
+
+func (p *portFlag) String() string {
+	return strconv.FormatUint(uint64(*p), 10)
+}
+
+func (p *portFlag) Set(value string) error {
+	port, err := strconv.ParseUint(value, 0, 16)
+	if err != nil {
+		return err
+	}
+	*p = portFlag(port)
+	return nil
+}
+
 func (b *CmdBuilder) ParseArgs() {
 	output_dir := flag.String("o", "", "Target output directory for compilation.")
 	spec_name := flag.String("w", "", "Wiring spec to compile.  One of:\n"+b.List())
 	quiet := flag.Bool("quiet", false, "Suppress verbose compiler output.")
 	env := flag.Bool("env", true, "Generate a .env file that sets service address and port environment variables")
-	port := flag.Uint("port", 12345, "Sets the port to start at when assigning service ports.  Only used when generating a .env file.")
+	port := portFlag(12345)
+	flag.Var(&port, "port", "Sets the port to start at when assigning service ports.  Only used when generating a .env file.")
 
 	flag.Parse()
 
@@ -166,7 +184,7 @@ func (b *CmdBuilder) ParseArgs() {
 	b.Quiet = *quiet
 	b.SpecName = *spec_name
 	b.Env = *env
-	b.Port = uint16(*port)
+	b.Port = uint16(port)
 }
 
 func (b *CmdBuilder) ValidateArgs() error {
diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index f298cdb..649b961 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -57,6 +57,7 @@ package environment
 
 import (
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -64,6 +65,7 @@ import (
 
 	"golang.org/x/exp/slog"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
@@ -137,6 +139,9 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 		keys = append(keys, k)
 	}
 	sort.Strings(keys)
+	if len(keys) > 0 && (port == 0 || int(port)+len(keys)-1 > math.MaxUint16) {
+		return blueprint.Errorf("cannot assign ports to %v addresses starting at port %v", len(keys), port)
+	}
 	for _, k := range keys {
 		addr := addrs[k]
 		if addr.bind != nil {
-- 
2.43.0


From f978376495c90e6bd37e567fb71a6916b9ebb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 51/82] fix: names with spaces made invalid .env files

---
 plugins/environment/wiring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index 649b961..5b4e33b 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -148,7 +148,7 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 			b.WriteString(fmt.Sprintf("%s=0.0.0.0:%d\n", linux.EnvVar(addr.bind.Key), port))
 		}
 		if addr.dial != nil {
-			hostname := addr.servicename
+			hostname := ir.CleanName(addr.servicename)
 			if localhost {
 				hostname = "localhost"
 			}
-- 
2.43.0


From 8dbba45646011cb6e37e70bd669ea3fe8e94e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 52/82] fix: the interface and constructor of a service
 depended on map iteration order if there are several

---
 plugins/workflow/workflowspec/service.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index b37bcee..85e6781 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"reflect"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -158,6 +159,14 @@ func isInterfaceAValidService(iface *goparser.ParsedInterface) (bool, error) {
 	return true, nil
 }
 
+// The first of several matches is used, so their order must not depend on the iteration order of maps
+func precedes(file1 *goparser.ParsedFile, name1 string, file2 *goparser.ParsedFile, name2 string) bool {
+	if file1.Package.Name != file2.Package.Name {
+		return file1.Package.Name < file2.Package.Name
+	}
+	return name1 < name2
+}
+
 /*
 For a parsed struct, finds all valid interfaces that the struct implements
 */
@@ -172,6 +181,9 @@ func (spec *WorkflowSpec) findInterfacesFor(struc *goparser.ParsedStruct) []*gop
 			}
 		}
 	}
+	sort.Slice(ifaces, func(i, j int) bool {
+		return precedes(ifaces[i].File, ifaces[i].Name, ifaces[j].File, ifaces[j].Name)
+	})
 	return ifaces
 }
 
@@ -189,6 +201,9 @@ func (spec *WorkflowSpec) findStructsFor(iface *goparser.ParsedInterface) []*gop
 			}
 		}
 	}
+	sort.Slice(structs, func(i, j int) bool {
+		return precedes(structs[i].File, structs[i].Name, structs[j].File, structs[j].Name)
+	})
 	return structs
 }
 
@@ -219,6 +234,9 @@ func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterfac
 			}
 		}
 	}
+	sort.Slice(constructors, func(i, j int) bool {
+		return precedes(constructors[i].File, constructors[i].Name, constructors[j].File, constructors[j].Name)
+	})
 	return constructors
 }
 
@@ -233,6 +251,9 @@ func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct)
 			}
 		}
 	}
+	sort.Slice(constructors, func(i, j int) bool {
+		return precedes(constructors[i].File, constructors[i].Name, constructors[j].File, constructors[j].Name)
+	})
 	return constructors
 }
 
-- 
2.43.0


From d91cd4e55f28b9451f6c1bbafbab4b6fd5f47d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 53/82] fix: generated test clients depended on map iteration
 order

---
 plugins/gotests/findtests.go | 10 ++++++++++
 plugins/gotests/ir.go        | 11 ++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/plugins/gotests/findtests.go b/plugins/gotests/findtests.go
index f93044f..82f423c 100644
--- a/plugins/gotests/findtests.go
+++ b/plugins/gotests/findtests.go
@@ -3,6 +3,7 @@ package gotests
 import (
 	"fmt"
 	"go/ast"
+	"sort"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
@@ -87,6 +88,15 @@ func findWorkflowServiceRegistries() (*serviceRegistries, error) {
 		}
 	}
 
+	// The generated code must not depend on the iteration order of maps
+	sort.Slice(r.registries, func(i, j int) bool {
+		pkg1, pkg2 := r.registries[i].Var.File.Package.Name, r.registries[j].Var.File.Package.Name
+		if pkg1 != pkg2 {
+			return pkg1 < pkg2
+		}
+		return r.registries[i].VarName < r.registries[j].VarName
+	})
+
 	if verbose {
 		slog.Info(fmt.Sprintf("Found %v service registries [%v]", len(r.registries), strings.Join(names, ", ")))
 	}
diff --git a/plugins/gotests/ir.go b/plugins/gotests/ir.go
index 6aee90b..648853d 100644
--- a/plugins/gotests/ir.go
+++ b/plugins/gotests/ir.go
@@ -3,6 +3,7 @@ package gotests
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -141,7 +142,15 @@ func (lib *testLibrary) GenerateArtifacts(workspaceDir string) error {
 	namespaceConstructor := namespaceBuilder.Package.ShortName + "." + constructorName
 	namespaceName := "tests"
 
-	for name, node := range lib.ServicesToTest {
+	names := make([]string, 0, len(lib.ServicesToTest))
+	for name := range lib.ServicesToTest {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		node := lib.ServicesToTest[name]
+
 		// Find the interface type
 		iface, err := golang.GetGoInterface(module, node)
 		if err != nil {
-- 
2.43.0


From d05d625c4b6b33f554ec4e6e6834e2fe01300221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 54/82] fix: nodes with similar names generated files in the
 same directory

---
 blueprint/pkg/blueprint/ioutil/ioutil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/pkg/blueprint/ioutil/ioutil.go b/blueprint/pkg/blueprint/ioutil/ioutil.go
index f6e4005..f4f5e01 100644
--- a/blueprint/pkg/blueprint/ioutil/ioutil.go
+++ b/blueprint/pkg/blueprint/ioutil/ioutil.go
@@ -47,8 +47,12 @@ func CheckDir(path string, createIfAbsent bool) error {
 
 // Creates a subdirectory in the provided workspaceDir.
 // The provided name is first sanitized using [stringutil.CleanName]
+// Returns an error if the subdirectory already exists, because another node with a similar name generates files there
 func CreateNodeDir(workspaceDir string, name string) (string, error) {
 	nodeDir := filepath.Join(workspaceDir, stringutil.CleanName(name))
+	if _, err := os.Lstat(nodeDir); err == nil {
+		return "", blueprint.Errorf("unable to create output dir for %v at %v because it already exists; do several nodes have similar names?", name, nodeDir)
+	}
 	if err := CheckDir(nodeDir, true); err != nil {
 		return "", blueprint.Errorf("unable to create output dir for %v at %v due to %v", name, nodeDir, err.Error())
 	}
-- 
2.43.0


From ed772f35ae4a1aa9f34500a05b784bc9d4a32600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 55/82] fix: the module of a process could overwrite the copy
 of another module

---
 plugins/golang/gogen/workspacebuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 7b04ec5..4eb27b4 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -68,15 +68,11 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 		return "", blueprint.Errorf("module %v %v already exists in output workspace %v", moduleName, moduleVersion, workspace.WorkspaceDir)
 	}
 
-	// Find an unused subdirectory for the module
+	// The module must not overwrite another one
 	splits := strings.Split(moduleName, "/")
 	moduleShortName := splits[len(splits)-1]
-	moduleSubDir := moduleShortName
-	for i := 0; ; i += 1 {
-		if _, subDirInUse := workspace.Modules[moduleSubDir]; !subDirInUse {
-			break
-		}
-		moduleSubDir = fmt.Sprintf("%s%v", moduleShortName, i)
+	if otherModule, subDirInUse := workspace.Modules[moduleShortName]; subDirInUse {
+		return "", blueprint.Errorf("cannot generate module %v in %v of %v as it already contains module %v", moduleName, moduleShortName, workspace.WorkspaceDir, otherModule)
 	}
 
 	// Create output directory
-- 
2.43.0


From c366fc77655ee9d5406c84f8e8101d7dbec96ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 56/82] fix: names with the same environment variable shared
 its value

---
 plugins/dockercompose/deploy.go           | 11 +++++++++++
 plugins/environment/wiring.go             |  7 +++++++
 plugins/linux/util.go                     | 16 ++++++++++++++++
 plugins/linuxcontainer/linuxgen/run.sh.go | 17 +++++++++++++++++
 4 files changed, 51 insertions(+)

diff --git a/plugins/dockercompose/deploy.go b/plugins/dockercompose/deploy.go
index fa852e8..e805d08 100644
--- a/plugins/dockercompose/deploy.go
+++ b/plugins/dockercompose/deploy.go
@@ -12,6 +12,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/docker"
 	"github.com/blueprint-uservices/blueprint/plugins/dockercompose/dockergen"
+	"github.com/blueprint-uservices/blueprint/plugins/linux"
 	"golang.org/x/exp/slog"
 )
 
@@ -170,6 +171,16 @@ func sortedInstances(instanceArgs map[string][]ir.IRNode) []string {
 //
 // We don't pick external-facing ports for any addresses; these will be set by the caller or user.
 func (d *dockerComposeWorkspace) processArgNodes() error {
+	// The variables of all containers come from the same calling environment
+	vars := make(linux.EnvVars)
+	for _, instanceName := range sortedInstances(d.InstanceArgs) {
+		for _, arg := range d.InstanceArgs[instanceName] {
+			if err := vars.Add(arg.Name()); err != nil {
+				return err
+			}
+		}
+	}
+
 	addresses := make(map[string]string)
 	for _, instanceName := range sortedInstances(d.InstanceArgs) {
 		binds, _, remaining := address.Split(d.InstanceArgs[instanceName])
diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index 5b4e33b..26d863b 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -142,12 +142,19 @@ func generateEnv(outputFile string, addrs map[string]*addrconfig, port uint16, l
 	if len(keys) > 0 && (port == 0 || int(port)+len(keys)-1 > math.MaxUint16) {
 		return blueprint.Errorf("cannot assign ports to %v addresses starting at port %v", len(keys), port)
 	}
+	vars := make(linux.EnvVars)
 	for _, k := range keys {
 		addr := addrs[k]
 		if addr.bind != nil {
+			if err := vars.Add(addr.bind.Key); err != nil {
+				return err
+			}
 			b.WriteString(fmt.Sprintf("%s=0.0.0.0:%d\n", linux.EnvVar(addr.bind.Key), port))
 		}
 		if addr.dial != nil {
+			if err := vars.Add(addr.dial.Key); err != nil {
+				return err
+			}
 			hostname := ir.CleanName(addr.servicename)
 			if localhost {
 				hostname = "localhost"
diff --git a/plugins/linux/util.go b/plugins/linux/util.go
index b6fc898..04c38a8 100644
--- a/plugins/linux/util.go
+++ b/plugins/linux/util.go
@@ -3,6 +3,7 @@ package linux
 import (
 	"strings"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
 
@@ -24,3 +25,18 @@ func EnvVar(name string) string {
 func FuncName(name string) string {
 	return strings.ToLower(ir.CleanName(name))
 }
+
+// Several names can be converted to the same environment variable.
+// EnvVars is a utility for detecting this.
+type EnvVars map[string]string
+
+// Adds the environment variable of name.
+// Returns an error if it is already the environment variable of a different name.
+func (vars EnvVars) Add(name string) error {
+	envVar := EnvVar(name)
+	if other, exists := vars[envVar]; exists && other != name {
+		return blueprint.Errorf("%v and %v have the same environment variable %v", other, name, envVar)
+	}
+	vars[envVar] = name
+	return nil
+}
diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 1f5c0cc..03913de 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -3,7 +3,9 @@ package linuxgen
 import (
 	"path/filepath"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
+	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
 
 /*
@@ -67,13 +69,28 @@ func (run *RunScript) GenerateRunScript() error {
 	 by the processes and therefore must be set by the calling environment for
 	 run.sh to succeed
 	*/
+	vars := make(linux.EnvVars)
+	funcs := make(map[string]string)
 	for name, node := range run.AllNodes {
+		if err := vars.Add(name); err != nil {
+			return err
+		}
 		if _, hasRunFunc := run.RunFuncs[name]; !hasRunFunc {
 			// This node doesn't have a run func, so it must be an arg
 			run.Args[name] = node
 		}
 	}
 
+	for name := range run.RunFuncs {
+		if err := vars.Add(name); err != nil {
+			return err
+		}
+		if other, exists := funcs[linux.FuncName(name)]; exists {
+			return blueprint.Errorf("processes %v and %v have the same name %v in run.sh", other, name, linux.FuncName(name))
+		}
+		funcs[linux.FuncName(name)] = name
+	}
+
 	// Now we can generate the run.sh
 	return ExecuteTemplateToFile("run.sh", runfileTemplate, run, run.FilePath)
 }
-- 
2.43.0


From 3101711ccd6dadb5b774f2e1bc30564181fe3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 57/82] fix: names of kubernetes objects and images were
 invalid or not unique

---
 plugins/kubernetes/ir.go                      | 15 ++++++++++
 plugins/kubernetes/kubepod/deploy.go          | 29 ++++++++++++++-----
 .../kubepod/deploygen/deployfile.go           | 15 ++++++++++
 plugins/kubernetes/kubetemplate/template.go   | 14 +++++++--
 4 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/plugins/kubernetes/ir.go b/plugins/kubernetes/ir.go
index 7b802eb..1fde9d6 100644
--- a/plugins/kubernetes/ir.go
+++ b/plugins/kubernetes/ir.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"log/slog"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubeconfig"
@@ -42,8 +43,19 @@ func (n *Application) GenerateArtifacts(dir string) error {
 	slog.Info("Number of nodes in Kubernetes", "length", len(n.Nodes))
 	addrs := make(map[string]*kubeAddrInfo)
 	var dials []*address.DialConfig
+	pods := make(map[string]string)
+	vars := make(linux.EnvVars)
 	nodes := ir.Filter[*kubepod.PodDeployment](n.Nodes)
 	for _, node := range nodes {
+		podName := kubepod.KubernetesName(node.PodName)
+		if podName == "" {
+			return blueprint.Errorf("pod %v has no valid name in kubernetes", node.PodName)
+		}
+		if other, exists := pods[podName]; exists {
+			return blueprint.Errorf("pods %v and %v have the same name %v in kubernetes", other, node.PodName, podName)
+		}
+		pods[podName] = node.PodName
+
 		err := node.GenerateArtifacts(dir)
 		if err != nil {
 			return err
@@ -58,6 +70,9 @@ func (n *Application) GenerateArtifacts(dir string) error {
 	config_file := kubeconfig.NewKubeConfigFile("app-config", "app_config.yaml", dir)
 
 	for _, dial := range dials {
+		if err := vars.Add(dial.Name()); err != nil {
+			return err
+		}
 		if info, ok := addrs[dial.AddressName]; ok {
 			config_file.AddData(linux.EnvVar(dial.Name()), fmt.Sprintf("%s:%v", info.PodName, info.Bind.Port))
 		} else {
diff --git a/plugins/kubernetes/kubepod/deploy.go b/plugins/kubernetes/kubepod/deploy.go
index 4076234..46742dd 100644
--- a/plugins/kubernetes/kubepod/deploy.go
+++ b/plugins/kubernetes/kubepod/deploy.go
@@ -16,6 +16,7 @@ import (
 	"golang.org/x/exp/slog"
 
 	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod/deploygen"
+	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubetemplate"
 )
 
 // A Kubernetes pod deployer. It generates the pod config files on the local filesystem.
@@ -45,9 +46,9 @@ type kubeDeploymentWorkspace struct {
 }
 
 // Converts a given name into a format compatible with Kubernetes
-// Replaces "_" with "-"
+// Replaces "_" and other characters with "-"
 func KubernetesName(name string) string {
-	return strings.ReplaceAll(name, "_", "-")
+	return kubetemplate.KubernetesName(name)
 }
 
 // Implements ir.ArtifactGenerator
@@ -102,10 +103,14 @@ func (p *kubeDeploymentWorkspace) Info() docker.ContainerWorkspaceInfo {
 	return p.info
 }
 
+// Only lowercase alphanumeric characters and underscores in between are allowed in the name of a docker image
+func cleanImageName(name string) string {
+	return strings.Trim(strings.ToLower(ir.CleanName(name)), "_")
+}
+
 // Implements docker.ContainerWorkspace
 func (p *kubeDeploymentWorkspace) CreateImageDir(imageName string) (string, error) {
-	// Only alphanumeric and underscores are allowed in a proc name
-	imageName = ir.CleanName(imageName)
+	imageName = cleanImageName(imageName)
 	imageDir, err := ioutil.CreateNodeDir(p.info.Path, imageName)
 	p.ImageDirs[imageName] = imageDir
 	return imageDir, err
@@ -121,10 +126,10 @@ func (p *kubeDeploymentWorkspace) DeclarePrebuiltInstance(instanceName string, i
 func (p *kubeDeploymentWorkspace) DeclareLocalImage(instanceName string, imageDir string, args ...ir.IRNode) error {
 	slog.Info("Inside DeclareLocalImage")
 	p.InstanceArgs[instanceName] = args
-	// For now set image to instanceName
-	var image string
+	// The image has to be built from imageDir and pushed to the registry
+	image := cleanImageName(imageDir)
 	if p.DockerRegistryAddr != "" {
-		image = p.DockerRegistryAddr + "/" + instanceName
+		image = p.DockerRegistryAddr + "/" + image
 	}
 	return p.F.AddImageInstance(instanceName, image)
 }
@@ -199,6 +204,16 @@ func (p *kubeDeploymentWorkspace) processArgNodes() error {
 
 	p.AllBinds = allBinds
 
+	// All addresses come from the same ConfigMap
+	vars := make(linux.EnvVars)
+	for _, instanceName := range sortedInstances(p.InstanceArgs) {
+		for _, arg := range p.InstanceArgs[instanceName] {
+			if err := vars.Add(arg.Name()); err != nil {
+				return err
+			}
+		}
+	}
+
 	// (2) Set environment variables for containers
 	// (3) Expose container ports externally
 	for _, instanceName := range sortedInstances(p.InstanceArgs) {
diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index b338c84..0c34d79 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -108,6 +108,13 @@ func (k *KubeDeploymentFile) ExposePort(instanceName string, portName string, po
 	if err != nil {
 		return err
 	} else {
+		for _, other := range k.Instances {
+			for otherName := range other.Ports {
+				if otherName != portName && kubetemplate.KubernetesName(otherName) == kubetemplate.KubernetesName(portName) {
+					return blueprint.Errorf("ports %v and %v have the same name in kubernetes", otherName, portName)
+				}
+			}
+		}
 		instance.Ports[portName] = port
 		return nil
 	}
@@ -145,6 +152,14 @@ func (k *KubeDeploymentFile) addInstance(instanceName string, image string) erro
 	if _, exists := k.Instances[instanceName]; exists {
 		return blueprint.Errorf("re-declaration of container instance %v of image %v", instanceName, image)
 	}
+	if kubetemplate.KubernetesName(instanceName) == "" {
+		return blueprint.Errorf("container instance %v has no valid name in kubernetes", instanceName)
+	}
+	for other := range k.Instances {
+		if kubetemplate.KubernetesName(other) == kubetemplate.KubernetesName(instanceName) {
+			return blueprint.Errorf("container instances %v and %v have the same name in kubernetes", other, instanceName)
+		}
+	}
 	instance := &instance{
 		InstanceName:  instanceName,
 		Image:         image,
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index 29b7431..5ee7ef5 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -3,6 +3,7 @@ package kubetemplate
 import (
 	"bytes"
 	"os"
+	"regexp"
 	"strings"
 	"text/template"
 
@@ -63,7 +64,14 @@ func (e *templateExecutor) TitleCase(arg string) (string, error) {
 }
 
 func (e *templateExecutor) KubernetesName(name string) (string, error) {
-	s := strings.ReplaceAll(name, "_", "-")
-	s = strings.ReplaceAll(s, ".", "-")
-	return s, nil
+	return KubernetesName(name), nil
+}
+
+var invalidChars = regexp.MustCompile("[^a-z0-9]+")
+
+// Converts a given name into a format compatible with Kubernetes: lowercase alphanumeric
+// characters and "-", starting with a letter.
+func KubernetesName(name string) string {
+	name = invalidChars.ReplaceAllString(strings.ToLower(name), "-")
+	return strings.TrimRight(strings.TrimLeft(name, "-0123456789"), "-")
 }
-- 
2.43.0


From be4be36748a8d39b39b114054a0a0f1260ac3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 58/82] fix: names of processes that are commands or variables
 of the shell made invalid run.sh scripts

---
 plugins/goproc/linuxgen/goproc_runfunc.go   |  4 ++--
 plugins/linuxcontainer/linuxgen/run.sh.go   | 17 +++++++++++++++--
 plugins/linuxcontainer/linuxgen/runfunc.go  |  6 +++---
 plugins/linuxcontainer/linuxgen/template.go | 15 ++++++++++++++-
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/plugins/goproc/linuxgen/goproc_runfunc.go b/plugins/goproc/linuxgen/goproc_runfunc.go
index 0e12168..40cbacf 100644
--- a/plugins/goproc/linuxgen/goproc_runfunc.go
+++ b/plugins/goproc/linuxgen/goproc_runfunc.go
@@ -38,7 +38,7 @@ var binaryRunFuncTemplate = `
 run_{{RunFuncName .Name}} {
 	cd {{.Name}} || return $?
     ./{{.Name}}
-	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
+	{{- range $i, $arg := .Args}} "--{{Escape $arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
@@ -48,7 +48,7 @@ run_{{RunFuncName .Name}} {
 	export CGO_ENABLED=1
 	cd {{.Name}}/{{.Name}} || return $?
 	go run .
-	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
+	{{- range $i, $arg := .Args}} "--{{Escape $arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 03913de..c152bc3 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -2,6 +2,7 @@ package linuxgen
 
 import (
 	"path/filepath"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
@@ -82,6 +83,9 @@ func (run *RunScript) GenerateRunScript() error {
 	}
 
 	for name := range run.RunFuncs {
+		if isReserved(linux.EnvVar(name)) {
+			return blueprint.Errorf("process %v cannot be started in run.sh because it would overwrite the shell's variable %v", name, linux.EnvVar(name))
+		}
 		if err := vars.Add(name); err != nil {
 			return err
 		}
@@ -95,9 +99,18 @@ func (run *RunScript) GenerateRunScript() error {
 	return ExecuteTemplateToFile("run.sh", runfileTemplate, run, run.FilePath)
 }
 
+// run.sh sets a variable for each process; this must not be one that the shell or run.sh itself uses
+func isReserved(envVar string) bool {
+	switch envVar {
+	case "", "_", "PATH", "HOME", "PWD", "OLDPWD", "IFS", "UID", "EUID", "PPID", "GROUPS", "RANDOM", "SECONDS", "LINENO", "DIRSTACK", "FUNCNAME", "PIPESTATUS", "SHELLOPTS", "OPTIND", "OPTARG", "CGO_ENABLED", "WORKSPACE_NAME", "WORKSPACE_DIR":
+		return true
+	}
+	return strings.HasPrefix(envVar, "BASH")
+}
+
 var runfileTemplate = `#!/bin/bash
 
-WORKSPACE_NAME="{{.WorkspaceName}}"
+WORKSPACE_NAME="{{CleanName .WorkspaceName}}"
 WORKSPACE_DIR=$(pwd)
 
 usage() { 
@@ -127,7 +140,7 @@ done
 {{end}}
 
 run_all() {
-	echo "Running {{.WorkspaceName}}"
+	echo "Running {{CleanName .WorkspaceName}}"
 
 	# Check that all necessary environment variables are set
 	echo "Required environment variables:"
diff --git a/plugins/linuxcontainer/linuxgen/runfunc.go b/plugins/linuxcontainer/linuxgen/runfunc.go
index b000c48..3afa959 100644
--- a/plugins/linuxcontainer/linuxgen/runfunc.go
+++ b/plugins/linuxcontainer/linuxgen/runfunc.go
@@ -63,15 +63,15 @@ var runFuncTemplate = `{{RunFuncName .Name}}() {
 
 	if run_{{RunFuncName .Name}}; then
 		if [ -z "${ {{- EnvVarName .Name}}+x}" ]; then
-			echo "${WORKSPACE_NAME} error starting {{.Name}}: function {{RunFuncName .Name}} did not set {{EnvVarName .Name}}"
+			echo "${WORKSPACE_NAME} error starting {{CleanName .Name}}: function {{RunFuncName .Name}} did not set {{EnvVarName .Name}}"
 			return 1
 		else
-			echo "${WORKSPACE_NAME} started {{.Name}}"
+			echo "${WORKSPACE_NAME} started {{CleanName .Name}}"
 			return 0
 		fi
 	else
 		exitcode=$?
-		echo "${WORKSPACE_NAME} aborting {{.Name}} due to exitcode ${exitcode} from {{RunFuncName .Name}}"
+		echo "${WORKSPACE_NAME} aborting {{CleanName .Name}} due to exitcode ${exitcode} from {{RunFuncName .Name}}"
 		return $exitcode
 	fi
 }`
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 0dcbb17..9793998 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 	"text/template"
 
+	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
 
@@ -45,6 +46,8 @@ func newTemplateExecutor(args any) *templateExecutor {
 	e.Funcs["Get"] = e.Get
 	e.Funcs["EnvVarName"] = e.EnvVarName
 	e.Funcs["RunFuncName"] = e.RunFuncName
+	e.Funcs["CleanName"] = e.CleanName
+	e.Funcs["Escape"] = e.Escape
 	e.Funcs["Title"] = e.TitleCase
 
 	return e
@@ -72,7 +75,17 @@ func (e *templateExecutor) EnvVarName(name string) (string, error) {
 }
 
 func (e *templateExecutor) RunFuncName(name string) (string, error) {
-	return linux.FuncName(name), nil
+	// The prefix keeps apart names of processes, and commands and keywords of the shell
+	return "start_" + linux.FuncName(name), nil
+}
+
+func (e *templateExecutor) CleanName(name string) (string, error) {
+	return ir.CleanName(name), nil
+}
+
+// Escapes arg for use within double quotes
+func (e *templateExecutor) Escape(arg string) (string, error) {
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, "$", `\$`, "`", "\\`").Replace(arg), nil
 }
 
 func (e *templateExecutor) TitleCase(arg string) (string, error) {
-- 
2.43.0


From 4bc8f604a8c59597643de779536ba92938b0d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 59/82] fix: processes with names like main, x_test or vendor
 could not be built

---
 plugins/golang/gogen/workspacebuilder.go | 8 +++++++-
 plugins/goproc/deploy.go                 | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 4eb27b4..91c07cb 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -68,8 +68,14 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 		return "", blueprint.Errorf("module %v %v already exists in output workspace %v", moduleName, moduleVersion, workspace.WorkspaceDir)
 	}
 
-	// The module must not overwrite another one
 	splits := strings.Split(moduleName, "/")
+	for _, split := range splits {
+		if split == "vendor" {
+			return "", blueprint.Errorf("%v cannot be the name of a module, because packages in vendor directories cannot be imported", moduleName)
+		}
+	}
+
+	// The module must not overwrite another one
 	moduleShortName := splits[len(splits)-1]
 	if otherModule, subDirInUse := workspace.Modules[moduleShortName]; subDirInUse {
 		return "", blueprint.Errorf("cannot generate module %v in %v of %v as it already contains module %v", moduleName, moduleShortName, workspace.WorkspaceDir, otherModule)
diff --git a/plugins/goproc/deploy.go b/plugins/goproc/deploy.go
index a7ef94e..c519f47 100644
--- a/plugins/goproc/deploy.go
+++ b/plugins/goproc/deploy.go
@@ -2,7 +2,6 @@ package goproc
 
 import (
 	"fmt"
-	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
@@ -76,7 +75,8 @@ func (node *Process) GenerateArtifacts(workspaceDir string) error {
 	}
 
 	// Create the method to instantiate the namespace
-	namespaceFileName := strings.ToLower(node.ProcName) + ".go"
+	// A file name with the name of the process could be main.go, or one that the go compiler ignores, e.g. x_test.go
+	namespaceFileName := "namespace.go"
 	procPackage := "main"
 	constructorName := "New_" + node.ProcName
 	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, node.ProcName, namespaceFileName, procPackage, constructorName)
-- 
2.43.0


From fb4dd646513d26aa03cb16a7344f880917d4eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 60/82] fix: names of nodes with quotes made generated code
 invalid

---
 plugins/clientpool/ir.go                        |  4 ++--
 plugins/golang/gogen/namespacebuilder.go        | 10 +++++-----
 plugins/goproc/goprocgen/main.go.go             |  6 +++---
 plugins/gotests/codegen/blueprint_clients.go.go |  6 +++---
 plugins/loadbalancer/ir_balancer.go             |  2 +-
 plugins/workflow/ir_workflowservice.go          |  2 +-
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index de1e951..6bae627 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -191,13 +191,13 @@ type {{.PoolName}} struct {
 func {{.PoolConstructor}}(parent *golang.Namespace) *{{.PoolName}} {
 	var created int64
 	createClient := func() ({{NameOf .Service.UserType}}, error) {
-		clientName := fmt.Sprintf("{{.InstanceName}}.%v", atomic.AddInt64(&created, 1)-1)
+		clientName := fmt.Sprintf("%v.%v", {{printf "%q" .InstanceName}}, atomic.AddInt64(&created, 1)-1)
 		n, err := {{.ClientConstructor}}(clientName).BuildWithParent(parent)
 		if err != nil {
 			return nil, err
 		}
 		var client {{NameOf .Service.UserType}}
-		err = n.Get("{{.WrappedClient}}", &client)
+		err = n.Get({{printf "%q" .WrappedClient}}, &client)
 		return client, err
 	}
 	clients := clientpool.NewClientPool({{.MaxClients}}, createClient)
diff --git a/plugins/golang/gogen/namespacebuilder.go b/plugins/golang/gogen/namespacebuilder.go
index bc7a411..ddaa0d9 100644
--- a/plugins/golang/gogen/namespacebuilder.go
+++ b/plugins/golang/gogen/namespacebuilder.go
@@ -152,7 +152,7 @@ var buildFuncTemplate = `func(n *golang.Namespace) (any, error) {
 		// Auto-generated by the golang plugin gogen/namespacebuilder.go
 		{{- range $i, $arg := .NodesToGet }}
 		var {{.Var.Name}} {{.Namespace.Imports.NameOf .NodeType}}
-		if err := n.Get("{{.Node.Name}}", &{{.Var.Name}}); err != nil {
+		if err := n.Get({{printf "%q" .Node.Name}}, &{{.Var.Name}}); err != nil {
 			return nil, err
 		}
 		{{end}}
@@ -252,10 +252,10 @@ func {{ .FuncName }}(name string) *golang.NamespaceBuilder {
 {{- end }}
 func set_{{.Name}}_Args(b *golang.NamespaceBuilder) {
 	{{- range $defName, $description := .Required }}
-	b.Required("{{$defName}}", "{{$description}}")
+	b.Required({{printf "%q" $defName}}, {{printf "%q" $description}})
 	{{- end }}
 	{{- range $defName, $description := .Optional }}
-	b.Optional("{{$defName}}", "{{$description}}")
+	b.Optional({{printf "%q" $defName}}, {{printf "%q" $description}})
 	{{- end }}
 }
 
@@ -266,7 +266,7 @@ func set_{{.Name}}_Args(b *golang.NamespaceBuilder) {
 {{- end }}
 func set_{{.Name}}_Instances(b *golang.NamespaceBuilder) {
 	{{- range $_, $defName := .Instantiations }}
-	b.Instantiate("{{ $defName }}")
+	b.Instantiate({{printf "%q" $defName}})
 	{{- end }}
 }
 
@@ -277,7 +277,7 @@ func set_{{.Name}}_Instances(b *golang.NamespaceBuilder) {
 {{- end }}
 func set_{{.Name}}_Definitions(b *golang.NamespaceBuilder) {
 	{{- range $defName, $buildFunc := .Declarations }}
-	b.Define("{{ $defName }}", {{ $buildFunc }})
+	b.Define({{printf "%q" $defName}}, {{ $buildFunc }})
 	{{ end }}
 }
 `
diff --git a/plugins/goproc/goprocgen/main.go.go b/plugins/goproc/goprocgen/main.go.go
index c3d38a8..7944bc6 100644
--- a/plugins/goproc/goprocgen/main.go.go
+++ b/plugins/goproc/goprocgen/main.go.go
@@ -101,12 +101,12 @@ import (
 )
 
 func main() {
-	slog.Info("Running {{.Name}}")
-	n, err := {{.NamespaceConstructor}}("{{.Name}}").Build(context.Background())
+	slog.Info("Running " + {{printf "%q" .Name}})
+	n, err := {{.NamespaceConstructor}}({{printf "%q" .Name}}).Build(context.Background())
 	if err != nil {
 		slog.Error(err.Error())
 		os.Exit(1)
 	}
 	n.Await()
-	slog.Info("{{.Name}} exiting")
+	slog.Info({{printf "%q" .Name}} + " exiting")
 }`
diff --git a/plugins/gotests/codegen/blueprint_clients.go.go b/plugins/gotests/codegen/blueprint_clients.go.go
index f9926c8..c241ccd 100644
--- a/plugins/gotests/codegen/blueprint_clients.go.go
+++ b/plugins/gotests/codegen/blueprint_clients.go.go
@@ -91,10 +91,10 @@ package {{ .PackageShortName }}
 // Auto-generated code by the Blueprint gotests plugin.
 func init() {
 	// Initialize the clientlib early so that it can pick up command-line flags
-	clientlib := {{ .NamespaceConstructor }}("{{ .NamespaceName }}")
+	clientlib := {{ .NamespaceConstructor }}({{printf "%q" .NamespaceName}})
 
 	{{ range $_, $client := .Clients }}
-	{{ .RegistryVarName }}.Register("{{ .ClientName }}", func(ctx context.Context) ({{ NameOf .ClientType }}, error) {
+	{{ .RegistryVarName }}.Register({{printf "%q" .ClientName}}, func(ctx context.Context) ({{ NameOf .ClientType }}, error) {
 		// Build the client library
 		namespace, err := clientlib.Build(ctx)
 		if err != nil {
@@ -103,7 +103,7 @@ func init() {
 
 		// Get and return the client
 		var client {{ NameOf .ClientType }}
-		err = namespace.Get("{{ .NodeToInstantiate }}", &client)
+		err = namespace.Get({{printf "%q" .NodeToInstantiate}}, &client)
 		return client, err
 	})
 	{{end}}
diff --git a/plugins/loadbalancer/ir_balancer.go b/plugins/loadbalancer/ir_balancer.go
index 4d2ac3e..fd2efbb 100644
--- a/plugins/loadbalancer/ir_balancer.go
+++ b/plugins/loadbalancer/ir_balancer.go
@@ -166,7 +166,7 @@ func (n *dynamicLBClient) AddInstantiation(builder golang.NamespaceBuilder) erro
 	template := `func(n *golang.Namespace) (any, error) {
 		// Auto-generated by the golang plugin cerulean/ir_uml_component.go
 		var client {{.ServiceType}}
-		err := n.Get("{{.WrappedName}}", &client)
+		err := n.Get({{printf "%q" .WrappedName}}, &client)
 		return client, err
 	}`
 
diff --git a/plugins/workflow/ir_workflowservice.go b/plugins/workflow/ir_workflowservice.go
index 188fb96..9c52a2d 100644
--- a/plugins/workflow/ir_workflowservice.go
+++ b/plugins/workflow/ir_workflowservice.go
@@ -97,7 +97,7 @@ func (node *workflowClient) AddInstantiation(builder golang.NamespaceBuilder) er
 	template := `func(n *golang.Namespace) (any, error) {
 		// Auto-generated by the golang plugin workflow/ir_workflowservice.go
 		var client {{.ServiceType}}
-		err := n.Get("{{.WrappedName}}", &client)
+		err := n.Get({{printf "%q" .WrappedName}}, &client)
 		return client, err
 	}`
 
-- 
2.43.0


From 4ea603b12054e6c92241a9d0272a780597b95de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 61/82] fix: HTTP clients shared the maps of the default
 transport without its locks

---
 plugins/http/httpcodegen/clientgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 37414b6..e638d2d 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -57,12 +57,12 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 	if !ok {
 		return nil, errors.New("defaultRoundTripper not an *http.Transport")
 	}
-	defaultTransport := *defaultTransportPointer // dereference it to get a copy of the struct that the pointer points to
+	defaultTransport := defaultTransportPointer.Clone() // a copy of the struct would share its connections, but not its locks
 	defaultTransport.MaxIdleConns = 60000
 	defaultTransport.MaxIdleConnsPerHost = 60000
 	defaultTransport.MaxConnsPerHost = 10000
 	client := &http.Client{
-		Transport: &defaultTransport,
+		Transport: defaultTransport,
 	}
 	c := &{{.Name}}{}
 	c.client = client
-- 
2.43.0


From c524f4a1a5471f5c48a0c37c13ad7144b7ea08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 62/82] fix: wrappers of services with the same interface but
 different modifiers overwrote each other's code

---
 plugins/govector/ir_clientwrapper.go  |  6 +++---
 plugins/govector/ir_serverwrapper.go  |  6 +++---
 plugins/healthchecker/codegen.go      |  2 +-
 plugins/healthchecker/ir.go           |  4 ++--
 plugins/opentelemetry/ir_ot_client.go | 18 +++++++++++++-----
 plugins/opentelemetry/ir_ot_server.go |  6 +++---
 6 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index a4b7122..03c4fcf 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -58,7 +58,7 @@ func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecClientWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		// Methods that were added outside of the server wrapper don't exchange vector clocks
 		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "govecctx" {
@@ -84,7 +84,7 @@ func (node *GovecClientWrapper) AddInstantiation(builder golang.NamespaceBuilder
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -129,7 +129,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package:   pkg,
 		Service:   wrapped,
 		Impl:      impl,
-		Name:      wrapped.BaseName + "_GoVecClientWrapper",
+		Name:      wrapped.Name + "_GoVecClientWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 62ef6b1..62361a6 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -58,7 +58,7 @@ func (node *GovecServerWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.AddArgument(gocode.Variable{Name: "govecctx", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
 		method.AddRetVar(gocode.Variable{Name: "", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
@@ -79,7 +79,7 @@ func (node *GovecServerWrapper) AddInstantiation(builder golang.NamespaceBuilder
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -134,7 +134,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package:   pkg,
 		Service:   wrapped,
 		Impl:      impl,
-		Name:      wrapped.BaseName + "_GoVecServerWrapper",
+		Name:      wrapped.Name + "_GoVecServerWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
diff --git a/plugins/healthchecker/codegen.go b/plugins/healthchecker/codegen.go
index f537ab5..163065f 100644
--- a/plugins/healthchecker/codegen.go
+++ b/plugins/healthchecker/codegen.go
@@ -20,7 +20,7 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_HealthCheckHandler",
+		Name:      wrapped_service.Name + "_HealthCheckHandler",
 		IfaceName: iface.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
diff --git a/plugins/healthchecker/ir.go b/plugins/healthchecker/ir.go
index ff39f7f..c0efb14 100644
--- a/plugins/healthchecker/ir.go
+++ b/plugins/healthchecker/ir.go
@@ -71,7 +71,7 @@ func (node *HealthCheckerServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("Healthchecker expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	health_check_method := &gocode.Func{}
 	health_check_method.Name = "Health"
 	health_check_method.Returns = append(health_check_method.Returns, gocode.Variable{Type: &gocode.BasicType{Name: "string"}})
@@ -113,7 +113,7 @@ func (node *HealthCheckerServerWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index 2c51694..ff532e4 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -43,6 +43,14 @@ func (node *OpenTelemetryClientWrapper) String() string {
 	return node.Name() + " = OTClientWrapper(" + node.Wrapped.Name() + ", " + node.Collector.Name() + ")"
 }
 
+// The name of the generated client.  Clients of the same service with and without spans are different.
+func (node *OpenTelemetryClientWrapper) implName(wrapped *gocode.ServiceInterface) string {
+	if node.GenClientSpans {
+		return wrapped.Name + "_OTClientWrapper"
+	}
+	return wrapped.Name + "_OTContextClientWrapper"
+}
+
 func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.ServiceInterface, error) {
 	iface, err := golang.GetGoInterface(ctx, node.Wrapped)
 	if err != nil {
@@ -52,7 +60,7 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTClientWrapper expected build context to be a ModuleBuiler, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(node.implName(iface) + "Interface", module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		// Methods that were added outside of the server wrapper don't receive a trace context
 		if n := len(method.Arguments); n > 0 && method.Arguments[n-1].Name == "traceCtx" {
@@ -96,7 +104,7 @@ func (node *OpenTelemetryClientWrapper) GenerateFuncs(builder golang.ModuleBuild
 		return nil
 	}
 
-	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, node.outputPackage, node.GenClientSpans)
+	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, node.implName(wrapped_iface), node.outputPackage, node.GenClientSpans)
 }
 
 // Part of code generation compilation pass; provides instantiation snippet
@@ -119,7 +127,7 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTClientWrapper", iface.BaseName),
+			Name: "New_" + node.implName(iface),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -134,7 +142,7 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 func (node *OpenTelemetryClientWrapper) ImplementsGolangNode()    {}
 func (node *OpenTelemetryClientWrapper) ImplementsGolangService() {}
 
-func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, outputPackage string, genClientSpans bool) error {
+func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, name string, outputPackage string, genClientSpans bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -145,7 +153,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:   wrapped,
 		Impl:      impl,
 		CollIface: coll_iface,
-		Name:      wrapped.BaseName + "_OTClientWrapper",
+		Name:      name,
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 		GenSpans:  genClientSpans,
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index faeb453..8e9e2ab 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -62,7 +62,7 @@ func (node *OpenTelemetryServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+node.outputPackage, iface)
 	for name, method := range i.Methods {
 		method.AddArgument(gocode.Variable{Name: "traceCtx", Type: &gocode.BasicType{Name: "string"}})
 		i.Methods[name] = method
@@ -144,7 +144,7 @@ func (node *OpenTelemetryServerWrapper) AddInstantiation(builder golang.Namespac
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -177,7 +177,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:   wrapped,
 		Impl:      impl,
 		CollIface: coll_iface,
-		Name:      wrapped.BaseName + "_OTServerWrapper",
+		Name:      wrapped.Name + "_OTServerWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.Name),
 	}
-- 
2.43.0


From 0378ff5521b33f106c19a74ccba44e1c4076eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 63/82] fix: in-memory relational databases of one process
 shared their tables, and concurrent statements failed with 'table is locked'

---
 runtime/plugins/sqlitereldb/reldb.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/sqlitereldb/reldb.go b/runtime/plugins/sqlitereldb/reldb.go
index 268728d..766970a 100644
--- a/runtime/plugins/sqlitereldb/reldb.go
+++ b/runtime/plugins/sqlitereldb/reldb.go
@@ -9,6 +9,8 @@ package sqlitereldb
 import (
 	"context"
 	"database/sql"
+	"fmt"
+	"sync/atomic"
 
 	"github.com/jmoiron/sqlx"
 
@@ -20,9 +22,15 @@ type SqliteRelDB struct {
 	db *sqlx.DB
 }
 
+// The number of databases instantiated by this process, used to give each one its own name
+var instances atomic.Int64
+
 // Instantiates a new [SqliteRelDB] instance that stores query data in-memory
 func NewSqliteRelDB(ctx context.Context) (*SqliteRelDB, error) {
-	db, err := sqlx.Open("sqlite3", "file:foobar?mode=memory&cache=shared")
+	// The memdb VFS shares one in-memory database between the connections of a pool and, unlike
+	// cache=shared, makes a statement wait while another connection is writing instead of failing it.
+	name := fmt.Sprintf("file:/sqlitereldb%d?vfs=memdb&_busy_timeout=30000", instances.Add(1))
+	db, err := sqlx.Open("sqlite3", name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5aee2dfe7f36e54a2c1d1e9b170063366f8155ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 64/82] fix: SockShop login panicked for users with a card
 number shorter than four characters

---
 examples/sockshop/workflow/user/userservice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/sockshop/workflow/user/userservice.go b/examples/sockshop/workflow/user/userservice.go
index 2a17662..59220fc 100644
--- a/examples/sockshop/workflow/user/userservice.go
+++ b/examples/sockshop/workflow/user/userservice.go
@@ -257,6 +257,9 @@ func (u *User) cardIDs() []string {
 // Replaces the CC number with asterisks for returning to the user for display
 func (c *Card) maskCC() {
 	l := len(c.LongNum) - 4
+	if l < 0 {
+		l = 0
+	}
 	c.LongNum = fmt.Sprintf("%v%v", strings.Repeat("*", l), c.LongNum[l:])
 }
 
-- 
2.43.0


From d8ba6a64f78e5353799458d128df4fdc9da9a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 65/82] fix: SockShop returned a blank user, address or card
 for unknown IDs, and took orders with them

---
 .../sockshop/workflow/user/addressesdb.go     | 21 -------------------
 examples/sockshop/workflow/user/cardsdb.go    | 21 -------------------
 examples/sockshop/workflow/user/userdb.go     | 16 +++++++-------
 .../sockshop/workflow/user/userservice.go     | 13 ++++++------
 4 files changed, 15 insertions(+), 56 deletions(-)

diff --git a/examples/sockshop/workflow/user/addressesdb.go b/examples/sockshop/workflow/user/addressesdb.go
index 2e55563..6c0f05a 100644
--- a/examples/sockshop/workflow/user/addressesdb.go
+++ b/examples/sockshop/workflow/user/addressesdb.go
@@ -24,27 +24,6 @@ func newAddressStore(ctx context.Context, db backend.NoSQLDatabase) (*addressSto
 	return &addressStore{c: c}, err
 }
 
-// Gets an address by object Id
-func (s *addressStore) getAddress(ctx context.Context, addressid string) (Address, error) {
-	// Convert the address ID
-	id, err := primitive.ObjectIDFromHex(addressid)
-	if err != nil {
-		return Address{}, errors.New("Invalid ID Hex")
-	}
-
-	// Run the query
-	cursor, err := s.c.FindOne(ctx, bson.D{{"_id", id}})
-	if err != nil {
-		return Address{}, err
-	}
-	address := dbAddress{}
-	_, err = cursor.One(ctx, &address)
-
-	// Convert from DB address data to Address object
-	address.Address.ID = address.ID.Hex()
-	return address.Address, err
-}
-
 // Gets addresses from the address store
 func (s *addressStore) getAddresses(ctx context.Context, addressIds []string) ([]Address, error) {
 	if len(addressIds) == 0 {
diff --git a/examples/sockshop/workflow/user/cardsdb.go b/examples/sockshop/workflow/user/cardsdb.go
index 8abeaea..8c85412 100644
--- a/examples/sockshop/workflow/user/cardsdb.go
+++ b/examples/sockshop/workflow/user/cardsdb.go
@@ -24,27 +24,6 @@ func newCardStore(ctx context.Context, db backend.NoSQLDatabase) (*cardStore, er
 	return &cardStore{c: c}, err
 }
 
-// Gets card by objects Id
-func (s *cardStore) getCard(ctx context.Context, cardid string) (Card, error) {
-	// Convert the card ID
-	id, err := primitive.ObjectIDFromHex(cardid)
-	if err != nil {
-		return Card{}, errors.New("Invalid ID Hex")
-	}
-
-	// Run the query
-	cursor, err := s.c.FindOne(ctx, bson.D{{"_id", id}})
-	if err != nil {
-		return Card{}, err
-	}
-	card := dbCard{}
-	_, err = cursor.One(ctx, &card)
-
-	// Convert from DB card data to Card object
-	card.Card.ID = card.ID.Hex()
-	return card.Card, err
-}
-
 // Gets cards from the card store
 func (s *cardStore) getCards(ctx context.Context, cardIds []string) ([]Card, error) {
 	if len(cardIds) == 0 {
diff --git a/examples/sockshop/workflow/user/userdb.go b/examples/sockshop/workflow/user/userdb.go
index 9e92ea3..156efdf 100644
--- a/examples/sockshop/workflow/user/userdb.go
+++ b/examples/sockshop/workflow/user/userdb.go
@@ -96,29 +96,29 @@ func (s *userStore) getUserByName(ctx context.Context, username string) (User, e
 	return u.User, nil
 }
 
-// Get user by their object id
-func (s *userStore) getUser(ctx context.Context, userid string) (User, error) {
+// Get user by their object id; also reports whether there is such a user
+func (s *userStore) getUser(ctx context.Context, userid string) (User, bool, error) {
 	// Convert user ID to bson object ID
 	id, err := primitive.ObjectIDFromHex(userid)
 	if err != nil {
-		return newUser(), errors.New("Invalid Id Hex")
+		return newUser(), false, errors.New("Invalid Id Hex")
 	}
 
 	// Execute query
 	cursor, err := s.customers.FindOne(ctx, bson.D{{"_id", id}})
 	if err != nil {
-		return newUser(), err
+		return newUser(), false, err
 	}
 
 	// Extract query result
 	u := dbUser{}
-	if _, err := cursor.One(ctx, &u); err != nil {
-		return newUser(), err
+	if exists, err := cursor.One(ctx, &u); err != nil || !exists {
+		return newUser(), false, err
 	}
 
 	// Set the hex string IDs for the user, cards, and addresses before returning
 	u.AddUserIDs()
-	return u.User, nil
+	return u.User, true, nil
 }
 
 // Get all users
@@ -239,7 +239,7 @@ func (s *userStore) deleteUser(ctx context.Context, userid string) error {
 	}
 
 	// Get user details
-	u, err := s.getUser(ctx, userid)
+	u, _, err := s.getUser(ctx, userid)
 	if err != nil {
 		return err
 	}
diff --git a/examples/sockshop/workflow/user/userservice.go b/examples/sockshop/workflow/user/userservice.go
index 59220fc..a2e35af 100644
--- a/examples/sockshop/workflow/user/userservice.go
+++ b/examples/sockshop/workflow/user/userservice.go
@@ -154,8 +154,11 @@ func (s *userServiceImpl) GetUsers(ctx context.Context, userid string) ([]User,
 	if userid == "" {
 		return s.users.getUsers(ctx)
 	} else {
-		user, err := s.users.getUser(ctx, userid)
-		return []User{user}, err
+		user, exists, err := s.users.getUser(ctx, userid)
+		if err != nil || !exists {
+			return []User{}, err
+		}
+		return []User{user}, nil
 	}
 }
 
@@ -170,8 +173,7 @@ func (s *userServiceImpl) GetAddresses(ctx context.Context, addressid string) ([
 	if addressid == "" {
 		return s.users.addresses.getAllAddresses(ctx)
 	} else {
-		address, err := s.users.addresses.getAddress(ctx, addressid)
-		return []Address{address}, err
+		return s.users.addresses.getAddresses(ctx, []string{addressid})
 	}
 }
 
@@ -184,8 +186,7 @@ func (s *userServiceImpl) GetCards(ctx context.Context, cardid string) ([]Card,
 	if cardid == "" {
 		return s.users.cards.getAllCards(ctx)
 	} else {
-		card, err := s.users.cards.getCard(ctx, cardid)
-		return []Card{card}, err
+		return s.users.cards.getCards(ctx, []string{cardid})
 	}
 }
 
-- 
2.43.0


From fafff1dd5fccc9cb472cd5d9116194f314b285df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 66/82] fix: SockShop lost the cart of a logged in user who
 logs in again

---
 examples/sockshop/workflow/cart/cartservice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index 0eb8fcf..fdae23b 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -109,6 +109,11 @@ func (s *cartImpl) GetItem(ctx context.Context, customerID string, itemID string
 
 // MergeCarts implements CartService.
 func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID string) error {
+	if customerID == sessionID {
+		// Already the customer's own cart
+		return nil
+	}
+
 	sessionCart, err := s.getCart(ctx, sessionID)
 	if err != nil {
 		return err
-- 
2.43.0


From 7c1e81c591c733c8a2dbb60aa3a9f5b0414b7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 67/82] fix: SockShop frontend put items updated without a
 session into a cart shared by all such users

---
 examples/sockshop/workflow/frontend/frontend.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/sockshop/workflow/frontend/frontend.go b/examples/sockshop/workflow/frontend/frontend.go
index 373e872..b65bcf5 100644
--- a/examples/sockshop/workflow/frontend/frontend.go
+++ b/examples/sockshop/workflow/frontend/frontend.go
@@ -264,6 +264,10 @@ func (f *frontend) Register(ctx context.Context, sessionID string, username stri
 
 // UpdateItem implements Frontend.
 func (f *frontend) UpdateItem(ctx context.Context, sessionID string, itemID string, quantity int) (string, error) {
+	if sessionID == "" {
+		sessionID = uuid.NewString()
+	}
+
 	item, err := f.catalogue.Get(ctx, itemID)
 	if err != nil {
 		return sessionID, err
-- 
2.43.0


From 2ddca3ba875ee94ca4b833f46a86ecdc5e42d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 68/82] fix: SockShop orders placed from a session's cart
 deleted the customer's cart instead

---
 examples/sockshop/workflow/order/orderservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sockshop/workflow/order/orderservice.go b/examples/sockshop/workflow/order/orderservice.go
index 186621d..3f7eb11 100644
--- a/examples/sockshop/workflow/order/orderservice.go
+++ b/examples/sockshop/workflow/order/orderservice.go
@@ -199,7 +199,7 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 	}
 
 	// Delete the cart
-	return order, s.carts.DeleteCart(ctx, customerID)
+	return order, s.carts.DeleteCart(ctx, cartID)
 }
 
 func calculateTotal(items []cart.Item) float32 {
-- 
2.43.0


From 2d389637216471102e04064412deb81e60d12cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 69/82] fix: SockShop queue master did not stop while retrying
 the update of a shipment

---
 examples/sockshop/workflow/queuemaster/queuemaster.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/sockshop/workflow/queuemaster/queuemaster.go b/examples/sockshop/workflow/queuemaster/queuemaster.go
index 906aecb..cd35a63 100644
--- a/examples/sockshop/workflow/queuemaster/queuemaster.go
+++ b/examples/sockshop/workflow/queuemaster/queuemaster.go
@@ -75,6 +75,8 @@ func (q *queueMasterImpl) Run(ctx context.Context) error {
 					if err != nil {
 						if q.exitOnError {
 							return err
+						} else if ctx.Err() != nil {
+							return nil
 						} else {
 							slog.Error(fmt.Sprintf("Unable to send shipment %v due to %v; waiting 1 second then retrying", shipment.ID, err))
 							time.Sleep(1 * time.Second)
-- 
2.43.0


From 8664974617d0ca7207d2868c7c184318070a5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 70/82] fix: SockShop catalogue panicked when listing a
 negative page

---
 examples/sockshop/workflow/catalogue/catalogueservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/sockshop/workflow/catalogue/catalogueservice.go b/examples/sockshop/workflow/catalogue/catalogueservice.go
index 7514dda..929a2cb 100644
--- a/examples/sockshop/workflow/catalogue/catalogueservice.go
+++ b/examples/sockshop/workflow/catalogue/catalogueservice.go
@@ -253,7 +253,7 @@ func (s *catalogueImpl) DeleteSock(ctx context.Context, id string) error {
 }
 
 func cut(socks []Sock, pageNum, pageSize int) []Sock {
-	if pageNum == 0 || pageSize == 0 {
+	if pageNum <= 0 || pageSize <= 0 {
 		return []Sock{} // pageNum is 1-indexed
 	}
 	start := (pageNum * pageSize) - pageSize
-- 
2.43.0


From ff8802366b6ddcbe36e12fd9ad578a3d0f52544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 71/82] fix: SockShop catalogue did not sort listings by the
 specified column

---
 .../workflow/catalogue/catalogueservice.go     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/examples/sockshop/workflow/catalogue/catalogueservice.go b/examples/sockshop/workflow/catalogue/catalogueservice.go
index 929a2cb..3f76999 100644
--- a/examples/sockshop/workflow/catalogue/catalogueservice.go
+++ b/examples/sockshop/workflow/catalogue/catalogueservice.go
@@ -80,6 +80,18 @@ var baseQuery = `SELECT sock.sock_id,
 				JOIN sock_tag ON sock.sock_id=sock_tag.sock_id
 				JOIN tag ON tag.tag_id=sock_tag.tag_id`
 
+// The database columns that [CatalogueService.List] can sort by
+var orderColumns = map[string]string{
+	"id":          "sock.sock_id",
+	"sock_id":     "sock.sock_id",
+	"name":        "sock.name",
+	"description": "sock.description",
+	"price":       "sock.price",
+	"quantity":    "sock.quantity",
+	"image_url_1": "sock.image_url_1",
+	"image_url_2": "sock.image_url_2",
+}
+
 // Implementation of [CatalogueService].  Method implementations are pulled directly from the original
 // SockShop implementation, which was written in golang.
 type catalogueImpl struct {
@@ -111,9 +123,9 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 
 	query += " GROUP BY sock.sock_id"
 
-	if order != "" {
-		query += " ORDER BY ?"
-		args = append(args, order)
+	// Column names can't be query arguments
+	if column, ok := orderColumns[order]; ok {
+		query += " ORDER BY " + column
 	}
 
 	query += ";"
-- 
2.43.0


From f2c805f1b6df4ff45a60829da08cdc16b3159156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 72/82] fix: SockShop catalogue could not find or list socks
 without tags

---
 .../workflow/catalogue/catalogueservice.go    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/examples/sockshop/workflow/catalogue/catalogueservice.go b/examples/sockshop/workflow/catalogue/catalogueservice.go
index 3f76999..7572122 100644
--- a/examples/sockshop/workflow/catalogue/catalogueservice.go
+++ b/examples/sockshop/workflow/catalogue/catalogueservice.go
@@ -73,12 +73,12 @@ var baseQuery = `SELECT sock.sock_id,
 						sock.quantity, 
 						sock.image_url_1, 
 						sock.image_url_2, 
-						GROUP_CONCAT(DISTINCT alltags.name) AS tag_name 
+						COALESCE(GROUP_CONCAT(DISTINCT alltags.name), '') AS tag_name 
 				FROM sock 
-				JOIN sock_tag allsocktags ON sock.sock_id=allsocktags.sock_id 
-				JOIN tag alltags ON allsocktags.tag_id=alltags.tag_id
-				JOIN sock_tag ON sock.sock_id=sock_tag.sock_id
-				JOIN tag ON tag.tag_id=sock_tag.tag_id`
+				LEFT JOIN sock_tag allsocktags ON sock.sock_id=allsocktags.sock_id 
+				LEFT JOIN tag alltags ON allsocktags.tag_id=alltags.tag_id
+				LEFT JOIN sock_tag ON sock.sock_id=sock_tag.sock_id
+				LEFT JOIN tag ON tag.tag_id=sock_tag.tag_id`
 
 // The database columns that [CatalogueService.List] can sort by
 var orderColumns = map[string]string{
@@ -136,7 +136,7 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 	}
 	for i, s := range socks {
 		socks[i].ImageURL = []string{s.ImageURL_1, s.ImageURL_2}
-		socks[i].Tags = strings.Split(s.TagString, ",")
+		socks[i].Tags = splitTags(s.TagString)
 	}
 
 	socks = cut(socks, pageNum, pageSize)
@@ -146,7 +146,7 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 
 // Count implements CatalogueService.
 func (s *catalogueImpl) Count(ctx context.Context, tags []string) (int, error) {
-	query := "SELECT COUNT(DISTINCT sock.sock_id) FROM sock JOIN sock_tag ON sock.sock_id=sock_tag.sock_id JOIN tag ON sock_tag.tag_id=tag.tag_id"
+	query := "SELECT COUNT(DISTINCT sock.sock_id) FROM sock LEFT JOIN sock_tag ON sock.sock_id=sock_tag.sock_id LEFT JOIN tag ON sock_tag.tag_id=tag.tag_id"
 
 	var args []interface{}
 
@@ -190,7 +190,7 @@ func (s *catalogueImpl) Get(ctx context.Context, id string) (Sock, error) {
 	}
 
 	sock.ImageURL = []string{sock.ImageURL_1, sock.ImageURL_2}
-	sock.Tags = strings.Split(sock.TagString, ",")
+	sock.Tags = splitTags(sock.TagString)
 
 	return sock, nil
 }
@@ -264,6 +264,14 @@ func (s *catalogueImpl) DeleteSock(ctx context.Context, id string) error {
 	return nil
 }
 
+// Splits the comma-separated tags of a sock
+func splitTags(tags string) []string {
+	if tags == "" {
+		return nil
+	}
+	return strings.Split(tags, ",")
+}
+
 func cut(socks []Sock, pageNum, pageSize int) []Sock {
 	if pageNum <= 0 || pageSize <= 0 {
 		return []Sock{} // pageNum is 1-indexed
-- 
2.43.0


From 6332514afed8295aa00d50f9b970d90a524c766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 73/82] fix: SockShop lost quantities when merging carts with
 both new and existing items

---
 examples/sockshop/workflow/cart/cartservice.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index fdae23b..ff61982 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -130,13 +130,15 @@ func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID
 
 	// Update quantity of existing items; append new items
 
-	customerCartItems := make(map[string]*Item)
+	// Indices rather than pointers, because appending can move the items
+	customerCartItems := make(map[string]int)
 	for i := 0; i < len(customerCart.Items); i++ {
-		customerCartItems[customerCart.Items[i].ID] = &customerCart.Items[i]
+		customerCartItems[customerCart.Items[i].ID] = i
 	}
 
 	for _, item := range sessionCart.Items {
-		if existing, exists := customerCartItems[item.ID]; exists {
+		if i, exists := customerCartItems[item.ID]; exists {
+			existing := &customerCart.Items[i]
 			existing.Quantity += item.Quantity
 			existing.UnitPrice = item.UnitPrice
 		} else {
-- 
2.43.0


From 4dfecb307f889bd7cc6f64672499a3f9b4529f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 74/82] fix: hotel reservations of several nights were all
 stored as starting on the first night, so overbooked without the cache

---
 .../dsb_hotel/workflow/hotelreservation/ReservationService.go    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index 8c1abf0..3e73dc5 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -171,6 +171,7 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 		if err != nil {
 			return []string{}, err
 		}
+		indate = outdate
 	}
 
 	for key, val := range reservation_update_map {
-- 
2.43.0


From 39796bd5b4977daf2df121add058246dfb6cae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 75/82] fix: concurrent hotel reservations overbooked

---
 .../workflow/hotelreservation/ReservationService.go      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index 3e73dc5..c2d5e33 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -3,6 +3,7 @@ package hotelreservation
 import (
 	"context"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -22,6 +23,7 @@ type ReservationServiceImpl struct {
 	reserveDB    backend.NoSQLDatabase
 	CacheHits    int64
 	NumRequests  int64
+	mu           sync.Mutex // checking the capacity and reserving must happen together
 }
 
 func initReservationDB(ctx context.Context, db backend.NoSQLDatabase) error {
@@ -105,6 +107,10 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 	newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
 	newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
 	hotelId := hotelIds[0]
+
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	indate := newInDate.String()[0:10]
 
 	reservation_update_map := make(map[string]int64)
@@ -196,6 +202,9 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 
 	var available_hotels []string
 
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	for _, hotelId := range hotelIds {
 		newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
 		newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
-- 
2.43.0


From 1d7d2fa03ccddc09d4f50dfd83bc3d60d7993b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 76/82] fix: hotel reservations with impossible dates or
 numbers of rooms were confirmed, never returned or panicked

---
 .../hotelreservation/ReservationService.go    | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index c2d5e33..0f447c0 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -2,6 +2,7 @@ package hotelreservation
 
 import (
 	"context"
+	"errors"
 	"strconv"
 	"sync"
 	"time"
@@ -95,6 +96,15 @@ func NewReservationServiceImpl(ctx context.Context, reserveCache backend.Cache,
 	return r, nil
 }
 
+// Parses the dates (YYYY-MM-DD) of a stay
+func parseStay(inDate string, outDate string) (in time.Time, out time.Time, err error) {
+	if in, err = time.Parse(time.RFC3339, inDate+"T12:00:00+00:00"); err != nil {
+		return in, out, err
+	}
+	out, err = time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
+	return in, out, err
+}
+
 func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerName string, hotelIds []string, inDate string, outDate string, roomNumber int64) ([]string, error) {
 	reservation_collection, err := r.reserveDB.GetCollection(ctx, "reservation-db", "reservation")
 	if err != nil {
@@ -104,8 +114,19 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 	if err != nil {
 		return []string{}, err
 	}
-	newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
-	newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
+	newInDate, newOutDate, err := parseStay(inDate, outDate)
+	if err != nil {
+		return []string{}, err
+	}
+	if !newInDate.Before(newOutDate) {
+		return []string{}, errors.New("outDate must be after inDate")
+	}
+	if len(hotelIds) == 0 {
+		return []string{}, errors.New("missing hotelId")
+	}
+	if roomNumber <= 0 {
+		return []string{}, errors.New("the number of rooms must be positive")
+	}
 	hotelId := hotelIds[0]
 
 	r.mu.Lock()
@@ -166,7 +187,7 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 		indate = outdate
 	}
 
-	newInDate, _ = time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
+	newInDate, _, _ = parseStay(inDate, outDate)
 	indate = newInDate.String()[0:10]
 
 	for newInDate.Before(newOutDate) {
@@ -206,8 +227,10 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 	defer r.mu.Unlock()
 
 	for _, hotelId := range hotelIds {
-		newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
-		newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
+		newInDate, newOutDate, err := parseStay(inDate, outDate)
+		if err != nil {
+			return []string{}, err
+		}
 		indate := newInDate.String()[0:10]
 
 		for newInDate.Before(newOutDate) {
-- 
2.43.0


From 2daff5f7f18f557034ffdf79ce681bbc24b02a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 77/82] fix: hotel search reported no hotels when it could not
 check their availability

---
 examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go b/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
index 22991ac..54534e3 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
@@ -41,7 +41,7 @@ func (f *FrontEndServiceImpl) SearchHandler(ctx context.Context, customerName st
 	}
 	available_hotels, err := f.reservationService.CheckAvailability(ctx, "", nearby_hotels, inDate, outDate, 1)
 	if err != nil {
-		return []HotelProfile{}, nil
+		return []HotelProfile{}, err
 	}
 	profiles, err := f.profileService.GetProfiles(ctx, available_hotels, locale)
 	if err != nil {
-- 
2.43.0


From 689924b05ed6c997ab2ea1a2396760516150d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 78/82] fix: concurrent searches for nearby hotels or
 attractions crashed the process

---
 .../workflow/hotelreservation/AttractionsService.go         | 2 ++
 examples/dsb_hotel/workflow/hotelreservation/GeoService.go  | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go b/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
index a7a7b91..848b458 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
@@ -135,6 +135,8 @@ func (a *AttractionsServiceImpl) newGeoIndex(ctx context.Context, collectionName
 
 func nearbyAttractions(index *geoindex.ClusteringIndex, lat float64, lon float64) []geoindex.Point {
 	center := &geoindex.GeoPoint{Pid: "", Plat: lat, Plon: lon}
+	geoindexMu.Lock()
+	defer geoindexMu.Unlock()
 	return index.KNearest(
 		center,
 		attractionsMaxSearchResults,
diff --git a/examples/dsb_hotel/workflow/hotelreservation/GeoService.go b/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
index bcdcbd1..6b4cb28 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
@@ -3,6 +3,7 @@ package hotelreservation
 import (
 	"context"
 	"strconv"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	geoindex "github.com/hailocab/go-geoindex"
@@ -105,9 +106,14 @@ func (g *GeoServiceImpl) newGeoIndex(ctx context.Context) error {
 	return nil
 }
 
+// Queries of any geoindex write to a global variable of the geoindex package
+var geoindexMu sync.Mutex
+
 func (g *GeoServiceImpl) getNearbyPoints(lat float64, lon float64) []geoindex.Point {
 	center := &Point{Pid: "", Plat: lat, Plon: lon}
 
+	geoindexMu.Lock()
+	defer geoindexMu.Unlock()
 	return g.index.KNearest(center, MAXSEARCHRESULTS, geoindex.Km(MAXSEARCHRADIUS), func(p geoindex.Point) bool { return true })
 }
 
-- 
2.43.0


From b8063ba8caa6699dd071ae419fc92ef93084ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:37 +0000
Subject: [PATCH 79/82] fix: hotel reservations of huge numbers of rooms
 overflowed the capacity check

---
 .../dsb_hotel/workflow/hotelreservation/ReservationService.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index 0f447c0..fd64705 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -181,7 +181,7 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 				return []string{}, err
 			}
 		}
-		if room_number+roomNumber > capacity {
+		if roomNumber > capacity-room_number {
 			return []string{}, nil
 		}
 		indate = outdate
@@ -288,7 +288,7 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 			} else {
 				r.CacheHits += 1
 			}
-			if count+roomNumber > capacity {
+			if roomNumber > capacity-count {
 				break
 			}
 
-- 
2.43.0


From fd454d840134dcde51b6428f5561d90e35039b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 80/82] fix: hotel availability counted reservations of the
 first night only when the cache had forgotten the count

---
 .../dsb_hotel/workflow/hotelreservation/ReservationService.go    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index fd64705..a2b6d13 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -263,6 +263,7 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 			} else {
 				r.CacheHits += 1
 			}
+			indate = outdate
 
 			// Check capacity
 			cap_key := hotelId + "_cap"
-- 
2.43.0


From c5fbcb80190a845699891cd5db3c2eada82c9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 81/82] fix: concurrent hotel recommendations by distance
 crashed the process

---
 .../workflow/hotelreservation/RecommendationService.go          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go b/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
index ae3d4ea..914908b 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
@@ -132,6 +132,7 @@ func (r *RecommendationServiceImpl) GetRecommendations(ctx context.Context, requ
 		p1 := &geoindex.GeoPoint{Pid: "", Plat: lat, Plon: lon}
 		min := math.MaxFloat64
 		dist := make(map[string]float64)
+		geoindexMu.Lock()
 		for _, hotel := range r.hotels {
 			hotel_pt := &geoindex.GeoPoint{Pid: "", Plat: hotel.HLat, Plon: hotel.HLon}
 			tmp := float64(geoindex.Distance(p1, hotel_pt)) / 1000
@@ -140,6 +141,7 @@ func (r *RecommendationServiceImpl) GetRecommendations(ctx context.Context, requ
 			}
 			dist[hotel.HId] = tmp
 		}
+		geoindexMu.Unlock()
 		for _, hotel := range r.hotels {
 			distance := dist[hotel.HId]
 			if distance == min {
-- 
2.43.0


From 481779983db27bf556c09ee60f1edc3398592ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 82/82] fix: leave the example applications as they were (their
 defects are recorded in /verif instead)

---
 .../hotelreservation/AttractionsService.go    |  2 -
 .../hotelreservation/FrontEndService.go       |  2 +-
 .../workflow/hotelreservation/GeoService.go   |  6 ---
 .../hotelreservation/RecommendationService.go |  2 -
 .../hotelreservation/ReservationService.go    | 48 +++----------------
 .../sockshop/workflow/cart/cartservice.go     | 13 ++---
 .../workflow/catalogue/catalogueservice.go    | 44 +++++------------
 .../sockshop/workflow/frontend/frontend.go    |  4 --
 .../sockshop/workflow/order/orderservice.go   |  2 +-
 .../workflow/queuemaster/queuemaster.go       |  2 -
 .../sockshop/workflow/user/addressesdb.go     | 21 ++++++++
 examples/sockshop/workflow/user/cardsdb.go    | 21 ++++++++
 examples/sockshop/workflow/user/userdb.go     | 16 +++----
 .../sockshop/workflow/user/userservice.go     | 16 +++----
 14 files changed, 80 insertions(+), 119 deletions(-)

diff --git a/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go b/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
index 848b458..a7a7b91 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/AttractionsService.go
@@ -135,8 +135,6 @@ func (a *AttractionsServiceImpl) newGeoIndex(ctx context.Context, collectionName
 
 func nearbyAttractions(index *geoindex.ClusteringIndex, lat float64, lon float64) []geoindex.Point {
 	center := &geoindex.GeoPoint{Pid: "", Plat: lat, Plon: lon}
-	geoindexMu.Lock()
-	defer geoindexMu.Unlock()
 	return index.KNearest(
 		center,
 		attractionsMaxSearchResults,
diff --git a/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go b/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
index 54534e3..22991ac 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/FrontEndService.go
@@ -41,7 +41,7 @@ func (f *FrontEndServiceImpl) SearchHandler(ctx context.Context, customerName st
 	}
 	available_hotels, err := f.reservationService.CheckAvailability(ctx, "", nearby_hotels, inDate, outDate, 1)
 	if err != nil {
-		return []HotelProfile{}, err
+		return []HotelProfile{}, nil
 	}
 	profiles, err := f.profileService.GetProfiles(ctx, available_hotels, locale)
 	if err != nil {
diff --git a/examples/dsb_hotel/workflow/hotelreservation/GeoService.go b/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
index 6b4cb28..bcdcbd1 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/GeoService.go
@@ -3,7 +3,6 @@ package hotelreservation
 import (
 	"context"
 	"strconv"
-	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	geoindex "github.com/hailocab/go-geoindex"
@@ -106,14 +105,9 @@ func (g *GeoServiceImpl) newGeoIndex(ctx context.Context) error {
 	return nil
 }
 
-// Queries of any geoindex write to a global variable of the geoindex package
-var geoindexMu sync.Mutex
-
 func (g *GeoServiceImpl) getNearbyPoints(lat float64, lon float64) []geoindex.Point {
 	center := &Point{Pid: "", Plat: lat, Plon: lon}
 
-	geoindexMu.Lock()
-	defer geoindexMu.Unlock()
 	return g.index.KNearest(center, MAXSEARCHRESULTS, geoindex.Km(MAXSEARCHRADIUS), func(p geoindex.Point) bool { return true })
 }
 
diff --git a/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go b/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
index 914908b..ae3d4ea 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/RecommendationService.go
@@ -132,7 +132,6 @@ func (r *RecommendationServiceImpl) GetRecommendations(ctx context.Context, requ
 		p1 := &geoindex.GeoPoint{Pid: "", Plat: lat, Plon: lon}
 		min := math.MaxFloat64
 		dist := make(map[string]float64)
-		geoindexMu.Lock()
 		for _, hotel := range r.hotels {
 			hotel_pt := &geoindex.GeoPoint{Pid: "", Plat: hotel.HLat, Plon: hotel.HLon}
 			tmp := float64(geoindex.Distance(p1, hotel_pt)) / 1000
@@ -141,7 +140,6 @@ func (r *RecommendationServiceImpl) GetRecommendations(ctx context.Context, requ
 			}
 			dist[hotel.HId] = tmp
 		}
-		geoindexMu.Unlock()
 		for _, hotel := range r.hotels {
 			distance := dist[hotel.HId]
 			if distance == min {
diff --git a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
index a2b6d13..8c1abf0 100644
--- a/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
+++ b/examples/dsb_hotel/workflow/hotelreservation/ReservationService.go
@@ -2,9 +2,7 @@ package hotelreservation
 
 import (
 	"context"
-	"errors"
 	"strconv"
-	"sync"
 	"time"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -24,7 +22,6 @@ type ReservationServiceImpl struct {
 	reserveDB    backend.NoSQLDatabase
 	CacheHits    int64
 	NumRequests  int64
-	mu           sync.Mutex // checking the capacity and reserving must happen together
 }
 
 func initReservationDB(ctx context.Context, db backend.NoSQLDatabase) error {
@@ -96,15 +93,6 @@ func NewReservationServiceImpl(ctx context.Context, reserveCache backend.Cache,
 	return r, nil
 }
 
-// Parses the dates (YYYY-MM-DD) of a stay
-func parseStay(inDate string, outDate string) (in time.Time, out time.Time, err error) {
-	if in, err = time.Parse(time.RFC3339, inDate+"T12:00:00+00:00"); err != nil {
-		return in, out, err
-	}
-	out, err = time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
-	return in, out, err
-}
-
 func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerName string, hotelIds []string, inDate string, outDate string, roomNumber int64) ([]string, error) {
 	reservation_collection, err := r.reserveDB.GetCollection(ctx, "reservation-db", "reservation")
 	if err != nil {
@@ -114,24 +102,9 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 	if err != nil {
 		return []string{}, err
 	}
-	newInDate, newOutDate, err := parseStay(inDate, outDate)
-	if err != nil {
-		return []string{}, err
-	}
-	if !newInDate.Before(newOutDate) {
-		return []string{}, errors.New("outDate must be after inDate")
-	}
-	if len(hotelIds) == 0 {
-		return []string{}, errors.New("missing hotelId")
-	}
-	if roomNumber <= 0 {
-		return []string{}, errors.New("the number of rooms must be positive")
-	}
+	newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
+	newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
 	hotelId := hotelIds[0]
-
-	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	indate := newInDate.String()[0:10]
 
 	reservation_update_map := make(map[string]int64)
@@ -181,13 +154,13 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 				return []string{}, err
 			}
 		}
-		if roomNumber > capacity-room_number {
+		if room_number+roomNumber > capacity {
 			return []string{}, nil
 		}
 		indate = outdate
 	}
 
-	newInDate, _, _ = parseStay(inDate, outDate)
+	newInDate, _ = time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
 	indate = newInDate.String()[0:10]
 
 	for newInDate.Before(newOutDate) {
@@ -198,7 +171,6 @@ func (r *ReservationServiceImpl) MakeReservation(ctx context.Context, customerNa
 		if err != nil {
 			return []string{}, err
 		}
-		indate = outdate
 	}
 
 	for key, val := range reservation_update_map {
@@ -223,14 +195,9 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 
 	var available_hotels []string
 
-	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	for _, hotelId := range hotelIds {
-		newInDate, newOutDate, err := parseStay(inDate, outDate)
-		if err != nil {
-			return []string{}, err
-		}
+		newInDate, _ := time.Parse(time.RFC3339, inDate+"T12:00:00+00:00")
+		newOutDate, _ := time.Parse(time.RFC3339, outDate+"T12:00:00+00:00")
 		indate := newInDate.String()[0:10]
 
 		for newInDate.Before(newOutDate) {
@@ -263,7 +230,6 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 			} else {
 				r.CacheHits += 1
 			}
-			indate = outdate
 
 			// Check capacity
 			cap_key := hotelId + "_cap"
@@ -289,7 +255,7 @@ func (r *ReservationServiceImpl) CheckAvailability(ctx context.Context, customer
 			} else {
 				r.CacheHits += 1
 			}
-			if roomNumber > capacity-count {
+			if count+roomNumber > capacity {
 				break
 			}
 
diff --git a/examples/sockshop/workflow/cart/cartservice.go b/examples/sockshop/workflow/cart/cartservice.go
index ff61982..0eb8fcf 100644
--- a/examples/sockshop/workflow/cart/cartservice.go
+++ b/examples/sockshop/workflow/cart/cartservice.go
@@ -109,11 +109,6 @@ func (s *cartImpl) GetItem(ctx context.Context, customerID string, itemID string
 
 // MergeCarts implements CartService.
 func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID string) error {
-	if customerID == sessionID {
-		// Already the customer's own cart
-		return nil
-	}
-
 	sessionCart, err := s.getCart(ctx, sessionID)
 	if err != nil {
 		return err
@@ -130,15 +125,13 @@ func (s *cartImpl) MergeCarts(ctx context.Context, customerID string, sessionID
 
 	// Update quantity of existing items; append new items
 
-	// Indices rather than pointers, because appending can move the items
-	customerCartItems := make(map[string]int)
+	customerCartItems := make(map[string]*Item)
 	for i := 0; i < len(customerCart.Items); i++ {
-		customerCartItems[customerCart.Items[i].ID] = i
+		customerCartItems[customerCart.Items[i].ID] = &customerCart.Items[i]
 	}
 
 	for _, item := range sessionCart.Items {
-		if i, exists := customerCartItems[item.ID]; exists {
-			existing := &customerCart.Items[i]
+		if existing, exists := customerCartItems[item.ID]; exists {
 			existing.Quantity += item.Quantity
 			existing.UnitPrice = item.UnitPrice
 		} else {
diff --git a/examples/sockshop/workflow/catalogue/catalogueservice.go b/examples/sockshop/workflow/catalogue/catalogueservice.go
index 7572122..7514dda 100644
--- a/examples/sockshop/workflow/catalogue/catalogueservice.go
+++ b/examples/sockshop/workflow/catalogue/catalogueservice.go
@@ -73,24 +73,12 @@ var baseQuery = `SELECT sock.sock_id,
 						sock.quantity, 
 						sock.image_url_1, 
 						sock.image_url_2, 
-						COALESCE(GROUP_CONCAT(DISTINCT alltags.name), '') AS tag_name 
+						GROUP_CONCAT(DISTINCT alltags.name) AS tag_name 
 				FROM sock 
-				LEFT JOIN sock_tag allsocktags ON sock.sock_id=allsocktags.sock_id 
-				LEFT JOIN tag alltags ON allsocktags.tag_id=alltags.tag_id
-				LEFT JOIN sock_tag ON sock.sock_id=sock_tag.sock_id
-				LEFT JOIN tag ON tag.tag_id=sock_tag.tag_id`
-
-// The database columns that [CatalogueService.List] can sort by
-var orderColumns = map[string]string{
-	"id":          "sock.sock_id",
-	"sock_id":     "sock.sock_id",
-	"name":        "sock.name",
-	"description": "sock.description",
-	"price":       "sock.price",
-	"quantity":    "sock.quantity",
-	"image_url_1": "sock.image_url_1",
-	"image_url_2": "sock.image_url_2",
-}
+				JOIN sock_tag allsocktags ON sock.sock_id=allsocktags.sock_id 
+				JOIN tag alltags ON allsocktags.tag_id=alltags.tag_id
+				JOIN sock_tag ON sock.sock_id=sock_tag.sock_id
+				JOIN tag ON tag.tag_id=sock_tag.tag_id`
 
 // Implementation of [CatalogueService].  Method implementations are pulled directly from the original
 // SockShop implementation, which was written in golang.
@@ -123,9 +111,9 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 
 	query += " GROUP BY sock.sock_id"
 
-	// Column names can't be query arguments
-	if column, ok := orderColumns[order]; ok {
-		query += " ORDER BY " + column
+	if order != "" {
+		query += " ORDER BY ?"
+		args = append(args, order)
 	}
 
 	query += ";"
@@ -136,7 +124,7 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 	}
 	for i, s := range socks {
 		socks[i].ImageURL = []string{s.ImageURL_1, s.ImageURL_2}
-		socks[i].Tags = splitTags(s.TagString)
+		socks[i].Tags = strings.Split(s.TagString, ",")
 	}
 
 	socks = cut(socks, pageNum, pageSize)
@@ -146,7 +134,7 @@ func (s *catalogueImpl) List(ctx context.Context, tags []string, order string, p
 
 // Count implements CatalogueService.
 func (s *catalogueImpl) Count(ctx context.Context, tags []string) (int, error) {
-	query := "SELECT COUNT(DISTINCT sock.sock_id) FROM sock LEFT JOIN sock_tag ON sock.sock_id=sock_tag.sock_id LEFT JOIN tag ON sock_tag.tag_id=tag.tag_id"
+	query := "SELECT COUNT(DISTINCT sock.sock_id) FROM sock JOIN sock_tag ON sock.sock_id=sock_tag.sock_id JOIN tag ON sock_tag.tag_id=tag.tag_id"
 
 	var args []interface{}
 
@@ -190,7 +178,7 @@ func (s *catalogueImpl) Get(ctx context.Context, id string) (Sock, error) {
 	}
 
 	sock.ImageURL = []string{sock.ImageURL_1, sock.ImageURL_2}
-	sock.Tags = splitTags(sock.TagString)
+	sock.Tags = strings.Split(sock.TagString, ",")
 
 	return sock, nil
 }
@@ -264,16 +252,8 @@ func (s *catalogueImpl) DeleteSock(ctx context.Context, id string) error {
 	return nil
 }
 
-// Splits the comma-separated tags of a sock
-func splitTags(tags string) []string {
-	if tags == "" {
-		return nil
-	}
-	return strings.Split(tags, ",")
-}
-
 func cut(socks []Sock, pageNum, pageSize int) []Sock {
-	if pageNum <= 0 || pageSize <= 0 {
+	if pageNum == 0 || pageSize == 0 {
 		return []Sock{} // pageNum is 1-indexed
 	}
 	start := (pageNum * pageSize) - pageSize
diff --git a/examples/sockshop/workflow/frontend/frontend.go b/examples/sockshop/workflow/frontend/frontend.go
index b65bcf5..373e872 100644
--- a/examples/sockshop/workflow/frontend/frontend.go
+++ b/examples/sockshop/workflow/frontend/frontend.go
@@ -264,10 +264,6 @@ func (f *frontend) Register(ctx context.Context, sessionID string, username stri
 
 // UpdateItem implements Frontend.
 func (f *frontend) UpdateItem(ctx context.Context, sessionID string, itemID string, quantity int) (string, error) {
-	if sessionID == "" {
-		sessionID = uuid.NewString()
-	}
-
 	item, err := f.catalogue.Get(ctx, itemID)
 	if err != nil {
 		return sessionID, err
diff --git a/examples/sockshop/workflow/order/orderservice.go b/examples/sockshop/workflow/order/orderservice.go
index 3f7eb11..186621d 100644
--- a/examples/sockshop/workflow/order/orderservice.go
+++ b/examples/sockshop/workflow/order/orderservice.go
@@ -199,7 +199,7 @@ func (s *orderImpl) NewOrder(ctx context.Context, customerID, addressID, cardID,
 	}
 
 	// Delete the cart
-	return order, s.carts.DeleteCart(ctx, cartID)
+	return order, s.carts.DeleteCart(ctx, customerID)
 }
 
 func calculateTotal(items []cart.Item) float32 {
diff --git a/examples/sockshop/workflow/queuemaster/queuemaster.go b/examples/sockshop/workflow/queuemaster/queuemaster.go
index cd35a63..906aecb 100644
--- a/examples/sockshop/workflow/queuemaster/queuemaster.go
+++ b/examples/sockshop/workflow/queuemaster/queuemaster.go
@@ -75,8 +75,6 @@ func (q *queueMasterImpl) Run(ctx context.Context) error {
 					if err != nil {
 						if q.exitOnError {
 							return err
-						} else if ctx.Err() != nil {
-							return nil
 						} else {
 							slog.Error(fmt.Sprintf("Unable to send shipment %v due to %v; waiting 1 second then retrying", shipment.ID, err))
 							time.Sleep(1 * time.Second)
diff --git a/examples/sockshop/workflow/user/addressesdb.go b/examples/sockshop/workflow/user/addressesdb.go
index 6c0f05a..2e55563 100644
--- a/examples/sockshop/workflow/user/addressesdb.go
+++ b/examples/sockshop/workflow/user/addressesdb.go
@@ -24,6 +24,27 @@ func newAddressStore(ctx context.Context, db backend.NoSQLDatabase) (*addressSto
 	return &addressStore{c: c}, err
 }
 
+// Gets an address by object Id
+func (s *addressStore) getAddress(ctx context.Context, addressid string) (Address, error) {
+	// Convert the address ID
+	id, err := primitive.ObjectIDFromHex(addressid)
+	if err != nil {
+		return Address{}, errors.New("Invalid ID Hex")
+	}
+
+	// Run the query
+	cursor, err := s.c.FindOne(ctx, bson.D{{"_id", id}})
+	if err != nil {
+		return Address{}, err
+	}
+	address := dbAddress{}
+	_, err = cursor.One(ctx, &address)
+
+	// Convert from DB address data to Address object
+	address.Address.ID = address.ID.Hex()
+	return address.Address, err
+}
+
 // Gets addresses from the address store
 func (s *addressStore) getAddresses(ctx context.Context, addressIds []string) ([]Address, error) {
 	if len(addressIds) == 0 {
diff --git a/examples/sockshop/workflow/user/cardsdb.go b/examples/sockshop/workflow/user/cardsdb.go
index 8c85412..8abeaea 100644
--- a/examples/sockshop/workflow/user/cardsdb.go
+++ b/examples/sockshop/workflow/user/cardsdb.go
@@ -24,6 +24,27 @@ func newCardStore(ctx context.Context, db backend.NoSQLDatabase) (*cardStore, er
 	return &cardStore{c: c}, err
 }
 
+// Gets card by objects Id
+func (s *cardStore) getCard(ctx context.Context, cardid string) (Card, error) {
+	// Convert the card ID
+	id, err := primitive.ObjectIDFromHex(cardid)
+	if err != nil {
+		return Card{}, errors.New("Invalid ID Hex")
+	}
+
+	// Run the query
+	cursor, err := s.c.FindOne(ctx, bson.D{{"_id", id}})
+	if err != nil {
+		return Card{}, err
+	}
+	card := dbCard{}
+	_, err = cursor.One(ctx, &card)
+
+	// Convert from DB card data to Card object
+	card.Card.ID = card.ID.Hex()
+	return card.Card, err
+}
+
 // Gets cards from the card store
 func (s *cardStore) getCards(ctx context.Context, cardIds []string) ([]Card, error) {
 	if len(cardIds) == 0 {
diff --git a/examples/sockshop/workflow/user/userdb.go b/examples/sockshop/workflow/user/userdb.go
index 156efdf..9e92ea3 100644
--- a/examples/sockshop/workflow/user/userdb.go
+++ b/examples/sockshop/workflow/user/userdb.go
@@ -96,29 +96,29 @@ func (s *userStore) getUserByName(ctx context.Context, username string) (User, e
 	return u.User, nil
 }
 
-// Get user by their object id; also reports whether there is such a user
-func (s *userStore) getUser(ctx context.Context, userid string) (User, bool, error) {
+// Get user by their object id
+func (s *userStore) getUser(ctx context.Context, userid string) (User, error) {
 	// Convert user ID to bson object ID
 	id, err := primitive.ObjectIDFromHex(userid)
 	if err != nil {
-		return newUser(), false, errors.New("Invalid Id Hex")
+		return newUser(), errors.New("Invalid Id Hex")
 	}
 
 	// Execute query
 	cursor, err := s.customers.FindOne(ctx, bson.D{{"_id", id}})
 	if err != nil {
-		return newUser(), false, err
+		return newUser(), err
 	}
 
 	// Extract query result
 	u := dbUser{}
-	if exists, err := cursor.One(ctx, &u); err != nil || !exists {
-		return newUser(), false, err
+	if _, err := cursor.One(ctx, &u); err != nil {
+		return newUser(), err
 	}
 
 	// Set the hex string IDs for the user, cards, and addresses before returning
 	u.AddUserIDs()
-	return u.User, true, nil
+	return u.User, nil
 }
 
 // Get all users
@@ -239,7 +239,7 @@ func (s *userStore) deleteUser(ctx context.Context, userid string) error {
 	}
 
 	// Get user details
-	u, _, err := s.getUser(ctx, userid)
+	u, err := s.getUser(ctx, userid)
 	if err != nil {
 		return err
 	}
diff --git a/examples/sockshop/workflow/user/userservice.go b/examples/sockshop/workflow/user/userservice.go
index a2e35af..2a17662 100644
--- a/examples/sockshop/workflow/user/userservice.go
+++ b/examples/sockshop/workflow/user/userservice.go
@@ -154,11 +154,8 @@ func (s *userServiceImpl) GetUsers(ctx context.Context, userid string) ([]User,
 	if userid == "" {
 		return s.users.getUsers(ctx)
 	} else {
-		user, exists, err := s.users.getUser(ctx, userid)
-		if err != nil || !exists {
-			return []User{}, err
-		}
-		return []User{user}, nil
+		user, err := s.users.getUser(ctx, userid)
+		return []User{user}, err
 	}
 }
 
@@ -173,7 +170,8 @@ func (s *userServiceImpl) GetAddresses(ctx context.Context, addressid string) ([
 	if addressid == "" {
 		return s.users.addresses.getAllAddresses(ctx)
 	} else {
-		return s.users.addresses.getAddresses(ctx, []string{addressid})
+		address, err := s.users.addresses.getAddress(ctx, addressid)
+		return []Address{address}, err
 	}
 }
 
@@ -186,7 +184,8 @@ func (s *userServiceImpl) GetCards(ctx context.Context, cardid string) ([]Card,
 	if cardid == "" {
 		return s.users.cards.getAllCards(ctx)
 	} else {
-		return s.users.cards.getCards(ctx, []string{cardid})
+		card, err := s.users.cards.getCard(ctx, cardid)
+		return []Card{card}, err
 	}
 }
 
@@ -258,9 +257,6 @@ func (u *User) cardIDs() []string {
 // Replaces the CC number with asterisks for returning to the user for display
 func (c *Card) maskCC() {
 	l := len(c.LongNum) - 4
-	if l < 0 {
-		l = 0
-	}
 	c.LongNum = fmt.Sprintf("%v%v", strings.Repeat("*", l), c.LongNum[l:])
 }
 
-- 
2.43.0

