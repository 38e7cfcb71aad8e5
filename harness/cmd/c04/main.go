// C04: document store operations are atomic, isolated and free of aliasing.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"
	"verif/harness/mongo"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

type D = bson.D
type A = bson.A

var ctx = context.Background()

// ------------------------------------------------------------------ sequential model

type in struct {
	Coll   int    `json:"coll"`
	Op     string `json:"op"`
	Filter D      `json:"filter,omitempty"`
	Update D      `json:"update,omitempty"`
	Docs   []D    `json:"docs,omitempty"`
}
type out struct {
	Err  bool   `json:"err"`
	N    int    `json:"n"`
	Docs string `json:"docs,omitempty"` // canonical form of the documents read
}

// canon prints a document without its _id.
func canon(d D) string {
	var e D
	for _, x := range d {
		if x.Key != "_id" {
			e = append(e, x)
		}
	}
	b, err := bson.MarshalExtJSON(e, false, false)
	if err != nil {
		return "unprintable: " + err.Error()
	}
	return string(b)
}
func canons(ds []D) string {
	var s []string
	for _, d := range ds {
		s = append(s, canon(d))
	}
	return strings.Join(s, "\n")
}

type state struct {
	docs []D
	key  string
}

func mk(docs []D) state {
	var b strings.Builder
	for _, d := range docs {
		if len(d) > 0 && d[0].Key == "_id" {
			fmt.Fprint(&b, d[0].Value)
		}
		b.WriteString(canon(d) + "\n")
	}
	return state{docs, b.String()}
}

// keepID is the replacement of a document: it keeps the known _id (only UpsertID documents have one in the model).
func keepID(old, d D) D {
	if len(old) > 0 && old[0].Key == "_id" && (len(d) == 0 || d[0].Key != "_id") {
		return append(D{old[0]}, d...)
	}
	return d
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			c := o.Input.(in).Coll
			m[c] = append(m[c], o)
		}
		var r [][]porcupine.Operation
		for _, v := range m {
			r = append(r, v)
		}
		return r
	},
	Init:  func() any { return mk(nil) },
	Equal: func(a, b any) bool { return a.(state).key == b.(state).key },
	Step: func(s, i, o any) (bool, any) {
		st, want, err := apply(s.(state), i.(in))
		oo := o.(out)
		if err != nil {
			return oo.Err, s
		}
		return want == oo, st
	},
}

func apply(s state, i in) (state, out, error) {
	hit := func(d D) bool {
		ok, err := mongo.Match(i.Filter, d)
		if err != nil {
			panic(fmt.Sprintf("model filter %v: %v", i.Filter, err))
		}
		return ok
	}
	var idx []int
	if i.Filter != nil {
		for k, d := range s.docs {
			if hit(d) {
				idx = append(idx, k)
			}
		}
	}
	one := idx
	if len(one) > 1 {
		one = one[:1]
	}
	docs := append([]D{}, s.docs...)
	switch i.Op {
	case "insert":
		docs = append(docs, i.Docs...)
		return mk(docs), out{}, nil
	case "findone", "findmany":
		use := idx
		if i.Op == "findone" {
			use = one
		}
		var r []D
		for _, k := range use {
			r = append(r, s.docs[k])
		}
		return s, out{N: len(r), Docs: canons(r)}, nil
	case "updateone", "updatemany":
		use := idx
		if i.Op == "updateone" {
			use = one
		}
		for _, k := range use {
			d, err := mongo.Update(i.Update, docs[k])
			if err != nil {
				return s, out{}, err
			}
			docs[k] = d
		}
		return mk(docs), out{N: len(use)}, nil
	case "deleteone", "deletemany":
		use := idx
		if i.Op == "deleteone" {
			use = one
		}
		for k := len(use) - 1; k >= 0; k-- {
			docs = append(docs[:use[k]], docs[use[k]+1:]...)
		}
		return mk(docs), out{}, nil
	case "replaceone", "replacemany":
		n := 0
		for k := 0; k < len(idx) && k < len(i.Docs); k++ {
			docs[idx[k]] = keepID(docs[idx[k]], i.Docs[k])
			n++
		}
		return mk(docs), out{N: n}, nil
	case "upsert", "upsertid":
		if len(one) == 1 {
			docs[one[0]] = keepID(docs[one[0]], i.Docs[0])
			return mk(docs), out{N: 1}, nil
		}
		docs = append(docs, i.Docs[0])
		return mk(docs), out{N: 0}, nil
	}
	panic(i.Op)
}

// ------------------------------------------------------------------ histories

type ev struct {
	Client int   `json:"client"`
	Call   int64 `json:"call"`
	Ret    int64 `json:"ret"`
	In     in    `json:"in"`
	Out    out   `json:"out"`
}

type names struct{ db, coll string }

// name pairs that must stay apart although they look alike when joined
var nameSets = [][]names{
	{{"a", "b"}},
	{{"a", "b"}, {"a", "c"}},
	{{"a", "b"}, {"b", "a"}},
	{{"a", "b.c"}, {"a.b", "c"}},
	{{"", "ab"}, {"ab", ""}},
	{{"a", "b"}, {"A", "b"}},
	{{"a/b", "c"}, {"a", "b/c"}, {"a", "b"}},
}

func newDB(h *hx.H) backend.NoSQLDatabase {
	db, err := simplenosqldb.NewSimpleNoSQLDB(ctx)
	if err != nil {
		h.Violatef("new", nil, "NewSimpleNoSQLDB failed: %v", err)
		h.Done()
	}
	return db
}

func coll(h *hx.H, db backend.NoSQLDatabase, n names) backend.NoSQLCollection {
	c, err := db.GetCollection(ctx, n.db, n.coll)
	if err != nil || c == nil {
		h.Violatef("getcollection", nil, "GetCollection(%q,%q) = %v, %v", n.db, n.coll, c, err)
		h.Done()
	}
	return c
}

func oid(i int) primitive.ObjectID {
	var o primitive.ObjectID
	o[11] = byte(i)
	return o
}

type cursorCheck struct {
	i   int
	cur backend.NoSQLCursor
}

func genOp(r *rand.Rand, ci, k, ncoll, profile int) in {
	i := in{Coll: r.Intn(ncoll)}
	g := int32(r.Intn(2))
	uniq := int32(ci*100 + k)
	doc := func(j int32) D {
		d := D{{Key: "h", Value: int32(1)}, {Key: "g", Value: g}, {Key: "u", Value: uniq*10 + j}, {Key: "n", Value: int32(r.Intn(3))}}
		if r.Intn(3) == 0 {
			d = append(d, bson.E{Key: "t", Value: A{int32(1)}})
		}
		if r.Intn(8) == 0 {
			d = append(d, bson.E{Key: "s", Value: "str"}) // makes $inc of s fail
		}
		return d
	}
	filter := func() D {
		switch r.Intn(5) {
		case 0:
			return D{{Key: "h", Value: int32(1)}}
		case 1:
			return D{{Key: "h", Value: int32(1)}, {Key: "n", Value: D{{Key: "$lt", Value: int32(2)}}}}
		default:
			return D{{Key: "h", Value: int32(1)}, {Key: "g", Value: g}}
		}
	}
	update := func() D {
		switch r.Intn(8) {
		case 0:
			return D{{Key: "$set", Value: D{{Key: "n", Value: int32(0)}, {Key: "w", Value: uniq}}}}
		case 1:
			return D{{Key: "$push", Value: D{{Key: "t", Value: uniq}}}}
		case 2:
			return D{{Key: "$inc", Value: D{{Key: "s", Value: int32(1)}}}, {Key: "$set", Value: D{{Key: "w", Value: uniq}}}}
		case 3:
			return D{{Key: "$unset", Value: D{{Key: "w", Value: ""}}}, {Key: "$set", Value: D{{Key: "g", Value: int32(r.Intn(2))}}}}
		default:
			return D{{Key: "$inc", Value: D{{Key: "n", Value: int32(1)}}}}
		}
	}
	var w [12]int
	ops := [12]string{"insert", "findone", "findmany", "updateone", "updatemany", "deleteone", "deletemany", "replaceone", "replacemany", "upsert", "upsertid", "insertmany"}
	switch profile {
	case 0: // counters
		w = [12]int{1, 3, 2, 8, 4, 1, 0, 0, 0, 1, 0, 1}
	case 1: // population
		w = [12]int{4, 1, 4, 1, 0, 4, 1, 0, 0, 4, 3, 3}
	case 2: // replacement
		w = [12]int{2, 2, 3, 3, 1, 1, 0, 4, 3, 3, 2, 1}
	default:
		w = [12]int{2, 2, 3, 2, 2, 2, 1, 2, 2, 2, 2, 2}
	}
	sum := 0
	for _, x := range w {
		sum += x
	}
	x := r.Intn(sum)
	o := 0
	for x >= w[o] {
		x -= w[o]
		o++
	}
	i.Op = ops[o]
	switch i.Op {
	case "insert":
		i.Docs = []D{doc(0)}
	case "insertmany":
		i.Op = "insert"
		i.Docs = []D{doc(0), doc(1), doc(2)}[:2+r.Intn(2)]
	case "findone", "findmany", "deleteone", "deletemany":
		i.Filter = filter()
	case "updateone", "updatemany":
		i.Filter, i.Update = filter(), update()
	case "replaceone", "upsert":
		i.Filter, i.Docs = filter(), []D{doc(0)}
	case "replacemany":
		i.Filter, i.Docs = filter(), []D{doc(0), doc(1), doc(2)}[:1+r.Intn(3)]
	case "upsertid":
		o := int32(1 + r.Intn(2))
		i.Filter, i.Docs = D{{Key: "_id", Value: oid(int(o))}}, []D{append(D{{Key: "_id", Value: oid(int(o))}}, doc(0)...)}
	}
	return i
}

// exec performs the operation on the real store, returning a cursor for finds.
func exec(c backend.NoSQLCollection, i in) (o out, cur backend.NoSQLCursor) {
	anys := func() []any {
		var r []any
		for _, d := range i.Docs {
			r = append(r, d)
		}
		return r
	}
	var err error
	switch i.Op {
	case "insert":
		if len(i.Docs) == 1 {
			err = c.InsertOne(ctx, i.Docs[0])
		} else {
			err = c.InsertMany(ctx, anys())
		}
	case "findone":
		cur, err = c.FindOne(ctx, i.Filter)
	case "findmany":
		cur, err = c.FindMany(ctx, i.Filter)
	case "updateone":
		o.N, err = c.UpdateOne(ctx, i.Filter, i.Update)
	case "updatemany":
		o.N, err = c.UpdateMany(ctx, i.Filter, i.Update)
	case "deleteone":
		err = c.DeleteOne(ctx, i.Filter)
	case "deletemany":
		err = c.DeleteMany(ctx, i.Filter)
	case "replaceone":
		o.N, err = c.ReplaceOne(ctx, i.Filter, i.Docs[0])
	case "replacemany":
		o.N, err = c.ReplaceMany(ctx, i.Filter, anys()...)
	case "upsert":
		var ok bool
		ok, err = c.Upsert(ctx, i.Filter, i.Docs[0])
		if ok {
			o.N = 1
		}
	case "upsertid":
		var ok bool
		ok, err = c.UpsertID(ctx, i.Filter[0].Value.(primitive.ObjectID), i.Docs[0])
		if ok {
			o.N = 1
		}
	}
	if err != nil {
		return out{Err: true}, nil
	}
	return o, cur
}

func decode(h *hx.H, cur backend.NoSQLCursor, i in) out {
	var ds []D
	if i.Op == "findone" {
		var d D
		ok, err := cur.One(ctx, &d)
		if err != nil {
			h.Violatef("cursor-error", i, "cursor.One failed: %v", err)
		}
		if ok {
			ds = append(ds, d)
		}
	} else if err := cur.All(ctx, &ds); err != nil {
		h.Violatef("cursor-error", i, "cursor.All failed: %v", err)
	}
	ids := map[string]bool{}
	for _, d := range ds {
		id := ""
		for _, e := range d {
			if e.Key == "_id" {
				id = fmt.Sprintf("%T %v", e.Value, e.Value)
			}
		}
		if id == "" || ids[id] {
			h.Violatef("ids", canons(ds), "a stored document has no _id of its own (%q)", id)
		}
		ids[id] = true
	}
	return out{N: len(ds), Docs: canons(ds)}
}

// the deferred checker runs of the recorded histories
var checks []func()

func runChecks() {
	var wg sync.WaitGroup
	ch := make(chan func(), len(checks))
	for _, f := range checks {
		ch <- f
	}
	close(ch)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	wg.Wait()
	checks = nil
}

func history(h *hx.H, round int) {
	r := h.Rand(int64(round))
	db := newDB(h)
	ns := nameSets[r.Intn(len(nameSets))]
	if r.Intn(2) == 0 {
		ns = nameSets[0]
	}
	fill := []int{0, 0, 30, 120}[r.Intn(4)]
	if fill > 0 {
		for _, n := range ns {
			var docs []any
			for k := 0; k < fill; k++ {
				docs = append(docs, D{{Key: "_id", Value: int32(k)}, {Key: "h", Value: int32(0)}, {Key: "filler", Value: A{int32(1), int32(2), D{{Key: "x", Value: "y"}}}}})
			}
			coll(h, db, n).InsertMany(ctx, docs)
		}
	}
	nclients := 2 + r.Intn(4)
	nops := 3 + r.Intn(4)
	profile := r.Intn(4)
	late := r.Intn(2) == 0
	seeds := make([]int64, nclients)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var clk hx.Clock
	evs := make([][]ev, nclients)
	h.Run(nclients, "history", func() any { return round }, func(ci int) {
		r := rand.New(rand.NewSource(seeds[ci]))
		var pending []cursorCheck
		for k := 0; k < nops; k++ {
			i := genOp(r, ci, k, len(ns), profile)
			c := coll(h, db, ns[i.Coll])
			if r.Intn(3) == 0 {
				runtime.Gosched()
			}
			t := clk.Tick()
			o, cur := exec(c, i)
			u := clk.Tick()
			if cur != nil {
				if late && r.Intn(2) == 0 {
					pending = append(pending, cursorCheck{len(evs[ci]), cur})
				} else {
					o = decode(h, cur, i)
				}
			}
			evs[ci] = append(evs[ci], ev{ci, t, u, i, o})
		}
		for _, p := range pending {
			evs[ci][p.i].Out = decode(h, p.cur, evs[ci][p.i].In)
			h.Observe("late_cursors", 1)
		}
	})
	var ops []porcupine.Operation
	var flat []ev
	for ci := range evs {
		for _, e := range evs[ci] {
			ops = append(ops, porcupine.Operation{ClientId: ci, Input: e.In, Output: e.Out, Call: e.Call, Return: e.Ret})
			flat = append(flat, e)
		}
	}
	// the final contents, read sequentially
	for k, n := range ns {
		i := in{Coll: k, Op: "findmany", Filter: D{{Key: "h", Value: int32(1)}}}
		t := clk.Tick()
		o, cur := exec(coll(h, db, n), i)
		u := clk.Tick()
		if cur != nil {
			o = decode(h, cur, i)
		}
		e := ev{nclients, t, u, i, o}
		ops = append(ops, porcupine.Operation{ClientId: nclients, Input: i, Output: o, Call: t, Return: u})
		flat = append(flat, e)
	}
	overlap := 0
	sort.Slice(flat, func(a, b int) bool { return flat[a].Call < flat[b].Call })
	for k := 1; k < len(flat); k++ {
		if flat[k].Call < flat[k-1].Ret {
			overlap++
		}
		if flat[k].Out.Err {
			h.Observe("failed_ops", 1)
		}
	}
	h.Observe("ops", len(flat))
	h.Observe("overlaps", overlap)
	var sig strings.Builder
	for _, e := range flat {
		fmt.Fprintf(&sig, "%d%s%d>%d,", e.Client, e.In.Op, e.Call, e.Ret)
	}
	h.Case(sig.String(), overlap > 0)
	checks = append(checks, func() {
		switch porcupine.CheckOperationsTimeout(model, ops, 5*time.Second) {
		case porcupine.Illegal:
			h.Violate("linearizability", fmt.Sprintf("no sequential order of this history of %d operations explains its results (collections %v, %d filler documents)", len(flat), ns, fill), flat)
		case porcupine.Unknown:
			h.Observe("checker_timeouts", 1)
		default:
			h.Observe("linearizable", 1)
		}
	})
	if round < 2 {
		h.Sample(map[string]any{"collections": ns, "history": flat})
	}
}

// ------------------------------------------------------------------ conservation under load

func all(h *hx.H, c backend.NoSQLCollection, f D) []D {
	cur, err := c.FindMany(ctx, f)
	var ds []D
	if err == nil {
		err = cur.All(ctx, &ds)
	}
	if err != nil {
		h.Violatef("read-error", f, "FindMany(%v): %v", f, err)
	}
	return ds
}

func get(d D, k string) any {
	for _, e := range d {
		if e.Key == k {
			return e.Value
		}
	}
	return nil
}

func asInt(v any) int64 {
	switch x := v.(type) {
	case int32:
		return int64(x)
	case int64:
		return x
	}
	return -1 << 60
}

func hammer(h *hx.H, round int) {
	db := newDB(h)
	n := names{"db", "coll"}
	const W = 8
	K := 60
	r := h.Rand(int64(round))
	// filler widens the windows
	var docs []any
	for k := 0; k < []int{0, 20, 100}[round%3]; k++ {
		docs = append(docs, D{{Key: "_id", Value: fmt.Sprint("fill", k)}, {Key: "pad", Value: A{"x", "y", int32(k)}}})
	}
	if len(docs) > 0 {
		coll(h, db, n).InsertMany(ctx, docs)
	}
	viol := func(f string, a ...any) {
		h.Violate("conservation", fmt.Sprintf(f, a...), map[string]any{"round": round, "filler": len(docs)})
	}
	kind := round % 7
	_ = r
	run := func(f func(w int, c backend.NoSQLCollection)) {
		h.Run(W, "hammer", func() any { return round }, func(w int) {
			f(w, coll(h, db, n))
			h.Progress()
		})
	}
	must := func(err error, what string) {
		if err != nil {
			viol("%s failed: %v", what, err)
		}
	}
	switch kind {
	case 0: // increments of one document
		must(coll(h, db, n).InsertOne(ctx, D{{Key: "_id", Value: "ctr"}, {Key: "n", Value: int32(0)}, {Key: "sub", Value: D{{Key: "m", Value: int64(0)}}}}), "insert")
		run(func(w int, c backend.NoSQLCollection) {
			for k := 0; k < K; k++ {
				var cnt int
				var err error
				if k%2 == 0 {
					cnt, err = c.UpdateOne(ctx, D{{Key: "_id", Value: "ctr"}}, D{{Key: "$inc", Value: D{{Key: "n", Value: 1}, {Key: "sub.m", Value: 2}}}})
				} else {
					cnt, err = c.UpdateMany(ctx, D{{Key: "_id", Value: "ctr"}}, D{{Key: "$inc", Value: D{{Key: "n", Value: 1}, {Key: "sub.m", Value: 2}}}})
				}
				must(err, "update")
				if cnt != 1 {
					viol("update of an existing document reported %d matches", cnt)
				}
			}
		})
		d := all(h, coll(h, db, n), D{{Key: "_id", Value: "ctr"}})
		if len(d) != 1 || asInt(get(d[0], "n")) != int64(W*K) || asInt(get(get(d[0], "sub").(D), "m")) != int64(2*W*K) {
			viol("%d increments of n and %d of sub.m left %v", W*K, 2*W*K, d)
		}
		h.Observe("increments", W*K)
	case 1: // pushes and pulls: every pushed element present exactly once
		must(coll(h, db, n).InsertOne(ctx, D{{Key: "_id", Value: "list"}, {Key: "l", Value: A{}}}), "insert")
		run(func(w int, c backend.NoSQLCollection) {
			for k := 0; k < K/2; k++ {
				_, err := c.UpdateOne(ctx, D{{Key: "_id", Value: "list"}}, D{{Key: "$push", Value: D{{Key: "l", Value: w*1000 + k}}}})
				must(err, "push")
				if k%3 == 0 {
					_, err := c.UpdateOne(ctx, D{{Key: "_id", Value: "list"}}, D{{Key: "$pull", Value: D{{Key: "l", Value: w*1000 + k}}}})
					must(err, "pull")
				}
			}
		})
		d := all(h, coll(h, db, n), D{{Key: "_id", Value: "list"}})
		want := map[int64]bool{}
		for w := 0; w < W; w++ {
			for k := 0; k < K/2; k++ {
				if k%3 != 0 {
					want[int64(w*1000+k)] = true
				}
			}
		}
		l, _ := get(d[0], "l").(A)
		last := map[int64]int64{}
		for _, v := range l {
			x := asInt(v)
			if !want[x] {
				viol("element %d is in the list but was pulled or appears twice", x)
			}
			delete(want, x)
			if p, ok := last[x/1000]; ok && p > x {
				viol("pushes of one client are out of order")
			}
			last[x/1000] = x
		}
		if len(want) > 0 {
			viol("%d pushed elements are lost", len(want))
		}
		h.Observe("pushes", W*K/2)
	case 2: // inserts of several documents and deletes
		var deleted int64
		run(func(w int, c backend.NoSQLCollection) {
			for k := 0; k < K/2; k++ {
				id := fmt.Sprintf("%d-%d", w, k)
				must(c.InsertMany(ctx, []any{D{{Key: "_id", Value: id + "a"}, {Key: "w", Value: w}, {Key: "k", Value: k}, {Key: "p", Value: "a"}}, D{{Key: "_id", Value: id + "b"}, {Key: "w", Value: w}, {Key: "k", Value: k}, {Key: "p", Value: "b"}}}), "insertmany")
				if k%4 == 0 {
					must(c.DeleteOne(ctx, D{{Key: "_id", Value: id + "a"}}), "delete")
					must(c.DeleteMany(ctx, D{{Key: "w", Value: w}, {Key: "k", Value: k}}), "deletemany")
					atomic.AddInt64(&deleted, 2)
				}
				if k%5 == 0 { // the two documents of a batch appear together
					ds := all(h, c, D{{Key: "w", Value: (w + 1) % W}, {Key: "p", Value: D{{Key: "$in", Value: A{"a", "b"}}}}})
					byk := map[int64]string{}
					for _, d := range ds {
						byk[asInt(get(d, "k"))] += get(d, "p").(string)
					}
					for k, s := range byk {
						if s != "ab" && k%4 != 0 {
							viol("only part %q of a batch inserted by one InsertMany is visible", s)
						}
					}
				}
			}
		})
		ds := all(h, coll(h, db, n), D{{Key: "w", Value: D{{Key: "$exists", Value: true}}}})
		seen := map[string]bool{}
		for _, d := range ds {
			id := get(d, "_id").(string)
			if seen[id] {
				viol("document %s is stored twice", id)
			}
			seen[id] = true
			if asInt(get(d, "k"))%4 == 0 {
				viol("deleted document %s is still there", id)
			}
		}
		if want := W*(K/2)*2 - int(deleted); len(ds) != want {
			viol("%d documents remain, want %d", len(ds), want)
		}
		h.Observe("inserted", W*K)
	case 3: // upserts of one key insert exactly once
		var ins int64
		run(func(w int, c backend.NoSQLCollection) {
			for k := 0; k < K/2; k++ {
				var ok bool
				var err error
				if w%2 == 0 {
					ok, err = c.Upsert(ctx, D{{Key: "key", Value: k}}, D{{Key: "key", Value: k}, {Key: "by", Value: w}})
				} else {
					ok, err = c.Upsert(ctx, D{{Key: "key", Value: D{{Key: "$eq", Value: k}}}}, struct{ Key, By int }{k, w})
				}
				must(err, "upsert")
				if !ok {
					atomic.AddInt64(&ins, 1)
				}
			}
		})
		ds := all(h, coll(h, db, n), D{{Key: "key", Value: D{{Key: "$exists", Value: true}}}})
		if len(ds) != K/2 || int(ins) != K/2 {
			viol("upserts of %d keys by %d clients stored %d documents and reported %d insertions", K/2, W, len(ds), ins)
		}
		h.Observe("upserts", W*K/2)
	case 4: // upserts by id
		run(func(w int, c backend.NoSQLCollection) {
			for k := 0; k < K/2; k++ {
				id := oid(k)
				_, err := c.UpsertID(ctx, id, D{{Key: "_id", Value: id}, {Key: "key", Value: k}, {Key: "by", Value: w}})
				must(err, "upsertid")
			}
		})
		if ds := all(h, coll(h, db, n), D{{Key: "key", Value: D{{Key: "$exists", Value: true}}}}); len(ds) != K/2 {
			viol("UpsertID of %d ids by %d clients stored %d documents", K/2, W, len(ds))
		}
		h.Observe("upserts", W*K/2)
	case 5: // claims: each free document is taken exactly once
		var docs []any
		for k := 0; k < K; k++ {
			docs = append(docs, D{{Key: "_id", Value: k}, {Key: "free", Value: true}})
		}
		must(coll(h, db, n).InsertMany(ctx, docs), "insert")
		var taken int64
		run(func(w int, c backend.NoSQLCollection) {
			for {
				cnt, err := c.UpdateOne(ctx, D{{Key: "free", Value: true}}, D{{Key: "$set", Value: D{{Key: "free", Value: false}}}, {Key: "$inc", Value: D{{Key: "claims", Value: 1}}}})
				must(err, "claim")
				if cnt == 0 || err != nil {
					return
				}
				if atomic.AddInt64(&taken, 1) > int64(K*3) {
					viol("more claims than documents")
					return
				}
			}
		})
		if int(taken) != K {
			viol("%d documents were claimed %d times", K, taken)
		}
		for _, d := range all(h, coll(h, db, n), D{{Key: "claims", Value: D{{Key: "$exists", Value: true}}}}) {
			if asInt(get(d, "claims")) != 1 {
				viol("document %v was claimed more than once", d)
			}
		}
		h.Observe("claims", K)
	case 6: // UpdateMany is all or nothing to readers; a failed one is never visible
		var docs []any
		for k := 0; k < 12; k++ {
			d := D{{Key: "_id", Value: k}, {Key: "m", Value: 1}, {Key: "v", Value: 0}}
			if k == 11 {
				d = append(d, bson.E{Key: "bad", Value: "text"})
			}
			docs = append(docs, d)
		}
		must(coll(h, db, n).InsertMany(ctx, docs), "insert")
		var writers int64 = W / 2
		run(func(w int, c backend.NoSQLCollection) {
			if w < W/2 {
				for k := 0; k < K; k++ {
					if k%3 == 2 {
						if _, err := c.UpdateMany(ctx, D{{Key: "m", Value: 1}}, D{{Key: "$set", Value: D{{Key: "v", Value: -1}}}, {Key: "$inc", Value: D{{Key: "bad", Value: 1}}}}); err == nil {
							viol("incrementing a string succeeded")
						}
					} else if k%3 == 1 {
						var reps []any
						for j := 0; j < 12; j++ {
							d := D{{Key: "m", Value: 1}, {Key: "v", Value: w*1000 + k}}
							if j == 11 {
								d = append(d, bson.E{Key: "bad", Value: "text"})
							}
							reps = append(reps, d)
						}
						cnt, err := c.ReplaceMany(ctx, D{{Key: "m", Value: 1}}, reps...)
						must(err, "replacemany")
						if cnt != 12 {
							viol("ReplaceMany of 12 documents matched %d", cnt)
						}
					} else {
						cnt, err := c.UpdateMany(ctx, D{{Key: "m", Value: 1}}, D{{Key: "$set", Value: D{{Key: "v", Value: w*1000 + k}}}})
						must(err, "updatemany")
						if cnt != 12 {
							viol("UpdateMany of 12 documents matched %d", cnt)
						}
					}
				}
				atomic.AddInt64(&writers, -1)
				return
			}
			for atomic.LoadInt64(&writers) > 0 {
				ds := all(h, c, D{{Key: "m", Value: 1}})
				if len(ds) != 12 {
					viol("a reader saw %d of 12 documents", len(ds))
					return
				}
				for _, d := range ds {
					if asInt(get(d, "v")) != asInt(get(ds[0], "v")) {
						viol("a reader saw a half-applied update: %v", canons(ds))
						return
					}
					if asInt(get(d, "v")) == -1 {
						viol("a reader saw a failed update")
						return
					}
				}
				h.Observe("snapshots", 1)
			}
		})
	}
	h.Case(fmt.Sprintf("hammer %d", round), true)
}

// first accesses to a collection by many clients
func firstAccess(h *hx.H, round int) {
	db := newDB(h)
	ns := nameSets[round%len(nameSets)]
	const W = 8
	h.Run(W, "first-access", func() any { return round }, func(w int) {
		for _, n := range ns {
			if err := coll(h, db, n).InsertOne(ctx, D{{Key: "_id", Value: w}, {Key: "from", Value: n.db + "|" + n.coll}}); err != nil {
				h.Violatef("first-access", nil, "insert failed: %v", err)
			}
		}
		h.Progress()
	})
	for _, n := range ns {
		ds := all(h, coll(h, db, n), D{})
		if len(ds) != W {
			h.Violatef("first-access", ns, "%d clients inserted one document each into the new collection %v; it holds %d", W, n, len(ds))
		}
		for _, d := range ds {
			if get(d, "from") != n.db+"|"+n.coll {
				h.Violatef("isolation", ns, "collection %v holds a document of %v", n, get(d, "from"))
			}
		}
	}
	// another database instance shares nothing
	for _, n := range ns {
		if ds := all(h, coll(h, newDB(h), n), D{}); len(ds) != 0 {
			h.Violatef("isolation", n, "a new database instance already holds %d documents", len(ds))
		}
	}
	h.Case(fmt.Sprintf("first %d", round), true)
}

// ------------------------------------------------------------------ aliasing

type inner struct {
	S string
	L []string
	P *int
	M map[string]int
}
type rec struct {
	ID    string `bson:"_id"`
	Tag   string
	In    inner
	Ptr   *inner
	List  []inner
	Bytes []byte
	Any   any
}

// inputs returns fresh values with nested mutable state, each with a function that changes everything reachable.
func inputs(id string) []struct {
	name string
	v    any
	mut  func()
} {
	type T = struct {
		name string
		v    any
		mut  func()
	}
	var ts []T
	{
		sub := D{{Key: "a", Value: int32(1)}, {Key: "l", Value: A{int32(1), D{{Key: "z", Value: "z"}}}}}
		d := D{{Key: "_id", Value: id}, {Key: "tag", Value: "t"}, {Key: "sub", Value: sub}, {Key: "arr", Value: A{"x", sub, []string{"p", "q"}}}, {Key: "b", Value: []byte{1, 2, 3}}, {Key: "ints", Value: []int{4, 5}}, {Key: "bin", Value: primitive.Binary{Data: []byte{7, 8}}}}
		ts = append(ts, T{"bson.D", d, func() { scramble(d) }})
	}
	{
		m := bson.M{"_id": id, "tag": "t", "sub": bson.M{"a": 1, "l": []any{1, bson.M{"z": "z"}}}, "arr": []map[string]any{{"k": A{1, 2}}}, "b": []byte{1, 2}}
		ts = append(ts, T{"bson.M", m, func() { scramble(m) }})
	}
	{
		one, two := 1, 2
		x := &rec{ID: id, Tag: "t", In: inner{"s", []string{"a", "b"}, &one, map[string]int{"k": 1}}, Ptr: &inner{"s2", []string{"c"}, &two, map[string]int{"j": 2}},
			List: []inner{{"s3", []string{"d"}, nil, nil}}, Bytes: []byte("bytes"), Any: D{{Key: "x", Value: A{1, "y"}}}}
		ts = append(ts, T{"*struct", x, func() {
			x.Tag, x.In.S, x.In.L[0], *x.In.P, x.In.M["k"] = "changed", "changed", "changed", 99, 99
			x.Ptr.S, x.Ptr.L[0], *x.Ptr.P, x.Ptr.M["new"] = "changed", "changed", 99, 99
			x.List[0].S, x.List[0].L[0] = "changed", "changed"
			x.Bytes[0] = 'X'
			scramble(x.Any)
		}})
	}
	return ts
}

// scramble changes every mutable container reachable from v, in place.
func scramble(v any) {
	switch x := v.(type) {
	case D:
		for i := range x {
			scramble(x[i].Value)
			if x[i].Key == "_id" {
				continue
			}
			switch x[i].Value.(type) {
			case D, A, []byte, []string, []int, bson.M, []any, []D, []map[string]any, primitive.Binary:
			default:
				x[i].Value = "scrambled"
			}
			if i%2 == 1 {
				x[i].Key = "scrambled" + x[i].Key
			}
		}
	case bson.M:
		for k, e := range x {
			scramble(e)
			if k != "_id" {
				x[k] = "scrambled"
			}
		}
		x["extra"] = 1
	case map[string]any:
		scramble(bson.M(x))
	case A:
		scramble([]any(x))
	case []any:
		for i := range x {
			scramble(x[i])
			switch x[i].(type) {
			case D, A, []string, []any, bson.M:
			default:
				x[i] = "scrambled"
			}
		}
	case []D:
		for i := range x {
			scramble(x[i])
		}
	case []map[string]any:
		for i := range x {
			scramble(x[i])
		}
	case []byte:
		for i := range x {
			x[i] ^= 0xff
		}
	case []string:
		for i := range x {
			x[i] = "scrambled"
		}
	case []int:
		for i := range x {
			x[i] = -7
		}
	case primitive.Binary:
		scramble(x.Data)
	case primitive.Regex:
	}
}

func snapshot(h *hx.H, c backend.NoSQLCollection) string {
	var b bytes.Buffer
	for _, d := range all(h, c, D{}) {
		e, err := bson.MarshalExtJSON(d, true, false)
		if err != nil {
			h.Violatef("read-error", nil, "stored document does not marshal: %v", err)
		}
		b.Write(e)
		b.WriteByte('\n')
	}
	return b.String()
}

func aliasing(h *hx.H, variant int) {
	db := newDB(h)
	c := coll(h, db, names{"d", "c"})
	check := func(what string, before string) {
		h.Observe("alias_probes", 1)
		if after := snapshot(h, c); after != before {
			h.Violate("aliasing", what+" afterwards changed the stored documents", map[string]string{"before": before, "after": after})
		}
		h.Case("alias "+what, true)
	}
	fail := func(what string, err error) {
		if err != nil {
			h.Violatef("aliasing-op", nil, "%s failed: %v", what, err)
		}
	}
	seedDocs := func() {
		c.DeleteMany(ctx, D{})
		fail("seed", c.InsertMany(ctx, []any{
			D{{Key: "_id", Value: "s1"}, {Key: "tag", Value: "seed"}, {Key: "l", Value: A{int32(1), D{{Key: "k", Value: A{int32(5)}}}}}, {Key: "sub", Value: D{{Key: "a", Value: A{int32(1)}}}}},
			D{{Key: "_id", Value: "s2"}, {Key: "tag", Value: "seed"}, {Key: "l", Value: A{}}, {Key: "sub", Value: D{{Key: "a", Value: A{int32(2)}}}}}}))
	}
	// 1. inputs
	for k := range inputs("x") {
		seedDocs()
		t := inputs("x")[k]
		fail("InsertOne", c.InsertOne(ctx, t.v))
		s := snapshot(h, c)
		t.mut()
		check("changing a "+t.name+" given to InsertOne", s)

		seedDocs()
		t, t2 := inputs("x")[k], inputs("y")[k]
		batch := []any{t.v, t2.v}
		fail("InsertMany", c.InsertMany(ctx, batch))
		s = snapshot(h, c)
		batch[0] = D{{Key: "_id", Value: "other"}}
		t.mut()
		t2.mut()
		check("changing a slice of "+t.name+" given to InsertMany", s)

		seedDocs()
		t = inputs("s1")[k]
		_, err := c.ReplaceOne(ctx, D{{Key: "_id", Value: "s1"}}, t.v)
		fail("ReplaceOne", err)
		s = snapshot(h, c)
		t.mut()
		check("changing a "+t.name+" given to ReplaceOne", s)

		seedDocs()
		t, t2 = inputs("s1")[k], inputs("s2")[k]
		batch = []any{t.v, t2.v}
		_, err = c.ReplaceMany(ctx, D{{Key: "tag", Value: "seed"}}, batch...)
		fail("ReplaceMany", err)
		s = snapshot(h, c)
		batch[0] = nil
		t.mut()
		t2.mut()
		check("changing "+t.name+" values given to ReplaceMany", s)

		for _, id := range []string{"s1", "new"} {
			seedDocs()
			t = inputs(id)[k]
			f := D{{Key: "_id", Value: id}}
			_, err = c.Upsert(ctx, f, t.v)
			fail("Upsert", err)
			s = snapshot(h, c)
			t.mut()
			f[0].Value = "elsewhere"
			check("changing a "+t.name+" given to Upsert ("+id+")", s)
		}
		for rep := 0; rep < 2; rep++ { // first inserts, then replaces
			id := oid(200 + k)
			sub := D{{Key: "deep", Value: A{int32(1), D{{Key: "q", Value: "q"}}}}}
			d := D{{Key: "_id", Value: id}, {Key: "rep", Value: int32(rep)}, {Key: "sub", Value: sub}}
			_, err = c.UpsertID(ctx, id, d)
			fail("UpsertID", err)
			s = snapshot(h, c)
			scramble(d)
			check(fmt.Sprintf("changing a document given to UpsertID (pass %d)", rep), s)
		}
	}
	// update arguments
	mkUpdates := func() []D {
		sub := func() D {
			return D{{Key: "deep", Value: A{int32(1), D{{Key: "q", Value: A{"r"}}}, []string{"u"}}}, {Key: "b", Value: []byte{1}}}
		}
		return []D{
			{{Key: "$set", Value: D{{Key: "x", Value: sub()}}}},
			{{Key: "$set", Value: D{{Key: "x.y.z", Value: sub()}, {Key: "w", Value: A{sub(), "v"}}}}},
			{{Key: "$set", Value: D{{Key: "x", Value: bson.M{"m": A{1, 2}, "l": []string{"e"}}}}}},
			{{Key: "$set", Value: D{{Key: "x", Value: []byte{1, 2, 3}}, {Key: "y", Value: []string{"a", "b"}}, {Key: "l.1", Value: sub()}}}},
			{{Key: "$push", Value: D{{Key: "l", Value: sub()}}}},
			{{Key: "$push", Value: D{{Key: "newl", Value: A{int32(1), A{int32(2)}}}}}},
			{{Key: "$addToSet", Value: D{{Key: "l", Value: sub()}}}},
			{{Key: "$addToSet", Value: D{{Key: "newset", Value: sub()}}}},
			{{Key: "$pull", Value: D{{Key: "l", Value: D{{Key: "k", Value: A{int32(5)}}}}}}},
			{{Key: "$inc", Value: D{{Key: "cnt", Value: int64(3)}}}},
		}
	}
	for k := range mkUpdates() {
		for many := 0; many < 2; many++ {
			seedDocs()
			u := mkUpdates()[k]
			was := fmt.Sprint(u)
			f := D{{Key: "tag", Value: "seed"}, {Key: "sub.a", Value: D{{Key: "$in", Value: A{int32(1), int32(2)}}}}}
			fwas := fmt.Sprint(f)
			var err error
			var cnt int
			if many == 1 {
				cnt, err = c.UpdateMany(ctx, f, u)
			} else {
				cnt, err = c.UpdateOne(ctx, f, u)
			}
			fail("update "+was, err)
			if want := 1 + many; cnt != want {
				h.Violatef("aliasing-op", was, "update matched %d documents, want %d", cnt, want)
			}
			if fmt.Sprint(u) != was || fmt.Sprint(f) != fwas {
				h.Violatef("argument-modified", was, "an update modified its arguments: %v %v", u, f)
			}
			s := snapshot(h, c)
			scramble(u)
			scramble(f)
			check("changing the arguments of update "+was, s)
			// documents updated together share nothing
			if many == 1 {
				for _, p := range []string{"x.deep", "w", "l", "newl", "newset"} {
					other := all(h, c, D{{Key: "_id", Value: "s2"}})
					c.UpdateOne(ctx, D{{Key: "_id", Value: "s1"}}, D{{Key: "$push", Value: D{{Key: p, Value: "only-s1"}}}})
					c.UpdateOne(ctx, D{{Key: "_id", Value: "s1"}}, D{{Key: "$set", Value: D{{Key: p + ".0", Value: "only-s1"}}}})
					if a, b := canons(other), canons(all(h, c, D{{Key: "_id", Value: "s2"}})); a != b {
						h.Violate("sharing", "updating one document changed another that was set by the same "+was, map[string]string{"before": a, "after": b})
					}
				}
			}
		}
	}
	// 2. results
	seedDocs()
	fail("insert", c.InsertOne(ctx, inputs("full")[0].v))
	fail("insert", c.InsertOne(ctx, inputs("full2")[2].v))
	s := snapshot(h, c)
	cur, err := c.FindMany(ctx, D{})
	fail("FindMany", err)
	var r1, r2 []D
	fail("All", cur.All(ctx, &r1))
	for i := range r1 {
		scramble(r1[i])
	}
	check("changing the []bson.D read from a cursor", s)
	fail("All", cur.All(ctx, &r2))
	if a := rsnap(r2); a != s {
		h.Violate("aliasing", "changing documents read from a cursor changed what the cursor returns next", map[string]string{"first": s, "second": a})
	}
	var ms []bson.M
	fail("All", cur.All(ctx, &ms))
	for i := range ms {
		scramble(ms[i])
	}
	check("changing the []bson.M read from a cursor", s)
	var one, again D
	cur1, err := c.FindOne(ctx, D{{Key: "_id", Value: "full"}})
	fail("FindOne", err)
	if ok, err := cur1.One(ctx, &one); !ok || err != nil {
		h.Violatef("aliasing-op", nil, "One = %v, %v", ok, err)
	}
	first := rsnap([]D{one})
	scramble(one)
	check("changing the bson.D read from FindOne", s)
	cur1.One(ctx, &again)
	if rsnap([]D{again}) != first {
		h.Violate("aliasing", "changing the document read from a FindOne cursor changed what it returns next", nil)
	}
	var x, y rec
	cur2, err := c.FindOne(ctx, D{{Key: "_id", Value: "full2"}})
	fail("FindOne", err)
	if ok, err := cur2.One(ctx, &x); !ok || err != nil {
		h.Violatef("aliasing-op", nil, "One = %v, %v", ok, err)
	}
	x.In.L[0], x.Ptr.S, x.Bytes[0], x.In.M["k"] = "changed", "changed", 'X', 9
	scramble(x.Any)
	check("changing the struct read from a cursor", s)
	cur2.One(ctx, &y)
	if y.In.L[0] != "a" || y.Ptr.S != "s2" || y.Bytes[0] != 'b' || y.In.M["k"] != 1 {
		h.Violate("aliasing", "changing a struct read from a cursor changed what it returns next", fmt.Sprintf("%+v", y))
	}
	// 3. cursors are snapshots
	type op struct {
		name string
		f    func() error
	}
	ops := []op{
		{"InsertOne", func() error { return c.InsertOne(ctx, D{{Key: "_id", Value: "later"}, {Key: "tag", Value: "seed"}}) }},
		{"UpdateOne $set", func() error {
			_, e := c.UpdateOne(ctx, D{{Key: "_id", Value: "s1"}}, D{{Key: "$set", Value: D{{Key: "tag", Value: "new"}, {Key: "l.0", Value: "new"}, {Key: "sub.a.0", Value: "new"}}}})
			return e
		}},
		{"UpdateMany $push", func() error {
			_, e := c.UpdateMany(ctx, D{}, D{{Key: "$push", Value: D{{Key: "l", Value: "new"}, {Key: "sub.a", Value: "new"}}}})
			return e
		}},
		{"UpdateMany $inc", func() error {
			_, e := c.UpdateMany(ctx, D{}, D{{Key: "$inc", Value: D{{Key: "sub.a.0", Value: 1}, {Key: "cnt", Value: 1}}}})
			return e
		}},
		{"UpdateMany $pull", func() error {
			_, e := c.UpdateMany(ctx, D{}, D{{Key: "$pull", Value: D{{Key: "l", Value: int32(1)}}}})
			return e
		}},
		{"UpdateMany $unset", func() error {
			_, e := c.UpdateMany(ctx, D{}, D{{Key: "$unset", Value: D{{Key: "sub.a", Value: ""}, {Key: "tag", Value: ""}}}})
			return e
		}},
		{"UpdateMany $addToSet", func() error {
			_, e := c.UpdateMany(ctx, D{}, D{{Key: "$addToSet", Value: D{{Key: "sub.a", Value: "new"}}}})
			return e
		}},
		{"ReplaceOne", func() error {
			_, e := c.ReplaceOne(ctx, D{{Key: "_id", Value: "s1"}}, D{{Key: "tag", Value: "replaced"}})
			return e
		}},
		{"ReplaceMany", func() error {
			_, e := c.ReplaceMany(ctx, D{}, D{{Key: "tag", Value: "replaced"}}, D{{Key: "tag", Value: "replaced2"}})
			return e
		}},
		{"Upsert", func() error {
			_, e := c.Upsert(ctx, D{{Key: "_id", Value: "s1"}}, D{{Key: "tag", Value: "upserted"}})
			return e
		}},
		{"DeleteOne", func() error { return c.DeleteOne(ctx, D{{Key: "_id", Value: "s1"}}) }},
		{"DeleteMany", func() error { return c.DeleteMany(ctx, D{}) }},
	}
	for n, o := range append(ops, op{"a mixed sequence", func() error {
		for _, o := range ops {
			o.f()
		}
		return nil
	}}) {
		seedDocs()
		before := snapshot(h, c)
		curAll, e1 := c.FindMany(ctx, D{})
		curOne, e2 := c.FindOne(ctx, D{{Key: "_id", Value: "s1"}})
		if e1 != nil || e2 != nil {
			fail("find", e1)
			fail("find", e2)
			continue
		}
		var firstOne D
		if n%2 == variant%2 {
			curOne.One(ctx, &firstOne)
		} else {
			firstOne = all(h, c, D{{Key: "_id", Value: "s1"}})[0]
		}
		fail(o.name, o.f())
		var ds []D
		fail("All", curAll.All(ctx, &ds))
		if got := rsnap(ds); got != before {
			h.Violate("cursor-snapshot", "a FindMany cursor changed by a later "+o.name, map[string]string{"at the find": before, "later": got})
		}
		var d D
		ok, err := curOne.One(ctx, &d)
		if !ok || err != nil || rsnap([]D{d}) != rsnap([]D{firstOne}) {
			h.Violate("cursor-snapshot", "a FindOne cursor changed by a later "+o.name, map[string]any{"at the find": canon(firstOne), "later": canon(d), "ok": ok})
		}
		h.Case("cursor "+o.name, true)
		h.Observe("cursor_probes", 2)
	}
}

func rsnap(ds []D) string {
	var b bytes.Buffer
	for _, d := range ds {
		e, _ := bson.MarshalExtJSON(d, true, false)
		b.Write(e)
		b.WriteByte('\n')
	}
	return b.String()
}

// concurrent reuse of inputs and results: with the race detector on, any sharing with the store is a data race
func reuse(h *hx.H, round int) {
	db := newDB(h)
	n := names{"d", "c"}
	h.Run(6, "reuse", func() any { return round }, func(w int) {
		c := coll(h, db, n)
		sub := D{{Key: "n", Value: int32(0)}, {Key: "l", Value: A{int32(0)}}}
		for k := 0; k < 25; k++ {
			d := D{{Key: "_id", Value: fmt.Sprintf("%d.%d", w, k%5)}, {Key: "sub", Value: sub}, {Key: "k", Value: int32(k)}}
			switch k % 5 {
			case 0:
				c.Upsert(ctx, D{{Key: "_id", Value: d[0].Value}}, d)
			case 1:
				c.UpdateMany(ctx, D{}, D{{Key: "$set", Value: D{{Key: "sub", Value: sub}}}})
			case 2:
				c.UpdateMany(ctx, D{}, D{{Key: "$push", Value: D{{Key: "sub.l", Value: sub}}}})
				c.UpdateMany(ctx, D{}, D{{Key: "$set", Value: D{{Key: "sub.l", Value: A{int32(1)}}}}})
			case 3:
				c.ReplaceOne(ctx, D{{Key: "_id", Value: d[0].Value}}, d)
			case 4:
				c.DeleteOne(ctx, D{{Key: "_id", Value: d[0].Value}})
			}
			sub[0].Value = int32(k)
			sub[1].Value.(A)[0] = int32(k)
			var ds []D
			if cur, err := c.FindMany(ctx, D{{Key: "sub.n", Value: D{{Key: "$gte", Value: 0}}}}); err == nil {
				cur.All(ctx, &ds)
				for i := range ds {
					scramble(ds[i])
				}
			}
			h.Observe("reuse_ops", 1)
		}
	})
	h.Case(fmt.Sprintf("reuse %d", round), true)
}

func main() {
	h := hx.New()
	h.Rule = "small concurrent histories explained by a sequential MongoDB model (porcupine); conservation counts under load; deep mutation of every input and result"
	if h.Part("alias") {
		for v := 0; v < 2; v++ {
			if p := hx.Catch(func() { aliasing(h, v) }); p != "" {
				h.Violate("panic", p, nil)
			}
		}
		for k := 0; k < h.N(12, 100); k++ {
			reuse(h, k)
		}
	}
	if h.Part("first") {
		for k := 0; k < h.N(140, 2000); k++ {
			firstAccess(h, k)
		}
	}
	if h.Part("hammer") {
		for k := 0; k < h.N(42, 600); k++ {
			hammer(h, k)
		}
	}
	if h.Part("history") {
		for k := 0; k < h.N(1500, 30000); k++ {
			history(h, k)
			if len(checks) >= 500 {
				runChecks()
			}
		}
		runChecks()
	}
	if h.Observed["checker_timeouts"] > h.N(1500, 30000)/20 {
		h.Unsure("the linearizability checker timed out on %d histories", h.Observed["checker_timeouts"])
	}
	h.Done()
}
