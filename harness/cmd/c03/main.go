// C03: the in-memory document store implements MongoDB filter and update semantics.
package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/harness/hx"
	"verif/harness/mongo"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

type D = bson.D
type E = bson.E
type A = bson.A

var ctx = context.Background()

type gen struct {
	*rand.Rand
	ids []any
}

func (g *gen) p(n int) bool { return g.Intn(n) == 0 }

func (g *gen) num() any {
	switch g.Intn(6) {
	case 0:
		return int64(g.Intn(6))
	case 1:
		return float64(g.Intn(6))
	case 2:
		return float64(g.Intn(12)) / 2
	case 3:
		return int32(g.Intn(6) - 1)
	}
	return g.Intn(6)
}

var words = []string{"a", "ab", "b", "abc", "", "x.y", "$z", "0"}

func (g *gen) word() string { return words[g.Intn(len(words))] }

var dates = []time.Time{time.Unix(1000, 0).UTC(), time.Unix(2000, 5e6).UTC()}
var oids = []primitive.ObjectID{{1}, {2, 3}}

func (g *gen) scalar() any {
	switch g.Intn(12) {
	case 0, 1, 2, 3, 4:
		return g.num()
	case 5, 6, 7:
		return g.word()
	case 8:
		return g.p(2)
	case 9:
		return dates[g.Intn(2)]
	case 10:
		return oids[g.Intn(2)]
	}
	return nil
}

func (g *gen) sub() D {
	d := D{}
	if !g.p(4) {
		d = append(d, E{"x", g.num()})
	}
	if !g.p(4) {
		d = append(d, E{"y", g.word()})
	}
	if g.p(6) {
		d = append(d, E{"w", A{g.num(), g.num()}})
	}
	if g.p(8) && len(d) > 1 {
		d[0], d[1] = d[1], d[0]
	}
	return d
}

func (g *gen) arr(n int, f func() any) A {
	a := A{}
	for k := g.Intn(n + 1); k > 0; k-- {
		a = append(a, f())
	}
	return a
}

func (g *gen) field(name string) any {
	if g.p(25) {
		return g.scalar() // surprising type
	}
	switch name {
	case "a", "f":
		return g.num()
	case "b":
		return g.word()
	case "c":
		return g.arr(4, func() any { return g.num() })
	case "s":
		return g.arr(3, func() any { return g.word() })
	case "d":
		return g.sub()
	case "e":
		return g.arr(3, func() any { return g.sub() })
	case "n":
		return D{{"m", g.sub()}, {"k", g.num()}}
	case "z":
		return g.arr(2, func() any { return g.arr(2, func() any { return g.num() }) })
	}
	return g.scalar()
}

var fields = []string{"a", "b", "c", "d", "e", "f", "g", "n", "s", "z"}

func (g *gen) doc() D {
	d := D{}
	for _, f := range fields {
		if g.p(3) {
			continue
		}
		d = append(d, E{f, g.field(f)})
	}
	return d
}

type subStruct struct {
	X int    `bson:"x"`
	Y string `bson:"y"`
}
type docStruct struct {
	ID primitive.ObjectID `bson:"_id,omitempty"`
	A  int                `bson:"a"`
	B  string             `bson:"b"`
	C  []int32            `bson:"c"`
	D  subStruct          `bson:"d"`
	E  []subStruct        `bson:"e"`
	F  float64            `bson:"f"`
	G  *int               `bson:"g,omitempty"`
	S  []string           `bson:"s"`
}

// document returns a document in one of the forms a caller may use.
func (g *gen) document() any {
	switch g.Intn(8) {
	case 0:
		m := bson.M{}
		for _, e := range g.doc() {
			m[e.Key] = e.Value
		}
		return m
	case 1, 2:
		s := docStruct{A: g.Intn(6), B: g.word(), F: float64(g.Intn(6)) / 2, D: subStruct{g.Intn(5), g.word()}}
		for k := g.Intn(4); k > 0; k-- {
			s.C = append(s.C, int32(g.Intn(5)))
			s.E = append(s.E, subStruct{g.Intn(5), g.word()})
			s.S = append(s.S, g.word())
		}
		if g.p(2) {
			return &s
		}
		return s
	case 3:
		return map[string]any{"a": g.num(), "b": g.word()}
	}
	return g.doc()
}

var paths = []string{"a", "b", "c", "d", "e", "f", "g", "n", "s", "z", "d.x", "d.y", "d.w", "e.x", "e.y", "e.w", "n.m", "n.m.x", "n.m.y", "n.k",
	"c.0", "c.1", "c.3", "s.0", "s.2", "e.0", "e.0.x", "e.1.y", "z.0", "z.1", "q", "d.q", "e.q", "n.q.r", "n.m.w", "n.m.w.0", "a.b"}

func (g *gen) path() string { return paths[g.Intn(len(paths))] }

// value for a path: usually of a kind that can match
func (g *gen) value(path string) any {
	if g.p(8) {
		return g.field(strings.Split(path, ".")[0])
	}
	if g.p(25) {
		return nil
	}
	if g.p(20) {
		return g.arr(3, func() any { return g.scalar() })
	}
	switch {
	case path == "b" || strings.HasSuffix(path, ".y") || strings.HasPrefix(path, "s"):
		if g.p(9) {
			return []string{g.word(), g.word()}
		}
		return g.word()
	case path == "d" || path == "e" || path == "n.m" || path == "e.0":
		if g.p(4) {
			return subStruct{g.Intn(5), g.word()}
		}
		return g.sub()
	case path == "z" || path == "z.0" || path == "z.1" || path == "d.w":
		return g.arr(2, func() any { return g.num() })
	case path == "g":
		return g.scalar()
	}
	switch g.Intn(8) {
	case 0:
		return uint16(g.Intn(6))
	case 1:
		return float32(g.Intn(6))
	case 2:
		return int8(g.Intn(6))
	case 3:
		return uint64(g.Intn(6))
	}
	return g.num()
}

func (g *gen) ops(path string, depth int) D {
	out := D{}
	for k := 1 + g.Intn(2); k > 0; k-- {
		switch g.Intn(14) {
		case 0:
			out = append(out, E{"$eq", g.value(path)})
		case 1, 2:
			out = append(out, E{"$ne", g.value(path)})
		case 3, 4:
			out = append(out, E{"$gt", g.num()})
		case 5:
			out = append(out, E{"$gte", g.num()})
		case 6, 7:
			out = append(out, E{"$lt", g.num()})
		case 8:
			out = append(out, E{"$lte", g.num()})
		case 9, 10:
			switch g.Intn(4) {
			case 0:
				out = append(out, E{"$in", []int{g.Intn(6), g.Intn(6)}})
			case 1:
				out = append(out, E{"$in", []string{g.word(), g.word()}})
			default:
				out = append(out, E{"$in", g.arr(3, func() any { return g.value(path) })})
			}
		case 11, 12:
			out = append(out, E{"$exists", g.p(2)})
		case 13:
			out = append(out, E{"$regex", []string{"a", "^a", "b$", "^$", "^ab?", ".", "[xc]"}[g.Intn(7)]})
		}
	}
	return out
}

func (g *gen) filter(depth int) D {
	if depth == 2 && len(g.ids) > 0 && g.p(8) {
		return D{{"_id", g.ids[g.Intn(len(g.ids))]}}
	}
	if depth == 2 && g.p(12) {
		return D{}
	}
	out := D{}
	for k := []int{1, 1, 1, 2, 3}[g.Intn(5)]; k > 0; k-- {
		path := g.path()
		switch g.Intn(12) {
		case 0:
			if depth > 0 {
				out = append(out, E{[]string{"$and", "$or", "$nor"}[g.Intn(3)], append(A{g.filter(depth - 1)}, g.arr(2, func() any { return g.filter(depth - 1) })...)})
			}
		case 1:
			if depth > 0 && g.p(2) {
				out = append(out, E{"$not", g.filter(depth - 1)})
			}
		case 2:
			out = append(out, E{[]string{"c", "s", "z", "e", "e.w", "a", "d.w"}[g.Intn(7)], D{{"$all", g.arr(3, func() any { return g.value("cszeda"[g.Intn(6):][:1]) })}}})
		case 3, 4:
			q := D{}
			for j := 1 + g.Intn(2); j > 0; j-- {
				f := []string{"x", "y", "w", "q"}[g.Intn(4)]
				switch {
				case g.p(3):
					q = append(q, E{f, g.ops("e."+f, 0)})
				case g.p(12):
					q = append(q, E{"$nor", A{D{{f, g.value("e." + f)}}}})
				default:
					q = append(q, E{f, g.value("e." + f)})
				}
			}
			out = append(out, E{[]string{"e", "e", "e", "c", "d", "a"}[g.Intn(6)], D{{"$elemMatch", q}}})
		case 5, 6, 7, 8:
			out = append(out, E{path, g.ops(path, depth)})
		default:
			out = append(out, E{path, g.value(path)})
		}
	}
	return out
}

func (g *gen) update() D {
	used := []string{}
	free := func(p string) bool {
		for _, u := range used {
			if u == p || strings.HasPrefix(u, p+".") || strings.HasPrefix(p, u+".") {
				return false
			}
		}
		used = append(used, p)
		return true
	}
	out := D{}
	var leafs []E // op -> (path, value)
	for k := []int{1, 1, 1, 2, 3}[g.Intn(5)]; k > 0; k-- {
		p := g.path()
		if !free(p) {
			continue
		}
		arrp := []string{"c", "s", "e", "z", "d.w", "q", "n.q.r", "n.m.w", "e.0.w", "z.0", "d.q", "a", "c", "e"}[g.Intn(14)]
		switch g.Intn(11) {
		case 0, 1, 2:
			leafs = append(leafs, E{"$set", E{p, g.value(p)}})
		case 3, 4:
			leafs = append(leafs, E{"$unset", E{p, ""}})
		case 5, 6:
			p = []string{"a", "f", "n.k", "d.x", "n.m.x", "c.0", "c.2", "e.0.x", "q", "d.q", "b"}[g.Intn(11)]
			if !free(p) {
				continue
			}
			amount := any([]any{1, int32(2), int64(-3), 0, int8(1), int64(math.MaxInt32), int64(math.MaxInt64 - 3), -7}[g.Intn(8)])
			leafs = append(leafs, E{"$inc", E{p, amount}})
		case 7:
			if free(arrp) {
				leafs = append(leafs, E{"$push", E{arrp, g.arrValue(arrp)}})
			}
		case 8:
			if free(arrp) {
				leafs = append(leafs, E{"$addToSet", E{arrp, g.arrValue(arrp)}})
			}
		default:
			if free(arrp) {
				leafs = append(leafs, E{"$pull", E{arrp, g.arrValue(arrp)}})
				if arrp == "e" && g.p(2) {
					leafs[len(leafs)-1].Value = E{"e", D{{[]string{"x", "y"}[g.Intn(2)], g.ops("e.x", 0)}}}
				}
			}
		}
	}
	// new fields appear in path order
	sort.SliceStable(leafs, func(i, j int) bool { return leafs[i].Value.(E).Key < leafs[j].Value.(E).Key })
	for _, l := range leafs {
		if n := len(out); n > 0 && out[n-1].Key == l.Key {
			out[n-1].Value = append(out[n-1].Value.(D), l.Value.(E))
		} else {
			out = append(out, E{l.Key, D{l.Value.(E)}})
		}
	}
	if len(out) == 0 {
		return D{{"$set", D{{"a", g.num()}}}}
	}
	return out
}

func (g *gen) arrValue(p string) any {
	switch p {
	case "s":
		return g.word()
	case "e":
		if g.p(4) {
			return subStruct{g.Intn(5), g.word()}
		}
		return g.sub()
	case "z":
		return g.arr(2, func() any { return g.num() })
	}
	if g.p(6) {
		return g.scalar()
	}
	return g.num()
}

// ---------------------------------------------------------------- malformed and unsupported

func badFilters() []D {
	leafs := []E{
		{"a", D{{"$foo", 1}}}, {"$foo", 1}, {"a", D{{"$in", 5}}}, {"a", D{{"$regex", 5}}}, {"b", D{{"$regex", "("}}},
		{"$and", 5}, {"$or", A{}}, {"$and", A{}}, {"$nor", A{}}, {"$or", A{5}}, {"$nor", D{}}, {"$not", 5}, {"$and", A{A{}}},
		{"a", D{{"$exists", 1}}}, {"c", D{{"$all", 5}}}, {"e", D{{"$elemMatch", 5}}}, {"c", D{{"$size", 1}}}, {"a", D{{"$nin", A{1}}}},
		{"a", D{{"$type", "int"}}}, {"a", D{{"$where", "x"}}}, {"$where", "x"}, {"$expr", D{}}, {"a", D{{"$gt", 1}, {"$foo", 2}}},
		{"a", D{{"$gt", 1}, {"b", 2}}}, {"a", D{{"b", D{{"$gt", 1}}}}}, {"d", D{{"x", 1}, {"$gt", 1}}}, {"e", D{{"$elemMatch", D{{"x", D{{"$foo", 1}}}}}}},
		{"a", make(chan int)}, {"a", D{{"$eq", func() {}}}}, {"a", D{{"$ne", make(chan int)}}}, {"c", D{{"$all", A{make(chan int)}}}},
		{"c", D{{"$elemMatch", D{{"$foo", 1}}}}}, {"a", D{{"$eq", D{{"$gt", 1}}}}}, {"a", D{{"$in", A{D{{"$gt", 1}}}}}},
	}
	var out []D
	for _, l := range leafs {
		out = append(out, D{l}, D{{"a", 1}, l}, D{l, {"a", 1}}, D{{"$or", A{D{{"a", 1}}, D{l}}}}, D{{"$not", D{l}}}, D{{"$nor", A{D{l}}}}, D{{"$and", A{D{l}, D{}}}}, D{{"e", D{{"$elemMatch", D{l}}}}})
	}
	return out
}

func badUpdates() []D {
	leafs := []E{{"$foo", D{{"a", 1}}}, {"a", 1}, {"$set", 5}, {"$unset", A{}}, {"$inc", 1}, {"$push", "x"}, {"$pull", nil}, {"$addToSet", 1}, {"$inc", D{{"a", "x"}}},
		{"$inc", D{{"a", nil}}}, {"$push", D{{"c", D{{"$each", A{1}}}}}}, {"$addToSet", D{{"c", D{{"$each", A{1}}}}}}, {"$pull", D{{"c", D{{"$gte", 1}}}}},
		{"$set", D{{"a", make(chan int)}}}, {"$push", D{{"c", func() {}}}}, {"$addToSet", D{{"c", make(chan int)}}}, {"$pull", D{{"e", D{{"x", D{{"$foo", 1}}}}}}}, {"$pull", D{{"c", make(chan int)}}},
		{"$rename", D{{"a", "b"}}}, {"$mul", D{{"a", 2}}}, {"$pop", D{{"c", 1}}}}
	var out []D
	for _, l := range leafs {
		out = append(out, D{l}, D{{"$set", D{{"b", "changed"}}}, l}, D{l, {"$set", D{{"b", "changed"}}}})
	}
	// fails on the documents, not while parsing
	for _, u := range []E{{"$inc", D{{"b", 1}}}, {"$push", D{{"b", 1}}}, {"$set", D{{"b.x", 1}}}, {"$set", D{{"e.x", 1}}}, {"$addToSet", D{{"b", 1}}}, {"$pull", D{{"b", 1}}}} {
		out = append(out, D{{"$set", D{{"a", 77}}}, {"$unset", D{{"f", ""}}}, {"$push", D{{"s", "zzz"}}}, u})
	}
	return out
}

// ---------------------------------------------------------------- the monitor

type run struct {
	h     *hx.H
	name  string
	g     *gen
	coll  backend.NoSQLCollection
	model []D
	seen  map[any]bool // every _id ever stored
	log   []string
	bad   bool
}

func (r *run) fail(key, f string, a ...any) {
	r.bad = true
	lg := r.log
	if len(lg) > 40 {
		lg = lg[len(lg)-40:]
	}
	last := ""
	if len(r.log) > 0 {
		last = r.log[len(r.log)-1]
	}
	r.h.Violatef(key, map[string]any{"history": append([]string{}, lg...), "model": fmt.Sprint(r.model)}, "%s after %s: %s", r.name, last, fmt.Sprintf(f, a...))
}

func (r *run) stored() ([]D, error) {
	cur, err := r.coll.FindMany(ctx, D{})
	if err != nil {
		return nil, err
	}
	var out []D
	err = cur.All(ctx, &out)
	return out, err
}

func id(d D) any {
	for _, e := range d {
		if e.Key == "_id" {
			return e.Value
		}
	}
	return nil
}

// verify compares the whole collection; fresh lists positions whose _id the store generated.
func (r *run) verify(want []D, fresh map[int]bool) {
	got, err := r.stored()
	if err != nil {
		r.fail("read-back", "FindMany({}): %v", err)
		return
	}
	r.h.Observe("documents_compared", len(got))
	if len(got) != len(want) {
		r.fail("state/count", "%d documents stored instead of %d", len(got), len(want))
		return
	}
	for i := range got {
		if fresh[i] {
			oid, ok := id(got[i]).(primitive.ObjectID)
			if !ok || r.seen[oid] || oid.IsZero() {
				r.fail("state/fresh-id", "document %d has _id %v, which is not a fresh one", i, id(got[i]))
				return
			}
			r.seen[oid] = true
			want[i] = append(D{{"_id", oid}}, want[i]...)
			r.g.ids = append(r.g.ids, oid)
		}
		if !mongo.Equal(got[i], want[i]) {
			r.fail("state/document", "document %d is\n   %v\ninstead of\n   %v", i, got[i], want[i])
			return
		}
	}
	r.model = want
}

func (r *run) matches(f D) ([]int, error) {
	nf, err := mongo.Norm(f)
	if err != nil {
		return nil, mongo.ErrBad
	}
	if _, err := mongo.Match(nf, D{}); err != nil && err != mongo.ErrUnspecified {
		return nil, err
	}
	var out []int
	for i, d := range r.model {
		m, err := mongo.Match(nf, d)
		if err != nil {
			return nil, err
		}
		if m {
			out = append(out, i)
		}
	}
	return out, nil
}

func (r *run) clone() []D {
	out := make([]D, len(r.model))
	for i := range out {
		out[i] = mongo.CloneD(r.model[i])
	}
	return out
}

func (r *run) cursor(c backend.NoSQLCursor, want []int) {
	var all []D
	if err := c.All(ctx, &all); err != nil {
		r.fail("find/all", "cursor.All: %v", err)
		return
	}
	same := len(all) == len(want)
	for i := 0; same && i < len(all); i++ {
		same = mongo.Equal(all[i], r.model[want[i]])
	}
	if !same {
		var w []D
		for _, i := range want {
			w = append(w, r.model[i])
		}
		r.fail("find/result", "found\n   %v\ninstead of\n   %v", all, w)
		return
	}
	var one D
	ok, err := c.One(ctx, &one)
	if err != nil || ok != (len(want) > 0) || ok && !mongo.Equal(one, r.model[want[0]]) {
		r.fail("find/one", "cursor.One = %v, %v, %v although %d documents matched", ok, err, one, len(want))
	}
	if len(want) > 0 {
		var m bson.M
		if ok, err := c.One(ctx, &m); !ok || err != nil || len(m) != len(r.model[want[0]]) {
			r.fail("find/one", "cursor.One into a bson.M = %v, %v, %v", ok, err, m)
		}
		var bad int
		if err := c.All(ctx, &bad); err == nil {
			r.fail("find/all-type", "cursor.All into an int succeeded")
		}
		if err := c.All(ctx, nil); err == nil {
			r.fail("find/all-type", "cursor.All into nil succeeded")
		}
	}
}

func (r *run) note(f string, a ...any) { r.log = append(r.log, fmt.Sprintf(f, a...)) }

func expectErr(err, want error) bool { return (err != nil) == (want != nil) }

func (r *run) step() {
	g := r.g
	kind := g.Intn(100)
	switch {
	case kind < 14 || len(r.model) == 0 && kind < 50: // inserts
		n := 1
		if g.p(4) {
			n = g.Intn(4)
		}
		var docs []any
		want := r.clone()
		fresh := map[int]bool{}
		broken := g.p(15) && n > 0
		for k := 0; k < n; k++ {
			doc := g.document()
			if d, ok := doc.(D); ok && g.p(4) {
				oid := any(primitive.NewObjectID())
				if g.p(3) {
					oid = fmt.Sprintf("id%d", len(r.seen))
				}
				if !r.seen[oid] {
					r.seen[oid] = true
					g.ids = append(g.ids, oid)
					if g.p(2) {
						d = append(D{{"_id", oid}}, d...)
					} else {
						d = append(d, E{"_id", oid})
					}
					doc = d
				}
			}
			nd, err := mongo.Norm(doc)
			if err != nil {
				panic(err)
			}
			if id(nd) == nil {
				fresh[len(want)] = true
			}
			want = append(want, nd)
			docs = append(docs, doc)
		}
		if _, isM := func() (any, bool) { _, ok := any(nil).(bson.M); return nil, ok }(); isM {
			return
		}
		if broken {
			docs = append(docs, []any{5, "str", make(chan int), nil, D{{"a", make(chan int)}}, A{1}}[g.Intn(6)])
		}
		r.note("Insert %d %v", len(docs), docs)
		var err error
		if len(docs) == 1 && g.p(2) {
			err = r.coll.InsertOne(ctx, docs[0])
		} else {
			err = r.coll.InsertMany(ctx, docs)
		}
		if broken {
			if err == nil {
				r.fail("insert/no-error", "inserting %T succeeded", docs[len(docs)-1])
				return
			}
			r.h.Observe("failed_ops", 1)
			r.verify(r.clone(), nil)
			return
		}
		if err != nil {
			r.fail("insert/error", "%v", err)
			return
		}
		// maps are stored in some field order
		got, _ := r.stored()
		for i := len(r.model); i < len(want) && i < len(got); i++ {
			k := reflect.TypeOf(docs[i-len(r.model)]).Kind()
			if k == reflect.Map {
				want[i] = reorder(want[i], got[i])
			}
		}
		r.verify(want, fresh)
		r.h.Observe("inserts", n)

	case kind < 45: // finds
		f := g.filter(2)
		m, werr := r.matches(f)
		if werr == mongo.ErrUnspecified {
			return
		}
		r.note("Find %v", f)
		c, err := r.coll.FindMany(ctx, f)
		if !expectErr(err, werr) {
			r.fail("find/error", "FindMany: %v", err)
			return
		}
		if err != nil {
			return
		}
		r.cursor(c, m)
		c, err = r.coll.FindOne(ctx, f)
		if err != nil {
			r.fail("find/error", "FindOne: %v", err)
			return
		}
		if len(m) > 1 {
			m = m[:1]
		}
		if !r.bad {
			r.cursor(c, m)
		}
		r.h.Observe("finds", 2)
		if len(m) > 0 {
			r.h.Observe("finds_matching", 2)
		}

	case kind < 76: // updates
		f, u := g.filter(2), g.update()
		m, werr := r.matches(f)
		if werr != nil {
			return
		}
		nu, err := mongo.Norm(u)
		if err != nil {
			return
		}
		one := g.p(2)
		r.note("Update one=%v %v %v", one, f, u)
		if one && len(m) > 1 {
			m = m[:1]
		}
		want := r.clone()
		_, werr = mongo.Update(nu, D{})
		if werr == mongo.ErrUnspecified {
			werr = nil
		}
		for _, i := range m {
			nd, err := mongo.Update(nu, want[i])
			if err == mongo.ErrUnspecified {
				return
			}
			if err != nil {
				werr = err
				break
			}
			want[i] = nd
		}
		var n int
		if one {
			n, err = r.coll.UpdateOne(ctx, f, u)
		} else {
			n, err = r.coll.UpdateMany(ctx, f, u)
		}
		if !expectErr(err, werr) {
			r.fail("update/error", "error %v, expected %v", err, werr)
			return
		}
		if werr != nil {
			r.h.Observe("failed_ops", 1)
			if n != 0 {
				r.fail("update/count-on-error", "failed with count %d", n)
			}
			r.verify(r.clone(), nil)
			return
		}
		if n != len(m) {
			r.fail("update/count", "returned %d but %d documents match", n, len(m))
			return
		}
		r.verify(want, nil)
		r.h.Observe("updates", 1)
		r.h.Observe("documents_updated", n)

	case kind < 92: // replaces and upserts
		f := g.filter(2)
		m, werr := r.matches(f)
		if werr != nil {
			return
		}
		doc := g.document()
		for reflect.TypeOf(doc).Kind() == reflect.Map {
			doc = g.document()
		}
		nd, _ := mongo.Norm(doc)
		want := r.clone()
		keep := func(i int, nd D) {
			oid := id(want[i])
			want[i] = append(D{{"_id", oid}}, mongo.CloneD(nd)...)
		}
		switch g.Intn(4) {
		case 0:
			r.note("ReplaceOne %v %v", f, doc)
			n, err := r.coll.ReplaceOne(ctx, f, doc)
			if len(m) > 1 {
				m = m[:1]
			}
			if err != nil || n != len(m) {
				r.fail("replace/result", "ReplaceOne = %d, %v although %d match", n, err, len(m))
				return
			}
			for _, i := range m {
				keep(i, nd)
			}
			r.verify(want, nil)
		case 1:
			var reps []any
			for k := g.Intn(4); k > 0; k-- {
				reps = append(reps, g.doc())
			}
			r.note("ReplaceMany %v %v", f, reps)
			n, err := r.coll.ReplaceMany(ctx, f, reps...)
			k := min(len(m), len(reps))
			if err != nil || n != k {
				r.fail("replace/result", "ReplaceMany = %d, %v although %d match and %d are given", n, err, len(m), len(reps))
				return
			}
			for j := 0; j < k; j++ {
				x, _ := mongo.Norm(reps[j])
				keep(m[j], x)
			}
			r.verify(want, nil)
		case 2:
			if len(m) == 0 {
				for _, e := range f {
					if e.Key == "_id" {
						return // which _id the inserted document gets is not specified
					}
				}
			}
			r.note("Upsert %v %v", f, doc)
			rep, err := r.coll.Upsert(ctx, f, doc)
			if err != nil || rep != (len(m) > 0) {
				r.fail("upsert/result", "Upsert = %v, %v although %d match", rep, err, len(m))
				return
			}
			if rep {
				keep(m[0], nd)
				r.verify(want, nil)
			} else {
				r.verify(append(want, nd), map[int]bool{len(want): true})
			}
		case 3:
			oid := primitive.NewObjectID()
			at := -1
			if len(g.ids) > 0 && g.p(2) {
				if x, ok := g.ids[g.Intn(len(g.ids))].(primitive.ObjectID); ok {
					oid = x
				}
			}
			for i := range want {
				if id(want[i]) == any(oid) {
					at = i
				}
			}
			d := append(D{{"_id", oid}}, g.doc()...)
			nd, _ := mongo.Norm(d)
			r.note("UpsertID %v %v", oid, d)
			rep, err := r.coll.UpsertID(ctx, oid, d)
			if err != nil || rep != (at >= 0) {
				r.fail("upsert/result", "UpsertID = %v, %v although stored: %v", rep, err, at >= 0)
				return
			}
			if rep {
				want[at] = nd
			} else {
				if !r.seen[oid] {
					r.seen[oid] = true
					g.ids = append(g.ids, oid)
				}
				want = append(want, nd)
			}
			r.verify(want, nil)
		}
		r.h.Observe("replaces", 1)

	default: // deletes
		f := g.filter(2)
		if g.p(2) && len(g.ids) > 0 {
			f = D{{"_id", g.ids[g.Intn(len(g.ids))]}}
		}
		m, werr := r.matches(f)
		if werr != nil {
			return
		}
		one := g.p(2) || len(m) > 3
		r.note("Delete one=%v %v", one, f)
		var err error
		if one {
			err = r.coll.DeleteOne(ctx, f)
			if len(m) > 1 {
				m = m[:1]
			}
		} else {
			err = r.coll.DeleteMany(ctx, f)
		}
		if err != nil {
			r.fail("delete/error", "%v", err)
			return
		}
		del := map[int]bool{}
		for _, i := range m {
			del[i] = true
		}
		var want []D
		for i, d := range r.clone() {
			if !del[i] {
				want = append(want, d)
			}
		}
		r.verify(want, nil)
		r.h.Observe("deletes", 1)
		r.h.Observe("documents_deleted", len(m))
	}
}

// reorder gives want the field order of got, when they have the same fields.
func reorder(want, got D) D {
	var out D
	for _, e := range got {
		for _, w := range want {
			if w.Key == e.Key {
				out = append(out, w)
			}
		}
	}
	if len(out) == len(want) {
		return out
	}
	return want
}

func (r *run) malformed(bf, bu []D) {
	g := r.g
	before := r.clone()
	try := func(what string, f func() error) {
		if r.bad {
			return
		}
		r.note("%s", what)
		var err error
		if p := hx.Catch(func() { err = f() }); p != "" {
			r.fail("malformed/panic", "%s: %s", what, p)
			return
		}
		if err == nil {
			r.fail("malformed/accepted", "%s succeeded", what)
			return
		}
		r.verify(before, nil)
		r.h.Observe("malformed_rejected", 1)
	}
	f := bf[g.Intn(len(bf))]
	u := D{{"$set", D{{"a", 99}}}}
	switch g.Intn(12) {
	case 0:
		try(fmt.Sprintf("FindOne %v", f), func() error { _, err := r.coll.FindOne(ctx, f); return err })
	case 1, 2:
		try(fmt.Sprintf("FindMany %v", f), func() error { _, err := r.coll.FindMany(ctx, f); return err })
	case 3:
		try(fmt.Sprintf("DeleteOne %v", f), func() error { return r.coll.DeleteOne(ctx, f) })
	case 4:
		try(fmt.Sprintf("DeleteMany %v", f), func() error { return r.coll.DeleteMany(ctx, f) })
	case 5:
		try(fmt.Sprintf("UpdateOne %v", f), func() error { _, err := r.coll.UpdateOne(ctx, f, u); return err })
	case 6:
		try(fmt.Sprintf("UpdateMany %v", f), func() error { _, err := r.coll.UpdateMany(ctx, f, u); return err })
	case 7:
		try(fmt.Sprintf("ReplaceOne %v", f), func() error { _, err := r.coll.ReplaceOne(ctx, f, D{{"a", 1}}); return err })
	case 8:
		try(fmt.Sprintf("ReplaceMany %v", f), func() error { _, err := r.coll.ReplaceMany(ctx, f, D{{"a", 1}}); return err })
	case 9:
		try(fmt.Sprintf("Upsert %v", f), func() error { _, err := r.coll.Upsert(ctx, f, D{{"a", 1}}); return err })
	case 10:
		if len(r.model) > 0 {
			bad := []any{5, "str", make(chan int), nil, D{{"a", make(chan int)}}}[g.Intn(5)]
			switch g.Intn(3) {
			case 0:
				try(fmt.Sprintf("ReplaceOne with %T", bad), func() error { _, err := r.coll.ReplaceOne(ctx, D{}, bad); return err })
			case 1:
				try(fmt.Sprintf("ReplaceMany with %T", bad), func() error { _, err := r.coll.ReplaceMany(ctx, D{}, bad, D{{"a", 9}}); return err })
			case 2:
				try(fmt.Sprintf("Upsert with %T", bad), func() error { _, err := r.coll.Upsert(ctx, D{}, bad); return err })
			}
		}
	case 11:
		bad := bu[g.Intn(len(bu))]
		wf := D{}
		fails := false
		nu, err := mongo.Norm(bad)
		if err != nil {
			fails = true
		} else {
			_, e := mongo.Update(nu, D{})
			fails = e == mongo.ErrBad
			for _, d := range r.model {
				_, e := mongo.Update(nu, d)
				fails = fails || e == mongo.ErrBad
			}
		}
		if fails {
			try(fmt.Sprintf("UpdateMany %v %v", wf, bad), func() error { _, err := r.coll.UpdateMany(ctx, wf, bad); return err })
		}
	}
}

func (r *run) hostile() {
	// odd paths: nothing is promised about the result, except no panic, and that other documents stay
	g := r.g
	odd := []string{"", ".", "a.", ".a", "..", "-1", "c.-1", "c.-1.x", "c.00", "c.1e3", "c.+1", "e.-0", "a.0.0", "z.0.0.0", "c.0.0", "d.x.0", "$", "a.$", "c.$", "c.$[]", "c.40"}
	p := odd[g.Intn(len(odd))]
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	c, _ := db.GetCollection(ctx, "h", "h")
	d1, d2 := append(D{{"_id", 1}, {"k", 1}}, g.doc()...), append(D{{"_id", 2}, {"k", 2}}, g.doc()...)
	c.InsertMany(ctx, []any{d1, d2})
	v := g.value("a")
	what := fmt.Sprintf("odd path %q with %v", p, v)
	r.note("%s", what)
	if pn := hx.Catch(func() {
		c.FindMany(ctx, D{{p, v}})
		c.FindMany(ctx, D{{p, D{{"$exists", false}}}})
		c.FindMany(ctx, D{{p, D{{"$gt", 1}}}})
		for _, op := range []string{"$set", "$unset", "$push", "$pull", "$addToSet", "$inc"} {
			c.UpdateOne(ctx, D{{"k", 1}}, D{{op, D{{p, v}}}})
		}
	}); pn != "" {
		r.fail("odd/panic", "%s: %s", what, pn)
		return
	}
	cur, err := c.FindMany(ctx, D{{"k", 2}})
	var all []D
	if err == nil {
		err = cur.All(ctx, &all)
	}
	w, _ := mongo.Norm(d2)
	if err != nil || len(all) != 1 || !mongo.Equal(all[0], w) {
		r.fail("odd/other-document", "%s: another document changed: %v, %v", what, all, err)
	}
	r.h.Observe("odd_paths", 1)
}

func main() {
	h := hx.New()
	h.Rule = "a random sequence of operations on one collection, each compared with an independent MongoDB-semantics model, the whole collection read back after every write"
	bf, bu := badFilters(), badUpdates()
	for i := 0; i < h.N(1500, 60000); i++ {
		g := &gen{Rand: h.Rand(int64(3000 + i))}
		db, err := simplenosqldb.NewSimpleNoSQLDB(ctx)
		if err != nil {
			panic(err)
		}
		coll, err := db.GetCollection(ctx, "db", "coll")
		if err != nil {
			panic(err)
		}
		r := &run{h: h, name: fmt.Sprintf("sequence %d", i), g: g, coll: coll, seen: map[any]bool{}}
		n := 20 + g.Intn(60)
		for k := 0; k < n && !r.bad; k++ {
			if p := hx.Catch(func() {
				switch {
				case g.p(12):
					r.malformed(bf, bu)
				case g.p(25):
					r.hostile()
				default:
					r.step()
				}
			}); p != "" {
				r.fail("panic", "%s", p)
			}
			h.Observe("steps", 1)
		}
		h.Case(r.name, n > 0)
		if i == 0 {
			h.Sample(r.log[:min(len(r.log), 25)])
		}
	}
	// every malformed filter and update against a populated collection
	r := &run{h: h, name: "malformed catalogue", g: &gen{Rand: h.Rand(5)}, seen: map[any]bool{}}
	for _, f := range bf {
		db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
		c, _ := db.GetCollection(ctx, "db", "coll")
		var docs []any
		for k := 0; k < 4; k++ {
			docs = append(docs, D{{"_id", k}, {"a", k}, {"b", "x"}, {"c", A{1, 2}}, {"d", D{{"x", 1}}}, {"e", A{D{{"x", 1}}}}})
		}
		c.InsertMany(ctx, docs)
		if p := hx.Catch(func() {
			if _, err := c.FindMany(ctx, f); err == nil {
				h.Violatef("malformed/accepted", fmt.Sprint(f), "FindMany(%v) succeeded", f)
			}
			if err := c.DeleteMany(ctx, f); err == nil {
				h.Violatef("malformed/accepted", fmt.Sprint(f), "DeleteMany(%v) succeeded", f)
			}
		}); p != "" {
			h.Violatef("malformed/panic", fmt.Sprint(f), "filter %v: %s", f, p)
		}
		h.Case(fmt.Sprint("bad", f), true)
	}
	_ = r
	findings(h)
	h.Done()
}

// findings probes the known deviations, each reported under its own key.
func findings(h *hx.H) {
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	c, _ := db.GetCollection(ctx, "db", "coll")
	c.InsertOne(ctx, D{{"_id", 1}, {"a", 1}, {"b", 2}})
	cur, err := c.FindOne(ctx, D{}, D{{"a", 1}})
	var d D
	if err == nil {
		cur.One(ctx, &d)
		for _, e := range d {
			if e.Key == "b" {
				h.Violatef("projection-ignored", fmt.Sprint(d), "FindOne({}, projection {a:1}) returned %v", d)
				break
			}
		}
	}
	if err := c.InsertOne(ctx, D{{"_id", 1}, {"a", 5}}); err == nil {
		h.Violatef("duplicate-id-accepted", nil, "a second document with _id 1 was inserted")
	}
	h.Case("findings", true)
}
