// c25 drives the TrainTicket services, wired to the in-memory backends, with random sequential and concurrent requests
// and failing databases, and judges every answer and the stored records against a reference model.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/assurance"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/config"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/consignprice"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/contacts"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/delivery"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/food"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/news"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/payment"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/price"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/route"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/station"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/stationfood"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/train"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/trainfood"
	"github.com/blueprint-uservices/blueprint/examples/train_ticket/workflow/user"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"go.mongodb.org/mongo-driver/bson"
)

var ctx = context.Background()
var h *hx.H

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("setup: %v", err))
	}
	return v
}

// ---- a database that records which collections are used and can be made to fail ----

var errFault = errors.New("injected database failure")

type faultDB struct {
	inner backend.NoSQLDatabase
	mu    sync.Mutex
	colls map[string]backend.NoSQLCollection // "db/coll" -> collection, of all collections used
	fail  int                                // the operation, counted from 1, that fails; 0 for none
	n     int
	hit   string // the operation that failed
}

func newDB() *faultDB {
	return &faultDB{inner: must(simplenosqldb.NewSimpleNoSQLDB(ctx)), colls: map[string]backend.NoSQLCollection{}}
}

func (d *faultDB) op(what string) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	if d.fail != 0 && d.n == d.fail {
		d.hit = what
		return errFault
	}
	return nil
}

func (d *faultDB) arm(k int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.fail, d.n, d.hit = k, 0, ""
}

func (d *faultDB) failed() (string, int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.hit, d.n
}

func (d *faultDB) GetCollection(ctx context.Context, db, coll string) (backend.NoSQLCollection, error) {
	if err := d.op("GetCollection"); err != nil {
		return nil, err
	}
	c, err := d.inner.GetCollection(ctx, db, coll)
	if err != nil {
		return nil, err
	}
	d.mu.Lock()
	d.colls[db+"/"+coll] = c
	d.mu.Unlock()
	return &faultColl{c, d}, nil
}

type faultColl struct {
	backend.NoSQLCollection
	d *faultDB
}

type faultCursor struct {
	backend.NoSQLCursor
	d *faultDB
}

func (c *faultColl) cursor(cur backend.NoSQLCursor, err error) (backend.NoSQLCursor, error) {
	if err != nil {
		return nil, err
	}
	return &faultCursor{cur, c.d}, nil
}
func (c *faultColl) DeleteOne(ctx context.Context, f bson.D) error {
	if err := c.d.op("DeleteOne"); err != nil {
		return err
	}
	return c.NoSQLCollection.DeleteOne(ctx, f)
}
func (c *faultColl) DeleteMany(ctx context.Context, f bson.D) error {
	if err := c.d.op("DeleteMany"); err != nil {
		return err
	}
	return c.NoSQLCollection.DeleteMany(ctx, f)
}
func (c *faultColl) InsertOne(ctx context.Context, doc interface{}) error {
	if err := c.d.op("InsertOne"); err != nil {
		return err
	}
	return c.NoSQLCollection.InsertOne(ctx, doc)
}
func (c *faultColl) InsertMany(ctx context.Context, docs []interface{}) error {
	if err := c.d.op("InsertMany"); err != nil {
		return err
	}
	return c.NoSQLCollection.InsertMany(ctx, docs)
}
func (c *faultColl) FindOne(ctx context.Context, f bson.D, p ...bson.D) (backend.NoSQLCursor, error) {
	if err := c.d.op("FindOne"); err != nil {
		return nil, err
	}
	return c.cursor(c.NoSQLCollection.FindOne(ctx, f, p...))
}
func (c *faultColl) FindMany(ctx context.Context, f bson.D, p ...bson.D) (backend.NoSQLCursor, error) {
	if err := c.d.op("FindMany"); err != nil {
		return nil, err
	}
	return c.cursor(c.NoSQLCollection.FindMany(ctx, f, p...))
}
func (c *faultColl) UpdateOne(ctx context.Context, f bson.D, u bson.D) (int, error) {
	if err := c.d.op("UpdateOne"); err != nil {
		return 0, err
	}
	return c.NoSQLCollection.UpdateOne(ctx, f, u)
}
func (c *faultColl) UpdateMany(ctx context.Context, f bson.D, u bson.D) (int, error) {
	if err := c.d.op("UpdateMany"); err != nil {
		return 0, err
	}
	return c.NoSQLCollection.UpdateMany(ctx, f, u)
}
func (c *faultColl) Upsert(ctx context.Context, f bson.D, doc interface{}) (bool, error) {
	if err := c.d.op("Upsert"); err != nil {
		return false, err
	}
	return c.NoSQLCollection.Upsert(ctx, f, doc)
}
func (c *faultColl) ReplaceOne(ctx context.Context, f bson.D, doc interface{}) (int, error) {
	if err := c.d.op("ReplaceOne"); err != nil {
		return 0, err
	}
	return c.NoSQLCollection.ReplaceOne(ctx, f, doc)
}
func (c *faultCursor) One(ctx context.Context, obj interface{}) (bool, error) {
	if err := c.d.op("cursor One"); err != nil {
		return false, err
	}
	return c.NoSQLCursor.One(ctx, obj)
}
func (c *faultCursor) All(ctx context.Context, obj interface{}) error {
	if err := c.d.op("cursor All"); err != nil {
		return err
	}
	return c.NoSQLCursor.All(ctx, obj)
}

// stored reads all records of type T in all collections of the database whose name ends with suffix.
func stored[T any](d *faultDB, suffix string) []T {
	d.mu.Lock()
	var cs []backend.NoSQLCollection
	for k, c := range d.colls {
		if strings.HasSuffix(k, suffix) {
			cs = append(cs, c)
		}
	}
	d.mu.Unlock()
	var all []T
	for _, c := range cs {
		var part []T
		cur := must(c.FindMany(ctx, bson.D{}))
		if err := cur.All(ctx, &part); err != nil {
			panic(fmt.Sprintf("setup: %v", err))
		}
		all = append(all, part...)
	}
	return all
}

// ---- comparison ----

func norm(v any) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return strings.ReplaceAll(strings.TrimSpace(b.String()), "null", "[]")
}

func bag[T any](xs []T) string {
	var s []string
	for _, x := range xs {
		s = append(s, norm(x))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "…"
	}
	return s
}

func filter[T any](xs []T, f func(T) bool) []T {
	var out []T
	for _, x := range xs {
		if f(x) {
			out = append(out, x)
		}
	}
	return out
}

func without[T any](xs []T, i int) []T {
	return append(append([]T{}, xs[:i]...), xs[i+1:]...)
}

func replaced[T any](xs []T, i int, x T) []T {
	ys := append([]T{}, xs...)
	ys[i] = x
	return ys
}

func plus[T any](xs []T, x T) []T { return append(append([]T{}, xs...), x) }

func index[T any](xs []T, f func(T) bool) int {
	for i, x := range xs {
		if f(x) {
			return i
		}
	}
	return -1
}

// ---- requests ----

const (
	ok = iota
	fails
	either
)

// step is one request: call it, compare the answer, and compare the records that are stored afterwards.
type step[T any] struct {
	op   string
	args any
	call func() (any, error)
	want int                // whether the request must succeed
	got  func(v any) string // judges the answer of a request that succeeded; "" when right
	// the states allowed afterwards when the request succeeded (without any: the state must not change)
	after  [][]T
	late   func(v any) [][]T // instead of after, when the state depends on the answer
	blanks bool              // the answer does not tell failed lookups from those of unknown records
	// the states allowed afterwards when the request failed without a database failure (nil: unchanged)
	afterFail [][]T
}

// table is the reference model of one service: its records.
type table[T any] struct {
	name string
	db   *faultDB
	coll string
	own  func(T) bool
	recs []T
	log  []string
	bad  *atomic.Bool
	id   string // identifies the history
}

var reqs, refused, hitsN, updates atomic.Int64
var ops sync.Map

func (t *table[T]) fail(key, f string, a ...any) {
	t.bad.Store(true)
	l := t.log
	if len(l) > 14 {
		l = l[len(l)-14:]
	}
	h.Violatef(t.name+"-"+key, map[string]any{"service": t.name, "history": t.id, "last requests": l, "records expected": norm(t.recs)}, f, a...)
}

func (t *table[T]) state() []T { return filter(stored[T](t.db, t.coll), t.own) }

// run performs a request; with fault > 0 the fault-th database operation fails. It says whether the request got as far.
func (t *table[T]) run(s step[T], fault int) (hit bool) {
	t.log = append(t.log, clip(s.op+" "+norm(s.args)+map[bool]string{true: fmt.Sprintf(" [database operation %d fails]", fault), false: ""}[fault > 0]))
	if fault > 0 {
		t.db.arm(fault)
	}
	var v any
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				t.fail(s.op+"-panics", "%s.%s(%s) panicked: %v\n%s", t.name, s.op, clip(norm(s.args)), p, clip(st))
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		v, err = s.call()
	}()
	what := ""
	if fault > 0 {
		what, _ = t.db.failed()
		t.db.arm(0)
	}
	reqs.Add(1)
	if n, _ := ops.LoadOrStore(t.name+"."+s.op, new(atomic.Int64)); true {
		n.(*atomic.Int64).Add(1)
	}
	if t.bad.Load() {
		return what != ""
	}
	before := t.recs
	now := t.state()
	same := func(states ...[]T) bool {
		for _, x := range states {
			if bag(x) == bag(now) {
				return true
			}
		}
		return false
	}
	succ := s.after
	if err == nil && s.late != nil {
		succ = s.late(v)
	}
	if succ == nil {
		succ = [][]T{before}
	}
	call := t.name + "." + s.op + "(" + clip(norm(s.args)) + ")"
	defer func() { t.recs = now }()
	if what != "" {
		hitsN.Add(1)
		if err != nil {
			if s.late == nil && !same(append(append([][]T{before}, succ...), s.afterFail...)...) {
				t.fail(s.op+"-fault-state", "%s failed because the database's %s failed, and left\n%s\nwhere it could leave\n%s\nor\n%s", call, what, clip(bag(now)), clip(bag(before)), clip(bag(succ[0])))
			}
			if s.late != nil && len(now) > len(before)+1 {
				t.fail(s.op+"-fault-state", "%s failed because the database's %s failed and left %d records where there were %d", call, what, len(now), len(before))
			}
			return true
		}
		// the failure was not reported: then it must have had no effect
		if s.want == fails {
			t.fail(s.op+"-fault-hidden", "%s succeeded although it must fail, when the database's %s failed", call, what)
			return true
		}
	}
	if err != nil {
		refused.Add(1)
		if s.want == ok {
			t.fail(s.op+"-refused", "%s failed: %v; the records were %s", call, err, clip(bag(before)))
			return what != ""
		}
		if !same(append([][]T{before}, s.afterFail...)...) {
			t.fail(s.op+"-failed-with-effect", "%s failed (%v) but changed the records to\n%s\nfrom\n%s", call, err, clip(bag(now)), clip(bag(before)))
		}
		return what != ""
	}
	if s.want == fails {
		t.fail(s.op+"-accepted", "%s succeeded with %s but must fail; the records were %s", call, clip(norm(v)), clip(bag(before)))
		return what != ""
	}
	if s.got != nil && !(s.blanks && what != "") {
		if p := s.got(v); p != "" {
			hid := ""
			if what != "" {
				hid = " (the database's " + what + " failed, and no error was reported)"
			}
			t.fail(s.op+"-answer", "%s answered %s%s: %s", call, clip(norm(v)), hid, p)
			return what != ""
		}
	}
	if !same(succ...) {
		hid := ""
		if what != "" {
			hid = " (the database's " + what + " failed, and no error was reported)"
		}
		t.fail(s.op+"-state", "%s succeeded%s and left\n%s\nwhere it must leave\n%s", call, hid, clip(bag(now)), clip(bag(succ[0])))
		return what != ""
	}
	if len(t.log) == 12 {
		h.Sample(t.id + ": " + clip(strings.Join(t.log, "; ")))
	}
	if bag(now) != bag(before) {
		updates.Add(1)
	}
	return what != ""
}

// ---- answers ----

func oneOf[T any](cands []T) func(v any) string {
	return func(v any) string {
		for _, c := range cands {
			if norm(c) == norm(v) {
				return ""
			}
		}
		return "it must be " + clip(bag(cands))
	}
}

func is(want any) func(v any) string {
	return func(v any) string {
		if norm(v) != norm(want) {
			return "it must be " + clip(norm(want))
		}
		return ""
	}
}

// all compares a list of records, as far as they are those of this history.
func (t *table[T]) all(want []T) func(v any) string {
	return func(v any) string {
		got := filter(v.([]T), t.own)
		if bag(got) != bag(want) {
			return "its records must be " + clip(bag(want))
		}
		return ""
	}
}

func found(n int) int {
	if n == 0 {
		return fails
	}
	return ok
}

// w generates values.
type w struct {
	r   *rand.Rand
	pre string // all keys of a history start with it
	n   int
	// alone: no other history uses the same service
	alone bool
}

var odd = []string{"", " ", "é", "日本", "a.b", "$set", "a:b", "x,y", "\"q\"", "null", "0", "-1", "%d", "\n", "a'b", "<&>", "[]", "{}", "\\", "A", "a"}

func (g *w) key(kind string, n int) string { return g.pre + kind + strconv.Itoa(g.r.Intn(n)) }
func (g *w) fresh(kind string) string      { g.n++; return fmt.Sprintf("%s%s#%d", g.pre, kind, g.n) }
func (g *w) str() string {
	if g.r.Intn(3) == 0 {
		return odd[g.r.Intn(len(odd))]
	}
	return fmt.Sprintf("v%d", g.r.Intn(1000))
}
func (g *w) oddkey(kind string, n int) string {
	if g.r.Intn(4) == 0 {
		return g.pre + odd[g.r.Intn(len(odd))]
	}
	return g.key(kind, n)
}
func (g *w) num() int64 {
	return []int64{0, 1, -1, 7, 1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64, int64(g.r.Intn(1000))}[g.r.Intn(9)]
}
func (g *w) float() float64 {
	return []float64{0, 1, 0.1, 2.5, 1e9, 1e-3, float64(g.r.Intn(1000)), g.r.Float64() * 100}[g.r.Intn(8)]
}
func (g *w) some(kind string, n int) []string {
	var out []string
	for i, k := 0, g.r.Intn(5); i < k; i++ {
		out = append(out, g.key(kind, n))
	}
	return out
}
func (g *w) foods() []food.Food {
	var out []food.Food
	for i, k := 0, g.r.Intn(4); i < k; i++ {
		var f food.Food
		fillFood(g, &f)
		out = append(out, f)
	}
	return out
}

func fillFood(g *w, f *food.Food) {
	v := reflect.ValueOf(f).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch v.Field(i).Kind() {
		case reflect.String:
			v.Field(i).SetString(g.str())
		case reflect.Float64:
			v.Field(i).SetFloat(g.float())
		case reflect.Int64:
			v.Field(i).SetInt(g.num())
		}
	}
}

// svc is a service under test: the databases it uses and a generator of histories of requests over them.
type svc struct {
	name string
	make func() any // the service and its databases
	// next returns a function that performs the next random request of a history
	begin func(env any, g *w, id string, bad *atomic.Bool) func(fault int) bool
}

type env[S any] struct {
	s  S
	db *faultDB
}

func service[S any, T any](name string, mk func(db backend.NoSQLDatabase) (S, error), coll string, own func(pre string, x T) bool,
	gen func(s S, t *table[T], g *w) step[T]) svc {
	return svc{name: name,
		make: func() any {
			db := newDB()
			return env[S]{must(mk(db)), db}
		},
		begin: func(e any, g *w, id string, bad *atomic.Bool) func(int) bool {
			v := e.(env[S])
			t := &table[T]{name: name, db: v.db, coll: coll, own: func(x T) bool { return own(g.pre, x) }, bad: bad, id: id}
			return func(fault int) bool { return t.run(gen(v.s, t, g), fault) }
		}}
}

func b2(f func() error) func() (any, error) {
	return func() (any, error) { return nil, f() }
}

func call[R any](f func() (R, error)) func() (any, error) {
	return func() (any, error) { v, err := f(); return v, err }
}

// update is the request that replaces the record found by match, in services that insert or reject unknown records.
func update[T any](t *table[T], op string, x T, match func(T) bool, f func() (bool, error)) step[T] {
	i := index(t.recs, match)
	if i < 0 {
		return step[T]{op: op, args: x, call: call(f), want: either, after: [][]T{t.recs, plus(t.recs, x)},
			afterFail: [][]T{plus(t.recs, x)}, got: is(false)}
	}
	return step[T]{op: op, args: x, call: call(f), want: ok, after: [][]T{replaced(t.recs, i, x)}, got: is(true)}
}

func del[T any](t *table[T], op string, arg any, match func(T) bool, f func() error) step[T] {
	i := index(t.recs, match)
	if i < 0 {
		return step[T]{op: op, args: arg, call: b2(f), want: either}
	}
	return step[T]{op: op, args: arg, call: b2(f), want: ok, after: [][]T{without(t.recs, i)}}
}

func find[T any](t *table[T], op string, arg any, match func(T) bool, f func() (T, error)) step[T] {
	c := filter(t.recs, match)
	return step[T]{op: op, args: arg, call: call(f), want: found(len(c)), got: oneOf(c)}
}

func listing[T any](t *table[T], op string, arg any, match func(T) bool, f func() ([]T, error)) step[T] {
	c := t.recs
	if match != nil {
		c = filter(t.recs, match)
	}
	want := ok
	if len(c) == 0 {
		want = either
	}
	return step[T]{op: op, args: arg, call: call(f), want: want, got: t.all(c)}
}

func create[T any](t *table[T], op string, x T, dup func(T) bool, f func() error) step[T] {
	if index(t.recs, dup) >= 0 {
		return step[T]{op: op, args: x, call: b2(f), want: fails}
	}
	return step[T]{op: op, args: x, call: b2(f), want: ok, after: [][]T{plus(t.recs, x)}}
}

var services = []svc{
	service("station", func(db backend.NoSQLDatabase) (station.StationService, error) {
		return station.NewStationServiceImpl(ctx, db)
	}, "",
		func(pre string, x station.Station) bool { return strings.HasPrefix(x.ID, pre) },
		func(s station.StationService, t *table[station.Station], g *w) step[station.Station] {
			x := station.Station{ID: g.oddkey("s", 8), Name: g.oddkey("n", 8), StayTime: g.num()}
			id := func(y station.Station) bool { return y.ID == x.ID }
			nm := func(y station.Station) bool { return y.Name == x.Name }
			switch g.r.Intn(9) {
			case 0, 1:
				return create(t, "CreateStation", x, id, func() error { return s.CreateStation(ctx, x) })
			case 2:
				return update(t, "UpdateStation", x, id, func() (bool, error) { return s.UpdateStation(ctx, x) })
			case 3:
				return del(t, "DeleteStation", x.ID, id, func() error { return s.DeleteStation(ctx, x.ID) })
			case 4:
				return find(t, "FindByID", x.ID, id, func() (station.Station, error) { return s.FindByID(ctx, x.ID) })
			case 5:
				return step[station.Station]{op: "Exists", args: x.Name, call: call(func() (bool, error) { return s.Exists(ctx, x.Name) }), got: is(index(t.recs, nm) >= 0)}
			case 6:
				var ids []string
				for _, y := range filter(t.recs, nm) {
					ids = append(ids, y.ID)
				}
				return step[station.Station]{op: "FindID", args: x.Name, call: call(func() (string, error) { return s.FindID(ctx, x.Name) }), want: found(len(ids)), got: oneOf(ids)}
			case 7:
				names := g.some("n", 8)
				return step[station.Station]{op: "FindIDs", blanks: true, args: names, call: call(func() ([]string, error) { return s.FindIDs(ctx, names) }), got: func(v any) string {
					ids := v.([]string)
					if len(ids) != len(names) {
						return fmt.Sprintf("there must be one ID for each of the %d names", len(names))
					}
					for i, n := range names {
						c := filter(t.recs, func(y station.Station) bool { return y.Name == n })
						if len(c) == 0 && ids[i] != "" {
							return fmt.Sprintf("no station is called %q, so its ID must be empty", n)
						}
						if len(c) > 0 && index(c, func(y station.Station) bool { return y.ID == ids[i] }) < 0 {
							return fmt.Sprintf("number %d must be the ID of %q: %s", i, n, bag(c))
						}
					}
					return ""
				}}
			default:
				ids := g.some("s", 8)
				return step[station.Station]{op: "FindByIDs", blanks: true, args: ids, call: call(func() ([]station.Station, error) { return s.FindByIDs(ctx, ids) }), got: is(lookup(t, ids, func(y station.Station) string { return y.ID }))}
			}
		}),

	service("route", func(db backend.NoSQLDatabase) (route.RouteService, error) { return route.NewRouteServiceImpl(ctx, db) }, "",
		func(pre string, x route.Route) bool { return strings.HasPrefix(x.StartStation, pre) },
		func(s route.RouteService, t *table[route.Route], g *w) step[route.Route] {
			id := g.pre + strings.Repeat("r", 34) + strconv.Itoa(g.r.Intn(5))
			if len(t.recs) > 0 && g.r.Intn(2) == 0 {
				id = t.recs[g.r.Intn(len(t.recs))].ID
			}
			byID := func(y route.Route) bool { return y.ID == id }
			a, b := g.key("st", 4), g.key("st", 4)
			switch g.r.Intn(8) {
			case 0, 1, 2:
				x := route.Route{ID: id, StartStation: a, EndStation: b}
				info := route.RouteInfo{ID: id, StartStation: a, EndStation: b}
				var ss, ds []string
				for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
					x.Stations = append(x.Stations, g.key("st", 6))
					x.Distances = append(x.Distances, g.num())
					ss = append(ss, x.Stations[i])
					ds = append(ds, strconv.FormatInt(x.Distances[i], 10))
				}
				want := ok
				switch g.r.Intn(8) {
				case 0:
					ds, want = append(ds, "12"), fails
				case 1:
					ds[g.r.Intn(len(ds))], want = []string{"", "x", "1.5", "9223372036854775808", "0x1f"}[g.r.Intn(5)], fails
				case 2:
					ss, want = append(ss, "more"), fails
				}
				if g.r.Intn(3) == 0 {
					info.ID = []string{"", "short", id[:10]}[g.r.Intn(3)]
				}
				info.StationList, info.DistanceList = strings.Join(ss, ","), strings.Join(ds, ",")
				st := step[route.Route]{op: "CreateAndModify", args: info, want: want, call: call(func() (route.Route, error) { return s.CreateAndModify(ctx, info) })}
				if len(info.ID) >= 32 {
					st.got = is(x)
					if i := index(t.recs, byID); i >= 0 {
						st.after = [][]route.Route{replaced(t.recs, i, x)}
					} else {
						st.after = [][]route.Route{plus(t.recs, x)}
					}
					return st
				}
				st.got = func(v any) string {
					y := v.(route.Route)
					if y.ID == "" || index(t.recs, func(z route.Route) bool { return z.ID == y.ID }) >= 0 {
						return "a new route must have an ID that no other route has"
					}
					x.ID = y.ID
					return is(x)(y)
				}
				st.late = func(v any) [][]route.Route { return [][]route.Route{plus(t.recs, v.(route.Route))} }
				return st
			case 3:
				return del(t, "DeleteRoute", id, byID, func() error { return s.DeleteRoute(ctx, id) })
			case 4:
				return find(t, "GetRouteById", id, byID, func() (route.Route, error) { return s.GetRouteById(ctx, id) })
			case 5:
				return find(t, "GetRouteByStartAndEnd", []string{a, b}, func(y route.Route) bool { return y.StartStation == a && y.EndStation == b }, func() (route.Route, error) { return s.GetRouteByStartAndEnd(ctx, a, b) })
			case 6:
				return listing(t, "GetAllRoutes", nil, nil, func() ([]route.Route, error) { return s.GetAllRoutes(ctx) })
			default:
				var ids []string
				for i, n := 0, g.r.Intn(5); i < n; i++ {
					if len(t.recs) > 0 && g.r.Intn(3) > 0 {
						ids = append(ids, t.recs[g.r.Intn(len(t.recs))].ID)
					} else {
						ids = append(ids, g.key("none", 3))
					}
				}
				return step[route.Route]{op: "GetRouteByIds", blanks: true, args: ids, call: call(func() ([]route.Route, error) { return s.GetRouteByIds(ctx, ids) }), got: is(lookup(t, ids, func(y route.Route) string { return y.ID }))}
			}
		}),

	service("train", func(db backend.NoSQLDatabase) (train.TrainService, error) { return train.NewTrainServiceImpl(ctx, db) }, "",
		func(pre string, x train.TrainType) bool { return strings.HasPrefix(x.ID, pre) },
		func(s train.TrainService, t *table[train.TrainType], g *w) step[train.TrainType] {
			x := train.TrainType{ID: g.fresh("t"), Name: g.oddkey("n", 8), EconomyClass: g.num(), ComfortClass: g.num(), AvgSpeed: g.num()}
			byName := func(y train.TrainType) bool { return y.Name == x.Name }
			op := g.r.Intn(9)
			if op >= 2 && len(t.recs) > 0 && g.r.Intn(4) > 0 {
				x.ID = t.recs[g.r.Intn(len(t.recs))].ID
			}
			byID := func(y train.TrainType) bool { return y.ID == x.ID }
			switch op {
			case 0, 1:
				st := create(t, "Create", x, byName, nil)
				st.call = call(func() (bool, error) { return s.Create(ctx, x) })
				st.got = is(true)
				return st
			case 2:
				if i := index(t.recs, byName); i >= 0 {
					x.Name = g.fresh("n") // keeps names unique
				}
				return update(t, "Update", x, byID, func() (bool, error) { return s.Update(ctx, x) })
			case 3:
				return del(t, "Delete", x.ID, byID, func() error { _, err := s.Delete(ctx, x.ID); return err })
			case 4:
				return find(t, "Retrieve", x.ID, byID, func() (train.TrainType, error) { return s.Retrieve(ctx, x.ID) })
			case 5:
				return find(t, "RetrieveByName", x.Name, byName, func() (train.TrainType, error) { return s.RetrieveByName(ctx, x.Name) })
			case 6:
				return listing(t, "AllTrains", nil, nil, func() ([]train.TrainType, error) { return s.AllTrains(ctx) })
			default:
				names := g.some("n", 8)
				return step[train.TrainType]{op: "RetrieveByNames", blanks: true, args: names, call: call(func() ([]train.TrainType, error) { return s.RetrieveByNames(ctx, names) }), got: is(lookup(t, names, func(y train.TrainType) string { return y.Name }))}
			}
		}),

	service("price", func(db backend.NoSQLDatabase) (price.PriceService, error) { return price.NewPriceServiceImpl(ctx, db) }, "",
		func(pre string, x price.PriceConfig) bool { return strings.HasPrefix(x.ID, pre) },
		func(s price.PriceService, t *table[price.PriceConfig], g *w) step[price.PriceConfig] {
			x := price.PriceConfig{ID: g.oddkey("p", 8), TrainType: "tt" + strconv.Itoa(g.r.Intn(3)), RouteID: g.key("r", 3), BasicPriceRate: g.float(), FirstClassPriceRate: g.float()}
			if g.r.Intn(5) == 0 {
				x.TrainType = []string{"", "é", "x y", "$t", "a.b"}[g.r.Intn(5)]
			}
			id := func(y price.PriceConfig) bool { return y.ID == x.ID }
			rt := func(y price.PriceConfig) bool { return y.RouteID == x.RouteID && y.TrainType == x.TrainType }
			switch g.r.Intn(9) {
			case 0, 1, 2:
				st := step[price.PriceConfig]{op: "CreateNewPriceConfig", args: x, call: b2(func() error { return s.CreateNewPriceConfig(ctx, x) })}
				if i := index(t.recs, id); i >= 0 {
					st.after = [][]price.PriceConfig{replaced(t.recs, i, x)}
				} else {
					st.after = [][]price.PriceConfig{plus(t.recs, x)}
				}
				return st
			case 3:
				return update(t, "UpdatePriceConfig", x, id, func() (bool, error) { return s.UpdatePriceConfig(ctx, x) })
			case 4:
				return del(t, "DeletePriceConfig", x.ID, id, func() error { return s.DeletePriceConfig(ctx, x.ID) })
			case 5:
				return find(t, "FindByID", x.ID, id, func() (price.PriceConfig, error) { return s.FindByID(ctx, x.ID) })
			case 6:
				return find(t, "FindByRouteIDAndTrainType", []string{x.RouteID, x.TrainType}, rt, func() (price.PriceConfig, error) { return s.FindByRouteIDAndTrainType(ctx, x.RouteID, x.TrainType) })
			case 7:
				return listing(t, "GetAllPriceConfig", nil, nil, func() ([]price.PriceConfig, error) { return s.GetAllPriceConfig(ctx) })
			default:
				type rt struct{ r, t string }
				want := map[string]rt{}
				var keys []string
				for i, n := 0, g.r.Intn(6); i < n; i++ {
					k := rt{g.key("r", 3), "tt" + strconv.Itoa(g.r.Intn(3))}
					if len(t.recs) > 0 && g.r.Intn(2) == 0 {
						y := t.recs[g.r.Intn(len(t.recs))]
						k = rt{y.RouteID, y.TrainType}
					}
					want[k.r+":"+k.t] = k
					keys = append(keys, k.r+":"+k.t)
				}
				if g.r.Intn(4) == 0 {
					keys = append(keys, g.pre+"nocolon")
				}
				return step[price.PriceConfig]{op: "FindByRouteIDsAndTrainTypes", blanks: true, args: keys, call: call(func() (map[string]price.PriceConfig, error) { return s.FindByRouteIDsAndTrainTypes(ctx, keys) }), got: func(v any) string {
					m := v.(map[string]price.PriceConfig)
					for k := range m {
						if _, okk := want[k]; !okk {
							return fmt.Sprintf("it was not asked for %q", k)
						}
					}
					for k, p := range want {
						c := filter(t.recs, func(y price.PriceConfig) bool { return y.RouteID == p.r && y.TrainType == p.t })
						y, in := m[k]
						if len(c) == 0 && in {
							return fmt.Sprintf("there is no price for %q", k)
						}
						if len(c) > 0 && !in {
							return fmt.Sprintf("the price for %q, %s, is missing", k, bag(c))
						}
						if in {
							if p := oneOf(c)(y); p != "" {
								return fmt.Sprintf("for %q %s", k, p)
							}
						}
					}
					return ""
				}}
			}
		}),

	service("assurance", func(db backend.NoSQLDatabase) (assurance.AssuranceService, error) {
		return assurance.NewAssuranceServiceImpl(ctx, db)
	}, "",
		func(pre string, x assurance.Assurance) bool { return strings.HasPrefix(x.OrderID, pre) },
		func(s assurance.AssuranceService, t *table[assurance.Assurance], g *w) step[assurance.Assurance] {
			order := g.oddkey("o", 6)
			id := g.key("none", 2)
			if len(t.recs) > 0 && g.r.Intn(5) > 0 {
				id = t.recs[g.r.Intn(len(t.recs))].ID
			}
			byID := func(y assurance.Assurance) bool { return y.ID == id }
			byOrder := func(y assurance.Assurance) bool { return y.OrderID == order }
			types, _ := s.GetAllAssuranceTypes(ctx)
			switch g.r.Intn(9) {
			case 0, 1, 2:
				k := g.num()
				if g.r.Intn(4) > 0 && len(types) > 0 {
					k = types[g.r.Intn(len(types))].Index
				}
				want := fails
				x := assurance.Assurance{OrderID: order}
				for _, ty := range types {
					if ty.Index == k {
						want, x.AT = ok, ty
					}
				}
				return step[assurance.Assurance]{op: "Create", args: []any{k, order}, call: call(func() (assurance.Assurance, error) { return s.Create(ctx, k, order) }), want: want,
					got: func(v any) string {
						y := v.(assurance.Assurance)
						if y.ID == "" || index(t.recs, func(z assurance.Assurance) bool { return z.ID == y.ID }) >= 0 {
							return "it must have an ID that no other assurance has"
						}
						x.ID = y.ID
						return is(x)(y)
					},
					late: func(v any) [][]assurance.Assurance {
						return [][]assurance.Assurance{plus(t.recs, v.(assurance.Assurance))}
					}}
			case 3:
				return find(t, "FindAssuranceById", id, byID, func() (assurance.Assurance, error) { return s.FindAssuranceById(ctx, id) })
			case 4:
				return find(t, "FindAssuranceByOrderId", order, byOrder, func() (assurance.Assurance, error) { return s.FindAssuranceByOrderId(ctx, order) })
			case 5:
				return del(t, "DeleteById", id, byID, func() error { return s.DeleteById(ctx, id) })
			case 6:
				st := del(t, "DeleteByOrderId", order, byOrder, func() error { return s.DeleteByOrderId(ctx, order) })
				if n := len(filter(t.recs, byOrder)); n > 1 {
					// one of them, or all of them
					st.after = [][]assurance.Assurance{filter(t.recs, func(y assurance.Assurance) bool { return !byOrder(y) })}
					for i, y := range t.recs {
						if byOrder(y) {
							st.after = append(st.after, without(t.recs, i))
						}
					}
				}
				return st
			case 7:
				x := assurance.Assurance{ID: id, OrderID: order, AT: assurance.AssuranceType{Index: g.num(), Name: g.str(), Price: g.float()}}
				st := step[assurance.Assurance]{op: "Modify", args: x, call: call(func() (assurance.Assurance, error) { return s.Modify(ctx, x) }), got: is(x)}
				if i := index(t.recs, byID); i >= 0 {
					st.after = [][]assurance.Assurance{replaced(t.recs, i, x)}
				} else {
					st.want = fails
				}
				return st
			default:
				return listing(t, "GetAllAssurances", nil, nil, func() ([]assurance.Assurance, error) { return s.GetAllAssurances(ctx) })
			}
		}),

	service("config", func(db backend.NoSQLDatabase) (config.ConfigService, error) {
		return config.NewConfigServiceImpl(ctx, db)
	}, "",
		func(pre string, x config.Config) bool { return strings.HasPrefix(x.Name, pre) },
		func(s config.ConfigService, t *table[config.Config], g *w) step[config.Config] {
			x := config.Config{Name: g.oddkey("c", 8), Value: g.str(), Description: g.str()}
			nm := func(y config.Config) bool { return y.Name == x.Name }
			switch g.r.Intn(6) {
			case 0, 1:
				return create(t, "Create", x, nm, func() error { return s.Create(ctx, x) })
			case 2:
				return update(t, "Update", x, nm, func() (bool, error) { return s.Update(ctx, x) })
			case 3:
				return find(t, "Find", x.Name, nm, func() (config.Config, error) { return s.Find(ctx, x.Name) })
			case 4:
				return del(t, "Delete", x.Name, nm, func() error { return s.Delete(ctx, x.Name) })
			default:
				return listing(t, "FindAll", nil, nil, func() ([]config.Config, error) { return s.FindAll(ctx) })
			}
		}),

	service("contacts", func(db backend.NoSQLDatabase) (contacts.ContactsService, error) {
		return contacts.NewContactsServiceImpl(ctx, db)
	}, "",
		func(pre string, x contacts.Contact) bool { return strings.HasPrefix(x.AccountID, pre) },
		func(s contacts.ContactsService, t *table[contacts.Contact], g *w) step[contacts.Contact] {
			x := contacts.Contact{ID: g.fresh("c"), AccountID: g.oddkey("a", 4), Name: g.str(), DocumentType: g.r.Intn(3), DocumentNumber: "d" + strconv.Itoa(g.r.Intn(3)), PhoneNumber: g.str()}
			op := g.r.Intn(9)
			if op >= 3 && len(t.recs) > 0 && g.r.Intn(4) > 0 {
				x.ID = t.recs[g.r.Intn(len(t.recs))].ID
			}
			id := func(y contacts.Contact) bool { return y.ID == x.ID }
			same := func(y contacts.Contact) bool {
				return y.AccountID == x.AccountID && y.DocumentNumber == x.DocumentNumber && y.DocumentType == x.DocumentType
			}
			switch op {
			case 0, 1, 2:
				return create(t, "CreateContacts", x, same, func() error { return s.CreateContacts(ctx, x) })
			case 3:
				return update(t, "Modify", x, id, func() (bool, error) { return s.Modify(ctx, x) })
			case 4:
				return del(t, "Delete", x, id, func() error { return s.Delete(ctx, x) })
			case 5, 6:
				return find(t, "FindContactsById", x.ID, id, func() (contacts.Contact, error) { return s.FindContactsById(ctx, x.ID) })
			case 7:
				return listing(t, "FindContactsByAccountId", x.AccountID, func(y contacts.Contact) bool { return y.AccountID == x.AccountID }, func() ([]contacts.Contact, error) { return s.FindContactsByAccountId(ctx, x.AccountID) })
			default:
				return listing(t, "GetAllContacts", nil, nil, func() ([]contacts.Contact, error) { return s.GetAllContacts(ctx) })
			}
		}),

	service("user", func(db backend.NoSQLDatabase) (user.UserService, error) { return user.NewUserServiceImpl(ctx, db) }, "",
		func(pre string, x user.User) bool { return strings.HasPrefix(x.UserID, pre) },
		func(s user.UserService, t *table[user.User], g *w) step[user.User] {
			x := user.User{UserID: g.fresh("u"), Username: g.oddkey("n", 6), Password: g.str(), Gender: g.num(), DocumentType: g.num(), DocumentNum: g.str(), Email: g.str()}
			op := g.r.Intn(8)
			if op >= 2 && len(t.recs) > 0 && g.r.Intn(4) > 0 {
				x.UserID = t.recs[g.r.Intn(len(t.recs))].UserID
			}
			id := func(y user.User) bool { return y.UserID == x.UserID }
			nm := func(y user.User) bool { return y.Username == x.Username }
			switch op {
			case 0, 1:
				if index(t.recs, nm) >= 0 {
					x.Username = g.fresh("n")
				}
				return create(t, "SaveUser", x, id, func() error { return s.SaveUser(ctx, x) })
			case 2, 3:
				return update(t, "UpdateUser", x, id, func() (bool, error) { return s.UpdateUser(ctx, x) })
			case 4:
				return del(t, "DeleteUser", x.UserID, id, func() error { return s.DeleteUser(ctx, x.UserID) })
			case 5:
				return find(t, "FindByUserID", x.UserID, id, func() (user.User, error) { return s.FindByUserID(ctx, x.UserID) })
			case 6:
				return find(t, "FindByUsername", x.Username, nm, func() (user.User, error) { return s.FindByUsername(ctx, x.Username) })
			default:
				return listing(t, "GetAllUsers", nil, nil, func() ([]user.User, error) { return s.GetAllUsers(ctx) })
			}
		}),

	service("trainfood", func(db backend.NoSQLDatabase) (trainfood.TrainFoodService, error) {
		return trainfood.NewTrainFoodServiceImpl(ctx, db)
	}, "",
		func(pre string, x trainfood.TrainFood) bool { return strings.HasPrefix(x.TripID, pre) },
		func(s trainfood.TrainFoodService, t *table[trainfood.TrainFood], g *w) step[trainfood.TrainFood] {
			x := trainfood.TrainFood{ID: g.fresh("f"), TripID: g.oddkey("t", 6), Foods: g.foods()}
			trip := func(y trainfood.TrainFood) bool { return y.TripID == x.TripID }
			switch k := g.r.Intn(16); {
			case k < 7:
				st := step[trainfood.TrainFood]{op: "CreateTrainFood", args: x, call: call(func() (trainfood.TrainFood, error) { return s.CreateTrainFood(ctx, x) }), got: is(x)}
				if i := index(t.recs, trip); i >= 0 {
					st.after = [][]trainfood.TrainFood{replaced(t.recs, i, x)}
				} else {
					st.after = [][]trainfood.TrainFood{plus(t.recs, x)}
				}
				return st
			case k < 11:
				return listing(t, "ListTrainFood", nil, nil, func() ([]trainfood.TrainFood, error) { return s.ListTrainFood(ctx) })
			case k < 15 || !g.alone:
				c := filter(t.recs, trip)
				st := step[trainfood.TrainFood]{op: "ListTrainFoodByTripID", args: x.TripID, call: call(func() ([]food.Food, error) { return s.ListTrainFoodByTripID(ctx, x.TripID) }), want: found(len(c))}
				if len(c) > 0 {
					st.got = is(c[0].Foods)
				}
				return st
			default:
				return step[trainfood.TrainFood]{op: "Cleanup", call: b2(func() error { return s.Cleanup(ctx) }), after: [][]trainfood.TrainFood{{}}}
			}
		}),

	service("stationfood", func(db backend.NoSQLDatabase) (stationfood.StationFoodService, error) {
		return stationfood.NewStationFoodServiceImpl(ctx, db)
	}, "",
		func(pre string, x stationfood.StationFoodStore) bool { return strings.HasPrefix(x.ID, pre) },
		func(s stationfood.StationFoodService, t *table[stationfood.StationFoodStore], g *w) step[stationfood.StationFoodStore] {
			type T = stationfood.StationFoodStore
			x := T{ID: g.oddkey("s", 8), StationName: g.oddkey("n", 4), StoreName: g.str(), Telephone: g.str(), BusinessTime: g.str(), DeliveryFee: g.float(), Foods: g.foods()}
			id := func(y T) bool { return y.ID == x.ID }
			switch k := g.r.Intn(16); {
			case k < 6:
				return create(t, "CreateFoodStore", x, id, func() error { return s.CreateFoodStore(ctx, x) })
			case k < 8:
				return listing(t, "ListFoodStores", nil, nil, func() ([]T, error) { return s.ListFoodStores(ctx) })
			case k < 10:
				return listing(t, "ListFoodStoresByStationName", x.StationName, func(y T) bool { return y.StationName == x.StationName }, func() ([]T, error) { return s.ListFoodStoresByStationName(ctx, x.StationName) })
			case k < 12:
				names := g.some("n", 4)
				return listing(t, "GetFoodStoresByStationNames", names, func(y T) bool {
					return index(names, func(n string) bool { return n == y.StationName }) >= 0
				}, func() ([]T, error) { return s.GetFoodStoresByStationNames(ctx, names) })
			case k < 15 || !g.alone:
				return find(t, "GetFoodStoreByID", x.ID, id, func() (T, error) { return s.GetFoodStoreByID(ctx, x.ID) })
			default:
				return step[T]{op: "Cleanup", call: b2(func() error { return s.Cleanup(ctx) }), after: [][]T{{}}}
			}
		}),
}

func lookup[T any](t *table[T], keys []string, key func(T) string) []T {
	out := make([]T, len(keys))
	for i, k := range keys {
		if j := index(t.recs, func(y T) bool { return key(y) == k }); j >= 0 {
			out[i] = t.recs[j]
		}
	}
	return out
}

// ---- the services that do not fit the table above ----

func consign(r *rand.Rand, id string, bad *atomic.Bool) func(int) bool {
	db := newDB()
	var s consignprice.ConsignPriceService = must(consignprice.NewConsignPriceServiceImpl(ctx, db))
	type T = consignprice.ConsignPrice
	t := &table[T]{name: "consignprice", db: db, own: func(T) bool { return true }, bad: bad, id: id}
	g := &w{r: r, pre: "c", alone: true}
	return func(fault int) bool {
		n := found(len(t.recs))
		var st step[T]
		switch r.Intn(6) {
		case 0, 1:
			x := T{ID: g.key("p", 3), Index: []int64{0, 0, 1, 5}[r.Intn(4)], InitialWeight: g.float(), InitialPrice: g.float(), WithinPrice: g.float(), BeyondPrice: g.float()}
			y := x
			y.Index = 0
			st = step[T]{op: "CreateAndModifyPriceConfig", args: x, call: call(func() (T, error) { return s.CreateAndModifyPriceConfig(ctx, x) }), got: is(y), after: [][]T{{y}}}
		case 2:
			st = step[T]{op: "GetPriceConfig", call: call(func() (T, error) { return s.GetPriceConfig(ctx) }), want: n, got: oneOf(t.recs)}
		case 3:
			st = step[T]{op: "GetPriceInfo", call: call(func() (string, error) { return s.GetPriceInfo(ctx) }), want: n, got: func(v any) string {
				c := t.recs[0]
				for _, f := range []float64{c.InitialWeight, c.InitialPrice, c.WithinPrice, c.BeyondPrice} {
					if !strings.Contains(v.(string), fmt.Sprintf("%.2f", f)) {
						return fmt.Sprintf("it does not tell %.2f of %s", f, norm(c))
					}
				}
				return ""
			}}
		default:
			wt, in := g.float(), r.Intn(2) == 0
			if len(t.recs) > 0 {
				switch r.Intn(3) {
				case 0:
					wt = t.recs[0].InitialWeight
				case 1:
					wt = t.recs[0].InitialWeight + g.float()
				}
			}
			st = step[T]{op: "GetPriceByWeightAndRegion", args: []any{wt, in}, call: call(func() (float64, error) { return s.GetPriceByWeightAndRegion(ctx, wt, in) }), want: n, got: func(v any) string {
				c := t.recs[0]
				p := c.InitialPrice
				rate := c.BeyondPrice
				if in {
					rate = c.WithinPrice
				}
				if wt > c.InitialWeight {
					p += (wt - c.InitialWeight) * rate
				}
				if math.Abs(v.(float64)-p) > 1e-9*(math.Abs(p)+1) {
					return fmt.Sprintf("with %s it must be %v", norm(c), p)
				}
				return ""
			}}
		}
		return t.run(st, fault)
	}
}

// pay drives the payment service: its payments are the records of one table and the money added those of another.
func pay(s payment.PaymentService, pdb, mdb *faultDB, g *w, id string, bad *atomic.Bool) func(int) bool {
	type P = payment.Payment
	type M = payment.Money
	var money []M
	t := &table[P]{name: "payment", db: pdb, coll: "payment/payment", own: func(x P) bool { return strings.HasPrefix(x.OrderID, g.pre) }, bad: bad, id: id}
	moneyNow := func() []M {
		return filter(stored[M](mdb, "payment/money"), func(x M) bool { return strings.HasPrefix(x.UserID, g.pre) })
	}
	return func(fault int) bool {
		x := P{ID: g.key("p", 8), OrderID: g.oddkey("o", 8), UserID: g.key("u", 4), Price: g.str()}
		byID := func(y P) bool { return y.ID == x.ID }
		byOrder := func(y P) bool { return y.OrderID == x.OrderID }
		var st step[P]
		add := 0
		clean := false
		switch k := g.r.Intn(16); {
		case k < 5:
			// keeps the orders of the payments distinct
			if i := index(t.recs, byOrder); i >= 0 && index(t.recs, byID) != i {
				x.OrderID = g.fresh("o")
			}
			st = step[P]{op: "InitPayment", args: x, call: b2(func() error { return s.InitPayment(ctx, x) })}
			if index(t.recs, byID) < 0 {
				st.after = [][]P{plus(t.recs, x)}
			}
		case k < 9:
			st = step[P]{op: "Pay", args: x, call: b2(func() error { return s.Pay(ctx, x) }), want: fails}
			if i := index(t.recs, byOrder); i >= 0 {
				if j := index(t.recs, byID); j >= 0 {
					x.ID = t.recs[i].ID // keeps the IDs of the payments distinct
				}
				st.args, st.call = x, b2(func() error { return s.Pay(ctx, x) })
				st.want, st.after = ok, [][]P{replaced(t.recs, i, x)}
			}
		case k < 12:
			st = listing(t, "Query", nil, nil, func() ([]P, error) { return s.Query(ctx) })
		case k < 15 || !g.alone:
			add = 1
			st = step[P]{op: "AddMoney", args: x, call: b2(func() error { return s.AddMoney(ctx, x) })}
		default:
			clean = true
			st = step[P]{op: "Cleanup", call: b2(func() error { return s.Cleanup(ctx) }), after: [][]P{{}}}
		}
		okk := false
		f := st.call
		st.call = func() (any, error) { v, err := f(); okk = err == nil; return v, err }
		if add > 0 && fault > 0 {
			st.want = either
			mdb.arm(fault)
		}
		var hit bool
		if add > 0 {
			hit = t.run(st, 0)
			if fault > 0 {
				what, _ := mdb.failed()
				mdb.arm(0)
				hit = what != ""
			}
		} else {
			hit = t.run(st, fault)
		}
		if bad.Load() {
			return hit
		}
		now := moneyNow()
		switch {
		case add > 0 && (okk || len(now) == len(money)+1):
			if !okk && !hit {
				t.fail("AddMoney-refused", "AddMoney(%s) failed", norm(x))
				break
			}
			ids := map[string]bool{}
			for _, m := range money {
				ids[m.ID] = true
			}
			extra := filter(now, func(m M) bool { return !ids[m.ID] })
			if len(now) != len(money)+1 || len(extra) != 1 || extra[0].ID == "" || extra[0].UserID != x.UserID || extra[0].Price != x.Price {
				t.fail("AddMoney-state", "AddMoney(%s) succeeded with %d records before and left %s", norm(x), len(money), clip(bag(now)))
			}
		case clean && okk:
			if len(now) > 0 {
				t.fail("Cleanup-money", "Cleanup succeeded and left money: %s", clip(bag(now)))
			}
		case clean:
		default:
			if bag(now) != bag(money) {
				t.fail("money-changed", "%s changed the money from\n%s\nto\n%s", t.log[len(t.log)-1], clip(bag(money)), clip(bag(now)))
			}
		}
		money = now
		return hit
	}
}

// ---- histories ----

func alone(r *rand.Rand, sv string, id string, bad *atomic.Bool) func(int) bool {
	for _, s := range services {
		if s.name == sv {
			return s.begin(s.make(), &w{r: r, pre: "k", alone: true}, id, bad)
		}
	}
	if sv == "consignprice" {
		return consign(r, id, bad)
	}
	p, m := newDB(), newDB()
	if r.Intn(3) == 0 {
		m = p // both in the same database
	}
	return pay(must(payment.NewPaymentServiceImpl(ctx, p, m)), p, m, &w{r: r, pre: "k", alone: true}, id, bad)
}

func names() []string {
	var out []string
	for _, s := range services {
		out = append(out, s.name)
	}
	return append(out, "consignprice", "payment")
}

func sequential() {
	for i, sv := range names() {
		for k, n := 0, h.N(12, 120); k < n; k++ {
			s := int64(i*1000 + k)
			r := h.Rand(s)
			bad := &atomic.Bool{}
			next := alone(r, sv, fmt.Sprintf("sequential %s %d", sv, s), bad)
			steps := 20 + r.Intn(100)
			for j := 0; j < steps && !bad.Load(); j++ {
				next(0)
			}
			h.Case(fmt.Sprint("sequential ", sv, k), true)
		}
	}
}

func faulty() {
	for i, sv := range names() {
		for k, n := 0, h.N(12, 120); k < n; k++ {
			s := int64(500000 + i*1000 + k)
			r := h.Rand(s)
			bad := &atomic.Bool{}
			next := alone(r, sv, fmt.Sprintf("faults %s %d", sv, s), bad)
			steps := 20 + r.Intn(80)
			hits := 0
			for j := 0; j < steps && !bad.Load(); j++ {
				f := 0
				if r.Intn(3) == 0 {
					f = 1 + r.Intn(7)
				}
				if next(f) {
					hits++
				}
			}
			h.Case(fmt.Sprint("failing database ", sv, k), hits > 0)
		}
	}
}

// concurrent runs several histories against one service; each has keys of its own and must see its own records only.
func concurrent() {
	for i, sv := range services {
		for k, n := 0, h.N(3, 30); k < n; k++ {
			e := sv.make()
			bad := &atomic.Bool{}
			var wg sync.WaitGroup
			for c := 0; c < 6; c++ {
				r := h.Rand(int64(700000 + i*1000 + k*10 + c))
				next := sv.begin(e, &w{r: r, pre: string(rune('A'+c)) + "/", n: 0}, fmt.Sprintf("concurrent %s %d, client %d of 6", sv.name, k, c), bad)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 40 && !bad.Load(); j++ {
						next(0)
					}
				}()
			}
			wg.Wait()
			h.Case(fmt.Sprint("concurrent ", sv.name, k), true)
		}
	}
	for k, n := 0, h.N(3, 30); k < n; k++ {
		p, m := newDB(), newDB()
		s := must(payment.NewPaymentServiceImpl(ctx, p, m))
		bad := &atomic.Bool{}
		var wg sync.WaitGroup
		for c := 0; c < 6; c++ {
			next := pay(s, p, m, &w{r: h.Rand(int64(800000 + k*10 + c)), pre: string(rune('A'+c)) + "/"}, fmt.Sprintf("concurrent payment %d, client %d of 6", k, c), bad)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 40 && !bad.Load(); j++ {
					next(0)
				}
			}()
		}
		wg.Wait()
		h.Case(fmt.Sprint("concurrent payment ", k), true)
	}
}

// ---- deliveries ----

// flaky is a queue whose Pop fails now and then, without taking an item.
type flaky struct {
	backend.Queue
	mu     sync.Mutex
	r      *rand.Rand
	p      float64
	failed int
}

func (q *flaky) Pop(ctx context.Context, dst interface{}) (bool, error) {
	q.mu.Lock()
	f := q.r.Float64() < q.p
	if f {
		q.failed++
	}
	q.mu.Unlock()
	if f {
		return false, errors.New("injected queue failure")
	}
	return q.Queue.Pop(ctx, dst)
}

// lateDB fails to provide its collections a number of times.
type lateDB struct {
	backend.NoSQLDatabase
	left atomic.Int64
}

func (d *lateDB) GetCollection(ctx context.Context, db, coll string) (backend.NoSQLCollection, error) {
	if d.left.Add(-1) >= 0 {
		return nil, errFault
	}
	return d.NoSQLDatabase.GetCollection(ctx, db, coll)
}

func deliveries() {
	for k, n := 0, h.N(24, 240); k < n; k++ {
		r := h.Rand(int64(900000 + k))
		q := must(simplequeue.NewSimpleQueue(ctx))
		db := newDB()
		mode := []string{"plain", "queue fails", "collection fails"}[k%3]
		var qq backend.Queue = q
		var dd backend.NoSQLDatabase = db
		ld := &lateDB{NoSQLDatabase: db}
		switch mode {
		case "queue fails":
			qq = &flaky{Queue: q, r: rand.New(rand.NewSource(r.Int63())), p: 0.3}
		case "collection fails":
			ld.left.Store(int64(1 + r.Intn(3)))
			dd = ld
		}
		workers := 1 + r.Intn(4)
		total := 20 + r.Intn(100)
		cut := r.Intn(2) == 0 // stop the workers in the middle
		g := &w{r: r, pre: "d"}
		var want []delivery.Delivery
		for i := 0; i < total; i++ {
			want = append(want, delivery.Delivery{ID: g.fresh("i"), OrderID: g.str(), FoodName: g.str(), StoreName: g.str(), StationName: g.str()})
		}
		c, cancel := context.WithCancel(ctx)
		var wg sync.WaitGroup
		var crash atomic.Value
		for i := 0; i < workers; i++ {
			s := must(delivery.NewDeliveryServiceImpl(ctx, qq, dd))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						crash.Store(fmt.Sprintf("%v\n%s", p, clip(string(debug.Stack()))))
					}
				}()
				s.Run(c)
			}()
		}
		pushed := make(chan struct{})
		go func() {
			for _, d := range want {
				for {
					if okk, err := q.Push(ctx, d); err == nil && okk {
						break
					}
				}
			}
			close(pushed)
		}()
		replay := map[string]any{"case": k, "mode": mode, "workers": workers, "deliveries": total, "stopped in the middle": cut}
		count := func() int { return len(stored[delivery.Delivery](db, "")) }
		goal := total
		if cut {
			goal = r.Intn(total)
		}
		reached := false
		last, quiet := -1, 0
		for i := 0; i < 1500 && crash.Load() == nil; i++ {
			now := count()
			if now >= goal {
				reached = true
				break
			}
			if mode == "collection fails" && now == last {
				if quiet++; quiet > 150 {
					break // what could not be stored may be lost
				}
			} else {
				quiet = 0
			}
			last = now
			time.Sleep(2 * time.Millisecond)
		}
		if !cut {
			time.Sleep(2 * time.Millisecond)
		}
		cancel()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		stopped := true
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			stopped = false
		}
		if p := crash.Load(); p != nil {
			h.Violatef("delivery-crash", replay, "the delivery service crashed (%s): %s", mode, p)
			continue
		}
		if !stopped {
			h.Violatef("delivery-does-not-stop", replay, "the delivery service does not return within 20 s of its context being cancelled")
			continue
		}
		// what is left in the queue
		var rest []delivery.Delivery
		for {
			pc, stop := context.WithTimeout(ctx, 30*time.Millisecond)
			var d delivery.Delivery
			okk, err := q.Pop(pc, &d)
			stop()
			if okk && err == nil {
				rest = append(rest, d)
				continue
			}
			select {
			case <-pushed:
			default:
				continue
			}
			break
		}
		got := stored[delivery.Delivery](db, "")
		all := append(append([]delivery.Delivery{}, got...), rest...)
		if mode == "collection fails" {
			// deliveries may be lost while the database fails, but none may be repeated or altered
			in := map[string]int{}
			for _, d := range want {
				in[norm(d)]++
			}
			for _, d := range all {
				if in[norm(d)]--; in[norm(d)] < 0 {
					h.Violatef("delivery-repeated", replay, "delivery %s was stored twice or altered", norm(d))
					break
				}
			}
			if lost := total - len(all); lost > 3 {
				h.Violatef("delivery-lost", replay, "%d deliveries were lost where the database failed at most 3 times", lost)
			}
		} else {
			if bag(all) != bag(want) {
				h.Violatef("delivery-lost", replay, "of %d deliveries %d were stored and %d were left in the queue (%s)\nstored:\n%s", total, len(got), len(rest), mode, clip(bag(got)))
			} else if !reached {
				h.Violatef("delivery-stalls", replay, "only %d of %d deliveries were stored within 3 s (%s)", len(got), total, mode)
			}
		}
		h.Case(fmt.Sprint("delivery ", k), len(got) > 0)
		h.Observe("deliveries stored", len(got))
		h.Observe("deliveries left in the queue at cancellation", len(rest))
	}
}

func newsy() {
	s := must(news.NewNewsServiceImpl(ctx))
	v, err := s.Hello(ctx, "x")
	var items []map[string]string
	if err != nil || json.Unmarshal([]byte(v), &items) != nil || len(items) == 0 {
		h.Violatef("news-answer", v, "the news service answers %q, %v: not a list of news", v, err)
	}
}

func main() {
	h = hx.New()
	h.Rule = "a history of requests to a service with fresh databases; distinct by kind of history, service and number"
	os.Stdout = must(os.OpenFile(os.DevNull, os.O_WRONLY, 0))
	log.SetOutput(io.Discard)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if h.Part("sequential") {
		newsy()
		sequential()
	}
	if h.Part("faults") {
		faulty()
	}
	if h.Part("concurrent") {
		concurrent()
	}
	if h.Part("deliveries") {
		deliveries()
	}
	h.Observe("requests", int(reqs.Load()))
	h.Observe("requests refused", int(refused.Load()))
	h.Observe("database failures injected", int(hitsN.Load()))
	h.Observe("requests that changed records", int(updates.Load()))
	ops.Range(func(k, v any) bool { h.Observe("requests "+k.(string), int(v.(*atomic.Int64).Load())); return true })
	h.Done()
}
