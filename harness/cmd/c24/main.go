// c24 drives in-memory relational databases with random statements and judges the answers against a table of rows.
package main

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/sqlitereldb"
)

var ctx = context.Background()
var h *hx.H

type row struct {
	ID    int64  `db:"id"`
	Name  string `db:"name"`
	Price float64
	Note  sql.NullString `db:"note"`
	Data  []byte         `db:"data"`
}

type table struct {
	db   backend.RelationalDB
	r    *rand.Rand
	tag  string
	name string
	rows map[int64]row
	next int64
	log  []string
}

func open(tag, name string, r *rand.Rand) *table {
	db, err := sqlitereldb.NewSqliteRelDB(ctx)
	t := &table{db: db, r: r, tag: tag, name: name, rows: map[int64]row{}, next: 1}
	if err != nil {
		t.bad("open", "NewSqliteRelDB: %v", err)
	}
	t.create()
	return t
}

func (t *table) create() {
	if _, err := t.db.Exec(ctx, "CREATE TABLE "+t.name+" (id INTEGER PRIMARY KEY, name TEXT NOT NULL, price REAL, note TEXT, data BLOB)"); err != nil {
		t.bad("create", "CREATE TABLE %s in a new database: %v", t.name, err)
	}
}

func (t *table) bad(key, f string, a ...any) {
	h.Violatef(key, map[string]any{"db": t.tag, "statements": t.log[max(0, len(t.log)-40):]}, f, a...)
}

var words = []string{"", "a", "A", "it's", `"quoted"`, "ünï", "%", "a_b", "x;y", "--", "a\x00b"[:1], "日本", " spaced ", "NULL", "null"}

func (t *table) fresh() row {
	x := row{ID: t.next, Name: t.word(), Price: float64(t.r.Intn(1000)) / 8, Data: []byte{byte(t.r.Intn(256)), 0, byte(t.r.Intn(256))}}
	if t.r.Intn(2) == 0 {
		x.Note = sql.NullString{String: t.word(), Valid: true}
	}
	t.next++
	return x
}

func (t *table) word() string { return words[t.r.Intn(len(words))] }

func show(xs []row) string {
	var s []string
	for _, x := range xs {
		s = append(s, fmt.Sprintf("%d|%q|%v|%v|%x", x.ID, x.Name, x.Price, x.Note, x.Data))
	}
	return strings.Join(s, "\n")
}

// want lists the rows that satisfy f in the order of ids.
func (t *table) want(f func(row) bool) []row {
	var xs []row
	for _, x := range t.rows {
		if f(x) {
			xs = append(xs, x)
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].ID < xs[j].ID })
	return xs
}

func (t *table) id() int64 {
	if len(t.rows) == 0 || t.r.Intn(8) == 0 {
		return 1 + t.r.Int63n(t.next+3)
	}
	ids := t.want(func(row) bool { return true })
	return ids[t.r.Intn(len(ids))].ID
}

func (t *table) exec(q string, want int64, args ...any) {
	t.log = append(t.log, fmt.Sprint(q, args))
	res, err := t.db.Exec(ctx, q, args...)
	if err != nil {
		t.bad("exec", "%s %v: %v", q, args, err)
		return
	}
	if n, err := res.RowsAffected(); err != nil || n != want {
		t.bad("affected", "%s %v affected %d rows (%v) instead of %d", q, args, n, err, want)
	}
}

func (t *table) step() {
	h.Observe("statements", 1)
	switch k := t.r.Intn(15); {
	case k < 3:
		x := t.fresh()
		q := "INSERT INTO " + t.name + " (name, price, note, data) VALUES (?, ?, ?, ?)"
		t.log = append(t.log, fmt.Sprint(q, x))
		res, err := t.db.Exec(ctx, q, x.Name, x.Price, x.Note, x.Data)
		if err != nil {
			t.bad("insert", "INSERT of %+v: %v", x, err)
			return
		}
		id, err := res.LastInsertId()
		if _, dup := t.rows[id]; err != nil || dup {
			t.bad("insert-id", "LastInsertId = %d, %v (in use: %v)", id, err, dup)
		}
		x.ID = id
		t.next = max(t.next, id+1)
		t.rows[id] = x
	case k < 4: // violates a constraint: no effect
		id := t.id()
		_, taken := t.rows[id]
		_, err := t.db.Exec(ctx, "INSERT INTO "+t.name+" (id, name, price, data) VALUES (?, ?, 1, x'00')", id, "dup")
		t.log = append(t.log, fmt.Sprint("INSERT with id ", id))
		if taken != (err != nil) {
			t.bad("constraint", "INSERT with id %d (taken: %v) returned %v", id, taken, err)
		} else if err == nil {
			t.rows[id] = row{ID: id, Name: "dup", Price: 1, Data: []byte{0}}
			t.next = max(t.next, id+1)
		}
	case k < 6:
		p, d := float64(t.r.Intn(1000))/8, float64(t.r.Intn(8))
		m := t.want(func(x row) bool { return x.Price < p })
		t.exec("UPDATE "+t.name+" SET price = price + ? WHERE price < ?", int64(len(m)), d, p)
		for _, x := range m {
			x.Price += d
			t.rows[x.ID] = x
		}
	case k < 7:
		id := t.id()
		n := int64(0)
		if _, ok := t.rows[id]; ok {
			n = 1
		}
		t.exec("DELETE FROM "+t.name+" WHERE id = ?", n, id)
		delete(t.rows, id)
	case k < 8: // one row
		id := t.id()
		w, ok := t.rows[id]
		var x row
		err := t.db.Get(ctx, &x, "SELECT * FROM "+t.name+" WHERE id = ?", id)
		if ok && (err != nil || show([]row{x}) != show([]row{w})) {
			t.bad("get", "Get of row %d = %+v, %v instead of %+v", id, x, err, w)
		} else if !ok && !errors.Is(err, sql.ErrNoRows) {
			t.bad("get-missing", "Get of row %d, which does not exist, = %+v, %v", id, x, err)
		}
	case k < 10: // several rows, by value
		s := t.word()
		var xs []row
		if err := t.db.Select(ctx, &xs, "SELECT * FROM "+t.name+" WHERE name = ? OR note = ? ORDER BY id", s, s); err != nil {
			t.bad("select", "Select: %v", err)
			return
		}
		if w := t.want(func(x row) bool { return x.Name == s || (x.Note.Valid && x.Note.String == s) }); show(xs) != show(w) {
			t.bad("select", "Select of %q:\n%s\ninstead of\n%s", s, show(xs), show(w))
		}
	case k < 11: // rows one at a time
		p := float64(t.r.Intn(1000)) / 8
		rows, err := t.db.Query(ctx, "SELECT id, price FROM "+t.name+" WHERE price >= ? ORDER BY id", p)
		if err != nil {
			t.bad("query", "Query: %v", err)
			return
		}
		w := t.want(func(x row) bool { return x.Price >= p })
		i := 0
		for rows.Next() {
			var id int64
			var price float64
			if err := rows.Scan(&id, &price); err != nil || i >= len(w) || w[i].ID != id || w[i].Price != price {
				t.bad("query", "row %d of the query is %d, %v (%v); expected %s", i, id, price, err, show(w))
				break
			}
			i++
		}
		rows.Close()
		if rows.Err() != nil || i != len(w) {
			t.bad("query", "the query returned %d rows instead of %d (%v)", i, len(w), rows.Err())
		}
	case k < 12: // pairs of rows
		type pair struct {
			A int64   `db:"a"`
			B int64   `db:"b"`
			S float64 `db:"s"`
		}
		var got, w []pair
		p := float64(t.r.Intn(1000)) / 8
		if err := t.db.Select(ctx, &got, "SELECT x.id AS a, y.id AS b, x.price + y.price AS s FROM "+t.name+" x JOIN "+t.name+" y ON x.name = y.name AND x.id < y.id WHERE y.price < ? ORDER BY x.id, y.id", p); err != nil {
			t.bad("join", "Select with a join: %v", err)
			return
		}
		all := t.want(func(row) bool { return true })
		for i, x := range all {
			for _, y := range all[i+1:] {
				if x.Name == y.Name && y.Price < p {
					w = append(w, pair{x.ID, y.ID, x.Price + y.Price})
				}
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(w) {
			t.bad("join", "the join of rows of the same name and price < %v is %v instead of %v", p, got, w)
		}
	case k < 13: // groups
		type group struct {
			Name  string  `db:"name"`
			N     int     `db:"n"`
			Sum   float64 `db:"sum"`
			Min   float64 `db:"min"`
			Notes int     `db:"notes"`
		}
		var got, w []group
		if err := t.db.Select(ctx, &got, "SELECT name, COUNT(*) AS n, SUM(price) AS sum, MIN(price) AS min, COUNT(note) AS notes FROM "+t.name+" GROUP BY name ORDER BY name"); err != nil {
			t.bad("group", "Select with aggregates: %v", err)
			return
		}
		at := map[string]int{}
		for _, x := range t.want(func(row) bool { return true }) {
			i, ok := at[x.Name]
			if !ok {
				i = len(w)
				at[x.Name] = i
				w = append(w, group{Name: x.Name, Min: x.Price})
			}
			w[i].N++
			w[i].Sum += x.Price
			w[i].Min = min(w[i].Min, x.Price)
			if x.Note.Valid {
				w[i].Notes++
			}
		}
		sort.Slice(w, func(i, j int) bool { return w[i].Name < w[j].Name })
		if fmt.Sprint(got) != fmt.Sprint(w) {
			t.bad("group", "the groups of rows by name are %q instead of %q", fmt.Sprint(got), fmt.Sprint(w))
		}
	case k < 14: // a page of an order
		n, o := t.r.Intn(6), t.r.Intn(6)
		var got []row
		if err := t.db.Select(ctx, &got, "SELECT * FROM "+t.name+" ORDER BY price DESC, id LIMIT ? OFFSET ?", n, o); err != nil {
			t.bad("page", "Select with a limit: %v", err)
			return
		}
		w := t.want(func(row) bool { return true })
		sort.SliceStable(w, func(i, j int) bool { return w[i].Price > w[j].Price })
		w = w[min(o, len(w)):min(o+n, len(w))]
		if show(got) != show(w) {
			t.bad("page", "%d rows from %d by falling price:\n%s\ninstead of\n%s", n, o, show(got), show(w))
		}
	default: // prepared
		st, err := t.db.Prepare(ctx, "SELECT COUNT(*) FROM "+t.name+" WHERE name = ?")
		if err != nil {
			t.bad("prepare", "Prepare: %v", err)
			return
		}
		for i := 0; i < 3; i++ {
			s := t.word()
			var n int
			if err := st.QueryRow(s).Scan(&n); err != nil || n != len(t.want(func(x row) bool { return x.Name == s })) {
				t.bad("prepare", "prepared COUNT(name=%q) = %d, %v instead of %d", s, n, err, len(t.want(func(x row) bool { return x.Name == s })))
			}
		}
		st.Close()
	}
	if t.r.Intn(40) == 0 {
		for _, q := range []string{"SELEC 1", "SELECT * FROM nosuchtable", "INSERT INTO " + t.name + " (nosuchcolumn) VALUES (1)"} {
			if _, err := t.db.Exec(ctx, q); err == nil {
				t.bad("invalid", "Exec(%q) succeeded", q)
			}
		}
	}
}

func (t *table) final() {
	var xs []row
	err := t.db.Select(ctx, &xs, "SELECT * FROM "+t.name+" ORDER BY id")
	if w := t.want(func(row) bool { return true }); err != nil || show(xs) != show(w) {
		t.bad("content", "the table holds (%v)\n%s\ninstead of\n%s", err, show(xs), show(w))
	}
}

func main() {
	h = hx.New()
	h.Rule = "a run of statements over several databases of one process; distinct by seed"
	if h.Part("instances") { // databases used in turn: answers as if each were alone
		for i := 0; i < h.N(60, 2000); i++ {
			r := h.Rand(int64(i))
			var ts []*table
			for j := 0; j < 1+r.Intn(4); j++ {
				ts = append(ts, open(fmt.Sprint("db", j), "t", r))
			}
			for j := 0; j < 150; j++ {
				ts[r.Intn(len(ts))].step()
			}
			for _, t := range ts {
				t.final()
			}
			h.Case(fmt.Sprint("i", i), true)
		}
	}
	if h.Part("concurrent-tables") { // tables of one database used concurrently, one client each
		for i := 0; i < h.N(20, 400); i++ {
			db, err := sqlitereldb.NewSqliteRelDB(ctx)
			if err != nil {
				h.Violatef("open", nil, "NewSqliteRelDB: %v", err)
				break
			}
			var wg sync.WaitGroup
			for j := 0; j < 6; j++ {
				t := &table{db: db, r: h.Rand(int64(1000 + i*10 + j)), tag: "shared", name: fmt.Sprint("t", j), rows: map[int64]row{}, next: 1}
				wg.Add(1)
				go func() {
					defer wg.Done()
					t.create()
					for k := 0; k < 60; k++ {
						t.step()
					}
					t.final()
				}()
			}
			wg.Wait()
			h.Case(fmt.Sprint("ct", i), true)
		}
	}
	if h.Part("concurrent-rows") { // one table: every statement takes effect exactly once and at once
		for i := 0; i < h.N(20, 400); i++ {
			db, _ := sqlitereldb.NewSqliteRelDB(ctx)
			for _, q := range []string{"CREATE TABLE c (k INTEGER PRIMARY KEY, n INTEGER)", "INSERT INTO c VALUES (0, 0), (1, 0)", "CREATE TABLE l (id INTEGER PRIMARY KEY AUTOINCREMENT, w INTEGER, s INTEGER)"} {
				if _, err := db.Exec(ctx, q); err != nil {
					h.Violatef("create", q, "%s: %v", q, err)
				}
			}
			const workers, ops = 8, 40
			var wg sync.WaitGroup
			ids := make([]map[int64]int, workers)
			for w := 0; w < workers; w++ {
				ids[w] = map[int64]int{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					bad := func(key, f string, a ...any) { h.Violatef(key, map[string]any{"run": i, "worker": w}, f, a...) }
					last, mine := 0, 0
					for k := 0; k < ops; k++ {
						// moves one unit between two rows: the sum stays 0
						if _, err := db.Exec(ctx, "UPDATE c SET n = n + CASE k WHEN 0 THEN 1 ELSE -1 END"); err != nil {
							bad("concurrent-exec", "UPDATE: %v", err)
						}
						res, err := db.Exec(ctx, "INSERT INTO l (w, s) VALUES (?, ?)", w, k)
						if err != nil {
							bad("concurrent-exec", "INSERT: %v", err)
						} else {
							id, _ := res.LastInsertId()
							ids[w][id]++
							mine++
						}
						var ns []int
						if err := db.Select(ctx, &ns, "SELECT n FROM c ORDER BY k"); err != nil || len(ns) != 2 || ns[0]+ns[1] != 0 || ns[0] < last || ns[0] < k+1 {
							bad("concurrent-read", "after %d own updates and having seen %d, the rows read %v (%v)", k+1, last, ns, err)
						} else {
							last = ns[0]
						}
						var n int
						if err := db.Get(ctx, &n, "SELECT COUNT(*) FROM l WHERE w = ?", w); err != nil || n != mine {
							bad("concurrent-read", "after inserting %d rows, %d are there (%v)", mine, n, err)
						}
						h.Observe("concurrent_statements", 4)
					}
				}()
			}
			wg.Wait()
			all := map[int64]bool{}
			for _, m := range ids {
				for id, n := range m {
					if all[id] || n > 1 {
						h.Violatef("concurrent-id", i, "two INSERTs got the id %d", id)
					}
					all[id] = true
				}
			}
			var n, m int
			e1 := db.Get(ctx, &n, "SELECT n FROM c WHERE k = 0")
			e2 := db.Get(ctx, &m, "SELECT COUNT(*) FROM l")
			if n != workers*ops || m != workers*ops {
				h.Violatef("concurrent-lost", i, "after %d updates and inserts, the counter is %d (%v) and there are %d rows (%v)", workers*ops, n, e1, m, e2)
			}
			h.Case(fmt.Sprint("cr", i), true)
		}
	}
	if h.Part("cancel") { // a cancelled statement fails or takes effect; the database stays usable and intact
		for i := 0; i < h.N(20, 300); i++ {
			t := open("cancel", "t", h.Rand(int64(9000+i)))
			for k := 0; k < 30; k++ {
				c, cancel := context.WithCancel(ctx)
				cancel()
				if res, err := t.db.Exec(c, "INSERT INTO t (name, price) VALUES ('cancelled', 1)"); err == nil {
					id, _ := res.LastInsertId()
					t.rows[id] = row{ID: id, Name: "cancelled", Price: 1}
					t.next = max(t.next, id+1)
				}
				var xs []row
				if err := t.db.Select(c, &xs, "SELECT * FROM t"); err == nil && len(xs) != len(t.rows) {
					t.bad("cancelled", "a Select with a cancelled context succeeded with %d of %d rows", len(xs), len(t.rows))
				}
				t.step()
			}
			t.final()
			h.Case(fmt.Sprint("x", i), true)
		}
	}
	h.Done()
}
