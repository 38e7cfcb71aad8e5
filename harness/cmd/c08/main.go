// C08: a wiring spec compiles to an IR with each declared node once, fully wired.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
)

// ------------------------------------------------------------------ node types

type base struct {
	name string
	ns   wiring.Namespace // the namespace whose build made it
	deps map[string]ir.IRNode
}

func (b *base) Name() string   { return b.name }
func (b *base) String() string { return b.name }

type nodeA struct{ base }
type nodeB struct{ base }
type nodeC struct{ base }
type metaM struct{ base }

func (m *metaM) ImplementsIRMetadata() {}

// nsNode is a namespace: a node that accepts some kinds of nodes.
type nsNode struct {
	base
	accepts map[string]bool
	reject  string // AddNode/AddEdge of this name fails
	edges   []ir.IRNode
	nodes   []ir.IRNode
	calls   []string
	kids    []string
}

func kindOf(v any) string {
	switch v.(type) {
	case *nodeA:
		return "A"
	case *nodeB:
		return "B"
	case *nodeC:
		return "C"
	case *metaM:
		return "M"
	case *procNS:
		return "P"
	case *contNS:
		return "K"
	}
	return fmt.Sprintf("%T", v)
}

func (n *nsNode) Accepts(t any) bool { return n.accepts[kindOf(t)] }
func (n *nsNode) AddEdge(name string, node ir.IRNode) error {
	n.calls = append(n.calls, "edge "+name)
	if name == n.reject {
		return fmt.Errorf("refused edge %s", name)
	}
	n.edges = append(n.edges, node)
	return nil
}
func (n *nsNode) AddNode(name string, node ir.IRNode) error {
	n.calls = append(n.calls, "node "+name)
	if name == n.reject {
		return fmt.Errorf("refused node %s", name)
	}
	n.nodes = append(n.nodes, node)
	return nil
}

type procNS struct{ nsNode }
type contNS struct{ nsNode }

// ------------------------------------------------------------------ specs

type dep struct {
	Name string `json:"name"`
	Mode string `json:"mode"` // get inst defer
}
type def struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Deps    []dep    `json:"deps,omitempty"`
	Pass    bool     `json:"pass,omitempty"` // returns what its first dependency is
	Fail    bool     `json:"fail,omitempty"`
	Accepts []string `json:"accepts,omitempty"`
	Kids    []string `json:"kids,omitempty"`
	Reject  string   `json:"reject,omitempty"`
}
type specT struct {
	Defs    []*def      `json:"defs"`
	Aliases [][2]string `json:"aliases"`
	Request []string    `json:"request"`
	AddErr  bool        `json:"adderr,omitempty"`
	alias   map[string]string
	byName  map[string]*def
}

func (s *specT) resolve(n string) (string, bool) {
	for i := 0; i < 1000; i++ {
		t, ok := s.alias[n]
		if !ok {
			_, known := s.byName[n]
			return n, known
		}
		n = t
	}
	return n, false
}

func generate(r *rand.Rand) *specT {
	s := &specT{alias: map[string]string{}, byName: map[string]*def{}}
	n := 3 + r.Intn(12)
	kinds := []string{"A", "A", "B", "B", "C", "M", "P", "K"}
	var names []string // later names only depend on earlier ones
	pick := func() string { return names[r.Intn(len(names))] }
	for i := 0; i < n; i++ {
		d := &def{Name: fmt.Sprintf("n%d", i), Kind: kinds[r.Intn(len(kinds))]}
		if i < 2 {
			d.Kind = kinds[r.Intn(5)]
		}
		if r.Intn(5) == 0 {
			d.Name = fmt.Sprintf("n%d.sub/%d-x", i, i)
		}
		switch d.Kind {
		case "P", "K":
			acc := map[string]bool{}
			if d.Kind == "P" {
				acc["A"] = true
				acc["C"] = r.Intn(2) == 0
			} else {
				acc["P"] = r.Intn(4) > 0
				acc["B"] = r.Intn(3) > 0
				acc["A"] = r.Intn(5) == 0
				acc["K"] = r.Intn(5) == 0
			}
			acc["M"] = r.Intn(4) == 0
			for _, k := range []string{"A", "B", "C", "M", "P", "K"} {
				if acc[k] {
					d.Accepts = append(d.Accepts, k)
				}
			}
			for k := r.Intn(4); k > 0 && len(names) > 0; k-- {
				d.Kids = append(d.Kids, pick())
			}
		default:
			for k := r.Intn(4); k > 0 && len(names) > 0; k-- {
				d.Deps = append(d.Deps, dep{pick(), []string{"get", "get", "get", "inst", "defer"}[r.Intn(5)]})
			}
			if len(d.Deps) > 0 && r.Intn(5) == 0 && d.Kind != "M" {
				d.Deps[0].Mode = "get"
				rn, _ := s.resolve(d.Deps[0].Name) // a pointer-like node has the type of what it yields
				if k := s.byName[rn].Kind; k != "M" && k != "P" && k != "K" {
					d.Pass, d.Kind = true, k
				}
			}
		}
		s.Defs = append(s.Defs, d)
		s.byName[d.Name] = d
		names = append(names, d.Name)
		if r.Intn(3) == 0 {
			a := fmt.Sprintf("alias%d", i)
			s.Aliases = append(s.Aliases, [2]string{a, pick()})
			s.alias[a] = s.Aliases[len(s.Aliases)-1][1]
			names = append(names, a)
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		s.Request = append(s.Request, names[len(names)-1-r.Intn((len(names)+1)/2)])
	}
	// faults
	switch r.Intn(8) {
	case 0:
		s.Defs[r.Intn(len(s.Defs))].Fail = true
	case 1: // an undefined name
		d := s.Defs[r.Intn(len(s.Defs))]
		if d.Kind == "P" || d.Kind == "K" {
			d.Kids = append(d.Kids, "undefined_name")
		} else {
			d.Deps = append(d.Deps, dep{"undefined_name", []string{"get", "inst", "defer"}[r.Intn(3)]})
		}
	case 2:
		for _, d := range s.Defs {
			if d.Kind == "P" || d.Kind == "K" {
				d.Reject = s.Defs[r.Intn(len(s.Defs))].Name
			}
		}
	case 3:
		if r.Intn(3) == 0 {
			s.AddErr = true
		}
	case 4: // an alias to nothing
		s.Aliases = append(s.Aliases, [2]string{"dangling", "undefined_name"})
		s.alias["dangling"] = "undefined_name"
		if r.Intn(2) == 0 {
			s.Request = append(s.Request, "dangling")
		}
	}
	return s
}

// ------------------------------------------------------------------ the real thing

type observed struct {
	app    *ir.ApplicationNode
	err    error
	builds []string            // "ns/def" in order
	nodes  map[string]ir.IRNode // "ns/def" -> node returned
	got    map[string]ir.IRNode // "ns/def>dep#i" -> node received
	dup    []string
	nsOf   map[wiring.Namespace]string
}

func run(s *specT, order *rand.Rand) (o *observed) {
	o = &observed{nodes: map[string]ir.IRNode{}, got: map[string]ir.IRNode{}, nsOf: map[wiring.Namespace]string{}}
	spec := wiring.NewWiringSpec("app")
	path := func(ns wiring.Namespace) string {
		if p, ok := o.nsOf[ns]; ok {
			return p
		}
		return "app"
	}
	idx := order.Perm(len(s.Defs))
	define := func(d *def) {
		build := func(ns wiring.Namespace) (ir.IRNode, error) {
			key := path(ns) + "/" + d.Name
			o.builds = append(o.builds, key)
			b := base{name: d.Name, ns: ns, deps: map[string]ir.IRNode{}}
			if d.Kind == "P" || d.Kind == "K" {
				var child ir.IRNode
				var nn *nsNode
				acc := map[string]bool{}
				for _, k := range d.Accepts {
					acc[k] = true
				}
				core := nsNode{base: b, accepts: acc, reject: d.Reject}
				var cns wiring.Namespace
				var err error
				if d.Kind == "P" {
					p := &procNS{core}
					child, nn = p, &p.nsNode
					cns, err = namespaceutil.InstantiateNamespace(ns, p)
				} else {
					p := &contNS{core}
					child, nn = p, &p.nsNode
					cns, err = namespaceutil.InstantiateNamespace(ns, p)
				}
				_ = nn
				if err != nil {
					return nil, err
				}
				o.nsOf[cns] = key
				if d.Fail {
					return nil, fmt.Errorf("boom-%s", d.Name)
				}
				o.nodes[key] = child
				return child, nil
			}
			var first ir.IRNode
			for i, dp := range d.Deps {
				i, dp := i, dp
				var n ir.IRNode
				var err error
				fetch := func() error {
					if dp.Mode == "inst" {
						err = ns.Instantiate(dp.Name, &n)
					} else {
						err = ns.Get(dp.Name, &n)
					}
					if err == nil {
						o.got[fmt.Sprintf("%s>%s#%d", key, dp.Name, i)] = n
					}
					return err
				}
				if dp.Mode == "defer" {
					ns.Defer(fetch, wiring.DeferOpts{Front: i%2 == 0})
					continue
				}
				if err := fetch(); err != nil {
					return nil, err
				}
				if first == nil {
					first = n
				}
			}
			if d.Fail {
				return nil, fmt.Errorf("boom-%s", d.Name)
			}
			var n ir.IRNode
			switch {
			case d.Pass:
				n = first
			case d.Kind == "A":
				n = &nodeA{b}
			case d.Kind == "B":
				n = &nodeB{b}
			case d.Kind == "C":
				n = &nodeC{b}
			case d.Kind == "M":
				n = &metaM{b}
			}
			o.nodes[key] = n
			return n, nil
		}
		var t any
		switch d.Kind {
		case "A":
			t = &nodeA{}
		case "B":
			t = &nodeB{}
		case "C":
			t = &nodeC{}
		case "M":
			t = &metaM{}
		case "P":
			t = &procNS{}
		case "K":
			t = &contNS{}
		}
		spec.Define(d.Name, t, build)
		for _, k := range d.Kids {
			if d.Kind == "P" {
				namespaceutil.AddNodeTo[procNS](spec, d.Name, k)
			} else {
				namespaceutil.AddNodeTo[contNS](spec, d.Name, k)
			}
		}
	}
	aliased := order.Intn(2) == 0
	if aliased {
		for _, a := range s.Aliases {
			spec.Alias(a[0], a[1])
		}
	}
	for _, i := range idx {
		d := s.Defs[i]
		if order.Intn(6) == 0 { // a definition or alias that is replaced by the real one
			if order.Intn(2) == 0 {
				spec.Alias(d.Name, "nowhere")
			} else {
				spec.Define(d.Name, &nodeC{}, func(wiring.Namespace) (ir.IRNode, error) { return nil, fmt.Errorf("replaced definition was used") })
			}
		}
		define(d)
	}
	if !aliased {
		for _, a := range s.Aliases {
			if order.Intn(4) == 0 {
				spec.Define(a[0], &nodeC{}, func(wiring.Namespace) (ir.IRNode, error) { return nil, fmt.Errorf("replaced definition was used") })
			}
			spec.Alias(a[0], a[1])
		}
	}
	if s.AddErr {
		spec.AddError(fmt.Errorf("declared-error"))
	}
	o.app, o.err = spec.BuildIR(s.Request...)
	return o
}

// ------------------------------------------------------------------ the model

type mnode struct {
	key     string // path of its building namespace + name
	d       *def
	owner   *mns
	returns *mnode // what the def yields (itself, or for Pass what the dependency yields)
	got     map[string]*mnode
}
type mns struct {
	path    string
	parent  *mns
	accepts map[string]bool // nil: everything
	reject  string
	built   map[string]*mnode
	nodes   map[string]bool // keys of nodes created here
	edges   map[string]bool // keys of nodes of ancestors obtained with Get here
	names   map[string]bool // names handed to AddNode / AddEdge (may be a superset: first name wins)
	kids    []*mns
}
type modelT struct {
	s        *specT
	root     *mns
	builds   map[string]bool
	mustFail map[string]bool // possible reasons for failure among what is needed
	deferred []func()
}

func (m *modelT) newNS(path string, parent *mns, d *def) *mns {
	n := &mns{path: path, parent: parent, built: map[string]*mnode{}, nodes: map[string]bool{}, edges: map[string]bool{}, names: map[string]bool{}}
	if d != nil {
		n.accepts = map[string]bool{}
		for _, k := range d.Accepts {
			n.accepts[k] = true
		}
		n.reject = d.Reject
		parent.kids = append(parent.kids, n)
	}
	return n
}

// need returns what name yields in ns, or nil when that fails.
func (m *modelT) need(ns *mns, name string, edge bool) *mnode {
	rn, ok := m.s.resolve(name)
	if !ok {
		m.mustFail["undefined"] = true
		return nil
	}
	d := m.s.byName[rn]
	owner := ns
	for owner.accepts != nil && !owner.accepts[d.Kind] {
		owner = owner.parent
	}
	n, done := owner.built[rn]
	if !done {
		n = m.build(owner, d)
		owner.built[rn] = n
	}
	if n == nil || n.returns == nil {
		return nil
	}
	res := n.returns
	if edge && d.Kind != "M" && res.d.Kind != "M" {
		for x := ns; x != owner; x = x.parent {
			// the node comes from outside x unless a node of x itself was created there
			if !within(res.owner, x) {
				if !x.edges[res.key] {
					x.edges[res.key] = true
				}
				if x.reject == rn {
					m.mustFail["maybe-refused"] = true
				}
			}
		}
	}
	return res
}

func within(o, x *mns) bool {
	for ; o != nil; o = o.parent {
		if o == x {
			return true
		}
	}
	return false
}

func (m *modelT) build(owner *mns, d *def) *mnode {
	key := owner.path + "/" + d.Name
	n := &mnode{key: key, d: d, owner: owner, got: map[string]*mnode{}}
	m.builds[key] = true
	if d.Fail {
		m.mustFail["boom-"+d.Name] = true
		return nil
	}
	if d.Kind == "P" || d.Kind == "K" {
		c := m.newNS(key, owner, d)
		owner.nodes[key] = true
		n.returns = n
		m.deferred = append(m.deferred, func() {
			for _, k := range d.Kids {
				m.need(c, k, true)
			}
		})
		if owner.reject == d.Name {
			m.mustFail["refused"] = true
		}
		return n
	}
	for i, dp := range d.Deps {
		i, dp := i, dp
		get := func() {
			n.got[fmt.Sprintf("%s>%s#%d", key, dp.Name, i)] = m.need(owner, dp.Name, dp.Mode != "inst")
		}
		if dp.Mode == "defer" {
			m.deferred = append(m.deferred, get)
		} else {
			get()
		}
	}
	if d.Pass {
		for i, dp := range d.Deps {
			if dp.Mode != "defer" {
				n.returns = n.got[fmt.Sprintf("%s>%s#%d", key, dp.Name, i)]
				break
			}
		}
		if n.returns != nil && owner.reject == d.Name {
			m.mustFail["maybe-refused"] = true
		}
		return n
	}
	n.returns = n
	owner.nodes[key] = true
	if owner.reject == d.Name {
		m.mustFail["refused"] = true
	}
	return n
}

func model(s *specT) *modelT {
	m := &modelT{s: s, builds: map[string]bool{}, mustFail: map[string]bool{}}
	m.root = m.newNS("app", nil, nil)
	if s.AddErr {
		m.mustFail["declared-error"] = true
	}
	for _, r := range s.Request {
		m.need(m.root, r, true)
	}
	for len(m.deferred) > 0 {
		f := m.deferred[0]
		m.deferred = m.deferred[1:]
		f()
	}
	return m
}

// ------------------------------------------------------------------ comparison

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func check(h *hx.H, s *specT, m *modelT, o *observed) {
	rep := map[string]any{"spec": s}
	fail := func(key, f string, a ...any) {
		rep["error"] = fmt.Sprint(o.err)
		rep["builds"] = o.builds
		if o.app != nil {
			rep["app"] = o.app.String()
		}
		h.Violate(key, fmt.Sprintf(f, a...), rep)
	}
	// each build at most once per namespace, and only of needed nodes (also when the compilation fails)
	seen := map[string]bool{}
	for _, b := range o.builds {
		if seen[b] {
			fail("built-twice", "%s was built twice", b)
			return
		}
		seen[b] = true
		if !m.builds[b] && len(m.mustFail) == 0 {
			fail("unneeded", "%s was built although nothing needs it there", b)
			return
		}
	}
	if len(m.mustFail) > 0 {
		if o.err == nil && !(len(m.mustFail) == 1 && m.mustFail["maybe-refused"]) {
			fail("error-swallowed", "the compilation should fail (%v) but reported success", sortedKeys(m.mustFail))
			return
		}
		if o.err != nil {
			msg := o.err.Error()
			if !strings.Contains(msg, "boom-") && !strings.Contains(msg, "undefined_name") && !strings.Contains(msg, "dangling") && !strings.Contains(msg, "refused") && !strings.Contains(msg, "declared-error") {
				fail("error-lost", "the compilation failed with an unrelated error: %s", msg)
			}
			h.Observe("expected_failures", 1)
			return
		}
	}
	if o.err != nil {
		fail("spurious-error", "a valid spec was rejected: %v", o.err)
		return
	}
	for k := range m.builds {
		if !seen[k] {
			fail("not-built", "%s is needed but was not built", k)
			return
		}
	}
	// dependencies are connected to the right instances
	var all func(ns *mns) []*mns
	all = func(ns *mns) []*mns {
		r := []*mns{ns}
		for _, k := range ns.kids {
			r = append(r, all(k)...)
		}
		return r
	}
	for _, ns := range all(m.root) {
		for _, n := range ns.built {
			for dk, want := range n.got {
				g := o.got[dk]
				if want == nil || g != o.nodes[want.key] {
					fail("wrong-instance", "%s was connected to %v, want the instance of %s", dk, g, want.key)
					return
				}
				h.Observe("connections", 1)
			}
		}
		// contents of the namespace
		var nodes, edges []ir.IRNode
		if ns.parent == nil {
			nodes = o.app.Children
		} else {
			switch x := o.nodes[ns.path].(type) {
			case *procNS:
				nodes, edges = x.nodes, x.edges
			case *contNS:
				nodes, edges = x.nodes, x.edges
			}
		}
		keyOf := func(list []ir.IRNode) []string {
			var r []string
			for _, n := range list {
				k := "?" + n.Name()
				for kk, v := range o.nodes {
					if v == n && strings.HasSuffix(kk, "/"+n.Name()) {
						k = kk
					}
				}
				r = append(r, k)
			}
			sort.Strings(r)
			return r
		}
		if got, want := keyOf(nodes), sortedKeys(ns.nodes); !reflect.DeepEqual(got, want) {
			fail("namespace-nodes", "namespace %s contains %v, want %v", ns.path, got, want)
			return
		}
		if got, want := keyOf(edges), sortedKeys(ns.edges); !reflect.DeepEqual(got, want) {
			fail("namespace-edges", "namespace %s has edges %v, want %v", ns.path, got, want)
			return
		}
		h.Observe("namespaces", 1)
		h.Observe("edges", len(ns.edges))
		h.Observe("nodes", len(ns.nodes))
	}
}

func ordered(o *observed) string {
	var b strings.Builder
	if o.app != nil {
		for _, c := range o.app.Children {
			fmt.Fprintln(&b, c.String())
			var walk func(n ir.IRNode)
			walk = func(n ir.IRNode) {
				var ns *nsNode
				switch x := n.(type) {
				case *procNS:
					ns = &x.nsNode
				case *contNS:
					ns = &x.nsNode
				default:
					return
				}
				fmt.Fprintln(&b, ns.calls)
				for _, k := range ns.nodes {
					walk(k)
				}
			}
			walk(c)
		}
	}
	fmt.Fprintln(&b, o.builds, o.err == nil)
	return b.String()
}

// ------------------------------------------------------------------ properties of a spec

func properties(h *hx.H, round int) {
	r := h.Rand(int64(round) + 77000)
	spec := wiring.NewWiringSpec("props")
	type pk struct{ n, k string }
	ref := map[pk][]any{}
	names, keys := []string{"x", "y"}, []string{"k1", "k2", "k3"}
	typ := map[string]string{"k1": "string", "k2": "int", "k3": "slice"}
	var log []string
	val := func(k string) any {
		switch typ[k] {
		case "string":
			return fmt.Sprint("v", r.Intn(5))
		case "int":
			return r.Intn(100)
		}
		return []string{"a", fmt.Sprint(r.Intn(9))}[:r.Intn(3)]
	}
	for _, n := range names {
		n := n
		spec.Define(n, &nodeA{}, func(wiring.Namespace) (ir.IRNode, error) { return &nodeA{base{name: n}}, nil })
	}
	spec.Alias("ax", "x")
	verify := func(where string, getOne func(n, k string, dst any) error, getAll func(n, k string, dst any) error, asName map[string]string) {
		for _, n := range names {
			for _, k := range keys {
				want := ref[pk{n, k}]
				q := n
				if a, ok := asName[n]; ok {
					q = a
				}
				var s = "untouched"
				var i = -1
				var l = []string{"untouched"}
				var ls []string
				var is []int
				var lls [][]string
				var e1, e2 error
				var one, many any
				var zero any
				switch typ[k] {
				case "string":
					e1, e2 = getOne(q, k, &s), getAll(q, k, &ls)
					one, many, zero = s, anys(ls), ""
				case "int":
					e1, e2 = getOne(q, k, &i), getAll(q, k, &is)
					one, many, zero = i, anys(is), 0
				default:
					e1, e2 = getOne(q, k, &l), getAll(q, k, &lls)
					one, many, zero = l, anys(lls), []string(nil)
				}
				exp := zero
				if len(want) == 1 {
					exp = want[0]
				}
				if e1 != nil || !same(one, exp) && len(want) <= 1 {
					h.Violate("properties", fmt.Sprintf("%s GetProperty(%s,%s) = %#v, %v; want %#v", where, q, k, one, e1, exp), log)
				}
				if e2 != nil || !same(many, append([]any{}, want...)) {
					h.Violate("properties", fmt.Sprintf("%s GetProperties(%s,%s) = %#v, %v; want %#v", where, q, k, many, e2, want), log)
				}
				if len(want) == 1 {
					var wrong struct{ X int }
					if getOne(q, k, &wrong) == nil {
						h.Violate("properties", fmt.Sprintf("%s GetProperty(%s,%s) into a mismatched type reported no error", where, q, k), log)
					}
				}
				h.Observe("property_reads", 2)
			}
		}
	}
	for step := 0; step < 12; step++ {
		n, k := names[r.Intn(2)], keys[r.Intn(3)]
		v := val(k)
		if r.Intn(2) == 0 {
			spec.SetProperty(n, k, v)
			ref[pk{n, k}] = []any{v}
			log = append(log, fmt.Sprintf("Set(%s,%s,%v)", n, k, v))
		} else {
			spec.AddProperty(n, k, v)
			ref[pk{n, k}] = append(ref[pk{n, k}], v)
			log = append(log, fmt.Sprintf("Add(%s,%s,%v)", n, k, v))
		}
	}
	verify("spec", spec.GetProperty, spec.GetProperties, nil)
	ran := false
	spec.Define("reader", &nodeB{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		ran = true
		verify("namespace", ns.GetProperty, ns.GetProperties, nil)
		verify("namespace (alias)", ns.GetProperty, ns.GetProperties, map[string]string{"x": "ax"})
		return &nodeB{base{name: "reader"}}, nil
	})
	if _, err := spec.BuildIR("reader"); err != nil || !ran {
		h.Violate("properties", fmt.Sprintf("BuildIR(reader) = %v", err), log)
	}
	h.Case(fmt.Sprint(log), true)
}

func anys[T any](l []T) []any {
	r := []any{}
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

func same(a, b any) bool {
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) || fmt.Sprint(a) == fmt.Sprint(b)
}

// put hands nodes to a namespace directly: each lands in the innermost namespace that accepts it.
func put(h *hx.H, k int) {
	spec := wiring.NewWiringSpec("put")
	kinds := []string{"A", "B", "C"}
	acc := [][]string{{"A", "P"}, {"A", "B", "P"}, {"P"}}[k%3]
	inner := [][]string{{"A"}, {"C"}, {"A", "C"}}[k/3%3]
	set := func(l []string) map[string]bool {
		m := map[string]bool{"trigger": false}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	outerN := &contNS{nsNode{base: base{name: "outer"}, accepts: set(acc)}}
	innerN := &procNS{nsNode{base: base{name: "inner"}, accepts: set(inner)}}
	mkn := func(kind string) ir.IRNode {
		b := base{name: "put" + kind}
		switch kind {
		case "A":
			return &nodeA{b}
		case "B":
			return &nodeB{b}
		}
		return &nodeC{b}
	}
	var put = map[string]ir.IRNode{}
	var again = map[string]ir.IRNode{}
	spec.Define("outer", &contNS{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		o, err := ns.DeriveNamespace("outer", outerN)
		if err != nil {
			return nil, err
		}
		if _, err := ns.DeriveNamespace("outer", outerN); err == nil {
			h.Violate("put", "deriving the same child namespace twice is accepted", nil)
		}
		if g, err := ns.GetNamespace("outer"); err != nil || g != o {
			h.Violate("put", "GetNamespace does not return the derived namespace", nil)
		}
		i, err := o.DeriveNamespace("inner", innerN)
		if err != nil {
			return nil, err
		}
		for _, kd := range kinds {
			put[kd] = mkn(kd)
			if err := i.Put("put"+kd, put[kd]); err != nil {
				return nil, err
			}
			var n ir.IRNode
			if err := i.Get("put"+kd, &n); err != nil {
				return nil, err
			}
			again[kd] = n
		}
		return outerN, nil
	})
	app, err := spec.BuildIR("outer")
	rep := map[string]any{"outer accepts": acc, "inner accepts": inner, "err": fmt.Sprint(err)}
	if err != nil {
		h.Violate("put", "Put of a node that an enclosing namespace accepts failed", rep)
		return
	}
	for _, kd := range kinds {
		has := func(l []ir.IRNode) bool {
			for _, x := range l {
				if x == put[kd] {
					return true
				}
			}
			return false
		}
		inI, inO := innerN.accepts[kd], !innerN.accepts[kd] && outerN.accepts[kd]
		inR := !inI && !inO
		if again[kd] != put[kd] || has(innerN.nodes) != inI || has(outerN.nodes) != inO || has(app.Children) != inR || has(innerN.edges) != !inI || has(outerN.edges) != inR {
			h.Violate("put", fmt.Sprintf("node of kind %s was put in the wrong namespace or without edges", kd), rep)
		}
	}
	h.Case(fmt.Sprint("put", k), true)
}

// hostile runs one bad spec in this process (called in a child process).
func hostile(which string) {
	spec := wiring.NewWiringSpec("bad")
	mk := func(n string, deps ...string) {
		spec.Define(n, &nodeA{}, func(ns wiring.Namespace) (ir.IRNode, error) {
			for _, d := range deps {
				var x ir.IRNode
				if err := ns.Get(d, &x); err != nil {
					return nil, err
				}
			}
			return &nodeA{base{name: n}}, nil
		})
	}
	var req = "a"
	switch which {
	case "alias-self":
		spec.Alias("a", "a")
	case "alias-cycle":
		spec.Alias("a", "b")
		spec.Alias("b", "c")
		spec.Alias("c", "b")
	case "alias-cycle-dep":
		mk("a", "x")
		spec.Alias("x", "y")
		spec.Alias("y", "x")
	case "build-self":
		mk("a", "a")
	case "build-cycle":
		mk("a", "b")
		mk("b", "c")
		mk("c", "a")
	case "build-cycle-alias":
		mk("a", "x")
		spec.Alias("x", "b")
		mk("b", "a")
	case "property-only":
		mk("a", "b")
		spec.SetProperty("b", "k", "v")
	case "property-only-requested":
		spec.AddProperty("a", "k", "v")
	case "property-on-alias":
		mk("real")
		spec.Alias("a", "real")
		spec.AddProperty("a", "k", "v")
		fmt.Println("EITHER") // an error, or the alias still works
	case "nil-node":
		spec.Define("a", &nodeA{}, func(wiring.Namespace) (ir.IRNode, error) { return nil, nil })
	case "unknown-request":
		mk("a")
		req = "zzz"
	}
	_, err := spec.BuildIR(req)
	fmt.Printf("RESULT err=%v\n", err)
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-hostile" {
		logging.DisableCompilerLogging()
		hostile(os.Args[2])
		return
	}
	h := hx.New()
	logging.DisableCompilerLogging()
	h.Rule = "one random wiring spec per case (definitions, aliases, namespaces, deferred and instantiated dependencies, faults), compared with a closure model; distinct by spec; properties sequences; hostile specs in child processes"
	if h.Part("specs") {
		for k := 0; k < h.N(25000, 400000); k++ {
			s := generate(h.Rand(int64(k)))
			var o *observed
			if p := hx.Catch(func() { o = run(s, rand.New(rand.NewSource(int64(k)))) }); p != "" {
				h.Violate("panic", "compilation panicked: "+p, s)
				continue
			}
			m := model(s)
			check(h, s, m, o)
			o2 := run(s, rand.New(rand.NewSource(int64(k))))
			if a, b := ordered(o), ordered(o2); a != b {
				h.Violate("not-repeatable", "compiling the same spec twice gave different results", map[string]any{"spec": s, "first": a, "second": b})
			}
			h.Observe("builds", len(o.builds))
			h.Case(fmt.Sprint(s.Request, len(s.Defs), o.builds), len(o.builds) > 1)
			if k < 2 {
				h.Sample(s)
			}
		}
	}
	if h.Part("all") { // requesting nothing instantiates everything
		for k := 0; k < h.N(200, 3000); k++ {
			s := generate(h.Rand(int64(k) + 500000))
			s.Request = nil
			for _, d := range s.Defs {
				s.Request = append(s.Request, d.Name)
			}
			m := model(s)
			s.Request = nil
			o := run(s, rand.New(rand.NewSource(int64(k))))
			check(h, s, m, o)
			h.Case(fmt.Sprint("all", o.builds), true)
		}
	}
	if h.Part("properties") {
		for k := 0; k < h.N(400, 5000); k++ {
			properties(h, k)
		}
	}
	if h.Part("put") {
		for k := 0; k < 9; k++ {
			if p := hx.Catch(func() { put(h, k) }); p != "" {
				h.Violate("panic", "Put panicked: "+p, nil)
			}
		}
	}
	if h.Part("hostile") {
		for _, w := range []string{"alias-self", "alias-cycle", "alias-cycle-dep", "build-self", "build-cycle", "build-cycle-alias", "property-only", "property-only-requested", "property-on-alias", "nil-node", "unknown-request"} {
			cmd := exec.Command(os.Args[0], "-hostile", w)
			done := make(chan struct{})
			var out []byte
			var err error
			go func() { out, err = cmd.CombinedOutput(); close(done) }()
			select {
			case <-done:
			case <-time.After(20 * time.Second):
				cmd.Process.Kill()
				<-done
				h.Violate("hang/"+w, "compiling a spec with "+w+" does not terminate", nil)
				continue
			}
			res := string(out)
			if len(res) > 2000 {
				res = res[:2000]
			}
			i := strings.Index(res, "RESULT err=")
			switch {
			case err != nil || i < 0:
				h.Violate("crash/"+w, "compiling a spec with "+w+" crashes instead of reporting an error", res)
			case strings.HasPrefix(res[i:], "RESULT err=<nil>") && !strings.Contains(res, "EITHER"):
				h.Violate("error-swallowed/"+w, "compiling a spec with "+w+" reports success", res)
			}
			h.Case("hostile "+w, true)
		}
	}
	h.Done()
}
