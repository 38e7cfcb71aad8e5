package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
)

// A generated module: packages with declarations of every kind, spread over files.
type module struct {
	r     *rand.Rand
	path  string
	files map[string]string
	pkgs  []*pkg
	n     int
	feats map[string]bool
}

type decl struct {
	name       string
	kind       string // struct, named, iface, constraint, gstruct, giface, alias, func
	comparable bool
	tparams    int
}

type pkg struct {
	m     *module
	dir   string
	path  string
	name  string
	decls []decl
	files []*file
}

type file struct {
	p       *pkg
	name    string
	header  string
	imports map[string]string // path -> name used ("." for dot imports)
	explicit map[string]bool
	body    strings.Builder
}

func (m *module) uniq(prefix string) string {
	m.n++
	return fmt.Sprint(prefix, m.n)
}

func (m *module) feat(f string) { m.feats[f] = true }

func (m *module) chance(p float64) bool { return m.r.Float64() < p }

func (f *file) use(target *pkg, path string, name string) string {
	// returns the qualifier (with dot) for a package
	if target != nil {
		path, name = target.path, target.name
		if target == f.p {
			return ""
		}
	}
	if q, ok := f.imports[path]; ok {
		if q == "." {
			return ""
		}
		return q + "."
	}
	for _, q := range f.imports { // two packages with one name: the second needs another name
		if q == name {
			name = f.p.m.uniq(name)
			f.explicit[path] = true
			break
		}
	}
	if f.p.m.chance(.2) && !f.explicit[path] {
		name = f.p.m.uniq("al")
		f.explicit[path] = true
		f.p.m.feat("import alias")
	} else if target != nil && f.p.m.chance(.12) && !f.explicit[path] {
		dot := false
		for _, q := range f.imports {
			dot = dot || q == "."
		}
		if !dot {
			f.imports[path] = "."
			f.p.m.feat("dot import")
			return ""
		}
	}
	f.imports[path] = name
	return name + "."
}

func (f *file) String() string {
	var b strings.Builder
	b.WriteString(f.header)
	fmt.Fprintf(&b, "package %s\n\n", f.p.name)
	group := f.p.m.chance(.5)
	if len(f.imports) > 0 {
		var lines []string
		for p, q := range f.imports {
			if q == "." || f.explicit[p] {
				lines = append(lines, fmt.Sprintf("%s %q", q, p))
			} else {
				lines = append(lines, fmt.Sprintf("%q", p))
			}
		}
		if group {
			fmt.Fprintf(&b, "import (\n\t%s\n)\n\n", strings.Join(lines, "\n\t"))
		} else {
			for _, l := range lines {
				fmt.Fprintf(&b, "import %s\n", l)
			}
		}
	}
	b.WriteString(f.body.String())
	return b.String()
}

var basics = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "float32", "float64", "complex64", "complex128", "error"}

// typ writes a random type. key: the type must be usable as a map key. tps are type parameters in scope.
func (f *file) typ(depth int, key bool, tps []string) string {
	m := f.p.m
	r := m.r
	if len(tps) > 0 && r.Intn(3) == 0 {
		if !key {
			return tps[r.Intn(len(tps))]
		}
		return tps[0] // the first one is always comparable
	}
	if depth <= 0 || key && r.Intn(2) == 0 {
		return basics[r.Intn(len(basics)-1)] // (error is a key type too, but unusual)
	}
	pick := func(kinds ...string) (string, bool) {
		var where []*pkg
		where = append(where, f.p, f.p)
		for _, p := range m.pkgs {
			if p != f.p && len(p.decls) > 0 {
				where = append(where, p)
			}
		}
		p := where[r.Intn(len(where))]
		for try := 0; try < 6; try++ {
			if len(p.decls) == 0 {
				break
			}
			d := p.decls[r.Intn(len(p.decls))]
			ok := false
			for _, k := range kinds {
				ok = ok || d.kind == k
			}
			if !ok || key && !d.comparable || p != f.p && strings.ToLower(d.name[:1]) == d.name[:1] {
				continue
			}
			s := f.use(p, "", "") + d.name
			if d.tparams > 0 {
				args := []string{basics[r.Intn(12)]}
				for i := 1; i < d.tparams; i++ {
					args = append(args, f.typ(depth-1, false, tps))
				}
				s += "[" + strings.Join(args, ", ") + "]"
				m.feat("generic instance")
			}
			return s, true
		}
		return "", false
	}
	if key {
		if s, ok := pick("struct", "named", "alias"); ok {
			return s
		}
		return "string"
	}
	switch r.Intn(19) {
	case 0, 1, 2, 3, 4, 5:
		if s, ok := pick("struct", "named", "alias", "iface", "gstruct"); ok {
			return s
		}
	case 6, 7:
		return "[]" + f.typ(depth-1, false, tps)
	case 8:
		return "map[" + f.typ(1, true, tps) + "]" + f.typ(depth-1, false, tps)
	case 9, 10:
		return "*" + f.typ(depth-1, false, tps)
	case 11:
		m.feat("chan")
		return []string{"chan ", "<-chan ", "chan<- "}[r.Intn(3)] + "[]" + f.typ(depth-1, false, tps)
	case 12:
		m.feat("func type")
		return "func(" + f.typ(depth-1, false, tps) + ") " + f.typ(depth-1, false, tps)
	case 13:
		return []string{"any", "interface{}", "interface{ M() string }"}[r.Intn(3)]
	case 14:
		m.feat("inline struct")
		return "struct{ X " + f.typ(depth-1, false, tps) + " }"
	case 15:
		m.feat("parenthesised type")
		return "(" + f.typ(depth-1, false, tps) + ")"
	case 16:
		std := [][3]string{{"context", "context", "Context"}, {"time", "time", "Time"}, {"time", "time", "Duration"}, {"sync", "sync", "Mutex"}, {"math/rand", "rand", "Rand"}, {"net/http", "http", "Header"}, {"container/list", "list", "List"}, {"encoding/json", "json", "RawMessage"}, {"math/rand/v2", "rand", "PCG"}}[r.Intn(9)]
		if std[0] == "math/rand/v2" {
			m.feat("versioned import path")
		}
		return "*" + f.use(nil, std[0], std[1]) + std[2]
	case 17:
		m.feat("array")
		return fmt.Sprintf("[%d]", 1+r.Intn(9)) + f.typ(depth-1, false, tps)
	}
	return basics[r.Intn(len(basics))]
}

var hostileNames = []string{"ctx", "err", "type_", "int64", "string", "error", "context", "nil", "len", "a", "b", "x", "id", "request", "Name", "ünï", "_x", "any", "time"}

// params writes a parameter list (without parentheses).
func (f *file) params(n int, tps []string, variadic bool, fresh ...bool) string {
	r := f.p.m.r
	if n == 0 {
		return ""
	}
	var out []string
	if r.Intn(3) == 0 { // unnamed
		f.p.m.feat("unnamed parameters")
		for i := 0; i < n; i++ {
			t := f.typ(2, false, tps)
			if variadic && i == n-1 && r.Intn(4) == 0 {
				t = "..." + t
				f.p.m.feat("variadic")
			}
			out = append(out, t)
		}
		return strings.Join(out, ", ")
	}
	used := map[string]bool{}
	names := func() string {
		// parameter names that are also names of packages or types would shadow them in later types only inside the
		// body, which is empty here
		s := hostileNames[r.Intn(len(hostileNames))]
		if used[s] || len(fresh) > 0 || r.Intn(3) == 0 {
			s = f.p.m.uniq("p")
		}
		used[s] = true
		if r.Intn(9) == 0 {
			return "_"
		}
		return s
	}
	for i := 0; i < n; {
		k := 1
		if r.Intn(4) == 0 && i+1 < n {
			k = 2
			f.p.m.feat("grouped parameters")
		}
		var ns []string
		for j := 0; j < k; j++ {
			ns = append(ns, names())
		}
		t := f.typ(2, false, tps)
		i += k
		if variadic && i == n && k == 1 && r.Intn(4) == 0 {
			t = "..." + t
			f.p.m.feat("variadic")
		}
		out = append(out, strings.Join(ns, ", ")+" "+t)
	}
	return strings.Join(out, ", ")
}

func (f *file) results(tps []string) string {
	r := f.p.m.r
	switch n := r.Intn(4); n {
	case 0:
		return ""
	case 1:
		if r.Intn(2) == 0 {
			return " " + f.typ(2, false, tps)
		}
		fallthrough
	default:
		return " (" + f.params(n, tps, false, true) + ")"
	}
}

func (p *pkg) file() *file { return p.files[p.m.r.Intn(len(p.files))] }

func (p *pkg) exported() string {
	if p.m.chance(.8) {
		return "T"
	}
	return "t"
}

func (p *pkg) methods(recv string, tps []string) {
	m := p.m
	for k := m.r.Intn(4); k > 0; k-- {
		f := p.file()
		star := ""
		if m.chance(.5) {
			star = "*"
		}
		tp := ""
		if len(tps) > 0 {
			tp = "[" + strings.Join(tps, ", ") + "]"
		}
		rn := []string{"r ", "_ ", ""}[m.r.Intn(3)]
		fmt.Fprintf(&f.body, "func (%s%s%s%s) %s(%s)%s { panic(0) }\n\n", rn, star, recv, tp, m.uniq("M"), f.params(m.r.Intn(4), tps, true), f.results(tps))
	}
}

func (p *pkg) declare() {
	m := p.m
	r := m.r
	f := p.file()
	b := &f.body
	switch r.Intn(13) {
	case 0, 1, 2: // struct
		d := decl{name: m.uniq(p.exported()), kind: "struct"}
		fmt.Fprintf(b, "type %s struct {\n", d.name)
		f.fields(d.name, nil)
		fmt.Fprintf(b, "}\n\n")
		p.methods(d.name, nil)
		p.decls = append(p.decls, d)
	case 3: // named type that is not a struct
		d := decl{name: m.uniq(p.exported()), kind: "named"}
		t := []string{"int", "string", "[]string", "map[string]int", "func(int) error", "chan int"}[r.Intn(6)]
		d.comparable = t == "int" || t == "string"
		fmt.Fprintf(b, "type %s %s\n\n", d.name, t)
		m.feat("named non-struct type")
		if m.chance(.7) {
			p.methods(d.name, nil)
			m.feat("methods of a named non-struct type")
		}
		if t == "int" && m.chance(.5) {
			fmt.Fprintf(b, "const (\n\t%s %s = iota\n\t%s\n)\n\n", m.uniq("C"), d.name, m.uniq("C"))
		}
		p.decls = append(p.decls, d)
	case 4: // alias
		d := decl{name: m.uniq("A"), kind: "alias"}
		fmt.Fprintf(b, "type %s = %s\n\n", d.name, f.typ(2, false, nil))
		m.feat("type alias")
		p.decls = append(p.decls, d)
	case 5: // interface
		d := decl{name: m.uniq("I"), kind: "iface"}
		fmt.Fprintf(b, "type %s interface {\n", d.name)
		for k := r.Intn(4); k > 0; k-- {
			fmt.Fprintf(b, "\t%s(%s)%s\n", m.uniq("M"), f.params(r.Intn(4), nil, true), f.results(nil))
		}
		fmt.Fprintf(b, "}\n\n")
		p.decls = append(p.decls, d)
	case 6: // embedding interface
		var e string
		for _, d := range p.decls {
			if d.kind == "iface" {
				e = d.name
			}
		}
		if e == "" {
			e = "error"
		}
		d := decl{name: m.uniq("I"), kind: "iface"}
		fmt.Fprintf(b, "type %s interface {\n\t%s\n\t%s()\n}\n\n", d.name, e, m.uniq("M"))
		m.feat("embedded interface")
		p.decls = append(p.decls, d)
	case 7: // constraint
		d := decl{name: m.uniq("K"), kind: "constraint"}
		fmt.Fprintf(b, "type %s interface { ~int | ~string }\n\n", d.name)
		m.feat("constraint interface")
		p.decls = append(p.decls, d)
	case 8: // generic struct
		d := decl{name: m.uniq("G"), kind: "gstruct", tparams: 1 + r.Intn(2)}
		tps := []string{"K", "V"}[:d.tparams]
		if m.chance(.3) {
			tps = []string{"T1", "T2"}[:d.tparams]
		}
		head := tps[0] + " comparable"
		if d.tparams > 1 {
			head += ", " + tps[1] + " any"
		}
		fmt.Fprintf(b, "type %s[%s] struct {\n", d.name, head)
		f.fields("", tps)
		fmt.Fprintf(b, "}\n\n")
		m.feat("generic struct")
		p.methods(d.name, tps)
		p.decls = append(p.decls, d)
	case 9: // generic func
		fmt.Fprintf(b, "func %s[K comparable, V any](%s)%s { panic(0) }\n\n", m.uniq("F"), f.params(1+r.Intn(3), []string{"K", "V"}, true), f.results([]string{"K", "V"}))
		m.feat("generic func")
	case 10: // generic interface
		d := decl{name: m.uniq("J"), kind: "giface", tparams: 1}
		fmt.Fprintf(b, "type %s[E comparable] interface {\n\t%s(%s)%s\n}\n\n", d.name, m.uniq("M"), f.params(1+r.Intn(2), []string{"E"}, false), f.results([]string{"E"}))
		m.feat("generic interface")
		p.decls = append(p.decls, d)
	default:
		name := m.uniq("F")
		if m.chance(.1) {
			fmt.Fprintf(b, "func init() {}\n\n")
		}
		fmt.Fprintf(b, "func %s(%s)%s { panic(0) }\n\n", name, f.params(r.Intn(4), nil, true), f.results(nil))
	}
}

func (f *file) fields(self string, tps []string) {
	m := f.p.m
	r := m.r
	for k := r.Intn(6); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			var opts []string
			for _, p := range m.pkgs {
				for _, d := range p.decls {
					if (d.kind == "struct" || d.kind == "iface") && (p == f.p || strings.ToUpper(d.name[:1]) == d.name[:1]) {
						q := f.use(p, "", "") + d.name
						if d.kind == "struct" && m.chance(.5) {
							q = "*" + q
						}
						opts = append(opts, q)
						if len(opts) > 3 {
							break
						}
					}
				}
			}
			if len(opts) > 0 {
				e := opts[r.Intn(len(opts))]
				// (an embedded type twice would be an error, so all the others are ordinary fields)
				fmt.Fprintf(&f.body, "\t%s\n", e)
				m.feat("embedded field")
				for i, o := range opts {
					if o != e {
						fmt.Fprintf(&f.body, "\tE%d_%d %s\n", k, i, o)
					}
				}
				for j := k - 1; j > 0; j-- {
					fmt.Fprintf(&f.body, "\t%s %s\n", m.uniq("Fld"), f.typ(2, false, tps))
				}
				return
			}
		case 1:
			fmt.Fprintf(&f.body, "\t%s, %s %s `json:\"x\"`\n", m.uniq("Fld"), m.uniq("fld"), f.typ(2, false, tps))
			m.feat("grouped fields")
		case 2:
			fmt.Fprintf(&f.body, "\t_ %s\n", f.typ(1, false, tps))
		case 3:
			if self != "" {
				fmt.Fprintf(&f.body, "\t%s *%s\n", m.uniq("Fld"), self)
				continue
			}
			fallthrough
		default:
			fmt.Fprintf(&f.body, "\t%s %s // comment\n", m.uniq("Fld"), f.typ(3, false, tps))
		}
	}
}

func newModule(r *rand.Rand, id int) *module {
	m := &module{r: r, files: map[string]string{}, feats: map[string]bool{}}
	m.path = fmt.Sprintf([]string{"gen.test/m%d", "m%dx", "gen.test/my-app.v%d/wf", "gen.test/deep/er/m%d/v2"}[r.Intn(4)], id)
	dirs := [][2]string{{"", "root"}, {"alpha", "alpha"}, {"alpha/inner", "inner"}, {"go-beta", "beta"}, {"gamma/v2", "gamma"}, {"delta.v1", "delta"}, {"x/types", "types"}, {"y/types", "types"}, {"internal/deep/q", "q"}, {"cmd/tool", "main"}, {"zeta", "other"}}
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	for _, d := range dirs[:2+r.Intn(6)] {
		p := &pkg{m: m, dir: d[0], path: path.Join(m.path, d[0]), name: d[1]}
		if path.Base(p.path) != p.name {
			m.feat("package name differs from directory")
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			p.files = append(p.files, &file{p: p, name: path.Join(p.dir, fmt.Sprintf("f%d.go", k)), imports: map[string]string{}, explicit: map[string]bool{}})
		}
		for k := 2 + r.Intn(12); k > 0; k-- {
			p.declare()
		}
		if p.name == "main" {
			p.decls = nil // cannot be imported
			p.files[0].body.WriteString("func main() {}\n")
		} else if strings.Contains(p.dir, "internal") {
			// importable from anywhere below internal's parent: the module
		}
		m.pkgs = append(m.pkgs, p)
	}
	for _, p := range m.pkgs {
		for _, f := range p.files {
			m.files[f.name] = f.String()
		}
	}
	m.files["go.mod"] = fmt.Sprintf("module %s\n\ngo 1.22\n", m.path)
	m.files["README.md"] = "text"
	// files that are not part of the build
	p := m.pkgs[r.Intn(len(m.pkgs))]
	var name string
	for _, d := range p.decls {
		if d.kind == "struct" {
			name = d.name
		}
	}
	if name == "" {
		name = "Tzz"
	}
	if m.chance(.4) {
		m.feat("file for another system")
		m.files[path.Join(p.dir, "f_windows.go")] = fmt.Sprintf("package %s\n\ntype %s struct { OnlyOnWindows int }\n", p.name, name)
	}
	if m.chance(.4) {
		m.feat("ignored main file")
		m.files[path.Join(p.dir, "tool.go")] = "//go:build ignore\n\npackage main\n\nfunc main() {}\n"
	}
	if m.chance(.4) {
		m.feat("test files")
		m.files[path.Join(p.dir, "a_test.go")] = fmt.Sprintf("package %s\n\nvar onlyInTests = 1\n", p.name)
		m.files[path.Join(p.dir, "b_test.go")] = fmt.Sprintf("package %s_test\n\nvar onlyInTests = 1\n", p.name)
	}
	if m.chance(.4) {
		m.feat("testdata")
		m.files[path.Join(p.dir, "testdata/broken.go")] = "package broken\n\nfunc {{ template"
		m.files[path.Join(p.dir, "testdata/src/a.go")] = "package a\n\nvar X Undefined\nfunc F(x Undefined) {}\n"
	}
	if m.chance(.3) {
		m.feat("hidden directories")
		m.files["_old/x.go"] = "package x\n\nfunc {"
		m.files[".cache/x.go"] = "package x\n\nfunc {"
	}
	if m.chance(.3) {
		m.feat("nested module")
		m.files["nested/go.mod"] = "module gen.test/nested\n\ngo 1.22\n"
		m.files["nested/x.go"] = "package nested\n\nimport . \"gen.test/a\"\nimport . \"gen.test/b\"\n\nfunc F(x Undefined) {}\n"
	}
	return m
}
