package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
)

// One reference to a service of a generated module, and what it must resolve to.
type ref struct {
	Kind    string
	Pkg     string
	Name    string
	Valid   bool
	Ifaces  []string // acceptable results, as package.Name
	Ctors   []string
	Structs []string
	Methods []string
}

type resModule struct {
	path  string
	files map[string]string
	other string // a second module, replaced by a directory
	refs  []ref
}

// argument and return types with different spellings in interface and implementation
var spellings = [][2]string{{"string", "string"}, {"[]byte", "[]uint8"}, {"any", "interface{}"}, {"rune", "int32"}, {"map[string]any", "map[string]interface{}"}, {"*int64", "*int64"}, {"[4]byte", "[4]uint8"}, {"...string", "...string"}, {"chan<- int", "chan<- int"}, {"func(int) error", "func(int) error"}, {"struct{}", "struct{}"}}

func newResModule(r *rand.Rand, id int) *resModule {
	m := &resModule{path: fmt.Sprintf("res.test/m%d", id), files: map[string]string{}}
	m.other = m.path + "other"
	kinds := []string{"plain", "pointer-ctor", "impl-elsewhere", "value-receivers", "two-files", "two-impls", "spellings", "other-module", "context-alias", "context-dot", "distractors", "unexported-impl", "test-constructor", "unexported-constructor", "interface-elsewhere", "other-name", "many-args",
		"no-ctor", "ctor-no-ctx", "ctor-no-error", "ctor-value", "method-no-ctx", "method-no-error", "method-no-args", "method-no-returns", "no-struct", "is-func", "is-var", "is-const", "is-named", "missing", "missing-package", "generic-iface", "embedded", "no-iface", "ctor-method", "ctor-generic", "mismatch", "only-unexported-ctor", "ctor-extra-return", "ctor-ctx-second", "method-ctx-second", "method-error-first"}
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for k, kind := range kinds[:14] {
		m.service(r, id, k, kind)
	}
	m.files["go.mod"] = fmt.Sprintf("module %s\n\ngo 1.22\n\nrequire %s v0.0.0\n\nreplace %s => ./zz_other\n", m.path, m.other, m.other)
	m.files["zz_other/go.mod"] = fmt.Sprintf("module %s\n\ngo 1.22\n", m.other)
	m.files["zz_other/o.go"] = "package o\n\nconst X = 1\n"
	m.files["main.go"] = fmt.Sprintf("package m\n\nimport _ %q\n", m.other)
	return m
}

func (m *resModule) service(r *rand.Rand, id, k int, kind string) {
	dir := fmt.Sprint("svc", k)
	name := dir
	pkg := m.path + "/" + dir
	I, S := fmt.Sprint("Iface", k), fmt.Sprint("Impl", k)
	sp := spellings[r.Intn(len(spellings))]
	plain := func(s string) string { return strings.Replace(s, "...", "[]", 1) }
	meth := []string{fmt.Sprintf("Do%dm%d", k, id), fmt.Sprintf("Get%dm%d", k, id)}[:1+r.Intn(2)]
	isigs := map[string]string{}
	ssigs := map[string]string{}
	for i, mn := range meth {
		same := spellings[r.Intn(len(spellings))]
		isigs[mn] = fmt.Sprintf("(ctx context.Context, x %s) (%s, error)", same[0], plain(same[0]))
		ssigs[mn] = fmt.Sprintf("(_ context.Context, y %s) (res %s, err error)", same[0], plain(same[0]))
		if r.Intn(3) == 0 {
			isigs[mn] = fmt.Sprintf("(context.Context, %s) (%s, error)", same[0], plain(same[0]))
		}
		if kind == "spellings" {
			isigs[mn] = fmt.Sprintf("(context.Context, %s) (%s, error)", sp[i%2], plain(sp[0]))
			ssigs[mn] = fmt.Sprintf("(_ context.Context, y %s) (%s, error)", sp[(i+1)%2], plain(sp[1]))
		}
	}
	recv := "*"
	if kind == "value-receivers" {
		recv = ""
	}
	body := "{ panic(0) }"
	iface := func(extra string) string {
		s := fmt.Sprintf("type %s interface {\n%s", I, extra)
		for _, mn := range meth {
			s += fmt.Sprintf("\t%s%s\n", mn, isigs[mn])
		}
		return s + "}\n\n"
	}
	impl := func(S string) string {
		s := fmt.Sprintf("type %s struct { X int }\n\n", S)
		for _, mn := range meth {
			s += fmt.Sprintf("func (s %s%s) %s%s %s\n\n", recv, S, mn, ssigs[mn], body)
		}
		return s
	}
	ctor := func(name, args, ret string) string {
		if args != "" {
			args = ", " + args
		}
		return fmt.Sprintf("func %s(ctx context.Context%s) (%s, error) %s\n\n", name, args, ret, body)
	}
	imp := "import \"context\"\n\n"
	head := fmt.Sprintf("package %s\n\n", name) + imp
	file := dir + "/a.go"
	x := ref{Kind: kind, Pkg: pkg, Name: I, Valid: true, Ifaces: []string{pkg + "." + I}, Ctors: []string{pkg + ".New" + S}, Structs: []string{pkg + "." + S}, Methods: meth}
	std := iface("") + impl(S) + ctor("New"+S, "", I)
	args := []string{"", "a string", "a, b string", "a int, o Other", "opts ...string"}[r.Intn(4)]
	bad := func() { x.Valid = false }
	switch kind {
	case "plain", "value-receivers", "spellings":
		m.files[file] = head + "type Other interface{ Z() }\n\n" + iface("") + impl(S) + ctor("New"+S, args, I)
	case "many-args":
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "a, b string, c int, d map[string][]string", I)
	case "pointer-ctor":
		x.Name = S
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "a string", "*"+S)
	case "impl-elsewhere":
		m.files[file] = head + iface("")
		m.files[dir+"/impl/b.go"] = fmt.Sprintf("package impl\n\nimport (\n\t\"context\"\n\tapi %q\n)\n\n", pkg) + impl(S) + ctor("New"+S, "", "api."+I)
		x.Ctors = []string{pkg + "/impl.New" + S}
		x.Structs = []string{pkg + "/impl." + S}
	case "interface-elsewhere":
		m.files[file] = head + iface("")
		m.files[dir+"/impl/b.go"] = fmt.Sprintf("package impl\n\nimport (\n\t\"context\"\n\tapi %q\n)\n\nvar _ api.%s = &%s{}\n\n", pkg, I, S) + impl(S) + ctor("New"+S, "", "*"+S)
		x.Pkg, x.Name = pkg+"/impl", S
		x.Ctors = []string{pkg + "/impl.New" + S}
		x.Structs = []string{pkg + "/impl." + S}
	case "two-files":
		m.files[dir+"/z.go"] = head + iface("")
		m.files[dir+"/b.go"] = head + ctor("New"+S, "", I)
		s := impl(S)
		i := strings.Index(s, "func ")
		m.files[dir+"/c.go"] = fmt.Sprintf("package %s\n\n", name) + s[:i]
		m.files[file] = head + s[i:]
	case "two-impls":
		S2 := S + "b"
		m.files[file] = head + iface("") + impl(S) + impl(S2) + ctor("New"+S, "", "*"+S) + ctor("New"+S2, "", "*"+S2)
		x.Name = S
		if r.Intn(2) == 0 {
			x.Name, x.Ctors, x.Structs = S2, []string{pkg + ".New" + S2}, []string{pkg + "." + S2}
		}
	case "other-module":
		pkg2 := m.other + "/" + dir
		m.files["zz_other/"+dir+"/a.go"] = head + std
		m.files[file] = fmt.Sprintf("package %s\n\nimport _ %q\n", name, pkg2)
		x.Pkg = pkg2
		x.Ifaces, x.Ctors, x.Structs = []string{pkg2 + "." + I}, []string{pkg2 + ".New" + S}, []string{pkg2 + "." + S}
	case "context-alias":
		m.files[file] = strings.ReplaceAll(strings.Replace(head, "import ", "import c ", 1)+std, "context.Context", "c.Context")
	case "context-dot":
		m.files[file] = strings.ReplaceAll(strings.Replace(head, "import ", "import . ", 1)+std, "context.Context", "Context")
	case "distractors":
		m.files[file] = head + fmt.Sprintf("type Other%d struct{}\n\nfunc NewOther%d(ctx context.Context) (*Other%d, error) %s\n\nfunc Make%d() (%s, error) %s\n\nfunc Must%d(ctx context.Context) %s %s\n\nfunc (s *Other%d) New(ctx context.Context) (%s, error) %s\n\n", k, k, k, body, k, I, body, k, I, body, k, I, body) + std
	case "unexported-impl":
		s := fmt.Sprint("impl", k)
		m.files[file] = head + iface("") + impl(s) + ctor("New"+S, "", I)
		x.Structs = []string{pkg + "." + s}
	case "test-constructor":
		m.files[file] = head + std
		m.files[dir+"/a_test.go"] = head + ctor("NewFake"+S, "", I) + impl("Fake"+S)
	case "unexported-constructor":
		m.files[file] = head + iface("") + impl(S) + ctor("new"+S, "a int", I) + ctor("New"+S, "", I)
		if r.Intn(2) == 0 {
			x.Name = S
			m.files[file] = head + iface("") + impl(S) + ctor("new"+S, "a int", "*"+S) + ctor("New"+S, "", "*"+S)
		}
	case "other-name":
		m.files[file] = strings.Replace(head, "package "+name, fmt.Sprint("package different", k), 1) + std
	case "no-ctor":
		m.files[file] = head + iface("") + impl(S)
		if r.Intn(2) == 0 {
			x.Name = S
		}
		bad()
	case "ctor-no-ctx":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func New(a string) (%s, error) %s\n", I, body)
		bad()
	case "ctor-ctx-second":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func New(a string, ctx context.Context) (%s, error) %s\n", I, body)
		bad()
	case "ctor-no-error":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func New(ctx context.Context) %s %s\n", I, body)
		bad()
	case "ctor-extra-return":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func New(ctx context.Context) (%s, int, error) %s\n", I, body)
		bad()
	case "ctor-value":
		m.files[file] = head + iface("") + impl(S) + ctor("New", "", S)
		x.Name = []string{I, S}[r.Intn(2)]
		bad()
	case "ctor-method":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func (x *%s) New(ctx context.Context) (%s, error) %s\n", S, I, body)
		bad()
	case "ctor-generic":
		m.files[file] = head + iface("") + impl(S) + fmt.Sprintf("func New[T any](ctx context.Context) (%s, error) %s\n", I, body)
		bad()
	case "only-unexported-ctor":
		m.files[file] = head + iface("") + impl(S) + ctor("new"+S, "", I)
		bad()
	case "method-no-ctx":
		isigs[meth[0]], ssigs[meth[0]] = "(x string) error", "(x string) error"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", I)
		bad()
	case "method-ctx-second":
		isigs[meth[0]], ssigs[meth[0]] = "(x string, ctx context.Context) error", "(x string, ctx context.Context) error"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", I)
		bad()
	case "method-no-error":
		isigs[meth[0]], ssigs[meth[0]] = "(ctx context.Context) int", "(ctx context.Context) int"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", []string{I, "*" + S}[r.Intn(2)])
		x.Name = I
		bad()
	case "method-error-first":
		isigs[meth[0]], ssigs[meth[0]] = "(ctx context.Context) (error, int)", "(ctx context.Context) (error, int)"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", I)
		bad()
	case "method-no-args":
		isigs[meth[0]], ssigs[meth[0]] = "() error", "() error"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", "*"+S)
		x.Name = S
		bad()
	case "method-no-returns":
		isigs[meth[0]], ssigs[meth[0]] = "(ctx context.Context)", "(ctx context.Context)"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", I)
		bad()
	case "no-struct":
		m.files[file] = head + iface("") + ctor("New"+S, "", I)
		bad()
	case "is-func":
		m.files[file] = head + std
		x.Name = "New" + S
		bad()
	case "is-var", "is-const":
		m.files[file] = head + std + kind[3:] + " Thing = 3\n"
		x.Name = "Thing"
		bad()
	case "is-named":
		m.files[file] = head + std + "type Thing []string\n\nfunc (t Thing) Len() int { return 0 }\n"
		x.Name = "Thing"
		bad()
	case "missing":
		m.files[file] = head + std
		x.Name = "Nothing"
		bad()
	case "missing-package":
		x.Pkg = pkg + "nothing"
		bad()
	case "generic-iface":
		isigs[meth[0]], ssigs[meth[0]] = "(ctx context.Context, x T) error", "(ctx context.Context, x string) error"
		m.files[file] = head + strings.Replace(iface(""), I+" ", I+"[T any] ", 1) + impl(S) + ctor("New"+S, "", I+"[string]")
		bad()
	case "embedded":
		m.files[file] = head + fmt.Sprintf("type Base%d interface { Base%d(ctx context.Context) error }\n\n", k, k) + iface(fmt.Sprintf("\tBase%d\n", k)) + impl(S) + fmt.Sprintf("func (s *%s) Base%d(ctx context.Context) error %s\n\n", S, k, body) + ctor("New"+S, "", I)
		bad()
	case "no-iface":
		m.files[file] = head + impl(S) + ctor("New"+S, "", "*"+S)
		x.Name = S
		bad()
	case "mismatch":
		ssigs[meth[0]] = "(ctx context.Context, x complex64) (int16, error)"
		m.files[file] = head + iface("") + impl(S) + ctor("New"+S, "", "*"+S)
		x.Name = S
		bad()
	default:
		panic(kind)
	}
	m.refs = append(m.refs, x)
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func resolve(h *hx.H, root string, i int) {
	m := newResModule(h.Rand(14500000+int64(i)), i)
	dir := filepath.Join(root, fmt.Sprint("r", i))
	if err := writeModule(&module{files: m.files}, dir); err != nil {
		panic(err)
	}
	os.Chdir(dir)
	for _, x := range m.refs {
		replay := map[string]any{"reference": x, "files": m.files}
		var svc *workflowspec.Service
		var err error
		if p := hx.Catch(func() { svc, err = workflowspec.GetServiceByName(x.Pkg, x.Name) }); p != "" {
			h.Violate("resolve-panic/"+x.Kind, fmt.Sprintf("resolving %s.%s crashed: %s", x.Pkg, x.Name, p), replay)
			continue
		}
		h.Case("ref "+fmt.Sprint(i)+x.Kind, true)
		h.Observe("references", 1)
		if !x.Valid {
			h.Observe("invalid references", 1)
			if err == nil {
				got := "nothing"
				if svc != nil {
					got = fmt.Sprintf("interface %s, constructor %s, struct %s", svc.Iface.Name, svc.Constructor.Name, svc.Struct.Name)
				}
				h.Violate("accepted/"+x.Kind, fmt.Sprintf("%s.%s is not a valid service (%s) but there was no error: %s", x.Pkg, x.Name, x.Kind, got), replay)
			}
			continue
		}
		if err != nil || svc == nil {
			h.Violate("rejected/"+x.Kind, fmt.Sprintf("%s.%s is a valid service (%s) but was rejected: %.300v", x.Pkg, x.Name, x.Kind, err), replay)
			continue
		}
		gi := svc.Iface.File.Package.Name + "." + svc.Iface.Name
		gc := svc.Constructor.File.Package.Name + "." + svc.Constructor.Name
		gs := svc.Struct.File.Package.Name + "." + svc.Struct.Name
		if !in(gi, x.Ifaces) || !in(gc, x.Ctors) || !in(gs, x.Structs) {
			h.Violate("resolved/"+x.Kind, fmt.Sprintf("%s.%s (%s) resolved to interface %s, constructor %s, struct %s; expected %v, %v, %v", x.Pkg, x.Name, x.Kind, gi, gc, gs, x.Ifaces, x.Ctors, x.Structs), replay)
		}
		var ms []string
		for mn := range svc.Iface.ServiceInterface(nil).Methods {
			ms = append(ms, mn)
		}
		sort.Strings(ms)
		want := append([]string{}, x.Methods...)
		sort.Strings(want)
		if fmt.Sprint(ms) != fmt.Sprint(want) {
			h.Violate("methods/"+x.Kind, fmt.Sprintf("%s.%s has methods %v, expected %v", x.Pkg, x.Name, ms, want), replay)
		}
	}
	os.Chdir(root)
	os.RemoveAll(dir)
}
