// C14 (parser part): what goparser says about a module is what the Go type checker says.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
	"golang.org/x/exp/slog"
)

type oracle struct {
	fset *token.FileSet
	std  types.ImporterFrom
	pkgs map[string]*types.Package
	info map[string]*types.Info
}

func (o *oracle) Import(path string) (*types.Package, error) {
	if p, ok := o.pkgs[path]; ok {
		return p, nil
	}
	return o.std.Import(path)
}

var stdImporter types.ImporterFrom

// check type-checks the packages of a module in order.
func check(m *module, dir string) (*oracle, error) {
	fset := token.NewFileSet()
	if stdImporter == nil {
		stdImporter = importer.ForCompiler(fset, "source", nil).(types.ImporterFrom)
	}
	o := &oracle{fset: fset, std: stdImporter, pkgs: map[string]*types.Package{}, info: map[string]*types.Info{}}
	for _, p := range m.pkgs {
		ents, err := os.ReadDir(filepath.Join(dir, p.dir))
		if err != nil {
			return nil, err
		}
		var files []*ast.File
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(filepath.Join(dir, p.dir), e.Name()); err != nil || !ok {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, p.dir, e.Name()), nil, 0)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
		conf := types.Config{Importer: o, FakeImportC: true}
		info := &types.Info{}
		tp, err := conf.Check(p.path, fset, files, info)
		if err != nil {
			return nil, err
		}
		o.pkgs[p.path] = tp
	}
	return o, nil
}

// agree compares a parsed type with the real one.
func (o *oracle) agree(t gocode.TypeName, real types.Type) error {
	bad := func() error {
		s := "nothing"
		if t != nil {
			s = t.String()
		}
		return fmt.Errorf("%s (%T) instead of %s", s, t, real)
	}
	real = types.Unalias(real)
	_, named := t.(*gocode.UserType)
	if a, ok := real.(*types.Array); ok && !named {
		// however arrays are represented, the length must survive
		if t == nil || !strings.HasPrefix(t.String(), fmt.Sprintf("[%d]", a.Len())) {
			return bad()
		}
		return nil
	}
	switch t := t.(type) {
	case *gocode.BasicType:
		obj := types.Universe.Lookup(t.Name)
		if obj == nil || !types.Identical(obj.Type(), real) {
			return bad()
		}
	case *gocode.AnyType:
		if i, ok := real.(*types.Interface); !ok || i.NumMethods() > 0 {
			return bad()
		}
	case *gocode.InterfaceType:
		if _, ok := real.(*types.Interface); !ok {
			return bad()
		}
	case *gocode.UserType:
		p, err := o.Import(t.Package)
		if err != nil || p == nil {
			return fmt.Errorf("%s.%s: no such package (for %s)", t.Package, t.Name, real)
		}
		obj := p.Scope().Lookup(t.Name)
		if obj == nil || !types.Identical(obj.Type(), real) {
			return bad()
		}
	case *gocode.Slice:
		r, ok := real.(*types.Slice)
		if !ok {
			return bad()
		}
		return o.agree(t.SliceOf, r.Elem())
	case *gocode.Ellipsis:
		r, ok := real.(*types.Slice)
		if !ok {
			return bad()
		}
		return o.agree(t.EllipsisOf, r.Elem())
	case *gocode.Pointer:
		r, ok := real.(*types.Pointer)
		if !ok {
			return bad()
		}
		return o.agree(t.PointerTo, r.Elem())
	case *gocode.Map:
		r, ok := real.(*types.Map)
		if !ok {
			return bad()
		}
		if err := o.agree(t.KeyType, r.Key()); err != nil {
			return err
		}
		return o.agree(t.ValueType, r.Elem())
	case *gocode.Chan:
		if r, ok := real.(*types.Chan); ok && r.Dir() == types.SendRecv {
			return o.agree(t.ChanOf, r.Elem())
		}
		return bad()
	case *gocode.ReceiveChan:
		if r, ok := real.(*types.Chan); ok && r.Dir() == types.RecvOnly {
			return o.agree(t.ReceiveType, r.Elem())
		}
		return bad()
	case *gocode.SendChan:
		if r, ok := real.(*types.Chan); ok && r.Dir() == types.SendOnly {
			return o.agree(t.SendType, r.Elem())
		}
		return bad()
	case *gocode.FuncType:
		if _, ok := real.(*types.Signature); !ok {
			return bad()
		}
	case *gocode.StructType:
		if _, ok := real.(*types.Struct); !ok {
			return bad()
		}
	case *gocode.GenericType:
		n, ok := real.(*types.Named)
		if !ok || n.TypeArgs().Len() == 0 {
			return bad()
		}
		b, ok := t.BaseType.(*gocode.UserType)
		if !ok || n.Obj().Pkg() == nil || b.Package != n.Obj().Pkg().Path() || b.Name != n.Obj().Name() {
			return bad()
		}
	case *gocode.GenericTypeParam:
		p, ok := real.(*types.TypeParam)
		if !ok || p.Obj().Name() != t.ParamName {
			return bad()
		}
	default:
		return bad()
	}
	return nil
}

type judge struct {
	h    *hx.H
	o    *oracle
	m    *module
	n    int
	bads int
}

func (j *judge) bad(key, f string, a ...any) {
	j.bads++
	if j.bads > 4 {
		return
	}
	j.h.Violate(key, fmt.Sprintf(f, a...), map[string]any{"module": j.m.path, "files": j.m.files})
}

func (j *judge) typ(key, where string, t gocode.TypeName, real types.Type) {
	j.n++
	if err := j.o.agree(t, real); err != nil {
		j.bad(key, "%s: parsed as %v", where, err)
	}
}

func (j *judge) vars(key, where string, vs []gocode.Variable, real *types.Tuple, variadic bool) {
	if len(vs) != real.Len() {
		j.bad(key, "%s: %d parsed, %d declared", where, len(vs), real.Len())
		return
	}
	for i, v := range vs {
		r := real.At(i)
		if v.Name != r.Name() {
			j.bad(key, "%s: name %q parsed as %q", where, r.Name(), v.Name)
		}
		if _, isEll := v.Type.(*gocode.Ellipsis); isEll != (variadic && i == len(vs)-1) {
			j.bad(key, "%s: %s parsed as %v", where, r, v.Type)
			continue
		}
		j.typ(key, where+" "+r.Name(), v.Type, r.Type())
	}
}

func (j *judge) fun(where string, f *goparser.ParsedFunc, sig *types.Signature) {
	j.vars("arguments", where+" arguments", f.Arguments, sig.Params(), sig.Variadic())
	j.vars("returns", where+" returns", f.Returns, sig.Results(), false)
}

func (j *judge) pkg(p *pkg, pp *goparser.ParsedPackage) {
	tp := j.o.pkgs[p.path]
	if pp.Name != p.path || pp.ShortName != p.name || filepath.Clean(pp.PackageDir) != filepath.Clean(p.dir) && !(p.dir == "" && pp.PackageDir == ".") {
		j.bad("package", "package %s (name %s, directory %s) parsed as %s, %s, %s", p.path, p.name, p.dir, pp.Name, pp.ShortName, pp.PackageDir)
	}
	sc := tp.Scope()
	structs, ifaces, funcs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, name := range sc.Names() {
		where := p.path + "." + name
		switch obj := sc.Lookup(name).(type) {
		case *types.Func:
			funcs[name] = true
			f := pp.Funcs[name]
			if f == nil {
				j.bad("missing-func", "function %s is missing", where)
				continue
			}
			j.h.Observe("functions", 1)
			j.fun(where, f, obj.Type().(*types.Signature))
		case *types.TypeName:
			if u, ok := pp.DeclaredTypes[name]; !ok || u.Package != p.path || u.Name != name {
				j.bad("missing-type", "type %s is missing", where)
			}
			if obj.IsAlias() {
				j.h.Observe("aliases", 1)
				structs[name], ifaces[name] = true, true
				continue
			}
			n := obj.Type().(*types.Named)
			methods := map[string]*types.Func{}
			for i := 0; i < n.NumMethods(); i++ {
				methods[n.Method(i).Name()] = n.Method(i)
			}
			switch u := n.Underlying().(type) {
			case *types.Struct:
				structs[name] = true
				s := pp.Structs[name]
				if s == nil {
					j.bad("missing-struct", "struct %s is missing", where)
					continue
				}
				j.h.Observe("structs", 1)
				j.strct(where, s, u)
				for mn, real := range methods {
					f := s.Methods[mn]
					if f == nil {
						j.bad("missing-method", "method %s.%s is missing", where, mn)
						continue
					}
					j.h.Observe("methods", 1)
					j.fun(where+"."+mn, f, real.Type().(*types.Signature))
				}
				for mn := range s.Methods {
					if methods[mn] == nil {
						j.bad("extra-method", "%s has no method %s", where, mn)
					}
				}
			case *types.Interface:
				ifaces[name] = true
				i := pp.Interfaces[name]
				if i == nil {
					j.bad("missing-interface", "interface %s is missing", where)
					continue
				}
				j.h.Observe("interfaces", 1)
				for k := 0; k < u.NumExplicitMethods(); k++ {
					real := u.ExplicitMethod(k)
					f := i.Methods[real.Name()]
					if f == nil {
						j.bad("missing-method", "interface method %s.%s is missing", where, real.Name())
						continue
					}
					j.fun(where+"."+real.Name(), f, real.Type().(*types.Signature))
				}
				for mn := range i.Methods {
					if o, _, _ := types.LookupFieldOrMethod(n, true, tp, mn); o == nil {
						j.bad("extra-method", "%s has no method %s", where, mn)
					}
				}
			default:
				structs[name] = false
				j.h.Observe("named types", 1)
			}
		}
	}
	for name := range pp.Structs {
		if !structs[name] {
			j.bad("extra-struct", "%s has no struct %s", p.path, name)
		}
	}
	for name := range pp.Interfaces {
		if !ifaces[name] {
			j.bad("extra-interface", "%s has no interface %s", p.path, name)
		}
	}
	for name := range pp.Funcs {
		if !funcs[name] && name != "init" && name != "main" {
			j.bad("extra-func", "%s has no function %s", p.path, name)
		}
	}
}

func (j *judge) strct(where string, s *goparser.ParsedStruct, real *types.Struct) {
	if len(s.FieldsList) != real.NumFields() {
		j.bad("fields", "%s: %d fields parsed, %d declared", where, len(s.FieldsList), real.NumFields())
		return
	}
	for i, f := range s.FieldsList {
		r := real.Field(i)
		name := r.Name()
		if r.Embedded() {
			name = ""
		}
		if f.Name != name || f.Position != i || f.Struct != s {
			j.bad("fields", "%s: field %d (%s) parsed as %q at %d", where, i, r, f.Name, f.Position)
		}
		if name != "" && name != "_" && s.Fields[name] != f {
			j.bad("fields", "%s: field %s is not indexed", where, name)
		}
		j.typ("field-type", where+"."+r.Name(), f.Type, r.Type())
	}
}

func writeModule(m *module, dir string) error {
	for name, text := range m.files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	h := hx.New()
	h.Rule = "a generated Go module whose parsed packages, structs, interfaces, functions and types were all compared with go/types; a service reference resolved or rejected"
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	shard, n := 0, 1
	if a, b, ok := strings.Cut(h.Only, "/"); ok {
		shard, _ = strconv.Atoi(a)
		n, _ = strconv.Atoi(b)
	}
	os.Unsetenv("GOFLAGS")
	os.Setenv("GOWORK", "off")
	root, err := filepath.Abs("modules")
	if err != nil {
		panic(err)
	}
	for i := shard; i < h.N(240, 12000); i += n {
		r := h.Rand(14000 + int64(i))
		m := newModule(r, i)
		dir := filepath.Join(root, fmt.Sprint("m", i))
		if err := writeModule(m, dir); err != nil {
			panic(err)
		}
		os.Chdir(dir)
		o, err := check(m, dir)
		if err != nil {
			h.Unsure("the harness generated a module that does not compile: %v", err)
			for k, v := range m.files {
				fmt.Fprintf(os.Stderr, "== %s\n%s\n", k, v)
			}
			h.Done()
		}
		j := &judge{h: h, o: o, m: m}
		var mod *goparser.ParsedModule
		set := goparser.New(nil)
		if p := hx.Catch(func() { mod, err = set.AddModule(dir) }); p != "" {
			j.bad("panic", "parsing crashed: %s", p)
			continue
		}
		if err != nil {
			j.bad("rejected", "a module that Go compiles is rejected: %s", strings.TrimSpace(strings.Trim(err.Error(), "\x00")))
			os.RemoveAll(dir)
			continue
		}
		if mod.Name != m.path || mod.SrcDir != dir {
			j.bad("module", "module %s in %s parsed as %s in %s", m.path, dir, mod.Name, mod.SrcDir)
		}
		for _, p := range m.pkgs {
			pp := mod.Packages[p.path]
			if pp == nil {
				j.bad("missing-package", "package %s is missing", p.path)
				continue
			}
			if got, err := set.GetPackage(p.path); err != nil || got != pp {
				j.bad("package", "GetPackage(%s) = %v, %v", p.path, got, err)
			}
			j.pkg(p, pp)
		}
		h.Observe("types compared", j.n)
		h.Observe("packages", len(m.pkgs))
		var fs []string
		for f := range m.feats {
			fs = append(fs, f)
			h.Observe("modules with "+f, 1)
		}
		sort.Strings(fs)
		h.Case(fmt.Sprint(i), j.n > 0)
		if i < 3 {
			h.Sample(map[string]any{"module": m.path, "packages": len(m.pkgs), "types compared": j.n, "features": fs})
		}
		os.Chdir(root)
		os.RemoveAll(dir)
	}
	for i := shard; i < h.N(64, 2400); i += n {
		resolve(h, root, i)
	}
	h.Done()
}
