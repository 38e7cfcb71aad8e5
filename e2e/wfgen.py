"""Random workflow modules: services that are pure functions of their arguments."""
import random

BASICS = ["bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "float32", "float64"]
ARGS = ["a", "b", "id", "key", "val", "user", "item", "total", "x1", "postID", "userName", "items", "Data", "q", "user_id", "reqID", "num_Of_x2", "n_2"]


class Gen:
    """profile http: everything JSON can carry; grpc: what the gRPC plugin supports."""
    def __init__(self, seed, profile="http", argnames=ARGS, nstructs=6):
        self.r = random.Random(seed)
        self.profile = profile
        self.args = argnames
        self.nfields = 0
        self.pkgs = ["types", "types/deep"]
        self.structs = []      # (pkg, name)
        self.named = []        # named non-struct types
        self.decl = {p: [] for p in self.pkgs}
        self.imports = {p: set() for p in self.pkgs}
        if profile == "http":
            for p in self.pkgs:
                n = "ID" + p.split("/")[-1].title()
                self.decl[p].append("type %s %s\n" % (n, self.r.choice(["string", "int64", "[]string", "map[string]int", "uint8"])))
                self.named.append((p, n))
        for i in range(nstructs):
            p = "types/deep" if i < nstructs // 2 else "types"
            self.struct(p, "T%d" % i)
        for p in reversed(self.pkgs):   # the same name in both packages
            self.struct(p, "Same")

    def qual(self, t, pkg):
        p, n = t
        if p == pkg:
            return n
        if pkg in self.imports:
            self.imports[pkg].add(p)
        else:
            self.svcimports.add(p)
        return p.split("/")[-1] + "." + n

    def struct(self, pkg, name):
        r = self.r
        fields = []
        for j in range(r.randint(1 if self.profile == "grpc" else 0, 5)):
            fn = r.choice(["A", "B", "C", "UserID", "Name", "Total", "Items", "X", "User_id", "HTTPUrl"]) + str(self.nfields)
            self.nfields += 1
            # deep may not import types (no cycles)
            t = self.type(pkg, depth=1, only=[s for s in self.structs if not (pkg == "types/deep" and s[0] == "types")])
            tag = ""
            if self.profile == "http" and r.random() < 0.2:
                tag = ' `json:"%s,omitempty"`' % (fn.lower()) if r.random() < .5 else ' `json:"f_%s" bson:"z"`' % fn
            fields.append("\t%s %s%s" % (fn, t, tag))
        if r.random() < 0.25:
            c = [s for s in self.structs if not (pkg == "types/deep" and s[0] == "types")]
            if c:
                # the declared name is an embedded pointer or struct
                fields.append("\t" + self.qual(r.choice(c), pkg))
        if r.random() < 0.3:
            fields.append("\tP%d, Q%d %s" % (self.nfields, self.nfields, r.choice(BASICS)))
            self.nfields += 1
        self.decl[pkg].append("type %s struct {\n%s\n}\n" % (name, "\n".join(fields)))
        self.structs.append((pkg, name))

    def type(self, pkg, depth=0, only=None):
        r = self.r
        structs = self.structs if only is None else only
        named = [n for n in self.named if not (pkg == "types/deep" and n[0] == "types")]
        if self.profile == "grpc":
            k = r.random()
            if k < 0.38 or not structs:
                return r.choice(BASICS)
            if k < 0.56:
                return self.qual(r.choice(structs), pkg)
            if k < 0.64:
                return "*" + self.qual(r.choice(structs), pkg)
            if k < 0.7:
                return "*" + r.choice(BASICS)
            if k < 0.8:
                return "[]" + r.choice(BASICS)
            if k < 0.88:
                return "[]" + self.qual(r.choice(structs), pkg)
            if k < 0.94:
                return "map[%s]%s" % (r.choice(GRPC_KEYS), r.choice(BASICS))
            return "map[%s]%s" % (r.choice(GRPC_KEYS), self.qual(r.choice(structs), pkg))
        k = r.random()
        if k < 0.4 or depth > 3:
            return r.choice(BASICS)
        if k < 0.55 and structs:
            return self.qual(r.choice(structs), pkg)
        if k < 0.6 and named:
            return self.qual(r.choice(named), pkg)
        if k < 0.7:
            # JSON cannot tell a nil pointer from a pointer to something that is nil
            return "*" + (self.qual(r.choice(structs), pkg) if structs and r.random() < .6 else r.choice(BASICS))
        if k < 0.88:
            return "[]" + self.type(pkg, depth + 1, only)
        return "map[%s]%s" % (r.choice(["string", "int", "int64", "uint16", "int8"]), self.type(pkg, depth + 1, only))

    def services(self, n, methods=4, pkg="svc"):
        """-> files; service i has interface Svc<i>, implementation Impl<i> and forwarder Fwd<i>"""
        r = self.r
        self.svcimports = set()
        self.impltypes = {}
        out = []
        sigs = []
        for i in range(n):
            ms = []
            for m in range(methods):
                na = r.randint(0, 4)
                names = r.sample(self.args, na)
                args = []
                j = 0
                while j < na:
                    # sometimes several names share a type
                    g = 2 if na - j > 1 and r.random() < 0.2 else 1
                    t = self.type(pkg)
                    for q in range(g):
                        args.append((names[j + q], t))
                    j += g
                rets = [self.type(pkg) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
                ms.append(("M%d" % m, args, rets))
            sigs.append(ms)
            iface = "Svc%d" % i
            out.append("// %s is a generated service.\ntype %s interface {\n\tReady(ctx context.Context) error" % (iface, iface))
            for name, args, rets in ms:
                out.append("\t%s(%s) (%s)" % (name, ", ".join(["ctx context.Context"] + ["%s %s" % a for a in args]), ", ".join(rets + ["error"])))
            out.append("}\n")
            out.append("type Impl%d struct{}\n" % i)
            ct = r.choice([iface, "*Impl%d" % i])
            self.impltypes["Impl%d" % i] = ct.replace("*", "*%s." % pkg) if ct[0] == "*" else pkg + "." + ct
            self.impltypes["Fwd%d" % i] = "*%s.Fwd%d" % (pkg, i)
            out.append("func NewImpl%d(ctx context.Context) (%s, error) { return &Impl%d{}, nil }\n" % (i, ct, i))
            out.append("func (s *Impl%d) Ready(ctx context.Context) error { return nil }\n" % i)
            for name, args, rets in ms:
                rs = ", ".join(["r%d_ %s" % (k, t) for k, t in enumerate(rets)] + ["err_ error"])
                out.append("func (s_ *Impl%d) %s(%s) (%s) {\n\terr_ = util.Call(%s)\n\treturn\n}\n" % (
                    i, name, ", ".join(["ctx_ context.Context"] + ["%s %s" % a for a in args]), rs,
                    ", ".join(['"Svc%d"' % i, '"%s"' % name, "[]any{%s}" % ", ".join(a[0] for a in args)] + ["&r%d_" % k for k in range(len(rets))])))
            out.append("type Fwd%d struct{ next_ %s }\n" % (i, iface))
            out.append("func NewFwd%d(ctx context.Context, next %s) (*Fwd%d, error) { return &Fwd%d{next}, nil }\n" % (i, iface, i, i))
            out.append("func (s *Fwd%d) Ready(ctx context.Context) error { return s.next_.Ready(ctx) }\n" % i)
            for name, args, rets in ms:
                out.append("func (s_ *Fwd%d) %s(%s) (%s) {\n\treturn s_.next_.%s(%s)\n}\n" % (
                    i, name, ", ".join(["ctx_ context.Context"] + ["%s %s" % a for a in args]), ", ".join(rets + ["error"]), name,
                    ", ".join(["ctx_"] + [a[0] for a in args])))
        files = {}
        imps = sorted(self.svcimports)
        files[pkg + "/svc.go"] = "package %s\n\nimport (\n\t\"context\"\n\t\"verif.test/wf/util\"\n%s)\n\n%s" % (
            pkg, "".join('\t"verif.test/wf/%s"\n' % p for p in imps), "\n".join(out))
        for p in self.pkgs:
            files[p + "/types.go"] = "package %s\n\n%s\n%s" % (p.split("/")[-1],
                "".join('import "verif.test/wf/%s"\n' % q for q in sorted(self.imports[p])), "\n".join(self.decl[p]))
        self.sigs = sigs
        return files


GRPC_KEYS = ["string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "rune", "byte"]


def driver(n_services, names, calls, workers, pkg="svc"):
    """A workflow service whose Run exercises the services it is given: names = [(param, service index)]"""
    params = ", ".join("%s Svc%d" % (p, i) for p, i in names)
    targets = ", ".join('{Name: "%s", Client: %s, Iface: reflect.TypeOf((*Svc%d)(nil)).Elem(), As: "Svc%d"}' % (p, p, i, i) for p, i in names)
    ready = "".join("\t\tif err == nil {\n\t\t\terr = d.%s.Ready(ctx)\n\t\t}\n" % p for p, i in names)
    fields = "\n".join("\t%s Svc%d" % x for x in names)
    return """package %s

import (
	"context"
	"reflect"
	"os"
	"strconv"
	"time"
	"verif.test/wf/util"
)

// Driver exercises the services it is given.
type Driver interface {
	Poke(ctx context.Context) error
}

type DriverImpl struct {
	targets []util.Target
%s
}

func NewDriverImpl(ctx context.Context, %s) (*DriverImpl, error) {
	return &DriverImpl{targets: []util.Target{%s}, %s}, nil
}

func (d *DriverImpl) Poke(ctx context.Context) error { return nil }

func env(k string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return def
}

func (d *DriverImpl) Run(ctx context.Context) error {
	var err error
	for i := 0; i < 400; i++ {
		err = nil
%s
		if err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		util.Record("notready", err)
		util.Record("end")
		return nil
	}
	util.Record("start")
	util.Drive(ctx, d.targets, env("VERIF_CALLS", %d), env("VERIF_WORKERS", %d), uint64(env("VERIF_SEED", 1)))
	util.Record("end")
	return nil
}
""" % (pkg, fields, params, targets, ", ".join("%s: %s" % (p, p) for p, i in names), ready, calls, workers)
