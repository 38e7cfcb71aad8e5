"""Generated code has to compile, whatever the names, packages and types of the workflow are (C14)."""
import os, random, re, shutil
from . import core, monitor
from .apps import st

# every generated wrapper there is, in two stacks (a service cannot have two circuit breakers and so on)
STACKS = [
    ["otel", "retries", "timeout", "pool", "latency", "health"],
    ["govector", "breaker", "retriesbackoff", "failures", "randomdelay"],
    ["otelserver", "retriesrate", "retriestimeouts", "health"],
    ["retriesbucket", "retriesdelay", "timeout"],
]


def wrap(svc, kind):
    return {
        "otel": [st("otel", svc, Args=["zipkin"])], "otelserver": [st("otelserver", svc, Args=["zipkin"])],
        "retries": [st("retries", svc, N=2)], "retriesdelay": [st("retriesdelay", svc, N=2, S="1ms")],
        "retriestimeouts": [st("retriestimeouts", svc, N=2, S="1s")], "retriesbackoff": [st("retriesbackoff", svc, S="1ms", Args=["10ms"], B=True)],
        "retriesrate": [st("retriesrate", svc, N=2, F=10.0)], "retriesbucket": [st("retriesbucket", svc, N=10, F=1.0)],
        "timeout": [st("timeout", svc, S="2s")], "breaker": [st("breaker", svc, N=10, F=0.5, S="1s")], "pool": [st("pool", svc, N=2)],
        "latency": [st("latency", svc, S="1ms")], "randomdelay": [st("randomdelay", svc, N=1)], "failures": [st("failures", svc, N=1)],
        "health": [st("health", svc)], "govector": [st("govector", svc)],
    }[kind]


def app(name, types, rpc, stacks=STACKS, extra=()):
    """every service type behind every stack; the generated clients run in another process"""
    s, servers, clients = list(extra), [], []
    if any("otel" in k or "otelserver" in k for k in stacks):
        s.append(st("zipkin", "zipkin"))
    for t in types:
        for j, stack in enumerate(stacks):
            n = "%s_%d" % (t.lower(), j)
            s.append(st("service", n, Type=t))
            for k in stack:
                s += wrap(n, k)
            if rpc:
                s.append(st(rpc, n))
            clients.append(n)
    if not rpc:
        s.append(st("process", "main_proc", Args=clients))
        return dict(Name=name, Stmts=s, Nodes=["main_proc"])
    s.append(st("process", "server_proc", Args=clients))
    s.append(st("clientprocess", "client_proc", Args=clients))
    return dict(Name=name, Stmts=s, Nodes=["server_proc", "client_proc"])


def service(pkg, iface, methods, imports=(), decls="", ctor=None, body=""):
    """methods: (name, parameters after the context, results before the error) as Go text"""
    o = ["package %s\n" % pkg, "import (\n\t\"context\"\n%s)\n" % "".join("\t%s\n" % i for i in imports), decls, "type %s interface {" % iface]
    for m, a, r in methods:
        o.append("\t%s(%s) (%s)" % (m, ", ".join(["ctx context.Context"] + ([a] if a else [])) if not a.startswith("!") else a[1:], ", ".join(r + ["error"])))
    o.append("}\n\ntype %sImpl struct{}\n" % iface)
    o.append(ctor or "func New%sImpl(ctx context.Context) (*%sImpl, error) { return &%sImpl{}, nil }\n" % (iface, iface, iface))
    for m, a, r in methods:
        rs = ", ".join(["_ " + x for x in r] + ["_ error"])
        o.append("func (*%sImpl) %s(%s) (%s) { for {} }" % (iface, m, ", ".join(["_ context.Context"] + ([a] if a else [])) if not a.startswith("!") else a[1:], rs))
    return "\n".join(o) + "\n" + body


NEUTRAL = [("Zero", "", []), ("One", "alpha string", ["string"]), ("Two", "alpha T, beta []T", ["map[string]T", "*T"]), ("Three", "alpha, beta int64, gamma float64", ["int64", "[]byte", "bool"])]
T = "type T struct { A int; B []string; C map[string]int64 }\n"


def named(idents):
    """methods with every identifier as the name of a parameter, at different positions and of different types"""
    ms = []
    for i, x in enumerate(idents):
        a, r = [("%s string", ["string"]), ("%s T", ["T"]), ("zz int, %s *T", ["*T", "int"]), ("%s []string, zz T", [])][i % 4]
        ms.append(("M%d" % i, a % x if x != "ctx" else "!c_ context.Context, " + a % x, r))
    return ms


KEYWORDS = set("break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var".split())
BASE = ["ctx", "err", "service", "client", "handler", "name", "args", "self", "this", "ret", "ret0", "ret1", "ret2", "retErr", "request", "response", "req", "rsp", "resp", "r", "w", "s", "c", "i", "n", "b", "ok",
        "span", "tracer", "tp", "coll", "pool", "cb", "timeout", "max", "len", "append", "make", "new", "copy", "panic", "recover", "string", "error", "nil", "true", "false", "iota", "int", "byte", "any", "bool", "float64",
        "context", "http", "json", "fmt", "errors", "time", "url", "backend", "golang", "rand", "strconv", "trace", "otel", "grpc", "main", "init", "x_y", "über", "Ünï", "UPPER", "cap", "min", "clear", "print", "close", "delete"]


def identifiers(out):
    ids = set()
    for root, ds, fs in os.walk(out):
        for f in fs:
            if f.endswith(".go") and not f.endswith(".pb.go") and "/wf/" not in root + "/":
                t = open(os.path.join(root, f), errors="replace").read()
                if "e2e" in t and False:
                    continue
                t = re.sub(r'`[^`]*`|"(?:[^"\\]|\\.)*"|//[^\n]*', " ", t)
                ids |= set(re.findall(r"\b[A-Za-z_][A-Za-z_0-9]*\b", t))
    return {x for x in ids if x not in KEYWORDS and x != "_" and not re.fullmatch(r"M\d+|Zero|One|Two|Three|alpha|beta|gamma", x)}


# name of the case -> (files, service types, apps' rpc kinds, "ok" | "either" | "reject", wiring imports)
def cases(rpc):
    C = []

    def case(name, files, types, want="ok", imports=None, stacks=STACKS[:2], mods=(), rpcs=(rpc,)):
        C.append(dict(name=name, files=files, types=types, want=want, imports=imports or {}, stacks=stacks, mods=list(mods), rpcs=rpcs))

    # method names
    hostile = ["Run", "Service", "Address", "Close", "String", "Error", "New", "Client", "Server", "Handler", "Init", "Main", "Get", "Push", "Call", "ServeHTTP", "Timeout", "Context", "Name", "Execute", "ListenAndServe", "Pool", "Start", "Stop", "CB", "Ctx", "Done"]
    case("methodnames", {"methodnames/a.go": service("methodnames", "Hostile", [(m, "alpha string", ["string"]) for m in hostile])}, {"Hostile": "*methodnames.HostileImpl"})
    case("healthmethod", {"hm/a.go": service("hm", "Healthy", [("Health", "alpha string", ["string"]), ("Two", "", [])])}, {"Healthy": "*hm.HealthyImpl"}, want="either")
    # service names
    for i, n in enumerate(["Client", "Server", "Handler", "Context", "Service", "Error"]):
        p = "sn%d" % i
        case("servicename" + n, {p + "/a.go": service(p, n, NEUTRAL, decls=T)}, {n: "*%s.%sImpl" % (p, n)}, stacks=STACKS[:1] if i % 2 else STACKS[1:2])
    # package directories
    P = T + "type Local string\n"
    case("pkgdir", {"pkg-dir/a.go": service("pkgname", "PkgDir", NEUTRAL, decls=P)}, {"PkgDir": "*pkgname.PkgDirImpl"}, imports={"pkgname": "verif.test/wf/pkg-dir"})
    case("versioned", {"lib/v2/a.go": service("lib", "Versioned", NEUTRAL, decls=P)}, {"Versioned": "*lib.VersionedImpl"}, imports={"lib": "verif.test/wf/lib/v2"})
    case("dotted", {"dotted.go/a.go": service("dotted", "Dotted", NEUTRAL, decls=P)}, {"Dotted": "*dotted.DottedImpl"}, imports={"dotted": "verif.test/wf/dotted.go"})
    # packages that are called like what generated code imports
    for i, n in enumerate(["http", "json", "context", "errors", "time", "backend", "trace", "fmt", "url", "golang", "rand", "mux"]):
        case("pkg" + n, {"in%d/%s/t.go" % (i, n): "package %s\n\n%s" % (n, T), "in%d/svc%d/a.go" % (i, i): service("svc%d" % i, "Pkg" + n.title(),
             [("One", "alpha %s2.T" % n, ["*%s2.T" % n]), ("Two", "beta []%s2.T" % n, ["map[string]%s2.T" % n])], imports=['%s2 "verif.test/wf/in%d/%s"' % (n, i, n)])},
             {"Pkg" + n.title(): "*svc%d.Pkg%sImpl" % (i, n.title())}, imports={"svc%d" % i: "verif.test/wf/in%d/svc%d" % (i, i)}, stacks=STACKS[i % 2:i % 2 + 1])
    # the service's own package is called like an import
    case("ownpkgcontext", {"own/http/a.go": service("http", "OwnHttp", NEUTRAL, decls=T)}, {"OwnHttp": "*http.OwnHttpImpl"}, imports={"http": "verif.test/wf/own/http"}, stacks=STACKS[:2])
    case("ownpkgtime", {"own/time/a.go": service("time", "OwnTime", NEUTRAL, decls=T)}, {"OwnTime": "*time.OwnTimeImpl"}, imports={"time": "verif.test/wf/own/time"}, stacks=STACKS[:2])
    # several packages with the same name, directory unlike the package, types of another module
    case("layouts", {"x1/types/t.go": "package types\n\n" + T, "x2/types/t.go": "package types\n\n" + T, "x3/go-types/t.go": "package gotypes\n\n" + T, "x4/types/v3/t.go": "package types\n\n" + T,
                     "layouts/a.go": service("layouts", "Layouts", [("M", "alpha types.T, beta t2.T, gamma *gotypes.T, delta []t4.T, eps third.T", ["types.T", "t2.T", "map[string]gotypes.T", "third.Other"]), ("Types", "types types.T, gotypes t2.T", ["string"])],
                                               imports=['"verif.test/wf/x1/types"', 't2 "verif.test/wf/x2/types"', '"verif.test/wf/x3/go-types"', 't4 "verif.test/wf/x4/types/v3"', '"verif.test/third/pkg/third"'])},
         {"Layouts": "*layouts.LayoutsImpl"}, mods=["third"])
    # the implementation is in another module than the interface
    case("othermodule", {"othermod/a.go": service("othermod", "Local", [("L", "alpha int", [])])}, {"Remote": "*impl.RemoteImpl"}, imports={"impl": "verif.test/second/impl"}, mods=["second", "third"])
    # parameters
    case("params", {"params/a.go": service("params", "Params", [
        ("Unnamed", "!context.Context, string, T", ["string"]), ("Blank", "!_ context.Context, _ string, _ *T", ["T"]), ("OtherCtx", "!c context.Context, ctx string", ["string"]),
        ("Upper", "Alpha string, %s int" % ("alpha" if rpc == "http" else "beta"), ["string"]), ("Under", "a_b string, %s string, _a int" % ("aB" if rpc == "http" else "abc"), ["string"]), ("Grouped", "a, b, c string, d, e T", []),
        ("Paren", "alpha (string), beta []((T))", ["(T)"]), ("NoRet", "", []), ("Many", ", ".join("p%d int" % i for i in range(30)), ["int"] * 6),
        ("Long", "alpha" * 30 + " string", ["string"])], decls=T)}, {"Params": "*params.ParamsImpl"})
    case("unicode", {"uni/a.go": service("uni", "Uni", [("Uni", "über string, ñ int", ["T"])], decls=T)}, {"Uni": "*uni.UniImpl"}, want="ok" if rpc == "http" else "either")
    kinds = [("Rune", "alpha rune, beta byte, gamma uint", ["rune", "byte", "[]byte"]), ("Floats", "alpha float32, beta float64", ["float32"]),
             ("Ints", "a int8, b int16, c int32, d int64, e uint8, f uint16, g uint32, h uint64", ["uint64"]),
             ("Nested", "alpha map[string]int64, beta []T, gamma map[int64]T", ["[]string", "map[string]T"]), ("Ptr", "alpha *T, beta *string", ["*T", "*int"])]
    if rpc == "http":
        kinds += [("Deep", "alpha map[string]map[int][]*T, beta [][]T, gamma []map[string]T", ["[][]string", "map[string][]T"]), ("Array", "alpha [3]int, beta [2][2]T, gamma [4]string", ["[4]string"]),
                  ("Alias", "alpha AT, beta AS", ["AT", "AS"]), ("Named", "alpha Str, beta Sl, gamma Mp, delta Emb", ["Str", "Sl", "Mp", "Emb"]), ("Std", "alpha time.Duration, beta time.Time", ["time.Time", "time.Duration"]),
                  ("Any", "alpha any, beta []any, gamma map[string]any", ["any"])]
    case("types", {"typs/a.go": service("typs", "Types", kinds, imports=['"time"'] if rpc == "http" else [],
        decls=T + "const N = 3\ntype AT = T\ntype AS = []string\ntype Str string\ntype Sl []T\ntype Mp map[string]Str\ntype Emb struct { T; X *Emb }\n")}, {"Types": "*typs.TypesImpl"}, stacks=STACKS)
    # things that are not supported have to be rejected or work, but may not end in junk
    for i, (n, a, r) in enumerate([("Func", "alpha func(int) string", []), ("Chan", "alpha chan int", []), ("RecvChan", "", ["<-chan T"]), ("SendChan", "alpha chan<- T", []), ("InlineStruct", "alpha struct{ X int }", []), ("InlineIface", "alpha interface{ M() }", []),
                                   ("Generic", "alpha G[int]", ["G[string]"]), ("GenericMap", "alpha map[string]G[T]", []), ("Generic2", "alpha G2[T, int]", []), ("Variadic", "alpha string, beta ...string", ["string"]), ("VariadicT", "beta ...*T", ["int"]),
                                   ("Complex", "alpha complex128", []), ("Iface", "alpha error", ["error"]), ("Stringer", "alpha Named", []), ("Uintptr", "alpha uintptr", []), ("Const", "alpha [2 * N]int", ["[N]T"]), ("Const2", "alpha map[string][N]int", [])]):
        p = "unsup%d" % i
        case("unsupported" + n, {p + "/a.go": service(p, n + "Svc", [("M", a, r), ("Ok", "alpha string", ["string"])], decls=T + "const N = 3\ntype G[X any] struct { V X }\ntype G2[X, Y any] struct { V X; W Y }\ntype Named interface { Nm() }\n")},
             {n + "Svc": "*%s.%sSvcImpl" % (p, n)}, want="either", stacks=STACKS[i % 2:i % 2 + 1], rpcs=(rpc, None))
    # signatures that are no service methods: no context, no error
    for i, (n, decl) in enumerate([("NoCtx", "M(alpha string) error"), ("NoErr", "M(ctx context.Context) string"), ("Nothing", "M()")]):
        p = "badsig%d" % i
        case("badsignature" + n, {p + "/a.go": "package %s\n\nimport \"context\"\n\ntype %s interface { %s }\ntype %sImpl struct{}\nfunc New%sImpl(ctx context.Context) (*%sImpl, error) { return nil, nil }\nfunc (*%sImpl) %s { panic(0) }\n" % (p, n, decl, n, n, n, n, decl)},
             {n: "*%s.%sImpl" % (p, n)}, want="either", stacks=STACKS[:1])
    return C


THIRD = {"go.mod": "module verif.test/third\n\ngo 1.22.0\n", "pkg/third/t.go": "package third\n\n" + T + "type Other struct { O *T }\n"}
SECOND = {"go.mod": "module verif.test/second\n\ngo 1.22.0\n",
          "iface/i.go": "package iface\n\nimport (\n\t\"context\"\n\t\"verif.test/third/pkg/third\"\n)\n\ntype Remote interface {\n\tR(ctx context.Context, alpha third.T, beta E) (*third.Other, error)\n}\n\ntype E struct { third.T }\n",
          "impl/i.go": "package impl\n\nimport (\n\t\"context\"\n\t\"verif.test/second/iface\"\n\t\"verif.test/third/pkg/third\"\n)\n\ntype RemoteImpl struct{}\n\nfunc NewRemoteImpl(ctx context.Context) (*RemoteImpl, error) { return &RemoteImpl{}, nil }\n\n"
                       "func (*RemoteImpl) R(ctx context.Context, alpha third.T, beta iface.E) (*third.Other, error) { return nil, nil }\n"}


class Builder:
    def __init__(self, c, e, rpc):
        self.c, self.e, self.rpc = c, e, rpc
        self.R = monitor.Runner(c, e)

    def judge(self, name, want, detail=""):
        c, e = self.c, self.e
        rc, log, out = e.compile(name)
        app = e.apps[name]
        c.case(1)
        if rc == "timeout":
            c.violate(name + "-hangs", "the compiler does not finish", detail)
            return None
        if rc != 0:
            if re.search(r"(?m)^(panic:|fatal error:|runtime error)|\[recovered\]|nil pointer dereference", log):
                c.violate(name + "-crash", "the compiler crashes", detail + log[-4000:])
            elif want == "ok":
                c.violate(name + "-rejected", "the compiler rejects a valid workflow", detail + monitor.clean(log)[-4000:])
            else:
                c.observe("unsupported signatures rejected")
            return None
        bad = [(d, l) for d, ok, l in e.build_all(out) if not ok]
        if bad:
            c.violate(name + "-build", "the compiler reports success but the generated code does not compile", detail +
                      "\n".join("%s\n%s" % (os.path.relpath(d, out), core.compile_errors(l) or l[-3000:]) for d, l in bad))
            return None
        c.observe("applications compiled and built")
        c.observe("generated files", sum(f.endswith(".go") for r, d, fs in os.walk(out) if "/wf/" not in r + "/" for f in fs))
        return out


def check(c, rpc, only=None, tag="gg"):
    C = cases(rpc)
    if only:
        C = [x for x in C if re.search(only, x["name"])]
    files, svcs, imports, apps, ident = {}, {}, {}, [], []
    for x in C:
        files.update(x["files"])
        svcs.update(x["types"])
        imports.update(x["imports"])
        for r in x["rpcs"]:
            n = x["name"] + ("" if r else "local")
            apps.append(app(n, list(x["types"]), r, x["stacks"]))
            ident.append((n, x["want"], "".join("%s\n%s\n" % kv for kv in x["files"].items())))
    files["names/a.go"] = service("names", "Names", NEUTRAL, decls=T)
    svcs["Names"] = "*names.NamesImpl"
    apps += [app("names", ["Names"], rpc, STACKS)]
    # aliases keep packages of the same name apart in the wiring program
    alias, types = {}, {}
    for k, (t, v) in enumerate(sorted(svcs.items())):
        pk = v.lstrip("*").split(".")[0]
        path = imports.get(pk, "verif.test/wf/" + pk)
        alias["w%d" % k] = path
        types[t] = ("*" if v[0] == "*" else "") + "w%d." % k + v.split(".")[1]
    # the other modules depend on each other: they are used through the workspace
    e = core.E2E(c, apps, files, types, rpc=rpc, root=tag + rpc, race=False, imports=alias, extra_mods=[("third", THIRD), ("second", SECOND)])
    b = Builder(c, e, rpc)

    def names():
        out = b.judge("names", "ok", "parameters with unsuspicious names\n")
        if not out:
            return
        ids = identifiers(out) | set(BASE)
        if rpc == "grpc":
            ids = {x for x in ids if x.isascii() and not x.startswith('Names_') and x.lower() not in ('tracectx', 'govecctx') or x in ('traceCtx', 'govecctx')}  # restrictions of .proto files
        if rpc == "grpc" and not c.thorough:
            ids = set(BASE) & ids | set(random.Random(c.seed).sample(sorted(ids), min(len(ids), 350)))
        ids = sorted(x for x in ids if not (x[0].isupper() and len(x) > 24))
        c.observe("identifiers of generated code used as parameter names", len(ids))
        shutil.rmtree(out)
        open(os.path.join(e.wf, "names/a.go"), "w").write(service("names", "Names", named(ids), decls=T))
        out = b.judge("names", "ok", "parameters called like identifiers of generated code\n")
        if out:
            shutil.rmtree(out)

    def one(n, want, text):
        out = b.judge(n, want, text)
        if out:
            shutil.rmtree(out)

    jobs = [names] + [lambda a=a: one(*a) for a in ident]
    monitor.parallel(jobs, workers=5)
    shutil.rmtree(e.root, ignore_errors=True)
