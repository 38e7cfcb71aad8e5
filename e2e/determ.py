"""C16: compilations are deterministic, complete and keep things with similar names apart."""
import hashlib, json, os, random, re, shutil, subprocess
import vlib
from . import addr, apps as appsmod, core, monitor, netsim, wfgen, zoo
from .apps import st


def tree(d):
    """relative path -> what is there"""
    res = {}
    for r, dirs, fs in os.walk(d):
        for x in dirs + fs:
            p = os.path.join(r, x)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                res[k] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                res[k] = "dir"
            else:
                b = open(p, "rb").read()
                res[k] = "%s %d %s" % (hashlib.sha256(b).hexdigest()[:16], len(b), os.access(p, os.X_OK))
    return res


def difference(a, b, ta, tb):
    L = []
    for k in sorted(set(ta) | set(tb)):
        if ta.get(k) != tb.get(k):
            if k not in ta or k not in tb:
                L.append("%s is only generated by %s" % (k, "the first compilation" if k in ta else "the second compilation"))
            elif len(L) < 3 and "dir" not in (ta[k], tb[k]):
                p = subprocess.run(["diff", os.path.join(a, k), os.path.join(b, k)], stdout=subprocess.PIPE, text=True, errors="replace")
                L.append("%s differs:\n%s" % (k, p.stdout[:700]))
            else:
                L.append("%s differs" % k)
    return L


def repeat(c, e, name, desc, times, tag):
    """compiles an application several times, the last one with a relative output directory somewhere else"""
    first, t0 = None, None
    logs = None
    for k in range(times):
        if k == times - 1:
            rel = os.path.relpath(os.path.join(e.root, "elsewhere", "x", name), e.wd)
            rc, log, out = e.compile(name, out=rel, port=15000)
            out = os.path.join(e.wd, rel)
        else:
            rc, log, out = e.compile(name, port=15000)
        c.observe("compilations")
        if rc != 0:
            return c.violate(tag + "-compile", "the compiler rejects a valid wiring spec" if k == 0 else "the compiler rejects a wiring spec that it accepted before",
                             desc + monitor.clean(log)[-4000:])
        if k == 0:
            first = out + ".first"
            shutil.rmtree(first, ignore_errors=True)
            os.rename(out, first)
            t0 = tree(first)
            c.observe("generated files", sum(1 for v in t0.values() if v != "dir"))
            continue
        t = tree(out)
        c.observe("files compared", len(t))
        if t != t0:
            c.violate(tag + "-differs", "compiling the same wiring spec again generates something else: %s" % difference(first, out, t0, t)[0].split("\n")[0],
                      desc + "\n".join(difference(first, out, t0, t))[:6000])
        shutil.rmtree(out, ignore_errors=True)
    shutil.rmtree(first, ignore_errors=True)
    c.case(1)
    return t0


def zoos(c, rpc, n, times):
    f, types = zoo.workflow()
    A = [zoo.make("z%d" % i, (c.seed * 977 + i) * 3 + len(rpc), rpc) for i in range(n)]
    e = core.E2E(c, [a.json() for a in A], f, types, rpc="grpc" if "grpc" in rpc else "http", root="det-" + "-".join(rpc))
    tag = "-".join(rpc)
    monitor.parallel([lambda a=a: repeat(c, e, a.name, addr.describe(a), times, tag + "-" + a.mode) for a in A], 8)
    return e, A


def typed(c, rpc, seed, n, times):
    """services with many argument types, including types with one name in several packages"""
    g = wfgen.Gen(seed, profile=rpc)
    fs = g.services(n, methods=4)
    fs["svc/driver.go"] = wfgen.driver(n, [("s%d" % i, i) for i in range(n)], 3, 2)
    types = dict(g.impltypes)
    types["Driver"] = "*svc.DriverImpl"
    A = appsmod.deployments(n, rpc, seed)
    for a in A:   # with wrappers of everything
        if a["Name"] == "chain":
            i = max(k for k, s in enumerate(a["Stmts"]) if s["Op"] == "service")
            w = []
            for s in a["Stmts"]:
                if s["Op"] == "service" and s["On"] != "driver":
                    w += [st("retries", s["On"], N=3), st("timeout", s["On"], S="1s"), st("health", s["On"]), st("latency", s["On"], S="1ms")]
            k = [k for k, s in enumerate(a["Stmts"]) if s["Op"] == "service"]
            out = []
            for s in a["Stmts"]:
                out.append(s)
                if s["Op"] == "service" and s["On"] != "driver":
                    out += [x for x in w if x["On"] == s["On"]]
            a["Stmts"] = out
    e = core.E2E(c, A, fs, types, rpc=rpc, root="typed-%s-%d" % (rpc, seed))
    monitor.parallel([lambda a=a: repeat(c, e, a["Name"], json.dumps(a, indent=1) + "\n", times, "typed-" + rpc) for a in A], 8)
    shutil.rmtree(e.root)


def ambiguous():
    """implementations of several interfaces, several constructors, and several registries of tests"""
    L = ['package svc', '', 'import "context"', '']
    for i in range(6):   # one method set each, and implementations of several
        L.append("type I%d interface {\n\tF%d(ctx context.Context, x int64) (int64, error)\n}\n" % (i, i))
    L.append("type I01 interface {\n\tF0(ctx context.Context, x int64) (int64, error)\n\tF1(ctx context.Context, x int64) (int64, error)\n}\n")
    types = {}
    for n, fs in (("A", [0, 1, 2]), ("B", [0, 1, 2, 3, 4, 5]), ("C", [5, 2]), ("D", [4])):
        L.append("type Impl%s struct{}\n" % n)
        for k in range(3):
            L.append("func New%sImpl%s(ctx context.Context) (*Impl%s, error) { return &Impl%s{}, nil }\n" % (["", "Other", "Third"][k], n, n, n))
        for f in fs:
            L.append("func (i *Impl%s) F%d(ctx context.Context, x int64) (int64, error) { return x, nil }\n" % (n, f))
        types["Impl" + n] = "*svc.Impl" + n
    types["I4"] = "svc.I4"
    for k in range(3):
        L.append("func NewI4%s(ctx context.Context) (I4, error) { return &ImplD{}, nil }\n" % "abc"[k])
    fs = {"svc/svc.go": "\n".join(L)}
    A = [dict(Name="amb%d" % i, Stmts=[st("service", "s", Type=t), st("http", "s"), st("process", "p", Args=["s"])], Nodes=["p"]) for i, t in enumerate(sorted(types))]
    return fs, types, A


def tested(n=6):
    """an application with tests in several packages"""
    g = wfgen.Gen(5, profile="http")
    fs = g.services(n, methods=2)
    T = {"go.mod": "module verif.test/wftests\n\ngo 1.22.0\n"}
    for p in ("", "more", "third"):
        L = ["package %s" % (p or "wftests"), "", "import (", '\t"github.com/blueprint-uservices/blueprint/runtime/core/registry"', '\t"verif.test/wf/svc"', ")", ""]
        L += ["var reg%d = registry.NewServiceRegistry[svc.Svc%d](\"reg%d\")" % (i, i, i) for i in range(n)]
        T[os.path.join(p, "x_test.go")] = "\n".join(L) + "\n"
        T[os.path.join(p, "x.go")] = "package %s\n" % (p or "wftests")
    S, names = [], []
    for i in range(n):
        for k in "ab":
            names.append("s%d%s" % (i, k))
            S += [st("service", names[-1], Type="Impl%d" % i), st("http", names[-1])]
    S.append(st("process", "p", Args=names))
    S.append(st("gotests", "tests", S="verif.test/wftests", Args=names))
    return fs, dict(g.impltypes), T, [dict(Name="tested", Stmts=S, Nodes=["p"])]


# ---------------------------------------------------------------- similar names
# they are written alike in some generated artefact: file names, variables, functions, host names, environment variables
ALIKE = [("a b", "a_b"), ("a.b", "a-b"), ("x  y", "x_y"), ("1st", "st"), ("node-1", "node_1"), ("na+me", "na/me"), ("ab_", "ab-"), ("_ab", "-ab")]
CASES = [("abc", "Abc"), ("abc", "ABC")]
TAKEN = dict(deploys=["docker", "linux", "golang"], ctrs=["docker", "runtime", "linux"], procs=["runtime", "wf", "golang", "linux"], services=["golang", "runtime", "main", "http"],
             backends=["docker", "dc", "localhost"], pods=["docker"], collectors=["docker"])


def rename(a, m):
    """a: zoo.App; m: old -> new name"""
    f = lambda x: m.get(x, x)
    S = []
    for s in a.S:
        s = dict(s)
        if s["Op"] == "procdeploy":   # the names of these processes follow from those of the services
            s = st("process", s["On"] + "_proc", Args=[s["On"]])
        s["On"] = f(s["On"])
        if s.get("Args"):
            s["Args"] = [f(x) for x in s["Args"]]
        S.append(s)
    a.S = S
    for n in a.services.values():
        n["deps"] = [f(x) for x in n["deps"]]
        for s in n["mods"]:
            s["On"] = f(s["On"])
            if s.get("Args"):
                s["Args"] = [f(x) for x in s["Args"]]
    for k in ("services", "backends", "collectors"):
        setattr(a, k, {f(n): v for n, v in getattr(a, k).items()})
    for k in ("procs", "ctrs"):
        setattr(a, k, {f(n): [f(x) for x in v] for n, v in getattr(a, k).items()})
    a.deploys = {f(n): (k, [f(x) for x in v]) for n, (k, v) in a.deploys.items()}
    a.pods = {f(n): [f(x) for x in v] for n, v in a.pods.items()}
    a.nodes = [f(x) for x in a.nodes]


def collision(seed, name):
    """-> an application with similar names, their kinds, the names"""
    r = random.Random(seed)
    for k in range(200):
        a = zoo.make(name, r.randrange(1 << 40), ("http",), mode=r.choice(["procs", "containers", "compose", "compose", "kubernetes", "mixed"]), hostile=False)
        pools = {k: [n for n in getattr(a, k) if n != "k_kubernetes"] for k in ("services", "procs", "ctrs", "deploys", "backends", "collectors")}
        pools["backends"] = [n for n in pools["backends"] if a.backends[n]["ctr"]]
        kinds = [k for k, v in pools.items() if v]
        k1 = r.choice(kinds)
        if r.random() < .2:
            n = r.choice(pools[k1])
            new = r.choice(TAKEN[k1])
            if any(new in getattr(a, k) for k in TAKEN):
                continue
            m = {n: new}
            k2 = "-"
        else:
            k2 = k1 if r.random() < .6 else r.choice(kinds)
            n1 = r.choice(pools[k1])
            n2 = r.choice(pools[k2])
            x, y = r.choice(ALIKE if r.random() < .75 else CASES)
            if n1 == n2 or any(z in getattr(a, k) for k in TAKEN for z in (x, y)):
                continue
            if r.random() < .5:
                x, y = y, x
            m = {n1: x, n2: y}
        rename(a, m)
        return a, (k1, k2), m
    raise vlib.CheckError("no application")


def collisions(c, n):
    f, types = zoo.workflow()
    A = [collision(c.seed * 7919 + i, "y%d" % i) for i in range(n)]
    e = core.E2E(c, [a.json() for a, _, _ in A], f, types, root="alike")
    stats = {}

    def one(i, a, kinds, m):
        d = "%s\nsimilar names: %s\n" % (addr.describe(a), m)
        rc, log, out = e.compile(a.name, port=12000 + 100 * (i % 50))
        c.case(1)
        c.observe("applications with similar names")
        if rc == "timeout":
            return c.violate("alike-hang", "the compiler does not finish", d)
        if rc != 0:
            c.observe("similar names rejected")
            if re.search("(?m)^panic: ", log):
                c.violate("alike-panic-%s-%s" % kinds, "the compiler panics for similar names", d + monitor.clean(log)[-3000:])
            return
        try:
            netsim.judge(a, netsim.simulate(out), stats)
            c.observe("similar names kept apart")
        except netsim.Bad as x:
            c.violate("alike-%s-%s" % kinds, "similar names are accepted, but not kept apart: %s" % x, d + str(x))
        shutil.rmtree(out, ignore_errors=True)
    monitor.parallel([lambda i=i, x=x: one(i, *x) for i, x in enumerate(A)], 8)
    shutil.rmtree(e.root)


PROCNAMES = ["main", "cart_test", "x_windows", "x_arm64", "y_linux_amd64", "func", "type", "range", "init", "string", "context", "runtime", "wf", "vendor", "internal", "testdata",
             ".hidden", "_under", "123", "9 lives", "ü", "go", "go.mod", "go.work", "build.sh", "run.sh", "src", "a/b", "../up", "..", "user-service", "two words", "if", "exit", "cd", "echo", "test",
             "path", "PATH", "HOME", "pwd", "return", "x\"y", "$x", "`x`", "a'b", "a\\b", "n" * 60, "true", "local", "wait", "run_all", "usage", "ctr", "svc", "svc.client", "http", "goproc"]


def procnames(c, names):
    """processes with all kinds of names: they are rejected, or can be built and started"""
    files, types = zoo.workflow()
    A = []
    for i, n in enumerate(names):
        a = zoo.App("n%d" % i)
        a.mode = "procs"
        a.services = dict(back=dict(type="L", deps=[], rpc="http", mods=[]), svc=dict(type="N", deps=["back"], rpc="http", mods=[]))
        a.procs = {n: ["svc"], "other_proc": ["back"]}
        a.S = [st("service", "back", Type="ImplL"), st("http", "back"), st("service", "svc", Type="ImplN", Args=["back"]), st("http", "svc"),
               st("process", n, Args=["svc"]), st("process", "other_proc", Args=["back"])]
        a.nodes = [n, "other_proc"]
        if i % 2:
            a.mode = "compose"
            a.S += [st("container", "c0", Args=[n, "other_proc"]), st("compose", "dc", Args=["c0"])]
            a.ctrs = {"c0": [n, "other_proc"]}
            a.deploys = {"dc": ("compose", ["c0"])}
            a.nodes = ["dc"]
        A.append(a)
    e = core.E2E(c, [a.json() for a in A], files, types, root="names", race=False)

    def one(a, n):
        rc, log, out = e.compile(a.name)
        c.case(1)
        c.observe("process names")
        if rc == "timeout" or re.search("(?m)^panic: ", log):
            return c.violate("procname-%s" % n, "the compiler panics or hangs for a process called %r" % n, addr.describe(a) + monitor.clean(log)[-3000:])
        above = [x for x in os.listdir(os.path.dirname(out)) if not re.match(r"n\d+$", x)]
        if above:
            c.violate("procname-outside", "files are generated outside of the output directory: %s" % above, addr.describe(a))
        if rc != 0:
            c.observe("process names rejected")
            return
        try:
            netsim.judge(a, netsim.simulate(out))
            for d, ok, log in e.build_all(out):
                c.observe("programs built")
                if not ok:
                    raise netsim.Bad("the generated program does not compile: " + core.compile_errors(log))
        except netsim.Bad as x:
            c.violate("procname-%s" % n, "a process called %r is accepted, but does not work: %s" % (n, x), addr.describe(a) + str(x))
        shutil.rmtree(out, ignore_errors=True)
    monitor.parallel([lambda a=a, n=n: one(a, n) for a, n in zip(A, names)], 8)
    shutil.rmtree(e.root)


# -------------------------------------------------------------------- output directories that exist, and faults

def existing(c, e, names):
    """what is in the output directory already is never changed by a compilation that fails, nor mixed with a new application"""
    a, b = names[:2]
    root = os.path.join(e.root, "there")

    def one(kind, fill):
        out = os.path.join(root, kind)
        os.makedirs(root, exist_ok=True)
        fill(out)
        before = tree(out) if os.path.isdir(out) else open(out).read()
        rc, log, _ = e.compile(a, out=out, port=15000)
        c.case(1)
        c.observe("output directories that exist")
        after = tree(out) if os.path.isdir(out) else open(out).read()
        if rc == "timeout" or re.search("(?m)^panic: ", log):
            return c.violate("existing-%s" % kind, "the compiler panics or hangs if the output directory is %s" % kind, monitor.clean(log)[-3000:])
        if rc != 0:
            if after != before:
                c.violate("existing-%s" % kind, "a compilation that is rejected changes what is in its output directory (%s)" % kind, str(sorted(set(after) ^ set(before)))[:2000])
            return
        rc, log, fresh = e.compile(a, out=out + "-fresh", port=15000)
        t = tree(fresh)
        if after != t:
            c.violate("existing-%s" % kind, "a compilation into an existing output directory (%s) succeeds with a mix of old and new files" % kind,
                      "\n".join(difference(out, fresh, after, t))[:4000])

    def earlier(n, port=15000, change=None):
        def fill(out):
            rc, log, _ = e.compile(n, out=out, port=port)
            if rc != 0:
                raise vlib.CheckError("no earlier output: " + log[-2000:])
            if change:
                change(out)
        return fill

    def edited(out):
        fs = sorted(k for k, v in tree(out).items() if v != "dir")
        for k in fs[::5]:
            open(os.path.join(out, k), "a").write("\n// edited by the user\n")
        for k in fs[::7]:
            os.remove(os.path.join(out, k))

    def foreign(out):
        os.makedirs(os.path.join(out, "docker", "data"))
        open(os.path.join(out, "docker", "data", "important"), "w").write("precious")
        open(os.path.join(out, ".env"), "w").write("A=B\n")

    def afile(out):
        open(out, "w").write("precious")

    jobs = [("the output of another application", earlier(b)), ("its earlier output", earlier(a)), ("its earlier output with other ports", earlier(a, port=16000)),
            ("its earlier output with edits", earlier(a, change=edited)), ("an empty directory", os.makedirs), ("a directory with other files", foreign), ("a file", afile)]
    monitor.parallel([lambda k=k, f=f: one(k, f) for k, f in jobs], 4)
    shutil.rmtree(root)


def strace():
    """the command that makes system calls fail, if it works here"""
    p = shutil.which("strace")
    if p:
        r = subprocess.run([p, "-f", "-qq", "-o", "/dev/null", "-e", "inject=openat:error=EACCES", "-P", "/etc/hostname", "cat", "/etc/hostname"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode == 1:
            return p
    return None


WRITE = "write,copy_file_range"   # files are copied with the latter
FAULTS = [("openat", "EACCES"), (WRITE, "ENOSPC"), (WRITE, "EIO")]


def faults(c, e, name, n, rnd):
    """whatever file or directory cannot be written: the compilation fails, or generates everything"""
    st_ = strace()
    if st_ is None:
        c.observe("fault injection is not available")
        return
    rc, log, out = e.compile(name, port=15000)
    if rc != 0:
        raise vlib.CheckError("does not compile: " + log[-2000:])
    fresh = tree(out)
    ref = out + ".ref"
    shutil.rmtree(ref, ignore_errors=True)
    os.rename(out, ref)
    files = sorted(k for k, v in fresh.items() if v != "dir")
    dirs = sorted(k for k, v in fresh.items() if v == "dir")
    # a file of every kind first: what generates it shows in its name and its directory
    kinds = {}
    for k in files:
        q = k.split("/")
        if "runtime" in q:
            kinds.setdefault("a copy", []).append(k)
            continue
        kinds.setdefault((len(q), re.sub(r"\d+", "N", re.sub(r"(proc|svc|ctr|clients?|tests?).*", "", q[-1])) if not q[-1].endswith(".go") else
                          "_".join(q[-1][:-3].split("_")[1:]) or "go", q[-2] if len(q) > 1 else ""), []).append(k)
    order = []
    ks = sorted(kinds, key=str)
    rnd.shuffle(ks)
    while any(kinds.values()):
        for k in ks:
            if kinds[k]:
                order.append(kinds[k].pop(rnd.randrange(len(kinds[k]))))
    jobs = []
    for i, k in enumerate(order[:n]):
        jobs.append((k,) + FAULTS[i % len(FAULTS)])
    ds = rnd.sample(dirs, min(len(dirs), n // 5))
    jobs += [(k, "mkdirat", ["EACCES", "ENOSPC"][i % 2]) for i, k in enumerate(ds)]

    def one(i, k, call, err):
        o = os.path.join(e.root, "faulty", "%s-%d" % (name, i))
        os.makedirs(os.path.dirname(o), exist_ok=True)
        trace = o + ".trace"
        w = [st_, "-f", "-qq", "-o", trace, "-P", os.path.join(o, k), "-e", "trace=" + call, "-e", "inject=%s:error=%s" % (call, err), e.bin]
        rc, log, _ = e.compile(name, out=o, port=15000, binary=w)
        inj = open(trace).read().count("(INJECTED)") if os.path.exists(trace) else 0
        c.case(1)
        if inj == 0:
            c.observe("faults that did not occur")
        else:
            c.observe("faults: " + call.split(",")[0])
        t = tree(o) if os.path.isdir(o) else {}
        base = os.path.basename(k)
        if rc == "timeout":
            c.violate("fault-hang-%s" % call, "the compiler hangs after %s of %s fails" % (call, k), monitor.clean(log)[-2000:])
        elif rc == 0 and t != fresh and inj:
            c.violate("fault-%s-%s" % (call.split(",")[0], re.sub(r"[a-z]*\d+", "x", base)), "the compiler succeeds although %s of %s fails with %s" % (call, k, err),
                      "\n".join(difference(ref, o, fresh, t))[:3000] + "\n" + monitor.clean(log)[-1500:])
        elif inj:
            c.observe("compilations that fail" if rc else "compilations that are complete nevertheless")
        shutil.rmtree(o, ignore_errors=True)
        if os.path.exists(trace):
            os.remove(trace)
    monitor.parallel([lambda i=i, j=j: one(i, *j) for i, j in enumerate(jobs)], 8)
    shutil.rmtree(ref)


def tools(c, e, name):
    """a tool that the compiler runs is missing or fails"""
    rc, log, out = e.compile(name, port=15000)
    if rc != 0:
        raise vlib.CheckError("does not compile: " + log[-2000:])
    fresh = tree(out)
    real = e.protoc()
    for k, (tool, body) in enumerate([("protoc", "exit 1"), ("protoc-gen-go", "exit 1"), ("protoc-gen-go-grpc", "cat > /dev/null; exit 3"), ("protoc", "kill -9 $$")]):
        d = os.path.join(e.root, "tool%d" % k)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, tool), "w").write("#!/bin/sh\n%s\n" % body)
        os.chmod(os.path.join(d, tool), 0o755)
        rc, log, o = e.compile(name, out=out + "-t%d" % k, port=15000, env=dict(PATH=d + ":" + real + ":" + c.env["PATH"]))
        c.case(1)
        c.observe("failing tools")
        t = tree(o) if os.path.isdir(o) else {}
        if rc == 0 and t != fresh:
            c.violate("tool-%s" % tool, "the compiler succeeds although %s fails (%s)" % (tool, body), "\n".join(difference(out, o, fresh, t))[:3000] + monitor.clean(log)[-1500:])
        shutil.rmtree(o, ignore_errors=True)
    shutil.rmtree(out)


def check(c):
    c.workspace()
    q = not c.thorough
    for rpc, n in ((("http",), 8), (("grpc",), 4), (("http", "grpc"), 4)):
        e, A = zoos(c, rpc, n if q else 60, 3 if q else 6)
        if rpc == ("http", "grpc"):
            rnd = random.Random(c.seed)
            f, types = zoo.workflow()
            B = [zoo.make("f%d" % i, c.seed * 31 + i * 3 + 7, rpc, mode=m) for i, m in enumerate(["compose", "kubernetes", "procs"] * (1 if q else 4))]
            ef = core.E2E(c, [a.json() for a in B], f, types, rpc="grpc", root="faults")
            existing(c, ef, [a.name for a in B])
            for a in B:
                faults(c, ef, a.name, 24 if q else 400, rnd)
            tools(c, ef, B[0].name)
            shutil.rmtree(ef.root)
        shutil.rmtree(e.root)
    for s in range(1 if q else 8):
        typed(c, "http", c.seed * 13 + s, 4, 4)
        typed(c, "grpc", c.seed * 17 + s, 4, 4)
    fs, types, A = ambiguous()
    e = core.E2E(c, A, fs, types, root="amb")
    monitor.parallel([lambda a=a: repeat(c, e, a["Name"], json.dumps(a, indent=1) + "\n", 6 if q else 20, "ambiguous-" + a["Name"]) for a in A], 8)
    fs, types, T, A = tested()
    e = core.E2E(c, A, fs, types, root="tested", extra_mods=[("wftests", T)])
    monitor.parallel([lambda a=a: repeat(c, e, a["Name"], json.dumps(a, indent=1) + "\n", 6 if q else 20, "tests-" + a["Name"]) for a in A], 8)
    collisions(c, 120 if q else 1500)
    procnames(c, PROCNAMES)
