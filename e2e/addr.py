"""C10: the addresses of generated deployments."""
import json, os, re, shutil
import vlib
from . import core, monitor, netsim, rpc as rpcmod, wfgen, zoo
from .apps import st


def unescape(v):
    return v.replace("$$", "$")


def files(c):
    """the generators of deployment files with arbitrary values"""
    d = os.path.join(c.scratch, "files")
    os.makedirs(d)
    c.monitor(c.build("./cmd/c10"), env=dict(VERIF_FILES=d))
    for e in json.load(open(os.path.join(d, "expect.json"))):
        text = open(e["File"]).read()
        try:
            y = netsim.load(e["File"], True)[0]
            got = y["services"] if e["Kind"] == "compose" else {x["name"]: x for x in y["spec"]["template"]["spec"]["containers"]}
            if len(got) != len(e["Instances"]):
                raise netsim.Bad("%d containers instead of %d" % (len(got), len(e["Instances"])))
            for n, i in e["Instances"].items():
                norm = lambda x: re.sub("[^a-z0-9]+", "", x.lower())
                g = got.get(n) or got.get(netsim.clean(n)) or next((v for k, v in got.items() if norm(k) == norm(n)), None)
                if g is None:
                    raise netsim.Bad("container %s is missing" % n)
                if e["Kind"] == "compose":
                    env = dict(x.split("=", 1) for x in g.get("environment") or [])
                    vol = dict(x.split(":", 1) for x in g.get("volumes") or [])
                    what = [(env, i["Env"]), (vol, i["Volumes"]), (g.get("command") or [], i["Command"] or []), (g.get("image", ""), i["Image"]),
                            ((g.get("build") or {}).get("context", ""), i["Context"]), (g.get("gpus"), i["Conf"].get("gpus")),
                            (sorted({int(str(p).split(":")[-1]) for p in g.get("ports") or []}), sorted(set(i["Ports"].values()))),
                            (sorted(map(int, g.get("expose") or [])), sorted(set(i["Ports"].values())))]
                else:
                    env = {x["name"]: x["value"] for x in g.get("env") or []}
                    what = [(env, i["Env"]), (g["image"], i["Image"]), (sorted(p["containerPort"] for p in g.get("ports") or []), sorted(i["Ports"].values()))]
                for a, b in what:
                    c.observe("values in files")
                    if a != b:
                        raise netsim.Bad("container %s has %r instead of %r" % (n, a, b))
        except netsim.Bad as x:
            c.violate("file-%s" % e["Kind"], "a generated %s file does not say what was requested: %s" % (e["Kind"], x), text)
        except (KeyError, TypeError, AttributeError, ValueError) as x:
            c.violate("file-%s" % e["Kind"], "a generated %s file cannot be understood: %r" % (e["Kind"], x), text)
        c.case(1, 0)


def describe(a):
    return "application %s (%s):\n%s\nnodes: %s\n" % (a.name, a.mode, "\n".join("  " + " ".join("%s=%s" % kv for kv in s.items()) for s in a.S), a.nodes)


def envfiles(out):
    """.env and .local.env belong together"""
    a, b = (netsim.read_env(os.path.join(out, f)) if os.path.exists(os.path.join(out, f)) else {} for f in (".env", ".local.env"))
    if set(a) != set(b):
        raise netsim.Bad(".env and .local.env set different variables: %s" % (set(a) ^ set(b)))
    ports = {}
    for k in a:
        (h1, p1), (h2, p2) = netsim.address(a[k]), netsim.address(b[k])
        base = re.sub("_(BIND|DIAL)_ADDR$", "", k)
        if p1 != p2:
            raise netsim.Bad("%s has port %d in .env, and %d in .local.env" % (k, p1, p2))
        if ports.setdefault(p1, base) != base:
            raise netsim.Bad("port %d is given to %s and %s" % (p1, base, ports[p1]))
        if k.endswith("_DIAL_ADDR"):
            if h2 != "localhost":
                raise netsim.Bad("%s=%s in .local.env is not on this machine" % (k, b[k]))
            bind = a.get(base + "_BIND_ADDR")
            if bind and netsim.address(bind)[1] != p1:
                raise netsim.Bad("%s=%s, but the server binds %s" % (k, a[k], bind))
    return ports


def generated(c, rpc, seeds, root):
    """random deployments, started with stand-ins for the programs"""
    f, types = zoo.workflow()
    A = []
    for s in seeds:
        mode = None
        while True:
            a = zoo.make("z%d" % s, (c.seed * 1000 + s) * 7 + (rpc == "grpc"), (rpc,) if rpc != "both" else ("http", "grpc"), mode=mode)
            if a.mode != "auto":
                break
            mode = "compose"
        A.append(a)
    e = core.E2E(c, [a.json() for a in A], f, types, rpc="http" if rpc == "http" else "grpc", root=root)
    stats = {}

    def one(i, a):
        base = 12000 + 53 * (i % 50)
        rc, log, out = e.compile(a.name, port=base)
        if rc != 0:
            return c.violate("compile-" + a.mode, "the compiler rejects a valid wiring spec", describe(a) + monitor.clean(log)[-4000:])
        try:
            for p in envfiles(out):
                if not base <= p < base + 1000:
                    raise netsim.Bad("port %d is used although the ports start at %d" % (p, base))
            netsim.judge(a, netsim.simulate(out), stats)
        except netsim.Bad as x:
            fs = ""
            for r, d, names in os.walk(out):
                for n in names:
                    if n in ("docker-compose.yml", ".local.env") or n.endswith(".yaml") and "runtime" not in r:
                        fs += "--- %s\n%s\n" % (os.path.relpath(os.path.join(r, n), out), open(os.path.join(r, n)).read())
            c.violate("%s-%s" % (rpc, a.mode), "addresses of a generated deployment do not fit together: %s" % x, describe(a) + str(x) + "\n" + fs[:9000])
        c.case(1)
        with e.lock:
            stats[a.mode + " deployments"] = stats.get(a.mode + " deployments", 0) + 1
        shutil.rmtree(out, ignore_errors=True)
    monitor.parallel([lambda i=i, a=a: one(i, a) for i, a in enumerate(A)], 8)
    for k, v in stats.items():
        c.observe(k, v)
    for a in A[:3]:
        c.sample(describe(a).splitlines()[:12])
    return e, A


def ports(c, e, A):
    """base ports at the ends of the range"""
    A = sorted(A, key=lambda a: -len(a.S))[:4]
    for a in A:
        out = os.path.join(e.root, "ports")
        rc, log, _ = e.compile(a.name, out=out, port=20000)
        n = len(envfiles(out)) if rc == 0 else 0
        shutil.rmtree(out, ignore_errors=True)
        if n < 2:
            continue
        for port, ok in ((65536 - n, True), (65536 - n + 1, False), (65535, False), (0, False), (65536, False), (65536 + 20000, False), (-1, False), ("x", False), (1 << 32, False), (1, True)):
            rc, log, _ = e.compile(a.name, out=out, port=port if port else None, args=[] if port else ["-port", "0"])
            c.case(1)
            c.observe("base ports")
            try:
                if rc == "timeout":
                    raise netsim.Bad("the compiler does not finish")
                if ok and rc != 0:
                    raise netsim.Bad("it is rejected although %d ports are needed" % n)
                if rc == 0:
                    ps = envfiles(out)
                    if not ok:
                        raise netsim.Bad("it is accepted and ports %s are assigned" % sorted(ps))
                    if sorted(ps) != list(range(port, port + n)):
                        raise netsim.Bad("ports %s are assigned" % sorted(ps))
            except netsim.Bad as x:
                c.violate("base-port", "-port %s: %s" % (port, x), describe(a) + monitor.clean(log)[-1500:])
            shutil.rmtree(out, ignore_errors=True)


def placed(n, rpc):
    """the same services in different deployments of containers; every app has a driver of all of them"""
    clients = ["s%d" % i for i in range(n)]

    def base(drv="driver"):
        s = []
        for i, x in enumerate(clients):
            s += [st("service", x, Type="Impl%d" % i), st(rpc, x)]
        return s + [st("service", drv, Type="Driver", Args=clients)]

    def proc(p, *xs):
        return st("process", p, Args=list(xs))
    P = [proc(x + "_proc", x) for x in clients] + [proc("driver_proc", "driver")]
    apps = []
    # every process in its own container of one deployment
    s = base() + P + [st("container", x + "-ctr", Args=[x + "_proc"]) for x in clients] + [st("container", "driver_ctr", Args=["driver_proc"])]
    apps.append(("compose", s + [st("compose", "dc", Args=[x + "-ctr" for x in clients] + ["driver_ctr"])], ["dc"]))
    # several processes in a container
    s = base() + P + [st("container", "c0", Args=[x + "_proc" for x in clients[::2]] + ["driver_proc"]), st("container", "c1", Args=[x + "_proc" for x in clients[1::2]])]
    apps.append(("shared", s, ["c0", "c1"]))
    # some containers, some not
    s = base() + P + [st("container", x + ".ctr", Args=[x + "_proc"]) for x in clients[1:]]
    apps.append(("mixed", s, [x + ".ctr" for x in clients[1:]] + [clients[0] + "_proc", "driver_proc"]))
    # the driver is not in a container
    s = base() + [proc("servers", *clients), proc("driver_proc", "driver"), st("container", "backend", Args=["servers"]), st("compose", "dc", Args=["backend"])]
    apps.append(("outside", s, ["dc", "driver_proc"]))
    # pods
    s = base() + P + [st("container", x + "_ctr", Args=[x + "_proc"]) for x in clients] + [st("container", "driver_ctr", Args=["driver_proc"])]
    s += [st("kubernetes", "k", S="registry.test/x", Args=["driver_ctr", clients[0] + "_ctr"]), st("pod", "k_kubernetes", S="registry.test/x", Args=["pod1"] + [x + "_ctr" for x in clients[1:]])]
    apps.append(("pods", s, ["k_kubernetes"]))
    return [dict(Name=a, Stmts=s, Nodes=nodes) for a, s, nodes in apps]


def executed(c, rpc, seed, n=3, calls=6):
    """deployments of real programs, whose containers and pods have their own loopback addresses"""
    g = wfgen.Gen(seed, profile=rpc)
    fs = g.services(n, methods=2)
    fs["svc/driver.go"] = wfgen.driver(n, [("s%d" % i, i) for i in range(n)], calls, 2)
    types = dict(g.impltypes)
    types["Driver"] = "*svc.DriverImpl"
    e = core.E2E(c, placed(n, rpc), fs, types, rpc=rpc, root="run-%s-%d" % (rpc, seed))
    R = monitor.Runner(c, e, tag="run-%s%d-" % (rpc, seed))

    def build(d, target, pkg):
        env = dict(e.c.env, GOFLAGS="-trimpath -race")
        env.pop("GOWORK", None)
        with e.lock:
            rc, log = c.sh(["go", "build", "-o", target, pkg], cwd=d, env=dict(GOFLAGS="-trimpath -race", GOWORK=""), timeout=800)
        if rc != 0:
            raise netsim.Bad("building the image fails: " + core.compile_errors(log))

    def one(i, name):
        app = e.apps[name]
        for attempt in range(3):
            rc, log, out = e.compile(name, port=e.port_block(i + 16 * attempt))
            if rc != 0:
                return R.violate(R.tag + name + "-compile", "the compiler rejects a valid wiring spec", R.describe(app) + monitor.clean(log)[-5000:])
            R.stats["compiled"] += 1
            root = os.path.join(e.root, "images-" + name)
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            try:
                hosts = netsim.simulate(out)
                # programs outside of containers
                for u in hosts[0].units:
                    bad = [l for _, ok, l in e.build_all(u["dir"]) if not ok]
                    if bad:
                        raise netsim.Bad("the generated program does not compile: " + core.compile_errors(bad[0]))
                for d in e.workspaces(out):
                    e.prepare(d) if "use " + e.deps() not in open(os.path.join(d, "go.work")).read() else None
                units = netsim.emulation(hosts, i + 7 * (seed % 20) + (100 if rpc == "grpc" else 0), root, build)
            except netsim.Bad as x:
                return R.violate(R.tag + name + "-deployment", "a generated deployment cannot be started: %s" % x, R.describe(app) + str(x))
            if units is None:
                c.observe("images not understood")
                return
            r = R.run(name, out, units=units)
            if r == "ports":
                shutil.rmtree(out)
                continue
            if r is None:
                return
            pids, dpid = R.calls(name, r)
            R.placement(name, pids, dpid, {"Svc%d" % k: ["s%d" % k] for k in range(n)})
            R.stats["containers and pods run"] += len(hosts) - 1
            c.case(1)
            shutil.rmtree(out, ignore_errors=True)
            shutil.rmtree(root, ignore_errors=True)
            return
        R.violate(R.tag + name + "-ports", "a server cannot bind its address whatever the base port is", R.describe(app))
    monitor.parallel([lambda i=i, x=x: one(i, x) for i, x in enumerate(e.apps)], 5)
    for k, v in R.stats.items():
        c.observe(k, v)
    shutil.rmtree(e.root, ignore_errors=True)


def check(c):
    n = 1200 if c.thorough else 110
    c.workspace()
    files(c)
    e, A = generated(c, "http", range(n), "sim-http")
    ports(c, e, A)
    shutil.rmtree(e.root)
    e, A = generated(c, "both", range(n // 3), "sim-both")
    shutil.rmtree(e.root)
    for k in range(4 if c.thorough else 1):
        executed(c, "http", c.seed + k)
        executed(c, "grpc", c.seed + k)
