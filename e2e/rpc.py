"""The deployment transparency checks C11 (HTTP) and C12 (gRPC): the same random services in different deployments."""
import shutil
from . import core, wfgen, apps, monitor


def setup(c, seed, rpc, n, calls, workers, names=None, methods=4, **kw):
    g = wfgen.Gen(seed, profile=rpc, **({"argnames": names} if names else {}))
    files = g.services(n, methods=methods)
    files["svc/driver.go"] = wfgen.driver(n, [("s%d" % i, i) for i in range(n)], calls, workers)
    svcs = dict(g.impltypes)
    svcs["Driver"] = "*svc.DriverImpl"
    return g, core.E2E(c, apps.deployments(n, rpc, seed), files, svcs, rpc=rpc, root="e2e-%s-%d" % (rpc, seed), **kw)


def one(c, e, R, name, i, impl_of):
    for attempt in range(3):
        out = R.build(name, port=e.port_block(i + 16 * attempt))
        if not out:
            return
        r = R.run(name, out)
        if r == "ports":
            shutil.rmtree(out)
            continue
        if r is None:
            return
        pids, dpid = R.calls(name, r)
        R.placement(name, pids, dpid, impl_of[name])
        c.case(1)
        for m in {(x[1], x[2]) for x in r["events"] if x[0] == "call"}:
            R.methods.add((R.tag,) + m)
        shutil.rmtree(out, ignore_errors=True)
        return
    R.violate(name + "-ports", "a server cannot bind its address whatever the base port is", R.describe(e.apps[name]) + e.apps[name]["Name"])


def impl_map(e, n):
    m = {}
    for name, app in e.apps.items():
        m[name] = {"Svc%d" % i: ["s%d_back" % i, "s%d" % i] for i in range(n)}
    return m


def check(c, rpc, seeds, n=4, calls=20, workers=4, setup_kw=None, names=None):
    R = None
    methods = set()
    idx = 0
    total = {}
    for seed in seeds:
        g, e = setup(c, seed, rpc, n, calls, workers, **(setup_kw or {}))
        R = monitor.Runner(c, e, tag="%s%d-" % (rpc, seed))
        R.methods = methods
        im = impl_map(e, n)
        monitor.parallel([lambda name=name, i=i: one(c, e, R, name, i, im) for i, name in enumerate(e.apps)], workers=4)
        for k, v in R.stats.items():
            c.observe(k, v)
        for s in g.sigs[:2]:
            c.sample(["%s(%s) (%s)" % (m, ", ".join("%s %s" % a for a in args), ", ".join(rets)) for m, args, rets in s])
        shutil.rmtree(e.root, ignore_errors=True)
    c.observe("distinct methods called", len(methods))
    c.coverage["distinct_nontrivial"] = len(methods)
    c.coverage["evaluations"] = c.coverage["observed"].get("requests", 0)
