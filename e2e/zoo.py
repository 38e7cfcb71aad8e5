"""Random applications with everything the plugins offer: backends of all kinds, wrappers, processes, containers, docker-compose and
kubernetes deployments."""
import random
from .apps import st

TYPES = {   # dependencies of the implementations
    "L": "", "N": "N", "NN": "NN", "NNN": "NNN", "C": "C", "D": "D", "Q": "Q", "R": "R", "NC": "NC", "ND": "ND", "NQ": "NQ", "CDQR": "CDQR", "NNCD": "NNCD",
}
PARAM = dict(N="Node", C="backend.Cache", D="backend.NoSQLDatabase", Q="backend.Queue", R="backend.RelationalDB")
SIMPLE = dict(C="simplecache", D="simpledb", Q="simplequeue", R="simplereldb")
CTR = dict(C=["memcached", "redis"], D=["mongodb"], Q=["rabbitmq"], R=["mysql"])
PORTS = dict(memcached=11211, redis=6379, mongodb=27017, rabbitmq=5672, mysql=3306, zipkin=9411, jaeger=14268)
NAMES = ["user", "user_service", "cart-service", "order.v2", "Front End", "Catalogue", "post_storage", "x1", "db-svc", "aB", "geo.svc", "UPPER", "home timeline"]


def workflow():
    L = ['package svc', '', 'import (', '\t"context"', '\t"github.com/blueprint-uservices/blueprint/runtime/core/backend"', ')', '',
         '// Node is a service that calls the services it depends on.', 'type Node interface {', '\tDo(ctx context.Context, x int64) (int64, error)', '}', '',
         'var _ backend.Cache', '']
    types = {}
    for t, deps in TYPES.items():
        ps = ["a%d %s" % (i, PARAM[d]) for i, d in enumerate(deps)]
        L += ["type Impl%s struct { deps []any }" % t,
              "func NewImpl%s(ctx context.Context%s) (*Impl%s, error) { return &Impl%s{deps: []any{%s}}, nil }" % (
                  t, "".join(", " + p for p in ps), t, t, ", ".join("a%d" % i for i in range(len(deps)))),
              "func (i *Impl%s) Do(ctx context.Context, x int64) (int64, error) { return x + 1, nil }" % t, ""]
        types["Impl" + t] = "*svc.Impl" + t
    return {"svc/svc.go": "\n".join(L) + "\n"}, types


class App:
    """One application: its statements and what it consists of.
    services: name -> dict(type, deps, rpc, mods); backends: name -> dict(kind, ctr); placement in procs, containers and deployments"""
    def __init__(self, name):
        self.name = name
        self.S = []
        self.services, self.backends = {}, {}
        self.procs, self.ctrs, self.deploys = {}, {}, {}   # deploys: name -> (kind, [containers])
        self.collectors, self.pods = {}, {}
        self.nodes = []

    def json(self):
        return dict(Name=self.name, Stmts=self.S, Nodes=self.nodes)

    # what a process consists of
    def local(self, proc):
        """services whose implementation runs in the process, and what they dial: (services, backend containers, collectors)"""
        seen, dials, bk, col = [], set(), set(), set()

        def visit(s):
            if s in seen:
                return
            seen.append(s)
            sv = self.services[s]
            for m in sv["mods"]:
                if m["Op"] in ("otel", "otelserver"):
                    col.add(m["Args"][0])
            for d in sv["deps"]:
                if d in self.backends:
                    if self.backends[d]["ctr"]:
                        bk.add(d)
                elif self.services[d]["rpc"] and d not in self.procs[proc]:
                    dials.add(d)
                    for m in self.services[d]["mods"]:
                        if m["Op"] == "otel":
                            col.add(m["Args"][0])
                else:
                    visit(d)
        for s in self.procs[proc]:
            visit(s)
        return seen, dials, bk, col


def mods(r, a, collector):
    res = []
    for op in r.sample(["retries", "timeout", "breaker", "pool", "health", "otel", "latency", "failures"], r.choice([0, 0, 1, 1, 2, 3])):
        if op == "retries": res.append(st(op, a, N=r.randint(1, 5)))
        elif op == "timeout": res.append(st(op, a, S="%dms" % r.randint(50, 900)))
        elif op == "breaker": res.append(st(op, a, N=10, F=0.5, S="1s"))
        elif op == "pool": res.append(st(op, a, N=r.randint(1, 9)))
        elif op == "health": res.append(st(op, a))
        elif op == "latency": res.append(st(op, a, S="10ms"))
        elif op == "failures": res.append(st(op, a, N=10))
        elif op == "otel" and collector: res.append(st(r.choice(["otel", "otelserver"]), a, Args=[collector]))
    return res


def make(name, seed, rpc=("http",), mode=None, hostile=True, container_backends=.5):
    r = random.Random(seed)
    a = App(name)
    mode = mode or r.choice(["auto", "procs", "containers", "compose", "compose", "compose", "kubernetes", "kubernetes", "mixed"])
    a.mode = mode
    fresh = iter(r.sample(NAMES, 6) if hostile else [])

    def nm(dflt):
        return next(fresh, dflt) if r.random() < .4 else dflt
    if r.random() < .4:
        a.collectors["tracer"] = r.choice(["zipkin", "jaeger"])
    col = "tracer" if a.collectors else None
    # the services and what they use
    kinds = {}
    for i in range(r.randint(1, 5)):
        k = "CDQR"[i] if i < 4 and r.random() < .5 else r.choice("CCDDQR")
        n = nm("%s%d" % (dict(C="cache", D="db", Q="queue", R="sql")[k], i))
        a.backends[n] = dict(kind=k, ctr=r.choice(CTR[k]) if r.random() < container_backends else None)
        kinds.setdefault(k, []).append(n)
    ns = r.randint(2, 7)
    for i in range(ns):
        have = list(a.services)
        ts = [t for t, d in TYPES.items() if all((have if x == "N" else kinds.get(x)) for x in d)]
        t = r.choice(ts if r.random() < .8 else ["L"])
        a.services[nm("svc%d" % i)] = dict(type=t, deps=[r.choice(have if x == "N" else kinds[x]) for x in TYPES[t]])
    users = {}
    for n, s in a.services.items():
        for d in s["deps"]:
            users.setdefault(d, []).append(n)
    # processes: what only one process uses may be a part of it
    where = {}
    for n in reversed(list(a.services)):
        ps = {where[u] for u in users.get(n, [])}
        s = a.services[n]
        if mode == "auto":
            s["rpc"], where[n] = None, ""
        elif len(ps) == 1 and r.random() < .4:
            s["rpc"], where[n] = None, ps.pop()
        else:
            s["rpc"] = r.choice(rpc) if ps or r.random() < .6 else None
            if a.procs and r.random() < .35:
                p = r.choice(list(a.procs))
            else:
                p = None if r.random() < .3 and not n.endswith("service") else nm("proc%d" % len(a.procs))
                p = p or n + "_proc"
                a.procs[p] = []
            a.procs[p].append(n)
            where[n] = p
    for n, b in a.backends.items():
        if not b["ctr"] and len({where[u] for u in users.get(n, [])}) > 1:
            b["ctr"] = r.choice(CTR[b["kind"]])
    # statements
    for n, k in a.collectors.items():
        a.S.append(st(k, n))
    for n, b in a.backends.items():
        a.S.append(st(b["ctr"] or SIMPLE[b["kind"]], n, **({"S": "q_name"} if b["ctr"] == "rabbitmq" else {})))
    for n, s in a.services.items():
        a.S.append(st("service", n, Type="Impl" + s["type"], Args=s["deps"]))
        s["mods"] = [m for m in mods(r, n, col) if s["rpc"] or m["Op"] != "pool"]
        a.S += s["mods"]
        if s["rpc"]:
            a.S.append(st(s["rpc"], n))
    if mode == "auto":
        a.nodes = [n for n in a.services if n not in users]
        return a
    for p, xs in a.procs.items():
        if len(xs) == 1 and p == xs[0] + "_proc":
            a.S.append(st("procdeploy", xs[0]))
        else:
            r.shuffle(xs)
            a.S.append(st("process", p, Args=xs))
    backs = [n for n, b in a.backends.items() if b["ctr"] and n in users]
    cols = [n for n in a.collectors if any(m["Op"].startswith("otel") for s in a.services.values() for m in s["mods"])]
    if mode == "procs":
        a.nodes = list(a.procs)
        return a
    rest = list(a.procs)
    r.shuffle(rest)
    keep = rest[:1] if mode == "mixed" else []
    rest = rest[len(keep):]
    while rest:
        k = min(len(rest), r.choice([1, 1, 1, 2, 3]))
        c = nm("ctr%d" % len(a.ctrs))
        a.S.append(st("container", c, Args=rest[:k]))
        a.ctrs[c] = rest[:k]
        rest = rest[k:]
    everything = list(a.ctrs) + backs + cols
    if mode == "containers":
        a.nodes = list(a.ctrs)
    elif mode in ("compose", "mixed"):
        # the default builder makes one deployment of what is in no other one
        if everything and r.random() < .6:
            xs = r.sample(everything, len(everything) if r.random() < .6 else r.randint(1, len(everything)))
            a.S.append(st("compose", "dc", Args=xs))
            a.deploys["dc"] = ("compose", xs)
        placed = {x for _, xs in a.deploys.values() for x in xs}
        a.nodes = list(a.deploys) + [c for c in a.ctrs if c not in placed] + keep
    else:
        r.shuffle(everything)
        rest = everything[r.randint(0, len(everything)):]
        single = [x for x in everything if x not in rest]
        reg = r.choice(["registry.test/x", "registry.test:5000", ""])
        a.S.append(st("kubernetes", "k", S=reg, Args=single))
        a.pods = {x + "_pod": [x] for x in single}
        while rest:
            k = min(len(rest), r.choice([1, 2, 3, 4]))
            p = "pod%d" % len(a.pods)
            # servers of the same kind need the same port
            ctrs = [a.backends[x]["ctr"] if x in a.backends else x for x in rest[:k]]
            if len(set(ctrs)) < k:
                k = 1
            a.S.append(st("pod", "k_kubernetes", S=reg, Args=[p] + rest[:k]))
            a.pods[p] = rest[:k]
            rest = rest[k:]
        a.deploys["k_kubernetes"] = ("kubernetes", everything)
        a.nodes = ["k_kubernetes"]
    return a
