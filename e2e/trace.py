"""C17: traces and vector clocks of generated programs, judged against the calls that their services made."""
import gzip, http.server, json, os, random, re, shutil, socket, struct, threading, time
from collections import Counter, defaultdict
import vlib
from . import core, monitor, wfgen
from .apps import st

HERE = os.path.dirname(os.path.abspath(__file__))
METHODS = ["Run", "Query", "Pair"]

NODE = """package svc

import (
	"context"
	"errors"

	"verif.test/wf/util"
)

// Node executes call trees.
type Node interface {
	Run(ctx context.Context, tree string) error
	Query(ctx context.Context, tree string, n int64, names []string) ([]string, int64, error)
	Pair(ctx context.Context, key Key, tree string) (Key, error)
}

type Key struct {
	A int64
	B string
}

func call(ctx context.Context, n Node, method int, tree string) error {
	switch method {
	case 0:
		return n.Run(ctx, tree)
	case 1:
		ss, k, err := n.Query(ctx, tree, 7, []string{"x", tree})
		if err == nil && (len(ss) != 2 || ss[1] != tree || k != 8) {
			return errors.New("wrong result")
		}
		return err
	}
	key, err := n.Pair(ctx, Key{A: 3, B: "b"}, tree)
	if err == nil && (key.A != 4 || key.B != "b"+tree) {
		return errors.New("wrong result")
	}
	return err
}

func pick(deps []Node) util.Caller {
	return func(ctx context.Context, dep int, method int, tree string) error { return call(ctx, deps[dep], method, tree) }
}

type base struct{ deps []Node }

func (b *base) Run(ctx context.Context, tree string) error { return util.RunTree(ctx, 0, tree, pick(b.deps)) }
func (b *base) Query(ctx context.Context, tree string, n int64, names []string) ([]string, int64, error) {
	err := util.RunTree(ctx, 1, tree, pick(b.deps))
	return names, n + 1, err
}
func (b *base) Pair(ctx context.Context, key Key, tree string) (Key, error) {
	err := util.RunTree(ctx, 2, tree, pick(b.deps))
	return Key{A: key.A + 1, B: key.B + tree}, err
}
"""

IMPL = """
type Impl%(k)d struct{ base }

func NewImpl%(k)d(ctx context.Context%(args)s) (*Impl%(k)d, error) { return &Impl%(k)d{base{[]Node{%(deps)s}}}, nil }
func (i *Impl%(k)d) Run(ctx context.Context, tree string) error { return i.base.Run(ctx, tree) }
func (i *Impl%(k)d) Query(ctx context.Context, tree string, n int64, names []string) ([]string, int64, error) { return i.base.Query(ctx, tree, n, names) }
func (i *Impl%(k)d) Pair(ctx context.Context, key Key, tree string) (Key, error) { return i.base.Pair(ctx, key, tree) }

type Drv%(k)d struct{ deps []Node }

func NewDrv%(k)d(ctx context.Context%(args)s) (*Drv%(k)d, error) { return &Drv%(k)d{[]Node{%(deps)s}}, nil }
func (d *Drv%(k)d) Poke(ctx context.Context) error { return nil }
func (d *Drv%(k)d) Run(ctx context.Context) error { util.RunTrees(ctx, pick(d.deps)); return nil }
"""
NDEPS = 4


def workflow():
    L = [NODE, "// Driver makes the requests.", "type Driver interface { Poke(ctx context.Context) error }"]
    types = {}
    for k in range(NDEPS):
        L.append(IMPL % dict(k=k, args="".join(", d%d Node" % i for i in range(k)), deps=", ".join("d%d" % i for i in range(k))))
        types["Impl%d" % k] = "*svc.Impl%d" % k
        types["Drv%d" % k] = "*svc.Drv%d" % k
    return {"svc/svc.go": "\n".join(L) + "\n", "util/trace.go": open(os.path.join(HERE, "util", "trace.go")).read()}, types


class App:
    """a random application; kind: ot or govector"""
    def __init__(self, name, seed, rpcs, kind):
        r = random.Random(seed)
        self.name, self.kind = name, kind
        n = r.randrange(3, 8)
        self.svcs = ["s%d" % i for i in range(n)]
        self.deps = {}
        users = defaultdict(list)
        for i, s in enumerate(self.svcs):
            later = self.svcs[i + 1:]
            self.deps[s] = sorted(r.sample(later, min(len(later), r.randrange(0, NDEPS))))
            if i + 1 < n and i < 2 and not self.deps[s]:
                self.deps[s] = [r.choice(later)]
            for d in self.deps[s]:
                users[d].append(s)
        roots = [s for s in self.svcs if not users[s]]
        self.roots = (roots + [s for s in r.sample(self.svcs, len(self.svcs)) if s not in roots])[:3]
        for s in roots[3:]:    # nobody uses it
            self.svcs.remove(s)
            for d in self.deps.pop(s):
                users[d].remove(s)
        for s in self.roots:
            users[s].append("driver")
        # a service is local or has a server
        self.rpc, self.inst, self.retries = {}, {}, {}
        for s in self.svcs:
            self.rpc[s] = r.choice(rpcs) if len(users[s]) != 1 or r.random() < 0.65 else None
        full = r.random() < 0.6
        self.collector = r.choice(["zipkin", "jaeger"])
        for s in self.svcs:
            if kind == "ot":
                self.inst[s] = r.choice(["otel", "otel", "otelserver"]) if full or r.random() < 0.7 else None
            else:
                self.inst[s] = "govector" if full or r.random() < 0.75 else None
        self.S = []
        if kind == "ot":
            self.S.append(st(self.collector, "collector"))
        nprocs = r.randrange(1, 4)
        procs = defaultdict(list)
        for s in reversed(self.svcs):
            self.S.append(st("service", s, Type="Impl%d" % len(self.deps[s]), Args=self.deps[s]))
            mods = []
            if self.inst[s]:
                mods.append(st(self.inst[s], s, Args=["collector"] if kind == "ot" else []))
            if r.random() < 0.35:
                self.retries[s] = r.randrange(1, 4)
                mods.append(st("retries", s, N=self.retries[s]))
            if r.random() < 0.2:
                mods.append(st("health", s))
            if r.random() < 0.2 and self.rpc[s]:
                mods.append(st("pool", s, N=r.randrange(1, 4)))
            r.shuffle(mods)
            self.S += mods
            if self.rpc[s]:
                self.S.append(st(self.rpc[s], s))
                procs["p%d" % r.randrange(nprocs)].append(s)
        self.S.append(st("service", "driver", Type="Drv%d" % len(self.roots), Args=self.roots))
        self.procs = dict(procs)
        self.procs["driver_proc"] = ["driver"]
        self.loggers = set()
        for p in sorted(self.procs):
            self.S.append(st("process", p, Args=self.procs[p]))
            if kind == "govector" or r.random() < 0.8:
                self.S.append(st("govectorlogger" if kind == "govector" else "otellogger", p))
                self.loggers.add(p)
        # where services run
        self.where = {}
        def place(s, p):
            for d in self.deps.get(s, self.roots if s == "driver" else []):
                if not self.rpc[d]:
                    self.where[d] = p
                    place(d, p)
        for p, xs in self.procs.items():
            for s in xs:
                self.where[s] = p
                place(s, p)
        self.nodes = sorted(self.procs)

    def json(self):
        return dict(Name=self.name, Stmts=self.S, Nodes=self.nodes)

    def describe(self):
        return "application %s:\n%s\n" % (self.name, "\n".join("  " + " ".join("%s=%s" % kv for kv in s.items()) for s in self.S))

    def trees(self, r, n):
        """n requests; self.calls: id -> (service, id of the caller, node)"""
        self.calls, self.warms = {}, {}
        ids = [0]

        def tree(s, parent, budget):
            i = "%s%d" % (self.name, ids[0])
            ids[0] += 1
            t = dict(Id=i, M=r.randrange(3), Fail=0, Delay=0, Par=r.random() < 0.3, Logs=r.choice([0, 0, 0, 1, 4]), Calls=[])
            if r.random() < 0.2:
                t["Fail"] = r.choice([1, 1, 2, 100])
            if r.random() < 0.15:
                t["Delay"] = r.choice([5, 20, 60])
            self.calls[i] = (s, parent, t)
            if self.deps[s] and budget > 0 and r.random() < 0.9:
                for k in range(r.randrange(1, 4)):
                    d = r.randrange(len(self.deps[s]))
                    t["Calls"].append(dict(D=d, T=tree(self.deps[s][d], i, budget - 1)))
            return t
        def warm(s):
            ids[0] += 1
            self.warms["warm%d" % ids[0]] = s
            return dict(Id="warm%d" % ids[0], M=0, Fail=0, Delay=0, Par=False, Logs=0, Prop=True, Calls=[dict(D=d, T=warm(x)) for d, x in enumerate(self.deps[s])])
        self.warm = [dict(D=d, T=warm(s)) for d, s in enumerate(self.roots)]
        return [dict(D=d, T=tree(self.roots[d], None, 3)) for d in [r.randrange(len(self.roots)) for _ in range(n)]]


# -------------------------------------------------------------------- collectors

def thrift(b):
    """decodes a struct in thrift's binary protocol: field id -> value"""
    pos = [0]

    def take(f):
        n = struct.calcsize(f)
        v = struct.unpack_from(f, b, pos[0])[0]
        pos[0] += n
        return v

    def value(t):
        if t == 2: return take(">b") != 0
        if t == 3: return take(">b")
        if t == 4: return take(">d")
        if t == 6: return take(">h")
        if t == 8: return take(">i")
        if t == 10: return take(">q")
        if t == 11:
            n = take(">i")
            v = b[pos[0]:pos[0] + n]
            pos[0] += n
            return v
        if t == 12:
            d = {}
            while True:
                ft = take(">b")
                if ft == 0:
                    return d
                fid = take(">h")
                d[fid] = value(ft)
        if t in (14, 15):
            et = take(">b")
            return [value(et) for _ in range(take(">i"))]
        raise ValueError("thrift type %d" % t)
    return value(12)


class Collector:
    """Receives spans like zipkin and jaeger do."""
    def __init__(self):
        self.spans, self.lock, self.bad = [], threading.Lock(), []
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_POST(self):
                b = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                if self.headers.get("Content-Encoding") == "gzip":
                    b = gzip.decompress(b)
                try:
                    ss = me.zipkin(b) if self.path == "/api/v2/spans" else me.jaeger(b) if self.path.startswith("/api/traces") else None
                    with me.lock:
                        if ss is None:
                            me.bad.append(self.path)
                        else:
                            me.spans += ss
                except Exception as x:
                    with me.lock:
                        me.bad.append("%s: %r" % (self.path, x))
                self.send_response(202)
                self.send_header("Content-Length", "0")
                self.end_headers()

            def log_message(self, *a):
                pass
        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.server.daemon_threads = True
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def zipkin(self, b):
        res = []
        for s in json.loads(b):
            ann = [(a["timestamp"], a["value"].split(": {")[0] if a["value"].endswith("}") else a["value"]) for a in s.get("annotations") or []]
            res.append(dict(trace=s["traceId"].rjust(32, "0"), id=s["id"], parent=s.get("parentId") or "", name=s["name"].lower(), start=s["timestamp"], dur=s.get("duration", 0),
                            logs=[v for _, v in sorted(ann, key=lambda x: x[0])]))
        return res

    def jaeger(self, b):
        res = []
        for s in thrift(b).get(2, []):
            u = lambda v: "%016x" % (v & (2**64 - 1))
            logs = []
            for l in s.get(11, []):
                f = {x[1].decode(): x.get(3, b"").decode() for x in l.get(2, []) if 1 in x}
                logs.append((l[1], f.get("event", f.get("name", str(f)))))
            res.append(dict(trace=u(s.get(2, 0)) + u(s.get(1, 0)), id=u(s[3]), parent=u(s[4]) if s.get(4) else "", name=s[5].decode().lower(), start=s[8], dur=s[9],
                            logs=[v for _, v in sorted(logs, key=lambda x: x[0])]))
        return res

    def snapshot(self):
        with self.lock:
            return list(self.spans), list(self.bad)

    def close(self):
        self.server.shutdown()
        self.server.server_close()


# -------------------------------------------------------------------- judges

class Bad(Exception):
    def __init__(self, key, what, detail=""):
        super().__init__(what)
        self.key, self.detail = key, detail


def invocations(a, ev):
    """(id, attempt) -> dict(method, trace, span, pid, failed), from the services' own records"""
    inv = {}
    for x in ev:
        if x[0] in ("in", "out") and x[1].startswith("warm"):
            continue
        if x[0] == "in":
            k = (x[1], int(x[2]))
            inv[k] = dict(id=x[1], method=METHODS[int(x[3])], trace=x[4], span=x[5], sampled=x[6] == "true", pid=x[7], failed=None, svc=a.calls[x[1]][0], parent=a.calls[x[1]][1])
        elif x[0] == "out":
            inv[(x[1], int(x[2]))]["failed"] = x[3] == "true"
    return inv


def complete(a, inv, spans):
    have = {(s["trace"], s["id"]) for s in spans}
    need = {(i["trace"], i["span"]) for i in inv.values() if a.inst[i["svc"]]}
    return need <= have and all(not s["parent"] or (s["trace"], s["parent"]) in have for s in spans)


def judge_calls(a, ev):
    """the wrappers do not change what is called: as many attempts as the retries allow"""
    n = Counter(x[1] for x in ev if x[0] == "in")
    for i, (s, parent, t) in a.calls.items():
        pass
    return n


def judge_traces(a, ev, spans):
    inv = invocations(a, ev)
    by = defaultdict(list)
    begin = next(int(x[1]) for x in ev if x[0] == "begin")
    spans = [s for s in spans if s["start"] >= begin]
    for s in spans:
        by[(s["trace"], s["id"])].append(s)
    for k, ss in by.items():
        if len(ss) > 1:
            raise Bad("twice", "a span was ended %d times" % len(ss), str(ss))
    used = set()
    roots = {}
    nclient = 0
    attempts = defaultdict(list)
    for (i, n) in inv:
        attempts[i].append(n)

    def show(v):
        return "%s of %s (request %s): trace %s span %s" % (v["method"], v["svc"], v["id"], v["trace"], v["span"])

    for (i, n), v in sorted(inv.items()):
        how = a.inst[v["svc"]]
        # the context of the call: that of the attempt of the caller that made it
        callers = [inv[(v["parent"], m)] for m in attempts.get(v["parent"], [])] if v["parent"] else []
        tree = a.calls[i][2]
        if not how:
            continue
        if not v["trace"]:
            raise Bad("nospan", "an instrumented service runs without a span", show(v))
        S = by.get((v["trace"], v["span"]))
        if not S:
            raise Bad("lost", "the span of an invocation was never collected", show(v))
        S = S[0]
        if (S["trace"], S["id"]) in used:
            raise Bad("shared", "two invocations share a span", show(v))
        used.add((S["trace"], S["id"]))
        if not S["name"].endswith("server_" + v["method"].lower()):
            raise Bad("name", "the span of an invocation is called %s" % S["name"], show(v))
        if v["failed"] is None:
            raise Bad("unfinished", "an invocation did not finish", show(v))
        if S["dur"] < tree["Delay"] * 1000:
            raise Bad("short", "the span of an invocation of %d ms lasts %d us" % (tree["Delay"], S["dur"]), show(v))
        check_logs(a, v, S, tree, v["failed"])
        if how == "otel":
            C = by.get((S["trace"], S["parent"]))
            if not S["parent"] or not C:
                raise Bad("noclient", "the span of an invocation has no span of the client as its parent", show(v) + "\n" + str(S))
            C = C[0]
            if not C["name"].endswith("client_" + v["method"].lower()):
                raise Bad("client-name", "the parent of an invocation's span is %s" % C["name"], show(v) + "\n%s\n%s" % (S, C))
            key = (C["trace"], C["id"])
            if key not in used:
                used.add(key)
                nclient += 1
            C.setdefault("for", []).append((i, n, v["failed"]))
            if C["dur"] < S["dur"] and C["dur"] < tree["Delay"] * 1000:
                raise Bad("client-short", "the client's span ends before the invocation does", "%s\n%s" % (S, C))
            top = C
        else:
            top = S
        ctx = {(c["trace"], c["span"]) for c in callers} or {("", "")}
        if top["parent"] == "":
            if ("", "") not in ctx:
                raise Bad("root", "the span of a call is a root although its caller has a span", show(v) + "\ncalled by " + "; ".join(map(show, callers)))
            if roots.setdefault(top["trace"], i) != i and how != "otelserver" and (a.retries.get(v["svc"]) is None):
                raise Bad("trace-shared", "independent requests share a trace", show(v))
            roots[top["trace"]] = i
        elif (top["trace"], top["parent"]) not in ctx:
            raise Bad("parent", "the parent of a call's span is not the span of its caller", show(v) + "\nspan %s, parent %s of trace %s\ncalled by " % (top["id"], top["parent"], top["trace"]) + "; ".join(map(show, callers)))
    for k, ss in by.items():
        s = ss[0]
        if k not in used:
            raise Bad("extra", "a span belongs to no call: %s" % s["name"], str(s))
        for i, n, failed in s.get("for", []):
            pass
        if "for" in s:
            ids = {i for i, _, _ in s["for"]}
            if len(ids) != 1:
                raise Bad("client-shared", "one client span for several calls", str(s))
            last = max(s["for"], key=lambda x: x[1])
            if last[2] != ("exception" in s["logs"]):
                raise Bad("client-error", "the error of a call is not recorded in the client's span" if last[2] else "the client's span records an error of a call that succeeded", str(s))
            if [x for x in s["logs"] if x != "exception"]:
                raise Bad("client-logs", "the client's span has events of something else", str(s))
            if s["logs"].count("exception") > 1:
                raise Bad("client-errors", "the error of a call is recorded twice", str(s))
            # one client span for each attempt, or for all of them
    return inv, nclient


def check_logs(a, v, S, tree, failed):
    want = []
    if a.where[v["svc"]] in a.loggers:
        want = expected_logs(a, v)
        # calls that are not instrumented do not have spans of their own: what local services log belongs to their callers' spans
        got = [x for x in S["logs"] if x != "exception"]
        if tree_plain(a, v["id"]) and got != want:
            raise Bad("logs", "a span does not have what its service logged", "expected %s\nin span %s" % (want, S))
        if Counter(want) - Counter(got):
            raise Bad("logs", "a span does not have what its service logged", "missing %s\nin span %s" % (Counter(want) - Counter(got), S))
    elif [x for x in S["logs"] if x != "exception"]:
        raise Bad("logs-unwanted", "a span has events of a process whose logs are not redirected to traces", str(S))
    # without client spans, errors of calls are recorded in the caller's span
    own, n = (1 if failed else 0), S["logs"].count("exception")
    if plain_errors(a, v["id"]) and n != own or n < own:
        raise Bad("error", "the span of an invocation that %s has %d errors" % ("fails" if failed else "succeeds", S["logs"].count("exception")), str(S))


def tree_plain(a, i):
    """all calls of the invocation have spans of their own or are elsewhere"""
    s, _, t = a.calls[i]
    return all(a.inst[a.calls[c["T"]["Id"]][0]] or a.rpc[a.calls[c["T"]["Id"]][0]] for c in t["Calls"])


def plain_errors(a, i):
    """errors of the calls that the invocation makes are not recorded in its own span"""
    s, _, t = a.calls[i]
    return all(a.inst[a.calls[c["T"]["Id"]][0]] == "otel" or (not a.inst[a.calls[c["T"]["Id"]][0]] and a.rpc[a.calls[c["T"]["Id"]][0]]) for c in t["Calls"])


def expected_logs(a, v):
    t = a.calls[v["id"]][2]
    L = ["in " + v["id"]] + ["note %s %d" % (v["id"], k) for k in range(t["Logs"])]
    ids = [c["T"]["Id"] for c in t["Calls"]]
    if t["Par"]:
        L += ["call " + i for i in ids] + ["ret " + i for i in ids]
    else:
        for i in ids:
            L += ["call " + i, "ret " + i]
    return L + ["out " + v["id"]]


# ---------------------------------------------------------------- vector clocks

def logs(out):
    """process -> [(clock, message)], from the logs that govector writes"""
    res = {}
    for root, _, fs in os.walk(out):
        for f in fs:
            if f.endswith("-Log.txt"):
                name = f[:-len("-Log.txt")]
                L = open(os.path.join(root, f), errors="replace").read().split("\n")
                es, k = [], 0
                while k < len(L):
                    m = re.match(r"(\S+) (\{.*\})$", L[k])
                    if m and m.group(1) == name and k + 1 < len(L):
                        es.append((json.loads(m.group(2)), re.sub(r"^(DEBUG|INFO|WARNING|ERROR|FATAL|NORMAL) ", "", L[k + 1])))
                        k += 2
                    else:
                        k += 1
                res[name] = es
    return res


def leq(a, b):
    return all(v <= b.get(k, 0) for k, v in a.items())


SEND, RECV, REPLY, BACK = "Preparing to make request", "Unpacking go vec context", "Sending response", "Unpacking response"


def judge_clocks(a, ev, out):
    inv = invocations(a, ev)
    L = logs(out)
    want = {p + ".goveclogger" for p in a.procs}
    if set(L) != want:
        raise Bad("logfiles", "the processes %s have no vector clock log" % sorted(want - set(L)), str(sorted(L)))
    stats = Counter()
    sends, recvs = [], []
    for p, es in sorted(L.items()):
        prev = {}
        for k, (c, m) in enumerate(es):
            if c.get(p, 0) != k + 1:
                raise Bad("own", "event %d of %s has its own clock at %d" % (k + 1, p, c.get(p, 0)), str(es[max(0, k - 2):k + 2]))
            if not leq(prev, c):
                raise Bad("back", "the clock of a process goes back", "%s\n%s" % (es[k - 1], es[k]))
            for q, v in c.items():
                if q != p and v > len(L.get(q, [])):
                    raise Bad("future", "a clock counts events that did not happen", "%s: %s" % (p, es[k]))
            if m.startswith(SEND) or m.startswith(REPLY):
                sends.append((p, k, c, m))
            elif m.startswith(RECV) or m.startswith(BACK):
                recvs.append((p, k, c, prev, m))
            else:
                if any(prev.get(q, 0) != v for q, v in c.items() if q != p):
                    raise Bad("local", "a local event changes the clocks of other processes", "%s: %s after %s" % (p, es[k], prev))
            prev = c
            stats["events"] += 1
    # every message that is received was sent: the clock is the maximum of the previous one and that of a message
    for p, k, c, prev, m in recvs:
        kind = SEND if m.startswith(RECV) else REPLY
        rest = {q: v for q, v in c.items() if q != p}
        old = {q: v for q, v in prev.items() if q != p}
        ok = False
        if not rest == old or m.startswith(RECV):
            for q, j, s, sm in sends:
                if sm.startswith(kind) and leq({x: y for x, y in s.items() if x != p}, rest) and s.get(p, 0) <= prev.get(p, 0) + 1 and \
                        all(max(old.get(x, 0), s.get(x, 0)) == y for x, y in rest.items()):
                    ok = True
                    break
        else:
            ok = True   # a reply from this process, or of a call that failed: the connection has no clock then
        if not ok:
            raise Bad("receive", "a process receives a clock that was not sent", "%s: %s %s after %s" % (p, c, m, prev))
        stats["messages"] += 1
    # happened-before of the calls
    at = defaultdict(list)
    for p, es in L.items():
        for c, m in es:
            at[m].append((c, p))
    nreq = sum(1 for v in inv.values() if a.inst[v["svc"]]) + sum(1 for x in ev if x[0] == "in" and x[1].startswith("warm") and a.inst[a.warms[x[1]]])
    nrecv = sum(1 for x in recvs if x[4].startswith(RECV))
    if nrecv != nreq:
        raise Bad("requests", "%d requests were received by instrumented services, and %d clocks" % (nreq, nrecv))
    nsend = sum(1 for x in sends if x[3].startswith(REPLY))
    if nsend != nreq:
        raise Bad("replies", "%d requests were answered by instrumented services, with %d clocks" % (nreq, nsend))
    natt = Counter(i for i, _ in inv)
    for (i, n), v in inv.items():
        p = a.where[v["svc"]] + ".goveclogger"
        for what in ("in ", "out "):
            if len(at[what + i]) != natt[i] or any(q != p for _, q in at[what + i]):
                raise Bad("log", "%r was logged %d times by %s, not by %s" % (what + i, len(at[what + i]), sorted({q for _, q in at[what + i]}), p))
        # edges of calls that succeed at once; their callers were invoked once
        if natt[i] != 1 or (v["parent"] and natt[v["parent"]] != 1) or not a.inst[v["svc"]]:
            continue
        if len(at["call " + i]) != 1 or len(at["ret " + i]) != 1:
            raise Bad("log", "%s was logged %d times" % ("call " + i, len(at["call " + i])))
        call, cin, cout, ret = at["call " + i][0], at["in " + i][0], at["out " + i][0], at["ret " + i][0]
        stats["calls ordered"] += 1
        stats["calls between processes"] += call[1] != cin[1]
        if not leq(call[0], cin[0]) or call[0] == cin[0]:
            raise Bad("order", "the clock at the callee is not after its caller's", "call %s: %s\nin: %s" % (i, call, cin))
        if not v["failed"] and (not leq(cout[0], ret[0]) or cout[0] == ret[0]):
            raise Bad("order-reply", "the clock after the reply is not after the callee's", "out %s: %s\nret: %s" % (i, cout, ret))
    return stats


# ---------------------------------------------------------------- running

def reachable(addr):
    h, _, p = addr.rpartition(":")
    try:
        socket.create_connection((h.replace("0.0.0.0", "127.0.0.1") or "127.0.0.1", int(p)), 1).close()
        return True
    except (OSError, ValueError):
        return False


def execute(c, rn, a, i, n, timeout=120):
    """-> (events, spans, out) or None"""
    e = rn.e
    r = random.Random("%s %d" % (a.name, c.seed))
    trees = a.trees(r, n)
    key = rn.tag + a.kind
    out = rn.build(a.name, port=e.port_block(i), key=key + "-" + a.name)
    if out is None:
        return None
    tf = os.path.join(e.root, a.name + ".trees")
    json.dump(dict(Conc=r.choice([1, 2, 4, 8]), Calls=trees, Warm=a.warm), open(tf, "w"))
    gate = os.path.join(e.root, a.name + ".gate-")
    col = Collector()
    envs = e.read_env(os.path.join(out, ".local.env"))
    env = dict(VERIF_GATE=gate, VERIF_TREES=tf, OTEL_BSP_SCHEDULE_DELAY="100", OTEL_BSP_MAX_QUEUE_SIZE="100000")
    colvars = [k for k in envs if k.startswith("COLLECTOR") and "DIAL" in k]
    servers = [v for k, v in envs.items() if k not in colvars and "DIAL" in k and not k.startswith("COLLECTOR")]
    evlog = os.path.join(e.root, a.name + ".events")
    done = threading.Event()

    def events():
        return [l.split("\t") for l in open(evlog, errors="replace").read().split("\n") if l] if os.path.exists(evlog) else []

    def conduct():
        t0 = time.time()
        while not done.is_set() and time.time() - t0 < timeout:
            if all(map(reachable, servers)) and events():
                break
            time.sleep(0.05)
        open(gate + "start", "w").close()
        while not done.is_set() and time.time() - t0 < timeout:
            if any(x[0] == "called" for x in events()):
                break
            time.sleep(0.05)
        t1 = time.time()
        if a.kind == "ot":
            inv = invocations(a, events())
            while not done.is_set() and time.time() - t1 < 25 and not complete(a, inv, col.snapshot()[0]):
                time.sleep(0.1)
            time.sleep(0.4)
        open(gate + "stop", "w").close()
    th = threading.Thread(target=conduct)
    th.start()
    try:
        # the addresses in .local.env come first, except for that of the collector
        ev = dict(envs, **{k: "127.0.0.1:%d" % col.port for k in colvars})
        res = rn.run(a.name, out, key=key + "-" + a.name, timeout=timeout, env=env, units=[(os.path.join(out, "linux"), "bash", ev)])
    finally:
        done.set()
        th.join()
        col.close()
    if res in (None, "ports"):
        return res
    spans, bad = col.snapshot()
    if bad:
        c.violate(key + "-collector", "the tracer sends something that the collector does not understand", str(bad[:5]))
    return res, spans, out


def check_app(c, rn, a, i, n):
    for attempt in range(3):
        x = execute(c, rn, a, i + 40 * attempt, n)
        if x != "ports":
            break
    if x is None:
        return
    if x == "ports":
        raise vlib.CheckError("no free ports")
    res, spans, out = x
    ev = res["events"]
    try:
        n = sum(1 for y in ev if y[0] == "in")
        c.observe("invocations", n)
        c.observe("failing invocations", sum(1 for y in ev if y[0] == "out" and y[3] == "true"))
        if a.kind == "ot":
            inv, nclient = judge_traces(a, ev, spans)
            c.observe("spans collected by " + a.collector, len(spans))
            c.observe("client spans", nclient)
            c.observe("log events in spans", sum(len(s["logs"]) for s in spans))
            c.case(1)
        else:
            stats = judge_clocks(a, ev, out)
            for k, v in stats.items():
                c.observe("vector clock " + k, v)
            c.case(1)
        c.observe("applications")
    except Bad as x:
        c.violate("%s-%s" % (a.kind, x.key), str(x), a.describe() + x.detail + "\n" + "\n".join("\t".join(y) for y in ev[:400]))
    shutil.rmtree(out, ignore_errors=True)


def check(c):
    f, types = workflow()
    q = not c.thorough
    for rpcs, n in ((("http",), 6 if q else 40), (("http", "grpc"), 6 if q else 40)):
        A = [App("t%d" % i, c.seed * 7919 + i * 31 + len(rpcs), rpcs, ["ot", "ot", "govector"][i % 3]) for i in range(n)]
        e = core.E2E(c, [a.json() for a in A], f, types, rpc="grpc" if "grpc" in rpcs else "http", root="trace-" + "-".join(rpcs))
        rn = monitor.Runner(c, e, tag="-".join(rpcs) + "-")
        monitor.parallel([lambda i=i, a=a: check_app(c, rn, a, i, 150 if q else 600) for i, a in enumerate(A)], 3)
        for k, v in rn.stats.items():
            c.observe(k, v)
        shutil.rmtree(e.root)
