"""Judges the executions of generated programs."""
import os, re, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import vlib
from . import core


def processes(app):
    """on which process a service's implementation runs, from the wiring statements"""
    where = {}
    for s in app["Stmts"]:
        if s["Op"] == "process":
            for x in s["Args"]:
                where[x] = s["On"]
        elif s["Op"] == "addtoprocess":
            where[s["Args"][0]] = s["On"]
    # whatever is not placed explicitly is instantiated by the processes that use it
    return where


def clean(log):
    """compiler output without the stack traces of its errors"""
    out = []
    for l in log.replace("\0", "").splitlines():
        if l.startswith("\t/") or re.match(r"goroutine \d+ \[|created by |[\w./*()\[\]\-]+\(.*\)$|[\w./]+\.\S+\(0x", l):
            continue
        out.append(l)
    return "\n".join(out)


class Runner:
    """Compiles, builds and runs applications and reports what the monitors saw to the check."""
    def __init__(self, c, e, tag=""):
        self.c, self.e, self.tag = c, e, tag
        self.stats = Counter()

    def violate(self, key, what, detail):
        self.c.violate(key, what, detail)

    def describe(self, app):
        return "application %s:\n%s\n" % (app["Name"], "\n".join("  " + " ".join("%s=%s" % kv for kv in s.items()) for s in app["Stmts"]))

    def build(self, name, port=None, key=None, must_compile=True):
        """-> out or None"""
        e, app = self.e, self.e.apps[name]
        key = key or self.tag + name
        rc, log, out = e.compile(name, port=port)
        if rc == "timeout":
            self.violate(key + "-compile-hangs", "the compiler did not finish on a valid wiring spec", self.describe(app) + clean(log)[-4000:])
            return None
        if rc != 0:
            self.violate(key + "-compile", "the compiler rejects a valid wiring spec", self.describe(app) + clean(log)[-6000:])
            return None
        self.stats["compiled"] += 1
        bad = [(d, l) for d, ok, l in e.build_all(out) if not ok]
        if bad:
            self.violate(key + "-build", "the generated program does not compile", self.describe(app) +
                         "\n".join("%s\n%s" % (os.path.relpath(d, out), core.compile_errors(l) or l[-3000:]) for d, l in bad))
            return None
        self.stats["built"] += len(e.workspaces(out))
        return out

    def run(self, name, out, key=None, timeout=150, env=None, tries=2, **kw):
        """-> result of core.run, or None after a violation"""
        e, app = self.e, self.e.apps[name]
        key = key or self.tag + name
        r = e.run(name, out, timeout=timeout, env=dict(VERIF_SEED=str(self.c.seed), **(env or {})), **kw)
        tail = "\n--- output ---\n" + r["log"][-6000:]
        if not r["ended"]:
            if "address already in use" in r["log"]:
                return "ports"
            m = re.search(r"(?m)^(panic: .*|fatal error: .*)$", r["log"])
            if m:
                i = r["log"].find(m.group(1))
                self.violate(key + "-crash", "a generated program crashed: " + m.group(1)[:200], self.describe(app) + r["log"][i:i + 6000])
            elif r["exited"]:
                self.violate(key + "-exit", "the generated program ended before the requests were done", self.describe(app) + tail)
            elif r["events"]:
                self.violate(key + "-hang", "the generated program stopped making progress (after %d events, %d s)" % (len(r["events"]), timeout), self.describe(app) + tail)
            else:
                self.violate(key + "-nostart", "the generated program did not start its driver within %d s" % timeout, self.describe(app) + tail)
            return None
        if any(x[0] == "notready" for x in r["events"]):
            if "address already in use" in r["log"]:
                return "ports"
            self.violate(key + "-notready", "a client cannot reach its server", self.describe(app) + str([x for x in r["events"] if x[0] == "notready"]) + tail)
            return None
        m = re.search(r"(?m)^.*(panic: |http: panic serving|fatal error: ).*$", r["log"])
        if m:
            i = r["log"].find(m.group(0))
            self.violate(key + "-panic", "a generated program panicked: " + m.group(0)[:200], self.describe(app) + r["log"][i:i + 6000])
        if "WARNING: DATA RACE" in r["races"]:
            self.c.race_reports(r["races"])
        self.stats["runs"] += 1
        return r

    def calls(self, name, r, key=None):
        """the monitors over the requests of a run: results, exactly one invocation each, placement"""
        app = self.e.apps[name]
        key = key or self.tag + name
        ev = r["events"]
        diffs = [x for x in ev if x[0] == "diff"]
        for kind in sorted({d[1] for d in diffs}):
            ds = [d for d in diffs if d[1] == kind]
            self.violate("%s-%s" % (key, kind), {
                "result": "a call through the generated client returns something else than the implementation",
                "error": "a call through the generated client fails or succeeds where the implementation does not",
                "args": "the generated client modifies its arguments",
                "panic": "a call through the generated client panics"}.get(kind, kind),
                self.describe(app) + "\n".join("\t".join(d) for d in ds[:10]) + "\n(%d such calls)" % len(ds) + "\n--- output ---\n" + r["log"][-2500:])
        send = Counter((x[1], x[2], x[3]) for x in ev if x[0] == "send" and len(x) > 3)
        call = Counter((x[1], x[2], x[3]) for x in ev if x[0] == "call" and len(x) > 3)
        if send != call:
            lost, extra = send - call, call - send
            self.violate(key + "-exactly-once", "%d requests did not reach the implementation with their arguments, and %d invocations were not requested" % (
                sum(lost.values()), sum(extra.values())), self.describe(app) + "lost: %s\nextra: %s\n" % (lost.most_common(8), extra.most_common(8)) + r["log"][-2500:])
        self.stats["requests"] += sum(send.values())
        self.stats["invocations"] += sum(call.values())
        self.stats["errors returned"] += sum(1 for x in ev if x[0] == "done" and x[-1] == "true")
        pids = {}
        for x in ev:
            if x[0] == "call" and len(x) > 4:
                pids.setdefault(x[1], set()).add(x[4])
        dpid = {x[4] for x in ev if x[0] == "send" and len(x) > 4}
        return pids, dpid

    def placement(self, name, pids, dpid, impl_of, driver="driver", key=None):
        """impl_of: name recorded by the implementation -> its node, and the nodes it is instantiated with if it is not placed itself. Implementations run in the process they were placed in."""
        app = self.e.apps[name]
        key = key or self.tag + name
        where = processes(app)
        seen = {}
        msgs = []
        for svc, ps in sorted(pids.items()):
            if len(ps) != 1:
                msgs.append("%s was executed by %d processes" % (svc, len(ps)))
                continue
            proc = next((where[n] for n in impl_of[svc] if n in where), where.get(driver))
            seen.setdefault(proc, set()).update(ps)
        if dpid:
            seen.setdefault(where.get(driver), set()).update(dpid)
        for proc, ps in seen.items():
            if len(ps) != 1:
                msgs.append("the services of %s ran in %d operating system processes" % (proc, len(ps)))
        allp = [p for ps in seen.values() for p in ps]
        if len(set(allp)) != len(allp):
            msgs.append("services placed in different processes ran in the same one: %s" % seen)
        if msgs:
            self.violate(key + "-placement", "services run in other processes than the wiring spec puts them in", self.describe(app) + "\n".join(msgs) + "\n%s\n" % pids)
        self.stats["process placements checked"] += len(seen)


def parallel(jobs, workers=3):
    """runs the thunks, raising the first harness error after all are done"""
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(j) for j in jobs]
        errs = [f.exception() for f in fs]
    for x in errs:
        if x:
            raise x
    return [f.result() for f in fs]
