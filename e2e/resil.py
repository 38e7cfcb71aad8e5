"""C13: resilience modifiers of generated programs under scripted faults."""
import json, os, random, re, shutil
from collections import Counter, defaultdict
import vlib
from . import core, monitor
from .apps import st

NI = 6   # interfaces

IMPL = """
// Svc%(k)d is a scripted service.
type Svc%(k)d interface {
	Ready%(k)d(ctx context.Context) error
	Do(ctx context.Context, id int64, fail int64, delay int64, payload string) (string, int64, error)
	Void(ctx context.Context, id int64, fail int64, delay int64) error
}

type Impl%(k)d struct {
	s *util.Scripted
	name string
}

func NewImpl%(k)d(ctx context.Context, name string) (*Impl%(k)d, error) {
	return &Impl%(k)d{s: util.NewScripted(name[2:]), name: name[2:]}, nil
}
func (i *Impl%(k)d) Ready%(k)d(ctx context.Context) error { return nil }
func (i *Impl%(k)d) Do(ctx context.Context, id int64, fail int64, delay int64, payload string) (string, int64, error) {
	if err := i.s.Call(i.name, id, fail, delay); err != nil {
		return "failed", -1, err
	}
	return "res:" + payload, id * 3, nil
}
func (i *Impl%(k)d) Void(ctx context.Context, id int64, fail int64, delay int64) error {
	return i.s.Call(i.name, id, fail, delay)
}
"""



def workflow(apps):
    """The workflow module: NI interfaces with scripted implementations and one driver per application."""
    L = ['package svc', '', 'import (', '\t"context"', '\t"verif.test/wf/util"', ')']
    for k in range(NI):
        L.append(IMPL % dict(k=k))
    files = {"svc/svc.go": "\n".join(L) + "\n"}
    D = ['package svc', '', 'import (', '\t"context"', '\t"time"', '\t"verif.test/wf/util"', ')', '',
         '// Driver exercises the services it is given.', 'type Driver interface { Poke(ctx context.Context) error }']
    types = {"Impl%d" % k: "*svc.Impl%d" % k for k in range(NI)}
    for a in apps:
        n = a["Name"]
        svcs = a["Services"]
        D.append("""
type Driver_%s struct { clients map[string]any; names []string; ready []func(context.Context) error }

func NewDriver_%s(ctx context.Context, %s) (*Driver_%s, error) {
	return &Driver_%s{clients: map[string]any{%s}, names: []string{%s}, ready: []func(context.Context) error{%s}}, nil
}
func (d *Driver_%s) Poke(ctx context.Context) error { return nil }
func (d *Driver_%s) Run(ctx context.Context) error {
	for k, r := range d.ready {
		var err error
		for i := 0; i < 300; i++ {
			if err = r(ctx); err == nil {
				util.Record("ready", d.names[k], i)
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if err != nil {
			util.Record("notready", err)
			util.Record("end")
			return nil
		}
	}
	util.RunPlan(ctx, d.clients)
	util.Record("end")
	return nil
}""" % (n, n, ", ".join("%s Svc%d" % (s["name"], s["iface"]) for s in svcs), n, n,
            ", ".join('"%s": %s' % (s["name"], s["name"]) for s in svcs),
            ", ".join('"%s"' % s["name"] for s in svcs if s.get("ready", True)),
            ", ".join("%s.Ready%d" % (s["name"], s["iface"]) for s in svcs if s.get("ready", True)), n, n))
        types["Driver_" + n] = "*svc.Driver_" + n
    files["svc/driver.go"] = "\n".join(D) + "\n"
    return files, types


def app(name, services, nprocs=1):
    """services: dict(name, iface, mods=[(op, ...)], rpc=None|'http', replicas=0)"""
    S = []
    procs = defaultdict(list)
    for i, s in enumerate(services):
        if s.get("replicas"):
            reps = []
            for r in range(s["replicas"]):
                rn = "%s_r%d" % (s["name"], r)
                S.append(st("service", rn, Type="Impl%d" % s["iface"], Args=["n:" + s["name"]]))
                if s.get("rpc"):
                    S.append(st(s["rpc"], rn))
                    procs["srv%d" % (r % nprocs)].append(rn)
                reps.append(rn)
            S.append(st("loadbalancer", s["name"], Type="Impl%d" % s["iface"], Args=reps))
            s["node"] = s["name"] + "_lb"
            continue
        S.append(st("service", s["name"], Type="Impl%d" % s["iface"], Args=["n:" + s["name"]]))
        for m in s["mods"]:
            S.append(st(m[0], s["name"], **m[1]))
        if s.get("rpc"):
            S.append(st(s["rpc"], s["name"]))
            procs["srv%d" % (i % nprocs)].append(s["name"])
    S.append(st("service", "driver", Type="Driver_" + name, Args=[s.get("node", s["name"]) for s in services]))
    for p, xs in sorted(procs.items()):
        S.append(st("process", p, Args=xs))
    S.append(st("process", "driver_proc", Args=["driver"]))
    return dict(Name=name, Stmts=S, Nodes=["driver_proc"] + sorted(procs), Services=services)


# ---------------------------------------------------------------- what the wrappers promise, executed on a script

def dur(s):
    m = re.match(r"([\d.]+)(ms|s)$", s)
    return float(m.group(1)) * (1 if m.group(2) == "ms" else 1000)


class Sim:
    """One request against a stack of modifiers (outermost first): ok, duration in ms, number of invocations, gaps."""
    def __init__(self, mods, fail, delay):
        # wrappers of the server are inside those of the client
        self.mods, self.fail, self.delay = sorted(mods, key=lambda m: m[0] in ("latency", "randomdelay", "failures", "health")), fail, delay
        self.inv = 0
        self.ok, self.dur, self.timed = self.level(0, None)

    def level(self, i, dl):
        if i == len(self.mods):
            self.inv += 1
            if self.fail < 0:
                return True, self.delay, False
            if self.inv <= self.fail:
                return False, self.delay, False
            return True, 0, False
        op, a = self.mods[i]
        if op in ("retries", "retriesdelay", "retriesrate"):
            total = 0
            for t in range(a["N"]):
                ok, d, timed = self.level(i + 1, dl)
                total += d
                if ok:
                    return True, total, timed
                if op == "retriesdelay":
                    total += dur(a["S"])
            return False, total, timed
        if op == "retriesbackoff":
            d0, lim, total = dur(a["S"]), dur(a["Args"][0]), 0
            while True:
                ok, d, timed = self.level(i + 1, dl)
                total += d
                if ok or d0 >= lim:
                    return ok, total, timed
                total += d0 * (.5 if a.get("B") else 1)
                d0 = min(2 * d0, lim)
        if op == "timeout":
            T = dur(a["S"])
            ok, d, timed = self.level(i + 1, T)
            if d > T:
                return False, T, True
            return ok, d, timed
        if op == "retriestimeouts":
            total = 0
            for t in range(a["N"]):
                ok, d, timed = self.level(i + 1, dl)
                if d > dur(a["S"]):
                    ok, d, timed = False, dur(a["S"]), True
                total += d
                if ok:
                    return True, total, timed
            return False, total, timed
        if op == "latency":
            ok, d, timed = self.level(i + 1, dl)
            return ok, d + dur(a["S"]), timed
        return self.level(i + 1, dl)


class Judge:
    def __init__(self, R, app, plan, events):
        self.R, self.app, self.plan = R, app, plan
        self.svc = {s["name"]: s for s in app["Services"]}
        self.call = {}
        for pi, ph in enumerate(plan["Phases"]):
            for c in ph["Calls"]:
                self.call[c["Id"]] = dict(c, phase=pi)
        self.inv, self.fin, self.ret = defaultdict(list), defaultdict(list), {}
        self.order = []      # all inv/fin/ret in log order
        self.news = defaultdict(set)
        self.stuck = None
        self.lags = []
        self.ready = {}
        for e in events:
            if e[0] == "inv":
                x = dict(svc=e[1], inst=e[2], id=int(e[3]), a=int(e[4]), cur=int(e[5]), t=int(e[6]))
                self.inv[x["id"]].append(x)
                self.order.append(("inv", x))
            elif e[0] == "fin":
                x = dict(svc=e[1], inst=e[2], id=int(e[3]), a=int(e[4]), t=int(e[5]))
                self.fin[x["id"]].append(x)
                self.order.append(("fin", x))
            elif e[0] == "ret":
                x = dict(svc=e[1], id=int(e[2]), kind=e[3], res=e[4], t0=int(e[5]), t1=int(e[6]))
                self.ret[x["id"]] = x
                self.order.append(("ret", x))
            elif e[0] == "new":
                self.news[e[1]].add(e[2])
            elif e[0] == "ready":
                self.ready[e[1]] = int(e[2])
            elif e[0] == "lag":
                self.lags.append((int(e[1]), int(e[2])))
            elif e[0] == "stuck":
                self.stuck = e
        self.stats = Counter()
        self.found = {}

    def bad(self, kind, svc, what, *ids):
        lines = [self.R.describe(dict(self.app)), "service %s: %s" % (svc, self.svc[svc]["mods"]), what]
        for i in ids[:6]:
            lines.append("call %s\n  inv %s\n  fin %s\n  ret %s" % (self.call.get(i), self.inv.get(i), self.fin.get(i), self.ret.get(i)))
        self.found.setdefault((svc, kind), (what, "\n".join(lines)))

    def run(self):
        for i, c in self.call.items():
            r = self.ret.get(i)
            if not r:
                self.bad("lost", c["S"], "a call never returned", i)
            elif r["kind"] == "panic":
                self.bad("panic", c["S"], "a call panicked: " + r["res"][:200], i)
            elif r["kind"] == "ok" and r["res"] != "ok":
                self.bad("result", c["S"], "a call returned something else than the implementation: " + r["res"], i)
        for i in self.inv:
            if i not in self.call:
                self.found[("", "stray")] = ("the implementation was invoked with arguments that nobody sent", str(self.inv[i]))
            for x in self.inv[i]:
                if i in self.call and x["svc"] != self.call[i]["S"]:
                    self.bad("wrong-service", self.call[i]["S"], "a call reached the implementation of %s" % x["svc"], i)
        if self.stuck:
            self.found[("", "stuck")] = ("%s goroutines that wrappers started never end" % self.stuck[1], self.R.describe(dict(self.app)) + self.stuck[2].replace(" | ", "\n"))
        for s in self.app["Services"]:
            calls = [c for c in self.call.values() if c["S"] == s["name"] and c["Id"] in self.ret]
            ops = [m[0] for m in s["mods"]]
            if s.get("replicas"):
                self.balancer(s, calls)
            elif "breaker" in ops and s.get("breaker_test"):
                self.breaker(s, calls)
            elif s.get("flat"):
                self.failures(s, calls)
            elif "retriesbucket" in ops:
                self.bucket(s, calls)
            else:
                self.stack(s, calls)
            for op, a in s["mods"]:
                if op == "pool" and not {"timeout", "retriestimeouts"} & set(ops):
                    # (with a timeout between the pool and the server, calls outlive their client's use)
                    self.pool(s, a["N"])
                elif op == "randomdelay":
                    self.randomdelay(s, calls, a["N"])
                elif op == "latency":
                    self.latency(s, calls, dur(a["S"]))
                elif op == "retriesrate" and a["F"] > 0:
                    self.rate(s, calls, a["F"])
        return self.stats

    def lagged(self, c):
        """A process was not scheduled in time while the call was under way."""
        r = self.ret[c["Id"]]
        return any(a < r["t1"] and b > r["t0"] for a, b in self.lags)

    def stack(self, s, calls):
        for c in calls:
            i = c["Id"]
            r = self.ret[i]
            sim = Sim(s["mods"], c["Fail"], c["Delay"])
            n = len(self.inv[i])
            if self.lagged(c) and any(m[0] in ("timeout", "retriestimeouts") for m in s["mods"]):
                self.stats["skipped: machine too slow"] += 1
                continue
            self.stats["requests judged"] += 1
            self.stats["invocations"] += n
            if n != sim.inv:
                self.bad("invocations", s["name"], "a call caused %d invocations of the implementation instead of %d" % (n, sim.inv), i)
                continue
            if (r["kind"] == "ok") != sim.ok:
                self.bad("outcome", s["name"], "a call %s although it should %s" % (
                    "succeeded" if r["kind"] == "ok" else "failed (%s)" % r["res"], "succeed" if sim.ok else "fail"), i)
                continue
            if not sim.ok and not sim.timed and not s.get("rpc") and r["res"] != "scripted failure %d of %d" % (n, i):
                self.bad("error", s["name"], "the error of a call is not the last one: " + r["res"], i)
            took = (r["t1"] - r["t0"]) / 1000
            if took < sim.dur * .98 - 2:
                self.bad("early", s["name"], "a call took %.1f ms although it must take at least %.1f ms" % (took, sim.dur), i)
            if sim.timed:
                self.stats["timeouts"] += 1
            if n > 1:
                self.stats["retried requests"] += 1
            # attempts are separated by the configured delay
            if s["mods"] and s["mods"][0][0] in ("retriesdelay", "retriesbackoff") and len(s["mods"]) == 1:
                op, a = s["mods"][0]
                d = dur(a["S"])
                for x, y in zip(self.fin[i], self.inv[i][1:]):
                    gap = (y["t"] - x["t"]) / 1000
                    if gap < d * (.5 if a.get("B") else 1) - 2:
                        self.bad("gap", s["name"], "attempts are %.1f ms apart instead of %.1f ms" % (gap, d), i)
                        break
                    if op == "retriesbackoff":
                        d = min(2 * d, dur(a["Args"][0]))
                    self.stats["gaps"] += 1

    def pool(self, s, n):
        cur = mx = 0
        for k, x in self.order:
            if x["svc"] != s["name"]:
                continue
            cur += k == "inv"
            cur -= k == "fin"
            mx = max(mx, cur)
        if mx > n:
            self.bad("pool", s["name"], "%d concurrent calls through a pool of %d clients" % (mx, n))
        if s.get("expect_full") and mx < n:
            # the callers outnumber the clients and the calls take long enough
            self.bad("pool-unused", s["name"], "at most %d of the %d clients of a pool were in use at a time although more callers were waiting" % (mx, n))
        self.stats["pool maxima"] += 1

    def latency(self, s, calls, d):
        n = 0
        for c in calls:
            r = self.ret[c["Id"]]
            if (r["t1"] - r["t0"]) / 1000 < d * .98 - 2:
                self.bad("latency", s["name"], "a call took %.1f ms although %.1f ms of latency are injected" % ((r["t1"] - r["t0"]) / 1000, d), c["Id"])
                return
            n += 1
        self.stats["latencies"] += n

    def randomdelay(self, s, calls, d):
        took = [(self.ret[c["Id"]]["t1"] - self.ret[c["Id"]]["t0"]) / 1000 for c in calls if not self.lagged(c)]
        if len(took) >= 25 and (max(took) < d * .25 or min(took) > d):
            self.bad("randomdelay", s["name"], "calls took %.1f to %.1f ms although they are delayed by up to %d ms" % (min(took), max(took), d))
        self.stats["random delays"] += len(took)

    def rate(self, s, calls, rate):
        """retries (not first attempts) per time window"""
        ts = sorted(x["t"] for c in calls for x in self.inv[c["Id"]] if x["a"] > 1)
        for i in range(len(ts)):
            # within w seconds at most rate*(1+w) retries
            for j in (i + int(rate) + 1, i + int(2 * rate), i + int(3 * rate)):
                if j < len(ts):
                    w = (ts[j] - ts[i]) / 1e6
                    if j - i + 1 > rate * (1 + w) + 2 + rate * .05:
                        self.bad("rate", s["name"], "%d retries within %.3f s at a limit of %s per second" % (j - i + 1, w, rate))
                        return
        self.stats["rate-limited retries"] += len(ts)

    def bucket(self, s, calls):
        a = next(m[1] for m in s["mods"] if m[0] == "retriesbucket")
        cap, cost, repl = float(a["N"]), a["F"], 1.0
        retries = succ = 0
        for c in calls:
            n = len(self.inv[c["Id"]])
            r = self.ret[c["Id"]]
            self.stats["requests judged"] += 1
            if n > 2 or n == 0:
                self.bad("invocations", s["name"], "%d invocations" % n, c["Id"])
                return
            last = max(x["a"] for x in self.inv[c["Id"]])
            if (r["kind"] == "ok") != (last > c["Fail"]):
                self.bad("outcome", s["name"], "the outcome of a call is not that of its last attempt", c["Id"])
                return
            if n == 2 and c["Fail"] == 0:
                self.bad("retried-success", s["name"], "a successful call was retried", c["Id"])
                return
            if n == 2:
                retries += 1
                succ += r["kind"] == "ok"
        if retries * cost > cap + succ * repl + 1e-6:
            self.bad("bucket", s["name"], "%d retries (%d successful) cost more than the bucket of %s tokens can pay for" % (retries, succ, cap))
        # sequential calls are predictable: a retry happens when more than one token remains
        if not any(self.plan["Phases"][c["phase"]]["Conc"] > 1 for c in calls):
            tb = cap
            for c in sorted(calls, key=lambda c: self.ret[c["Id"]]["t0"]):
                if c["Fail"] == 0:
                    continue
                exp = 1 if tb - cost < 1 else 2
                if len(self.inv[c["Id"]]) != exp:
                    self.bad("bucket-seq", s["name"], "with %s tokens left a failing call was attempted %d times" % (tb, len(self.inv[c["Id"]])), c["Id"])
                    return
                if exp == 2:
                    tb -= cost
                    if c["Fail"] == 1:
                        tb = min(tb + repl, cap)
        self.stats["bucket retries"] += retries

    def failures(self, s, calls):
        p = next(m[1]["N"] for m in s["mods"] if m[0] == "failures") / 100.0
        fails = 0
        for c in calls:
            n, r = len(self.inv[c["Id"]]), self.ret[c["Id"]]
            if (r["kind"] == "ok") != (n == 1) or n > 1:
                self.bad("failures", s["name"], "a call was %s although the implementation was invoked %d times" % (r["kind"], n), c["Id"])
                return
            fails += r["kind"] == "err"
            self.stats["requests judged"] += 1
        n = len(calls)
        sd = 6 * (p * (1 - p) * n) ** .5 + 1e-9
        if abs(fails - p * n) > sd:
            self.bad("failure-rate", s["name"], "%d of %d calls failed at a configured probability of %d%%" % (fails, n, p * 100))
        self.stats["injected failures"] += fails

    def balancer(self, s, calls):
        cnt = Counter()
        for c in calls:
            if len(self.inv[c["Id"]]) != 1:
                self.bad("invocations", s["name"], "a call reached %d replicas" % len(self.inv[c["Id"]]), c["Id"])
                return
            cnt[self.inv[c["Id"]][0]["inst"]] += 1
            if (self.ret[c["Id"]]["kind"] == "ok") != (c["Fail"] < 1):
                self.bad("outcome", s["name"], "the result of a balanced call is not that of the replica", c["Id"])
                return
            self.stats["requests judged"] += 1
        if len(self.news[s["name"]]) != s["replicas"]:
            self.bad("replicas", s["name"], "%d replicas were created instead of %d" % (len(self.news[s["name"]]), s["replicas"]))
        k = s["replicas"]
        vals = [cnt.get(i, 0) for i in self.news[s["name"]]]
        # Ready calls before the plan moved the balancer by one
        if len(vals) != k or max(vals) - min(vals) > 1:
            self.bad("balance", s["name"], "%d calls were spread over the replicas as %s" % (len(calls), sorted(vals)))
        self.stats["balanced requests"] += len(calls)

    def breaker(self, s, calls):
        """phase 0: only successes; phase 1: enough failures; phase 2: immediately after them; phase 3: after the breaker's pause"""
        a = next(m[1] for m in s["mods"] if m[0] == "breaker")
        for c in calls:
            i, r = c["Id"], self.ret[c["Id"]]
            n = len(self.inv[i])
            rejected = r["kind"] == "err" and "circuit breaker open" in r["res"]
            role = s["breaker_test"][str(c["phase"])]
            self.stats["requests judged"] += 1
            if rejected != (n == 0):
                self.bad("breaker", s["name"], "a call was %srejected although it caused %d invocations" % ("" if rejected else "not ", n), i)
                return
            if role == "closed" and rejected:
                self.bad("breaker-closed", s["name"], "a closed circuit breaker rejected a call", i)
                return
            if role == "open" and not rejected:
                r1 = max(self.ret[x["Id"]]["t1"] for x in calls if s["breaker_test"][str(x["phase"])] == "trip")
                if (r["t1"] - r1) / 1e3 < 400:
                    self.bad("breaker-open", s["name"], "a call was let through after %s%% of %s requests had failed" % (a["F"] * 100, a["N"]), i)
                    return
            if not rejected and (r["kind"] == "ok") != (c["Fail"] == 0):
                self.bad("outcome", s["name"], "the outcome is not that of the implementation", i)
                return
            self.stats["breaker: " + role + (" rejected" if rejected else " passed")] += 1
        trips = [c for c in calls if s["breaker_test"][str(c["phase"])] == "trip"]
        ok = sum(1 for c in calls if s["breaker_test"][str(c["phase"])] == "closed")
        # the driver's attempts to reach the service count
        ok += 1
        early = self.ready[s["name"]]
        f = 1
        while f + early + ok < a["N"] or f + early < a["F"] * (f + early + ok):
            f += 1
        seen = sum(1 for c in trips if self.inv[c["Id"]])
        span = max(self.ret[c["Id"]]["t1"] for c in trips) - min(self.ret[c["Id"]]["t0"] for c in trips)
        if span / 1000 < 400 and seen != f:
            self.bad("breaker-trip", s["name"], "after %d successful calls %d failing calls were let through although %d fill the quota" % (ok, seen, f))
        rec = [c for c in calls if s["breaker_test"][str(c["phase"])] == "recover"]
        if rec and not any(self.inv[c["Id"]] for c in rec):
            self.bad("breaker-stays-open", s["name"], "an open circuit breaker never closed again")


# ---------------------------------------------------------------- applications and plans

def svc(name, iface, *mods, **kw):
    return dict(name=name, iface=iface, mods=[(m[0], dict(m[1])) for m in mods], **kw)


def fixed_apps():
    return [
        app("retry", [
            svc("r3", 0, ("retries", dict(N=3))),
            svc("r5", 0, ("retries", dict(N=5))),
            svc("d2", 1, ("retriesdelay", dict(N=2, S="40ms"))),
            svc("d4", 1, ("retriesdelay", dict(N=4, S="10ms"))),
            svc("b40", 2, ("retriesbackoff", dict(S="5ms", Args=["40ms"]))),
            svc("b30", 2, ("retriesbackoff", dict(S="20ms", Args=["30ms"]))),
            svc("j32", 3, ("retriesbackoff", dict(S="8ms", Args=["32ms"], B=True))),
            svc("j60", 3, ("retriesbackoff", dict(S="30ms", Args=["60ms"], B=True)), rpc="http"),
            svc("rl20", 4, ("retriesrate", dict(N=4, F=20))),
            svc("rl0", 4, ("retriesrate", dict(N=6, F=0))),
            svc("tb10", 5, ("retriesbucket", dict(N=10, F=2.5)), seq=True),
            svc("tb30", 5, ("retriesbucket", dict(N=30, F=1.5))),
            svc("r2h", 0, ("retries", dict(N=2)), rpc="http"),
        ], nprocs=1),
        app("prot", [
            svc("t200", 0, ("timeout", dict(S="200ms"))),
            svc("t600", 0, ("timeout", dict(S="600ms"))),
            svc("t300", 1, ("timeout", dict(S="300ms")), rpc="http"),
            svc("rt", 1, ("retriestimeouts", dict(N=2, S="200ms")), rpc="http"),
            svc("cb5", 2, ("breaker", dict(N=5, F=.5, S="60s")), breaker_test={}),
            svc("cb12", 2, ("breaker", dict(N=12, F=.8, S="60s")), breaker_test={}, rpc="http"),
            svc("p2", 3, ("pool", dict(N=2)), rpc="http", expect_full=True),
            svc("p5", 3, ("pool", dict(N=5)), rpc="http", expect_full=True),
            svc("l30", 4, ("latency", dict(S="30ms"))),
            svc("l90", 4, ("latency", dict(S="90ms")), rpc="http"),
            svc("f30", 5, ("failures", dict(N=30)), flat=150),
            svc("f75", 5, ("failures", dict(N=75)), rpc="http", flat=150),
            svc("rd", 4, ("randomdelay", dict(N=160))),
        ], nprocs=2),
        app("lb", [
            svc("three", 0, replicas=3, rpc="http"),
            svc("four", 0, replicas=4),
            svc("one", 1, replicas=1, rpc="http"),
        ], nprocs=2),
    ]


def random_app(name, r):
    out = []
    for i in range(8):
        rpc = r.choice([None, "http", "http"])
        mods = []
        kinds = ["retries", "retriesdelay", "retriesbackoff", "timeout", "retriestimeouts", "latency", "breaker", "failures0", "health"] + (["pool"] if rpc else [])
        r.shuffle(kinds)
        for k in kinds:
            if len(mods) >= r.choice([2, 3, 4]):
                break
            ops = [m[0] for m in mods]
            retr = {"retries", "retriesdelay", "retriesbackoff", "retriestimeouts"}
            if k in retr and retr & set(ops) or k in ("timeout", "retriestimeouts") and {"timeout", "retriestimeouts"} & set(ops):
                continue
            if k == "pool" and {"timeout", "retriestimeouts"} & set(ops):
                continue      # waiting for a client counts towards the timeout
            if k == "health" and rpc != "http":
                continue
            mods.append({
                "retries": ("retries", dict(N=r.choice([1, 2, 3, 4]))),
                "retriesdelay": ("retriesdelay", dict(N=r.choice([2, 3]), S=r.choice(["3ms", "12ms"]))),
                "retriesbackoff": ("retriesbackoff", dict(S="3ms", Args=[r.choice(["12ms", "20ms"])], B=r.random() < .5)),
                "timeout": ("timeout", dict(S=r.choice(["250ms", "400ms"]))),
                "retriestimeouts": ("retriestimeouts", dict(N=2, S=r.choice(["250ms", "400ms"]))),
                "latency": ("latency", dict(S=r.choice(["2ms", "15ms"]))),
                "breaker": ("breaker", dict(N=100000, F=.9, S="60s")),
                "failures0": ("failures", dict(N=0)),
                "health": ("health", {}),
                "pool": ("pool", dict(N=r.choice([1, 2, 3]))),
            }[k])
        out.append(svc("s%d" % i, i % NI, *mods, rpc=rpc))
    return app(name, out, nprocs=r.choice([1, 2, 3]))


def make_plan(a, r, n=30):
    """Calls for the services of an application. Phases: one after another; trips of circuit breakers; calls against the
    open ones; everything else concurrently; circuit breakers after their pause."""
    ph = [dict(Conc=1, Wait=0, Calls=[]), dict(Conc=1, Wait=0, Calls=[]), dict(Conc=4, Wait=0, Calls=[]), dict(Conc=r.choice([8, 12]), Wait=0, Calls=[]), dict(Conc=1, Wait=1200, Calls=[])]
    ids = [0]

    def add(p, s, fail=0, delay=0):
        ids[0] += 1
        ph[p]["Calls"].append(dict(S=s["name"], Id=ids[0], Fail=fail, Delay=delay, M=r.choice([0, 0, 1])))

    for s in a["Services"]:
        ops = [m[0] for m in s["mods"]]
        if "breaker_test" in s:
            m = s["mods"][ops.index("breaker")][1]
            s["breaker_test"] = {"0": "closed", "1": "trip", "2": "open", "4": "recover"}
            for _ in range(m["N"] // 2):
                add(0, s)
            for _ in range(60):
                add(1, s, fail=99)
            for _ in range(8):
                add(2, s)
            for _ in range(6):
                add(4, s)
        elif s.get("flat"):
            for _ in range(s["flat"]):
                add(3, s)
        elif "retriesbucket" in ops:
            for _ in range(40):
                add(0 if s.get("seq") else 3, s, fail=r.choice([0, 0, 1, 1, 1, 99]))
        elif "retriesrate" in ops:
            for _ in range(n):
                add(3, s, fail=r.choice([0, 1, 3, 3, 5, 99]))
        elif s.get("expect_full"):
            ph.append(dict(Conc=10, Wait=0, Calls=[]))
            for _ in range(6 * s["mods"][ops.index("pool")][1]["N"]):
                add(len(ph) - 1, s, fail=-1, delay=200)
        elif s.get("replicas"):
            for _ in range(60 * s["replicas"] + r.choice([0, 1])):
                add(r.choice([0, 3, 3]), s, fail=r.choice([0, 0, 0, 1]), delay=r.choice([0, 0, 3]))
        elif "timeout" in ops or "retriestimeouts" in ops:
            T = min(dur(m[1]["S"]) for m in s["mods"] if m[0] in ("timeout", "retriestimeouts"))
            to = next(i for i, m in enumerate(s["mods"]) if m[0] in ("timeout", "retriestimeouts"))
            inner = [m[0] for m in s["mods"][to + 1:]]
            nested = any(x.startswith("retries") for x in inner)
            for _ in range(n):
                if nested:      # the retries have to fit into the timeout
                    add(r.choice([0, 3, 3]), s, fail=r.choice([0, 0, 1, 99]))
                else:
                    add(r.choice([0, 3, 3]), s, *r.choice([(0, 0), (0, 0), (1, 0), (99, 0), (-1, int(T * 2.2)), (1, int(T * 2.2)), (-1, 20)]))
        else:
            for _ in range(n):
                add(r.choice([0, 3, 3]), s, *r.choice([(0, 0), (0, 0), (1, 0), (2, 0), (3, 3), (5, 0), (99, 1), (-1, 10)]))
    for p in ph:
        r.shuffle(p["Calls"])
    # short waits only count when the breakers are still open
    return dict(Phases=ph, Settle=3000)


TIMING = {"invocations", "outcome", "pool-unused", "randomdelay", "stuck", "breaker-trip", "breaker-open", "failure-rate"}


def one(c, e, R, name, i, seed):
    a = e.apps[name]
    out = None
    found = None
    for attempt in range(6):
        if out is None:
            out = R.build(name, port=e.port_block(i + 16 * attempt))
            if not out:
                return
        plan = make_plan(a, random.Random("%s-%s" % (seed, name)))
        pf = os.path.join(e.root, name + ".plan.json")
        json.dump(plan, open(pf, "w"))
        res = R.run(name, out, env=dict(VERIF_PLAN=pf))
        if res == "ports":
            shutil.rmtree(out)
            out = None
            continue
        if res is None:
            return
        if any(x[0] == "badplan" for x in res["events"]):
            raise vlib.CheckError("bad plan")
        j = Judge(R, a, plan, res["events"])
        stats = j.run()
        if found is None:
            for k, v in stats.items():
                R.stats[k] += v
            c.case(len(a["Services"]))
        # what could have been caused by a slow machine has to happen again
        for (s, kind), (what, detail) in sorted(j.found.items()):
            if kind not in TIMING or (found is not None and (s, kind) in found):
                R.violate("%s-%s-%s" % (R.tag + name, s, kind), what, detail)
        again = {k for k in j.found if k[1] in TIMING}
        if found is not None or not again:
            break
        found = again
    else:
        R.violate(name + "-ports", "a server cannot bind its address whatever the base port is", R.describe(a))
    shutil.rmtree(out, ignore_errors=True)


def check(c, stacks):
    apps = fixed_apps()
    r = random.Random(c.seed)
    for k in range(stacks):
        apps.append(random_app("stack%d" % k, r))
    files, types = workflow(apps)
    lb = {"Impl%d" % k: "*svc.Impl%d" % k for k in range(NI)}
    e = core.E2E(c, apps, files, types, lb=lb, root="e2e-resil")
    R = monitor.Runner(c, e, tag="")
    monitor.parallel([lambda n=a["Name"], i=i: one(c, e, R, n, i, c.seed) for i, a in enumerate(apps)], workers=3)
    for k, v in R.stats.items():
        c.observe(k, v)
    for a in apps[3:6]:
        c.sample({s["name"]: [str(m) for m in s["mods"]] for s in a["Services"]})
    c.coverage["distinct_nontrivial"] = sum(len(a["Services"]) for a in apps)
    c.coverage["evaluations"] = R.stats["requests judged"]
    shutil.rmtree(e.root, ignore_errors=True)
