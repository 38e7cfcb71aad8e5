"""Common driver code of the checks: scratch workspace over /repo, builds, runs, verdicts, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MISSING = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
MOD = "github.com/blueprint-uservices/blueprint/"


class CheckError(Exception):
    """The check could not give an answer (exit 2)."""


def strip_missing(text):
    return re.sub(r"(?m)^\s*(?:require\s+)?" + re.escape(MISSING) + r"\s.*\n", "", text)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return out


class Check:
    def __init__(self, pid, level="exploration"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.violations = []          # dict(key, what, replay)
        self.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], observed={})
        self.assumptions = []
        self.inconclusive = []
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        self.env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1",
                        GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
                        GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"), CGO_ENABLED="1",
                        HOME=os.environ.get("HOME", "/root"))
        self.env["PATH"] = "/usr/local/bin:" + self.env.get("PATH", "/usr/bin:/bin")
        self.env.pop("GOFLAGS", None)
        self.thorough = self.tier == "thorough"

    # ---------------------------------------------------------------- workspace
    def workspace(self, extra_uses=()):
        """A go.work over the modules of /repo (as they are now) and the harness."""
        ws = os.path.join(self.scratch, "ws")
        os.makedirs(ws, exist_ok=True)
        replace = {}
        uses = []
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if d != ".git"]
            if "go.mod" in files:
                src = os.path.join(root, "go.mod")
                text = open(src, encoding="utf-8").read()
                new = strip_missing(text)
                if new != text:
                    dst = os.path.join(ws, "ov_" + os.path.relpath(src, REPO).replace("/", "_"))
                    open(dst, "w").write(new)
                    replace[src] = dst
        self.overlay = os.path.join(ws, "overlay.json")
        json.dump({"Replace": replace}, open(self.overlay, "w"))
        gowork = open(os.path.join(REPO, "go.work")).read()
        for m in re.finditer(r"(?m)^\s*(\./\S+)\s*$", gowork):
            d = os.path.normpath(os.path.join(REPO, m.group(1)))
            if d.endswith("examples/leaf/wiring"):
                continue
            if os.path.exists(os.path.join(d, "go.mod")):
                uses.append(d)
        uses.append(os.path.join(VERIF, "harness"))
        uses.extend(extra_uses)
        with open(os.path.join(ws, "go.work"), "w") as f:
            f.write("go 1.22.0\n\nuse (\n" + "".join("\t%s\n" % u for u in uses) + ")\n")
        sums = set(open(os.path.join(REPO, "go.work.sum")).read().splitlines())
        extra = os.path.join(VERIF, "harness", "go.sum")
        if os.path.exists(extra):
            sums |= set(open(extra).read().splitlines())
        open(os.path.join(ws, "go.work.sum"), "w").write("\n".join(sorted(s for s in sums if s)) + "\n")
        self.env["GOWORK"] = os.path.join(ws, "go.work")
        self.env["GOFLAGS"] = "-overlay=" + self.overlay
        self.ws = ws
        return ws

    def build(self, pkg, out=None, race=False, cwd=None, tags=None):
        """go build; a failure is an error of the check, not a verdict."""
        out = out or os.path.join(self.scratch, "bin_" + re.sub(r"\W+", "_", pkg))
        cmd = ["go", "build"] + (["-race"] if race else []) + (["-tags", tags] if tags else []) + ["-o", out, pkg]
        r = subprocess.run(cmd, cwd=cwd or os.path.join(VERIF, "harness"), env=self.env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (pkg, r.stdout[-6000:]))
        return out

    def sh(self, cmd, cwd=None, env=None, timeout=600, check=False, input=None):
        """Runs a command in its own process group; kills the whole group on timeout. -> (rc, output)"""
        e = dict(self.env)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, text=True,
                             errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(input=input, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        if check and rc != 0:
            raise CheckError("%s: exit %s\n%s" % (" ".join(cmd), rc, out[-6000:]))
        return rc, out

    # ---------------------------------------------------------------- running monitors
    def monitor(self, binary, args=(), timeout=800, race=True, name=None, cwd=None, env=None):
        """Runs a harness binary, collects its result file, race reports and crashes."""
        name = name or os.path.basename(binary)
        res = os.path.join(self.scratch, name + ".result.json")
        log = os.path.join(self.scratch, name + ".race")
        e = {"GORACE": "halt_on_error=0 exitcode=0 log_path=%s" % log, "GOTRACEBACK": "all"}
        if env:
            e.update(env)
        run = os.path.join(self.scratch, "run_" + name)
        os.makedirs(run, exist_ok=True)
        rc, out = self.sh([binary, "-seed", str(self.seed), "-tier", self.tier, "-out", res] + list(args),
                          cwd=cwd or run, env=e, timeout=timeout)
        self.last_output = out
        for f in sorted(glob.glob(log + ".*")):
            self.race_reports(open(f, errors="replace").read())
        if not os.path.exists(res):
            if rc == "timeout":
                raise CheckError("%s: watchdog expired (inconclusive)\n%s" % (name, out[-3000:]))
            m = re.search(r"(?m)^(panic: .*|fatal error: .*|SIG\w+: .*)$", out)
            if m:
                i = out.find(m.group(1))
                self.violate("crash", "the workload crashed: " + m.group(1), out[i:i + 8000])
                return None
            raise CheckError("%s: exit %s without results\n%s" % (name, rc, out[-4000:]))
        r = json.load(open(res))
        self.absorb(r)
        return r

    def race_reports(self, text, where=""):
        blocks = re.split(r"(?m)^==================$", text)
        seen = set()
        n = 0
        for b in blocks:
            if "WARNING: DATA RACE" not in b:
                continue
            n += 1
            frames = re.findall(r"(?m)^\s{2}(\S+)\(.*\)\s*\n\s+(\S+?):\d+", b)
            repo = sorted({f for f, loc in frames if MOD in f or loc.startswith(REPO)})
            key = "race:" + hashlib.sha1("|".join(repo or [x[0] for x in frames[:4]]).encode()).hexdigest()[:10]
            if key in seen:
                continue
            seen.add(key)
            self.violate("race", "data race reported by the race detector%s: %s" % (where, ", ".join(repo[:4]) or "see report"), b.strip()[:6000])
        self.coverage["observed"]["race_reports"] = self.coverage["observed"].get("race_reports", 0) + n

    def shards(self, binary, n=6, **kw):
        """Runs n copies of a harness binary, each with its share of the cases."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(self.monitor, binary, args=["-only", "%d/%d" % (i, n)], name="shard%d" % i, **kw) for i in range(n)]
            return [f.result() for f in fs]

    def absorb(self, r):
        c = self.coverage
        c["evaluations"] += r.get("evaluations", 0)
        c["distinct_nontrivial"] += r.get("distinct_nontrivial", 0)
        if r.get("rule") and r["rule"] not in c["rule"]:
            c["rule"] = (c["rule"] + "; " if c["rule"] else "") + r["rule"]
        for s in r.get("samples") or []:
            if len(c["samples"]) < 12:
                c["samples"].append(s)
        for k, v in (r.get("observed") or {}).items():
            c["observed"][k] = c["observed"].get(k, 0) + v
        for v in r.get("violations") or []:
            self.violate(v["key"], v["what"], v.get("replay"))
        self.inconclusive.extend(r.get("inconclusive") or [])

    def case(self, n=1, distinct=None):
        self.coverage["evaluations"] += n
        self.coverage["distinct_nontrivial"] += n if distinct is None else distinct

    def observe(self, k, n=1):
        self.coverage["observed"][k] = self.coverage["observed"].get(k, 0) + n

    def sample(self, s):
        if len(self.coverage["samples"]) < 12:
            self.coverage["samples"].append(s)

    def violate(self, key, what, replay=None):
        self.violations.append(dict(key=key, what=what, replay=replay))

    # ---------------------------------------------------------------- verdict
    def finish(self, error=None):
        os.makedirs(REPLAYS, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = [k for k in load_known() if k["property"] == self.id]
        new, hit = [], {}
        for v in self.violations:
            k = next((k for k in known if k["key"] == v["key"]), None)
            if k:
                hit.setdefault(k["key"], k)
            else:
                new.append(v)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        if not error and not new and self.inconclusive:
            error = "inconclusive: " + "; ".join(self.inconclusive[:5])
        if not error and not new and self.coverage["evaluations"] == 0:
            error = "nothing was observed"
        if not self.coverage["samples"]:
            self.coverage["samples"] = ["(none)"]
        self.coverage["known_findings_hit"] = sorted(hit)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        if error:
            ev["coverage"]["error"] = str(error)[:2000]
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            path = os.path.join(REPLAYS, "%s-%d.json" % (self.id, self.seed))
            with open(path, "w") as f:
                json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, violations=new[:30]), f, indent=1, default=str)
            keys = []
            for v in new:
                if v["key"] not in keys:
                    keys.append(v["key"])
                    if len(keys) <= 12:
                        print("  [%s] %s" % (v["key"], str(v["what"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            sys.stdout.flush()
            return 1
        if error:
            print("ERROR property=%s: %s" % (self.id, error))
            return 2
        c = self.coverage
        print("OK property=%s tier=%s evaluations=%d distinct=%d observed=%s wall=%.1fs" % (
            self.id, self.tier, c["evaluations"], c["distinct_nontrivial"], json.dumps(c["observed"]), time.time() - self.t0))
        return 0


def main(pid, body, level="exploration"):
    c = Check(pid, level)
    err = None
    try:
        body(c)
    except CheckError as e:
        err = e
    except Exception as e:
        import traceback
        err = traceback.format_exc()
    sys.exit(c.finish(err))


def simple(pid, cmd, race=True, assumptions=(), timeout=800):
    """A check that is one harness binary."""
    def body(c):
        c.assumptions = list(assumptions)
        c.workspace()
        b = c.build("./cmd/" + cmd, race=race)
        c.monitor(b, timeout=timeout if not c.thorough else 7200)
    main(pid, body)
