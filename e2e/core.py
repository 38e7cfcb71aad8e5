"""End-to-end executions: generates workflow specs, compiles applications with the compiler in /repo, builds and runs
the generated programs and collects their event logs."""
import base64, hashlib, json, os, random, re, shutil, signal, socket, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib

HERE = os.path.dirname(os.path.abspath(__file__))


class E2E:
    def __init__(self, c, apps, files, services, lb=(), repl=(), gen=(), race=True, extra_imports=(), stubs=("mux", "breaker"), module="verif.test/wf", extra_mods=(), root="e2e", rpc="http", imports=None):
        """files: path -> text of the workflow module; services: type name -> Go type expression for workflow.Service."""
        self.c = c
        self.race = race
        self.rpc = rpc
        self.lock = threading.RLock()
        self.root = os.path.join(c.scratch, root)
        os.makedirs(self.root, exist_ok=True)
        self.module = module
        wf = os.path.join(self.root, "wf")
        self.wf = wf
        files = dict(files)
        files.setdefault("go.mod", "module %s\n\ngo 1.22.0\n" % module)
        for p, t in files.items():
            f = os.path.join(wf, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write(t)
        for f in ("util.go", "driver.go", "script.go"):
            os.makedirs(os.path.join(wf, "util"), exist_ok=True)
            shutil.copy(os.path.join(HERE, "util", f), os.path.join(wf, "util", f))
        mods = [wf]
        for name, fs in extra_mods:
            d = os.path.join(self.root, name)
            for p, t in fs.items():
                f = os.path.join(d, p)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write(t)
            mods.append(d)
        # the wiring program
        wd = os.path.join(self.root, "wiring")
        os.makedirs(wd)
        open(os.path.join(wd, "go.mod"), "w").write("module verif.test/wiring\n\ngo 1.22.0\n")
        imports_of = dict(imports or {})
        pk = sorted({t for t in services.values()} | {t for t in dict(lb).values()} | {t for t in dict(repl).values()} | {t for t in dict(gen).values()})
        imports = sorted({t.lstrip("*").split(".")[0] for t in pk})
        imp = "".join('\t%s "%s"\n' % (i, imports_of[i]) if i in imports_of else '\t"%s"\n' % (i if "/" in i else self.pkgpath(i, extra_imports)) for i in imports)
        L = ["package main", "", "import (", '\t"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"',
             '\t"github.com/blueprint-uservices/blueprint/plugins/workflow"', '\t"verif/harness/e2ewire"', imp, ")",
             "var _ = workflow.Service[int]", "var _ wiring.WiringSpec"]
        if lb: L.insert(5, '\t"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"')
        if repl: L.insert(5, '\t"github.com/blueprint-uservices/blueprint/plugins/replication"')
        if gen: L.insert(5, '\t"github.com/blueprint-uservices/blueprint/plugins/workload"')
        L.append("func main() { e2ewire.Main(e2ewire.Types{")
        L.append("Service: map[string]func(spec wiring.WiringSpec, name string, args ...string) string{")
        L += ['"%s": workflow.Service[%s],' % kv for kv in sorted(services.items())]
        L.append("},")
        if lb:
            L.append("LoadBalance: map[string]func(spec wiring.WiringSpec, name string, svcs []string) string{")
            L += ['"%s": loadbalancer.CreateLoadBalancer[%s],' % kv for kv in sorted(dict(lb).items())] + ["},"]
        if repl:
            L.append("Replicate: map[string]func(spec wiring.WiringSpec, name string, n int, args ...string) ([]string, string){")
            L += ['"%s": replication.Replicate[%s],' % kv for kv in sorted(dict(repl).items())] + ["},"]
        if gen:
            L.append("Generator: map[string]func(spec wiring.WiringSpec, name string, args ...string) string{")
            L += ['"%s": workload.Generator[%s],' % kv for kv in sorted(dict(gen).items())] + ["},"]
        L.append("}) }")
        open(os.path.join(wd, "main.go"), "w").write("\n".join(L) + "\n")
        c.workspace(extra_uses=mods + [wd])
        self.wd = wd
        # the workflow module has to be valid Go, otherwise nothing was observed
        self.bin = c.build(".", cwd=wd, out=os.path.join(self.root, "compiler"))
        self.apps = {a["Name"]: a for a in apps}
        self.appsfile = os.path.join(self.root, "apps.json")
        json.dump(apps, open(self.appsfile, "w"))
        self.stubs = stubs
        self.base_port = 20000 + (os.getpid() * 37) % 20000

    def pkgpath(self, p, extra):
        for e in extra:
            if e.split("/")[-1] == p:
                return e
        return self.module + "/" + p

    # ------------------------------------------------------------ compile
    def compile(self, name, out=None, port=None, args=(), env=None, timeout=300, binary=None):
        out = out or os.path.join(self.root, "out", name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        e = dict(VERIF_APPS=self.appsfile)
        e["PATH"] = self.protoc() + ":" + self.c.env["PATH"]
        e.update(env or {})
        cmd = (binary or [self.bin]) + ["-w", name, "-o", out] + (["-port", str(port)] if port else []) + list(args)
        rc, log = self.c.sh(cmd, cwd=self.wd, env=e, timeout=timeout)
        if rc == 99 or "HARNESS:" in log:
            raise vlib.CheckError("bad application description: " + log[-2000:])
        return rc, log, out

    def protoc(self):
        """A directory with protoc's Go plugins."""
        d = os.path.join(self.root, "protoc")
        with self.lock:
            if not os.path.exists(d):
                if self.rpc == "grpc":
                    self.c.build("./cmd/protoc-gen-go-grpc", out=os.path.join(d, "protoc-gen-go-grpc"))
                    self.c.build("google.golang.org/protobuf/cmd/protoc-gen-go", out=os.path.join(d, "protoc-gen-go"))
                else:
                    os.makedirs(d)
        return d

    def prepare(self, procdir):
        """Makes a generated Go workspace buildable offline."""
        for root, dirs, fs in os.walk(procdir):
            if "go.mod" in fs:
                p = os.path.join(root, "go.mod")
                t = open(p).read()
                n = vlib.strip_missing(t)
                if n != t:
                    open(p, "w").write(n)
        gw = os.path.join(procdir, "go.work")
        if os.path.exists(gw):
            t = open(gw).read()
            for s in self.stubs:
                t += "\nuse %s\n" % self.stub(s)
            t += "\nuse %s\n" % self.deps()
            sums = open(os.path.join(self.c.ws, "go.work.sum")).read()
            if self.rpc == "grpc":
                for m, v in self.cached("google.golang.org/grpc", "google.golang.org/genproto", "google.golang.org/protobuf"):
                    t += "\nreplace %s => %s %s\n" % (m, m, v)
                    sums += self.sums(m, v)
                t += "\nreplace google.golang.org/genproto/googleapis/rpc => %s\n" % self.stub("genprotorpc")
                t += "\nreplace golang.org/x/net => %s\n" % self.xnet()
            open(gw, "w").write(t)
            open(gw + ".sum", "w").write(sums)

    def cached(self, *mods):
        """The versions of modules that the module cache has, if they are not the ones that the generated code asks for."""
        res = []
        for mod in mods:
            d = os.path.join(self.c.env["GOMODCACHE"], os.path.dirname(mod))
            vs = sorted(x.split("@")[1] for x in os.listdir(d) if x.startswith(os.path.basename(mod) + "@")) if os.path.isdir(d) else []
            res += [(mod, vs[-1])] if vs else []
        return res

    def xnet(self):
        """golang.org/x/net without the requirements that the module cache does not have"""
        d = os.path.join(self.root, "xnet")
        with self.lock:
            if not os.path.exists(d):
                m, v = self.cached("golang.org/x/net")[0]
                shutil.copytree(os.path.join(self.c.env["GOMODCACHE"], m + "@" + v), d, ignore=shutil.ignore_patterns("*_test.go", "testdata"))
                os.chmod(d, 0o755)
                os.chmod(os.path.join(d, "go.mod"), 0o644)
                t = open(os.path.join(d, "go.mod")).read()
                open(os.path.join(d, "go.mod"), "w").write(re.sub(r"(?ms)^require \(.*?^\)\n|^require [^\n(]*\n", "", t))
        return d

    def sums(self, mod, v):
        d = os.path.join(self.c.env["GOMODCACHE"], "cache/download", mod, "@v", v)
        h = base64.b64encode(hashlib.sha256(("%s  go.mod\n" % hashlib.sha256(open(d + ".mod", "rb").read()).hexdigest()).encode()).digest()).decode()
        return "%s %s %s\n%s %s/go.mod h1:%s\n" % (mod, v, open(d + ".ziphash").read().strip(), mod, v, h)

    def stub(self, s):
        d = os.path.join(self.root, "stub_" + s)
        with self.lock:
            if not os.path.exists(d):
                shutil.copytree(os.path.join(HERE, "stubs", s), d)
                os.rename(os.path.join(d, "go.mod.txt"), os.path.join(d, "go.mod"))
        return d

    def deps(self):
        """A module that pins the third-party modules to the versions of /repo's workspace (`go mod tidy` cannot work offline)."""
        d = os.path.join(self.root, "deps")
        if not os.path.exists(d):
            with self.lock:
                if not os.path.exists(d):
                    rc, out = self.c.sh(["go", "list", "-e", "-m", "-f", "{{if and .Dir .Version}}{{.Path}} {{.Version}}{{end}}", "all"], cwd=self.c.ws)
                    req = [l for l in out.splitlines() if re.match(r"^\S+ v\S+$", l)
                           and not re.match(r"^(github\.com/blueprint-uservices/blueprint/|verif)", l)]
                    if self.rpc == "grpc":
                        req += ["%s %s" % x for x in self.cached("google.golang.org/grpc", "google.golang.org/genproto")]
                    if not req:
                        raise vlib.CheckError("go list -m all failed: " + out[-2000:])
                    os.makedirs(d + ".new")
                    open(os.path.join(d + ".new", "go.mod"), "w").write("module verif.test/deps\n\ngo 1.22.0\n\nrequire (\n%s\n)\n" % "\n".join("\t" + r for r in req))
                    os.rename(d + ".new", d)
        return d

    def workspaces(self, out):
        return sorted(r for r, d, f in os.walk(out) if "go.work" in f)

    def build_env(self):
        env = dict(GOWORK="", GOFLAGS="-trimpath" + (" -race" if self.race else ""))
        return env



    # ------------------------------------------------------------ generated programs
    def build_all(self, out):
        """Builds every generated Go process below out. -> list of (procdir, ok, log)"""
        res = []
        for d in self.workspaces(out):
            self.prepare(d)
            mods = re.findall(r"(?m)^\s*(?:use\s+)?(\./\S+)", open(os.path.join(d, "go.work")).read())
            main = os.path.basename(d)
            if not os.path.exists(os.path.join(d, main, "main.go")):
                main = next((m[2:] for m in mods if os.path.exists(os.path.join(d, m, "main.go"))), main)
            e = dict(self.c.env)
            e.pop("GOWORK", None)
            e["GOFLAGS"] = "-trimpath" + (" -race" if self.race else "")
            p = subprocess.run(["go", "build", "-o", os.path.join(d, main, ".prog"), "./" + main], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
            res.append((d, p.returncode == 0, p.stdout))
        return res

    def gowrapper(self):
        """A go command that runs the already built program for `go run .`"""
        d = os.path.join(self.root, "bin")
        if not os.path.exists(d):
            os.makedirs(d)
            real = shutil.which("go", path=self.c.env["PATH"])
            with open(os.path.join(d, "go"), "w") as f:
                f.write('#!/bin/bash\nif [ "$1" = run ] && [ "$2" = . ]; then shift 2; exec ./.prog "$@"; fi\nexec %s "$@"\n' % real)
            os.chmod(os.path.join(d, "go"), 0o755)
        return d

    def read_env(self, path):
        env = {}
        if os.path.exists(path):
            for l in open(path):
                if "=" in l:
                    k, v = l.rstrip("\n").split("=", 1)
                    env[k] = v
        return env

    def run(self, name, out, timeout=120, env=None, end="end", ctrdir="linux", units=None):
        """Runs the generated run.sh with the generated environment until the driver reports the end.
        units: the scripts to run, as (directory, shell, environment); default is the run.sh of a container directory
        -> dict(events, log, ended)"""
        evlog = os.path.join(self.root, name + ".events")
        race = os.path.join(self.root, name + ".race")
        e = dict(self.c.env)
        for k in ("GOWORK", "GOFLAGS"):
            e.pop(k, None)
        if units is None:
            units = [(os.path.join(out, ctrdir), "bash", self.read_env(os.path.join(out, ".local.env")))]
        e.update(VERIF_LOG=evlog, GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=" + race, GOTRACEBACK="all",
                 PATH=self.gowrapper() + ":" + e["PATH"])
        e.update(env or {})
        lf = open(os.path.join(self.root, name + ".log"), "w+")
        ps = [subprocess.Popen([shell, "./run.sh"], cwd=d, env=dict(e, **ev), stdout=lf, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, start_new_session=True) for d, shell, ev in units]
        t0 = time.time()
        ended = exited = False
        while time.time() - t0 < timeout:
            if os.path.exists(evlog) and any(l.split("\t")[0].strip() == end for l in open(evlog, errors="replace").read().splitlines()):
                ended = True
                break
            if all([p.poll() is not None for p in ps]):
                exited = True
                break
            time.sleep(0.1)
        for sig, wait in ((signal.SIGINT, 2), (signal.SIGKILL, 5)):
            t1 = time.time()
            for p in ps:
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    pass
            for p in ps:
                try:
                    while time.time() - t1 < wait:
                        os.killpg(p.pid, 0)
                        p.poll()
                        time.sleep(0.05)
                except ProcessLookupError:
                    pass
        for p in ps:
            p.wait()
        lf.seek(0)
        log = lf.read()
        lf.close()
        events = []
        if os.path.exists(evlog):
            events = [l.split("\t") for l in open(evlog, errors="replace").read().split("\n") if l]
        races = ""
        import glob
        for f in sorted(glob.glob(race + ".*")):
            races += open(f, errors="replace").read() + "\n"
        return dict(events=events, log=log, ended=ended, exited=exited, races=races, wall=time.time() - t0)

    def port_block(self, i, n=64):
        return 15000 + ((os.getpid() * 7919) % 300) * 100 % 15000 + i * n % 15000


def compile_errors(log):
    return "\n".join(l for l in log.splitlines() if re.search(r"\.go:\d+:\d+: |^#|cannot find|no required module|error", l))[:3000]
