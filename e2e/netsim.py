"""Starts generated deployments with programs that only report how they were started, and judges whether the addresses of
servers and clients fit together. Containers and pods are simulated: what docker-compose and kubernetes would put into their
environments is taken from the generated files."""
import json, os, re, shutil, subprocess, tempfile
import yaml
from . import zoo

IMAGES = dict(memcached="memcached", redis="redis", mongodb="mongo", rabbitmq="rabbitmq", mysql="mysql", zipkin="zipkin", jaeger="jaeger")


class Bad(Exception):
    pass


class UniqueLoader(yaml.SafeLoader):
    """docker-compose and kubectl reject repeated keys"""


def _mapping(loader, node, deep=False):
    keys = [k.value for k, _ in node.value]
    for k in keys:
        if keys.count(k) > 1:
            raise yaml.YAMLError("repeated key %s" % k)
    return yaml.SafeLoader.construct_mapping(loader, node, deep)


UniqueLoader.add_constructor("tag:yaml.org,2002:map", lambda l, n: _mapping(l, n, True))


def load(path, many=False):
    try:
        t = open(path).read()
        return list(yaml.load_all(t, UniqueLoader)) if many else yaml.load(t, UniqueLoader)
    except yaml.YAMLError as e:
        raise Bad("%s is not valid YAML: %s" % (os.path.basename(path), " ".join(str(e).split())[:300]))


def read_env(path):
    env = {}
    if not os.path.exists(path):
        raise Bad("%s was not generated" % os.path.basename(path))
    for l in open(path).read().splitlines():
        if not l.strip():
            continue
        m = re.match(r"([A-Za-z_][A-Za-z0-9_]*)=(\S*)$", l)
        if not m:
            raise Bad("%s has an invalid line: %s" % (os.path.basename(path), l))
        if m.group(1) in env:
            raise Bad("%s sets %s twice" % (os.path.basename(path), m.group(1)))
        env[m.group(1)] = m.group(2)
    return env


def subst(s, env):
    """docker-compose's variable substitution"""
    def f(m):
        if m.group(0) == "$$":
            return "$"
        n, op, rest = m.group(1) or m.group(4), m.group(2), m.group(3)
        if op in ("?", ":?"):
            if n not in env or op == ":?" and not env[n]:
                raise Bad("docker-compose needs %s, which the generated .env file does not set" % n)
            return env[n]
        if op in ("-", ":-"):
            return env[n] if n in env and (env[n] or op == "-") else rest
        return env.get(n, "")
    return re.sub(r"\$\$|\$\{([A-Za-z_]\w*)(?:(:?[?-])([^}]*))?\}|\$([A-Za-z_]\w*)", f, s)


class Host:
    """Something with its own network addresses: the machine, a container or a pod."""
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.names = {"localhost"}
        self.procs = []        # dict(name, flags, ctr)
        self.images = []       # (image, env, container)
        self.published = {}    # port of the machine -> port
        self.group = None      # the deployment it belongs to
        self.units = []        # what is started: dict(dir, env, shell, ctr)

    def __repr__(self):
        return "%s %s" % (self.kind, self.name)


def dump_program(path, out):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write('#!/bin/sh\nf=$(mktemp %s/XXXXXXXX)\n{ printf "%%s\\0" "$PWD" "$@"; } > $f\nmv $f $f.done\n' % out)
    os.chmod(path, 0o755)


def start(d, env, shell, container):
    """Runs the run.sh of a directory. -> [(process name, flags)]"""
    out = tempfile.mkdtemp(prefix="netsim-", dir=os.path.dirname(d))
    bin = os.path.join(out, "bin")
    os.makedirs(bin)
    added = []
    try:
        dump_program(os.path.join(bin, "go"), out)
        for p in os.listdir(d):
            pd = os.path.join(d, p)
            if os.path.isdir(pd) and os.path.isdir(os.path.join(pd, p)):
                if container:
                    # what the Dockerfile makes of the process
                    os.rename(os.path.join(pd, p), os.path.join(pd, p + ".src"))
                    dump_program(os.path.join(pd, p), out)
                    added.append(os.path.join(pd, p))
        e = dict(env)
        e["PATH"] = bin + ":/usr/bin:/bin"
        if not os.path.exists(os.path.join(d, "run.sh")):
            raise Bad("%s has no run.sh" % os.path.basename(d))
        p = subprocess.run([shell, "./run.sh"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
        if p.returncode != 0:
            raise Bad("run.sh of %s fails with the generated configuration (exit %s): %s" % (os.path.basename(d), p.returncode, p.stdout[-700:]))
        res = []
        for f in sorted(os.listdir(out)):
            if f.endswith(".done"):
                xs = open(os.path.join(out, f)).read().split("\0")[:-1]
                flags = {}
                for a in xs[1:]:
                    if a.startswith("--") and "=" in a:
                        k, v = a[2:].split("=", 1)
                        if k in flags:
                            raise Bad("flag %s twice" % k)
                        flags[k] = v
                    elif a not in ("run", "."):
                        raise Bad("process in %s started with argument %s" % (xs[0], a))
                rel = os.path.relpath(xs[0], os.path.realpath(d)).split("/")
                res.append((rel[0], flags))
        return res
    finally:
        for f in added:
            os.remove(f)
            os.rename(f + ".src", f)
        shutil.rmtree(out)


def dirs_with(out, name):
    return sorted(r for r, d, f in os.walk(out) if name in f and "/wf/" not in r)


def simulate(out, envfile=".local.env"):
    """The hosts of a compiled application, with the processes that run on them."""
    # there is no file if there are no addresses
    env = read_env(os.path.join(out, envfile)) if os.path.exists(os.path.join(out, envfile)) else {}
    hosts = []
    machine = Host("machine", "")
    machine.env = env
    hosts.append(machine)
    used = []
    published = {}
    for d in dirs_with(out, "docker-compose.yml"):
        y = load(os.path.join(d, "docker-compose.yml"))
        if not isinstance(y, dict) or not isinstance(y.get("services"), dict):
            raise Bad("docker-compose.yml without services")
        names = {}
        for n, s in y["services"].items():
            bad = set(s) - {"build", "image", "hostname", "expose", "ports", "environment", "volumes", "command", "restart", "deploy", "gpus", "shm_size", "user"}
            if bad:
                raise Bad("docker-compose service %s has unknown keys %s" % (n, bad))
            if not re.match(r"[a-zA-Z0-9_.-]+$", n):
                raise Bad("invalid docker-compose service name %r" % n)
            h = Host("container", n)
            h.group = d
            h.names |= {n} | ({s["hostname"]} if s.get("hostname") else set())
            for x in h.names - {"localhost"}:
                if x in names:
                    raise Bad("two containers of a deployment are called %s" % x)
                names[x] = h
            e = {}
            for kv in s.get("environment") or []:
                if not isinstance(kv, str) or "=" not in kv:
                    raise Bad("environment entry %r of %s" % (kv, n))
                k, v = kv.split("=", 1)
                if k in e:
                    raise Bad("%s is set twice in %s" % (k, n))
                e[k] = subst(v, env)
            for p in s.get("ports") or []:
                p = subst(str(p), env)
                m = re.match(r"(?:(.*):)?(\d+):(\d+)$", p)
                if not m:
                    raise Bad("invalid port mapping %s" % p)
                hp, cp = int(m.group(2)), int(m.group(3))
                if hp in published:
                    raise Bad("port %d of the machine is mapped twice" % hp)
                published[hp] = (h, cp)
            for p in s.get("expose") or []:
                if not re.match(r"\d+$", str(p)) or not 0 < int(p) < 65536:
                    raise Bad("exposed port %s" % p)
            if s.get("build"):
                ctx = os.path.normpath(os.path.join(d, s["build"]["context"]))
                if not os.path.exists(os.path.join(ctx, s["build"].get("dockerfile", "Dockerfile"))):
                    raise Bad("container %s has no Dockerfile in %s" % (n, s["build"]["context"]))
                used.append(ctx)
                h.units.append(dict(dir=ctx, env=e, shell="/bin/sh", ctr=n))
            elif s.get("image"):
                h.images.append((s["image"], e, n))
            else:
                raise Bad("container %s has neither an image nor is it built" % n)
            hosts.append(h)
        for c in sorted(os.listdir(d)):
            if os.path.exists(os.path.join(d, c, "Dockerfile")) and os.path.join(d, c) not in used:
                raise Bad("image directory %s is not used by the deployment" % c)
    for d in dirs_with(out, "app_config.yaml"):
        hosts += kubernetes(d, used)
    for d in dirs_with(out, "run.sh"):
        if d not in used and "Dockerfile" not in os.listdir(d):
            machine.units.append(dict(dir=d, env=env, shell="/bin/bash", ctr=None))
    machine.published = published
    for h in hosts:
        for u in h.units:
            h.procs += [dict(name=p, flags=f, ctr=u["ctr"]) for p, f in start(u["dir"], u["env"], u["shell"], u["ctr"] is not None)]
    return hosts


LABEL = r"[a-z]([-a-z0-9]*[a-z0-9])?$"


def kubernetes(d, used):
    docs = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".yaml"):
            for y in load(os.path.join(d, f), True):
                if y is None:
                    continue
                k = (y["kind"], y["metadata"]["name"])
                if k in docs:
                    raise Bad("%s %s is defined twice" % k)
                if not re.match(LABEL, k[1]) or len(k[1]) > 63:
                    raise Bad("invalid name of a kubernetes object: %s" % k[1])
                docs[k] = y
    services = {}
    pods = []
    for (kind, name), y in docs.items():
        if kind != "Deployment":
            continue
        sp = y["spec"]
        labels = sp["template"]["metadata"]["labels"]
        if sp["selector"]["matchLabels"].items() - labels.items():
            raise Bad("the selector of deployment %s does not match its pods" % name)
        h = Host("pod", name)
        h.group = d
        h.labels = labels
        cn = set()
        if not sp["template"]["spec"].get("containers"):
            raise Bad("pod %s has no containers" % name)
        for c in sp["template"]["spec"]["containers"]:
            if not re.match(r"[a-z0-9]([-a-z0-9]*[a-z0-9])?$", c["name"]) or c["name"] in cn:
                raise Bad("container name %s in pod %s" % (c["name"], name))
            cn.add(c["name"])
            e = {}
            for v in c.get("env") or []:
                if v["name"] in e:
                    raise Bad("%s is set twice in container %s" % (v["name"], c["name"]))
                if "value" in v:
                    if not isinstance(v["value"], str):
                        raise Bad("value of %s is not a string" % v["name"])
                    e[v["name"]] = v["value"]
                else:
                    r = v["valueFrom"]["configMapKeyRef"]
                    cm = docs.get(("ConfigMap", r["name"]))
                    if not cm or r["key"] not in (cm.get("data") or {}):
                        raise Bad("container %s refers to key %s, which the config map does not have" % (c["name"], r["key"]))
                    x = cm["data"][r["key"]]
                    if not isinstance(x, str):
                        raise Bad("value of %s in the config map is not a string" % r["key"])
                    e[v["name"]] = x
            ps = [p["containerPort"] for p in c.get("ports") or []]
            if len(set(ps)) != len(ps):
                raise Bad("container %s has a port twice" % c["name"])
            if not c.get("image"):
                raise Bad("container %s without an image" % c["name"])
            if not re.match(r"([a-z0-9.-]+(:\d+)?/)?[a-z0-9]+([._-]+[a-z0-9]+)*(/[a-z0-9]+([._-]+[a-z0-9]+)*)*(:[\w.-]+)?$", c["image"]):
                raise Bad("invalid image reference %s" % c["image"])
            img = c["image"].split("/")[-1]
            ctx = next((x for x in (os.path.join(d, y) for y in os.listdir(d)) if os.path.exists(os.path.join(x, "Dockerfile"))
                        and os.path.basename(x) == img), None)
            if ctx:
                used.append(ctx)
                h.units.append(dict(dir=ctx, env=e, shell="/bin/sh", ctr=c["name"]))
            elif c["image"].startswith("registry.test"):
                raise Bad("nothing is generated for image %s" % c["image"])
            else:
                h.images.append((c["image"], e, c["name"]))
        pods.append(h)
    for (kind, name), y in docs.items():
        if kind != "Service":
            continue
        sel = y["spec"]["selector"]
        ts = [p for p in pods if not sel.items() - p.labels.items()]
        if len(ts) != 1:
            raise Bad("service %s selects %d pods" % (name, len(ts)))
        ports = y["spec"].get("ports")
        if not ports:
            raise Bad("service %s has no ports" % name)
        pn = set()
        for p in ports:
            if len(ports) > 1 and not p.get("name"):
                raise Bad("unnamed port in service %s" % name)
            if p.get("name") and not re.match(r"[a-z0-9]([-a-z0-9]*[a-z0-9])?$", p["name"]) or p.get("name") in pn:
                raise Bad("port name %s in service %s" % (p["name"], name))
            pn.add(p.get("name"))
            services.setdefault(name, {})[p["port"]] = (ts[0], p["targetPort"])
    for p in pods:
        p.services = services
    for c in sorted(os.listdir(d)):
        if os.path.exists(os.path.join(d, c, "Dockerfile")) and os.path.join(d, c) not in used:
            raise Bad("image directory %s is not used by the application" % c)
    return pods


def address(v):
    m = re.match(r"([^:\s]+):(\d+)$", v)
    if not m or not 0 < int(m.group(2)) < 65536:
        raise Bad("%r is not an address" % v)
    return m.group(1), int(m.group(2))


def resolve(hosts, h, v):
    """The host and port that a client on h reaches."""
    name, port = address(v)
    if name in ("localhost", "127.0.0.1"):
        if h.kind == "container":
            # a value from the environment of the machine means the machine
            m = hosts[0]
            if port in m.published:
                return m.published[port]
            if port_owner(m, port) is not None:
                return m, port
            return h, port
        if h.kind == "machine" and port in h.published:
            return h.published[port]
        return h, port
    if h.kind == "container":
        for o in hosts:
            if o.kind == "container" and o.group == h.group and name in o.names:
                return o, port
    if h.kind == "pod":
        if name in h.services:
            if port not in h.services[name]:
                raise Bad("service %s has no port %d, which %s dials" % (name, port, h))
            return h.services[name][port]
    raise Bad("%s cannot resolve the name %s" % (h, name))


def port_owner(h, port):
    for p in h.procs:
        for k, v in p["flags"].items():
            if k.endswith("bind_addr") and address(v)[1] == port:
                return (p["name"], k)
    return None


def clean(n):
    return re.sub(r"[^A-Za-z0-9]+", "_", n).lstrip("0123456789")


def judge(a, hosts, stats=None):
    """a: zoo.App"""
    stats = stats if stats is not None else {}
    placed = {}
    for c, ps in a.ctrs.items():
        for p in ps:
            placed[p] = c

    def place(ctr):
        return re.sub("[^a-z0-9]+", "", ctr.lower()).lstrip("0123456789") if ctr else ""
    inst = {}
    for h in hosts:
        for p in h.procs:
            inst.setdefault((place(p["ctr"]), p["name"]), []).append((h, p))
    want = {(place(placed.get(p)), clean(p)): p for p in a.procs}
    if len(want) != len(a.procs):
        raise Bad("processes with clashing names were accepted")
    # every process runs once
    for k, p in want.items():
        if len(inst.get(k, [])) != 1:
            raise Bad("process %s is started %d times in its place" % (p, len(inst.get(k, []))))
    for k in inst:
        if k not in want:
            raise Bad("unknown process %s is started in %s" % (k[1], k[0] or "the machine"))
    # servers of one host have different ports
    binds = {}
    for h in hosts:
        ports = {}
        for p in h.procs:
            for f, v in p["flags"].items():
                if f.endswith("bind_addr"):
                    host, port = address(v)
                    if host != "0.0.0.0":
                        raise Bad("server %s binds %s, other hosts cannot reach it" % (f, v))
                    if port in ports:
                        raise Bad("%s and %s both bind port %d of %s" % (ports[port], f, port, h))
                    ports[port] = f
                    if f in binds:
                        raise Bad("%s is bound twice" % f)
                    binds[f] = (h, port, p["name"])
        for img, e, c in h.images:
            kind = next((k for k, s in IMAGES.items() if s in img), None)
            port = zoo.PORTS.get(kind)
            if port in ports:
                raise Bad("%s and image %s both use port %d of %s" % (ports[port], img, port, h))
            ports[port] = img
        for hp, (o, cp) in h.published.items():
            if hp in ports:
                raise Bad("port %d of the machine is bound by %s and mapped to %s" % (hp, ports[hp], o))
    targets = {}
    for k, pn in want.items():
        h, p = inst[k][0]
        c = placed.get(pn)
        if (c is None) != (h.kind == "machine"):
            raise Bad("process %s runs on %s" % (pn, h))
        svcs, dials, bk, col = a.local(pn)
        need = {}
        for s in a.procs[pn]:
            if not a.services[s]["rpc"]:
                continue
            need["%s.%s.bind_addr" % (s, a.services[s]["rpc"])] = ("bind", s)
        for s in dials:
            need["%s.%s.dial_addr" % (s, a.services[s]["rpc"])] = ("dial", s)
        for b in sorted(bk) + sorted(col):
            need["%s.dial_addr" % b] = ("ctr", b)
        for f, (what, s) in need.items():
            if f not in p["flags"]:
                raise Bad("process %s is started without %s" % (pn, f))
            stats["variables"] = stats.get("variables", 0) + 1
            if what == "bind":
                continue
            v = p["flags"][f]
            if what == "ctr":
                kind = a.backends[s]["ctr"] if s in a.backends else a.collectors[s]
                if a.mode == "procs":
                    address(v)   # no container is a part of what is started here
                    continue
            t, port = resolve(hosts, h, v)
            stats["connections"] = stats.get("connections", 0) + 1
            if what == "dial":
                b = binds.get("%s.%s.bind_addr" % (s, a.services[s]["rpc"]))
                if b is None or (b[0], b[1]) != (t, port):
                    raise Bad("process %s dials %s for %s: this is port %d of %s, but the server is at port %s of %s" % (
                        pn, v, s, port, t, b and b[1], b and b[0]))
            else:
                ok = [c for img, e, c in t.images if IMAGES[kind] in img]
                if not ok or port != zoo.PORTS[kind]:
                    raise Bad("process %s dials %s for %s: this is port %d of %s, which is no %s" % (pn, v, s, port, t, kind))
                ids = targets.setdefault(s, set())
                ids.add((t, port))
    for s, ts in targets.items():
        if len(ts) != 1:
            raise Bad("%s is dialed at different places: %s" % (s, ts))
    seen = {}
    for s, ts in targets.items():
        for t in ts:
            if t in seen:
                raise Bad("%s and %s are dialed at the same place %s" % (s, seen[t], t))
            seen[t] = s
    stats["hosts"] = stats.get("hosts", 0) + len(hosts)
    stats["servers"] = stats.get("servers", 0) + len(binds)
    return stats


# ---------------------------------------------------------------- real executions

def image(dockerfile, ctx, root, build):
    """Follows the instructions of a Dockerfile: a stage's file system is a directory below root. build(directory, target, package)
    builds a Go program. -> (root directory, entry point) or None if there is an instruction that can't be followed here."""
    stages, cur, wd, entry, n = {}, None, "/", None, 0

    def inside(p):
        return os.path.normpath(os.path.join(cur, os.path.normpath(os.path.join(wd, p)).lstrip("/")))
    for l in open(dockerfile).read().replace("\\\n", " ").splitlines():
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        op, rest = l.split(None, 1)
        op = op.upper()
        if op == "FROM":
            n += 1
            m = re.match(r"\S+(?:\s+AS\s+(\S+))?$", rest, re.I)
            cur, wd = os.path.join(root, "stage%d" % n), "/"
            os.makedirs(cur)
            if m.group(1):
                if m.group(1).lower() in stages:
                    raise Bad("Dockerfile has two stages called %s" % m.group(1))
                stages[m.group(1).lower()] = cur
        elif op == "COPY":
            src = ctx
            if rest.startswith("--from="):
                st, rest = rest[7:].split(None, 1)
                if "/" in st or ":" in st:
                    continue
                if st.lower() not in stages:
                    raise Bad("Dockerfile copies from unknown stage %s" % st)
                src = stages[st.lower()]
            a, b = rest.split()
            f, t = os.path.normpath(os.path.join(src, a.lstrip("/"))), inside(b)
            if not os.path.exists(f):
                raise Bad("Dockerfile copies %s, which does not exist" % a)
            if os.path.isdir(f):
                shutil.copytree(f, t, symlinks=True, dirs_exist_ok=True)
            else:
                if b.endswith("/"):
                    t = os.path.join(t, os.path.basename(a))
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy(f, t)
        elif op == "WORKDIR":
            wd = os.path.normpath(os.path.join(wd, rest))
        elif op == "RUN":
            if rest.startswith("["):
                a = json.loads(rest)
                if a[1:] != ["./build.sh"]:
                    return None
                p = subprocess.run(["/bin/sh", "./build.sh"], cwd=inside("."), env={"PATH": "/usr/bin:/bin"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                if p.returncode:
                    raise Bad("build.sh fails in the image: " + p.stdout[-500:])
                continue
            for cmd in rest.split("&&"):
                w = cmd.split()
                if w == ["go", "mod", "download"]:
                    continue
                elif w[0] == "mkdir":
                    for d in [x for x in w[1:] if not x.startswith("-")]:
                        if "-p" not in w and os.path.exists(inside(d)):
                            raise Bad("Dockerfile: mkdir of existing directory " + d)
                        os.makedirs(inside(d), exist_ok=True)
                elif w[:2] == ["go", "build"] and len(w) == 5 and w[2] == "-o":
                    t = inside(w[3])
                    if os.path.isdir(t):
                        t = os.path.join(t, os.path.basename(os.path.normpath(w[4])))
                    build(inside("."), t, w[4])
                else:
                    return None
        elif op == "ENTRYPOINT":
            a = json.loads(rest)
            if a[0].lstrip("/") != "bin/sh" or len(a) != 2:
                return None
            entry = os.path.dirname(inside(a[1]))
        else:
            return None
    if entry is None:
        raise Bad("Dockerfile without entry point")
    return entry


def emulation(hosts, net, root, build):
    """The scripts that run the whole system on the loopback network: every container and pod gets its own address.
    -> list of (directory, shell, environment) for core.E2E.run, or None"""
    ip = {}
    for i, h in enumerate(hosts):
        ip[h] = "127.0.0.1" if h.kind == "machine" else "127.%d.%d.%d" % (20 + net // 200, net % 200 + 1, i + 1)
    units = []
    for h in hosts:
        for u in h.units:
            env = {}
            for k, v in u["env"].items():
                if re.match(r"[^:\s/]+:\d+$", v):
                    if v.startswith("0.0.0.0:"):
                        v = ip[h] + v[7:]
                    elif k.endswith("DIAL_ADDR"):
                        t, p = resolve(hosts, h, v)
                        v = "%s:%d" % (ip[t], p)
                env[k] = v
            d = u["dir"]
            if u["ctr"] is not None:
                d = image(os.path.join(d, "Dockerfile"), d, os.path.join(root, "image-" + u["ctr"]), build)
                if d is None:
                    return None
            units.append((d, u["shell"], env))
    return units
