"""Application descriptions over generated services."""
import random


def st(op, on, **kw):
    return dict(Op=op, On=on, **kw)


def deployments(n, rpc="http", seed=1):
    """The same n services deployed in different ways; every app has a driver of all of them."""
    r = random.Random(seed)
    apps = []
    clients = ["s%d" % i for i in range(n)]
    impl = [st("service", c, Type="Impl%d" % i) for i, c in enumerate(clients)]
    drv = st("service", "driver", Type="Driver", Args=clients)
    # everything in one process
    apps.append(dict(Name="mono", Stmts=impl + [drv, st("process", "main_proc", Args=["driver"])], Nodes=["main_proc"]))
    # every service in its own process
    s = list(impl)
    for c in clients:
        s += [st(rpc, c), st("process", c + "_proc", Args=[c])]
    s += [drv, st("process", "driver_proc", Args=["driver"])]
    apps.append(dict(Name="split", Stmts=s, Nodes=["driver_proc"] + [c + "_proc" for c in clients]))
    # calls go through forwarding services in other processes
    s = []
    for i, c in enumerate(clients):
        s += [st("service", c + "_back", Type="Impl%d" % i), st(rpc, c + "_back"), st("service", c, Type="Fwd%d" % i, Args=[c + "_back"]), st(rpc, c)]
    k = max(1, n // 2)
    groups = [[] for _ in range(k)]
    for i, c in enumerate(clients):
        groups[i % k].append(c)
    for g, cs in enumerate(groups):
        s += [st("process", "front%d" % g, Args=cs), st("process", "back%d" % g, Args=[c + "_back" for c in reversed(cs)])]
    s += [drv, st("process", "driver_proc", Args=["driver"])]
    apps.append(dict(Name="chain", Stmts=s, Nodes=["driver_proc"] + ["front%d" % g for g in range(k)] + ["back%d" % g for g in range(k)]))
    # some forwarders local, some remote; several services in the driver's process
    s = []
    local, procs = [], []
    for i, c in enumerate(clients):
        s.append(st("service", c + "_back", Type="Impl%d" % i))
        s.append(st("service", c, Type="Fwd%d" % i, Args=[c + "_back"]))
        if r.random() < .5:
            s += [st(rpc, c + "_back"), st("process", c + "_bp", Args=[c + "_back"])]
            procs.append(c + "_bp")
            local.append(c)
        else:
            s += [st(rpc, c), st("process", c + "_fp", Args=[c])]
            procs.append(c + "_fp")
    s += [drv, st("process", "driver_proc", Args=["driver"] + local)]
    apps.append(dict(Name="mixed", Stmts=s, Nodes=["driver_proc"] + procs))
    return apps
