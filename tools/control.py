"""Control programs: a rejection is attributed to a property only if the behaviour is right when
what the property is about is taken away."""
import copy

import dsl


def controls(pid, cfg, prog):
    """[(label, configuration, program)]"""
    ops = list(dsl.ops_of(prog))
    if pid == "C12":
        if any(o["op"] == "sig" for _, o in ops):
            return [("without the signals", cfg, dsl.without(prog, lambda k, o: o["op"] == "sig", ""))]
    if pid == "C13":
        if prog["id"].startswith("fail"):
            return []
        d = copy.deepcopy(prog)
        had = False
        for _, o in dsl.ops_of(d):
            had |= o.pop("faults", None) is not None
        if had or cfg != "epoll":
            return [("on epoll with all facilities", "epoll", d)]
    if pid == "C15":
        ps = sorted({o["p"] for _, o in ops if "p" in o})
        if len(ps) > 1:
            return [(f"with poller {p} alone", cfg, dsl.without(prog, lambda k, o, p=p: o.get("p", p) != p, ""))
                    for p in ps]
    if pid == "C10":
        ths = sorted({k for k, o in ops if o["op"] == "wait"})
        if len(ths) > 1:
            return [(f"with thread {t} the only one to wait", cfg,
                     dsl.without(prog, lambda k, o, t=t: o["op"] == "wait" and k != t, "")) for t in ths]
    return []
