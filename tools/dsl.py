"""Small language for harness programs."""
import itertools

MAXKEY = str(2**64 - 1)


def dur(ns):
    if ns is None:
        return None
    return {"s": str(ns // 10**9), "n": ns % 10**9}


def new(p="p", faults=None):
    d = {"op": "new", "p": p}
    if faults:
        d["faults"] = faults
    return d


def drop(p="p"):
    return {"op": "drop", "p": p}


def evnew(c="c", cap=0):
    return {"op": "evnew", "c": c, "cap": cap}


def evclear(c="c"):
    return {"op": "evclear", "c": c}


def _reg(op, s, key, i, m, p, kw):
    d = {"op": op, "p": p, "s": s, "key": str(key), "mode": m}
    for ch, n in (("r", "r"), ("w", "w"), ("p", "pri"), ("h", "hup")):
        if ch in i:
            d[n] = True
    d.update(kw)
    return d


def add(s="s", key=1, i="r", m="O", p="p", **kw):
    return _reg("add", s, key, i, m, p, kw)


def mod(s="s", key=1, i="r", m="O", p="p", **kw):
    return _reg("mod", s, key, i, m, p, kw)


def dele(s="s", p="p"):
    return {"op": "del", "p": p, "s": s}


def refused(o, *faults):
    """The call, made while the system refuses something: (function, 0 always / -errno / 1000+k the k-th call)."""
    return dict(o, faults=[list(f) for f in faults] or [["none", 0]])


def notify(p="p"):
    return {"op": "notify", "p": p}


def wait(to=0, c="c", p="p"):
    d = {"op": "wait", "p": p, "c": c}
    if to is not None:
        d["to"] = to if isinstance(to, dict) else dur(to)
    return d


INF = None


def opn(s="s", kind="us", **kw):
    return dict({"op": "open", "s": s, "kind": kind}, **kw)


def env(op, s="s", **kw):
    return dict({"op": op, "s": s}, **kw)


def sig(to):
    return {"op": "sig", "to": to}


def gap(n):
    """From now on new descriptors get numbers above n, or the number 0 once."""
    return {"op": "gap", "n": n}


def tick(ns):
    return {"op": "tick", "d": dur(ns)}


def rep(n, *ops):
    return {"op": "rep", "n": n, "ops": list(ops)}


def seq(*ops, th=1):
    return {"ops": {str(th): list(ops)}}


def par(*lists):
    return {"ops": {str(i + 1): list(l) for i, l in enumerate(lists) if l}}


def adv(ns):
    return {"adv": dur(ns)}


MS = 10**6
SEC = 10**9
DAY = 86400 * SEC


def steps(ops, th=1):
    """Each operation in a phase of its own (quiescence is observed after each)."""
    return [seq(o, th=th) for o in ops]


class Prog:
    def __init__(self, id, *phases, threads=None, dfs=0, pb=2, rand=0, max=400, tick=0, audit=False, on=None):
        flat = []
        for p in phases:
            if isinstance(p, list):
                flat.extend(p)
            else:
                flat.append(p)
        n = 1
        for p in flat:
            for k in p.get("ops", {}):
                n = n if n >= int(k) else int(k)
        self.d = {"id": id, "threads": threads or n, "tick": tick, "audit": audit, "phases": flat,
                  "explore": {"dfs": dfs, "pb": pb, "rand": rand, "max": max}}
        self.on = on  # configurations, None: all


def ops_of(d):
    for ph in d["phases"]:
        for k, v in ph.get("ops", {}).items():
            for o in v:
                yield k, o


def with_faults(d, faults, suffix):
    """The program with the faults at every creation of a poller that has none."""
    import copy
    d = copy.deepcopy(d)
    d["id"] += suffix
    for _, o in ops_of(d):
        if o["op"] == "new" and "faults" not in o:
            o["faults"] = faults
    return d


def without(d, pred, suffix):
    import copy
    d = copy.deepcopy(d)
    d["id"] += suffix
    for ph in d["phases"]:
        for k in list(ph.get("ops", {})):
            ph["ops"][k] = [o for o in ph["ops"][k] if not pred(k, o)]
    return d
