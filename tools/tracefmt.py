"""Turns the harness's raw trace lines into the records PollingTrace reads."""
import json

BIG = 1 << 62  # seconds: beyond (or nearly beyond) the clock, never expires


def clamp(t):
    return [min(t[0], 1_000_000_000), t[1], t[2]]


def norm(raw, backend, no_timer=False):
    """raw: list of harness events. Returns list of events for TLC."""
    out = []
    opened = {}
    p0 = 0
    for e in raw:
        k = e["e"]
        if k == "low":
            continue
        if k == "crash":
            out.append({"e": "crash", "t": [0, 0, 0], "k": e["k"]})
            continue
        t = clamp(e["t"])
        if k == "q":
            out.append({"e": "q", "t": t, "bl": e["bl"], "pol": e["pol"], "unk": e["unk"],
                        "noclo": e["noclo"], "final": e["final"], "tk": clamp(e["tk"])})
        elif k == "env":
            out.append({"e": "env", "t": t, "op": e["op"], "s": e["s"], "cond": e["cond"], "new": e["new"]})
        elif k == "blk":
            out.append({"e": "blk", "t": t, "th": e["th"]})
        elif k == "sig":
            out.append({"e": "sig", "t": t, "to": e["to"]})
        elif k == "do":
            o, r = e["o"], e["res"]
            op = o["op"]
            if op == "new":
                f = [x[0] for x in o.get("faults", [])]
                out.append({"e": "new", "t": t, "p": o["p"], "faults": f,
                            "res": dict(r, batch=backend != "poll",
                                        ms=backend == "poll" or "timerfd_create" in f or "nth" in f)})
            elif op == "drop":
                out.append({"e": "drop", "t": t, "p": o["p"], "res": r})
            elif op == "evnew":
                out.append({"e": "evnew", "t": t, "c": o["c"], "req": o.get("cap", 0), "res": r})
            elif op == "evclear":
                out.append({"e": "evclear", "t": t, "c": o["c"], "res": r})
            elif op == "ev":
                first = {"k": o["key"], "rd": o.get("r", False), "wr": o.get("w", False),
                         "pri": o.get("pri", False), "hup": o.get("hup", False), "err": False}
                out.append({"e": "ev", "t": t, "first": first, "ops": o["ops"], "r": r["r"],
                            "st": [{k: v for k, v in x.items() if k != "cf"} for x in r["st"]]})
        elif k == "call":
            o = e["o"]
            op = o["op"]
            c = {"op": op, "p": o["p"], "t": t, "st": "new", "done": False, "blocked": False, "sig": False,
                 "flt": bool(o.get("faults") or o.get("flt"))}
            if op in ("add", "mod", "del"):
                c["s"] = o["s"]
            if op in ("add", "mod"):
                c.update(key=o["key"], rd=o.get("r", False), wr=o.get("w", False),
                         pri=o.get("pri", False), mode=o.get("mode", "O"))
            if op == "wait":
                to = e["to"]
                if to and to[0] * 10**9 + to[1] >= BIG:
                    to = []
                if to:
                    to = clamp(to)
                c.update(to=to, cap=e["cap"], c=o["c"])
            rec = {"e": "call", "t": t, "th": e["th"], "o": c}
            opened[e["th"]] = c
            out.append(rec)
        elif k == "ret":
            c = opened.pop(e["th"])
            c["done"] = True
            res = {"r": e["r"]}
            if c["op"] == "wait":
                res.update(n=e["n"], len=e["len"], emp=e["emp"], evs=e["evs"])
            c["res"] = res
            out.append({"e": "ret", "t": t, "th": e["th"], "r": e["r"], "touch": e["touch"], "tk": clamp(e["tk"])})
        else:
            raise ValueError(k)
    return out


def canon(ev):
    """Renames pollers, sources and containers (sets of constants stay small); returns the events
    and the numbers of pollers, sources, containers and threads."""
    P, S, C = {}, {}, {}
    nth = 1
    # Adjacent calls, and adjacent returns, of different threads commute.
    i = 0
    while i < len(ev):
        j = i + 1
        if ev[i]["e"] in ("call", "ret"):
            while j < len(ev) and ev[j]["e"] == ev[i]["e"] and ev[j]["t"] == ev[i]["t"]:
                j += 1
            if j > i + 1:
                ev[i:j] = sorted(ev[i:j], key=lambda e: e["th"])
        i = j

    def p(x):
        return P.setdefault(x, "p%d" % len(P))

    def s(x):
        return S.setdefault(x, "s%d" % len(S))

    def c(x):
        return C.setdefault(x, "c%d" % len(C))
    for e in ev:
        if "p" in e:
            e["p"] = p(e["p"])
        if "s" in e:
            e["s"] = s(e["s"])
        if "c" in e:
            e["c"] = c(e["c"])
        if "touch" in e:
            e["touch"] = [s(x) for x in e["touch"]]
        if e["e"] == "call":
            o = e["o"]
            nth = max(nth, e["th"])
            o["p"] = p(o["p"])
            if "s" in o:
                o["s"] = s(o["s"])
            if "c" in o:
                o["c"] = c(o["c"])
        elif e["e"] == "q":
            e["pol"] = [[p(x[0]), x[1]] for x in e["pol"]]
            for b in e["bl"]:
                if b["p"]:
                    b["p"] = p(b["p"])
        elif e["e"] in ("new", "drop") and "touch" in e["res"]:
            e["res"]["touch"] = [s(x) for x in e["res"]["touch"]]
        elif e["e"] == "sig":
            nth = max(nth, e["to"])
    return ev, (max(1, len(P)), max(1, len(S)), max(1, len(C)), nth)
