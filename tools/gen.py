"""Programs from random behaviours of spec/PollingGen.tla."""
import json
import os
import random
import re

import run
import tour
from dsl import MS, Prog, add, adv, dele, drop, env, evnew, mod, new, notify, opn, refused, seq, sig, wait

# what a property's programs consist of
DEFAULT = dict(threads=2, pollers=("p",), sources=("us", "efd"), modes=("O", "L", "E", "EO"),
               interests=("r", "w", "rw", "", "p"), timeouts=(-1, 0, 1000000), phases=7, caps=(0,),
               weights="reg*5 del notify*2 wait*4 env*3 reopen", dfs=40, rand=25, pb=2)
FLAVOURS = {
    "calls": dict(weights="reg*5 del*2 notify*2 wait*4 env*3 reopen cont", caps=(0, 1, 2)),
    "three": dict(threads=3, weights="reg*3 del notify*2 wait*4 env*3"),
    "notes": dict(threads=3, sources=("efd",), modes=("O", "L"), interests=("r", "w"), weights="reg notify*4 wait*4 env",
                  timeouts=(-1, -1, 0, 1000000)),
    "pairs": dict(pollers=("p", "q"), weights="reg*5 del notify*2 wait*5 env*3 renew", threads=2),
    "seq": dict(threads=1, sources=("us", "us2", "efd", "pr"), phases=25, timeouts=(0, 1000000), dfs=0, rand=0,
                weights="reg*6 del wait*6 env*5 notify reopen cont", caps=(0, 1, 2, 3)),
    "timed": dict(sources=("efd",), timeouts=(-1, 0, 1, 999999, 1000000, 1000001, 2500000), modes=("O", "L"),
                  weights="reg notify wait*6 env sig"),
    "states": dict(threads=1, sources=("us", "efd", "pr"), phases=18, timeouts=(0, 0, -1), dfs=0, rand=0, fine=True,
                   weights="reg*5 del wait*3 env*5 notify*2 reopen"),
    "refused": dict(weights="reg*5 del*2 notify*2 wait*5 env*3", refuse=25),
    "pipes": dict(sources=("pr", "pw"), interests=("r", "w", "rw", "")),
    "signals": dict(threads=2, weights="reg*2 notify wait*4 env*2 sig*4", timeouts=(-1, 0, 1000000, 5000000)),
}


def spec(flavour):
    d = dict(DEFAULT)
    d.update(FLAVOURS[flavour])
    return d


def weights(text):
    out = []
    for w in text.split():
        n, _, k = w.partition("*")
        out += [n] * int(k or 1)
    return out


def sset(xs):
    return "{" + ",".join(xs) + "}"


PROG = re.compile(r'^<<"PROG", (".*")>>$')


def generate(flavour, count, seed, work):
    """`count` programs; the same for the same seed."""
    d = spec(flavour)
    sd = random.Random(f"{flavour}-{seed}").randrange(1, 2**31)
    name = f"gen-{flavour}"
    dirn = os.path.join(work, name)
    os.makedirs(dirn, exist_ok=True)
    q = lambda xs: ",".join('"%s"' % x for x in xs)  # noqa: E731
    with open(os.path.join(dirn, "Gen.tla"), "w") as f:
        f.write(f"""---- MODULE Gen ----
EXTENDS PollingGen
GTimeouts == <<{",".join(map(str, d["timeouts"]))}>>
GWeights == <<{q(weights(d["weights"]))}>>
GCaps == <<{",".join(map(str, d["caps"]))}>>
====
""")
    n = d["threads"]
    with open(os.path.join(dirn, "Gen.cfg"), "w") as f:
        f.write(f"""SPECIFICATION GenSpec
CONSTANT Pollers = {sset('"%s"' % x for x in d["pollers"])}
CONSTANT Sources = {sset('"%s"' % x for x in d["sources"])}
CONSTANT Containers = {sset('"c%d"' % (i + 1) for i in range(n))}
CONSTANT Threads = {sset(str(i + 1) for i in range(n))}
CONSTANT Enabled = {{}}
CONSTANT Report <- NoReport
CONSTANT Modes = {sset('"%s"' % x for x in d["modes"])}
CONSTANT Interests = {sset(sset('"%s"' % c for c in i) for i in d["interests"])}
CONSTANT Timeouts <- GTimeouts
CONSTANT Weights <- GWeights
CONSTANT Caps <- GCaps
CONSTANT Phases = {d["phases"]}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
""")
    out = run.tlc(os.path.join(dirn, "Gen.tla"), os.path.join(dirn, "Gen.cfg"), work, name, mem="1g",
                  args=("-workers", "1", "-simulate", f"num={count}", "-depth", "3000", "-seed", str(sd)),
                  props=("-DTLA-Library=" + os.path.join(run.ROOT, "spec"),))
    progs = []
    for line in out.splitlines():
        m = PROG.match(line)
        if m:
            progs.append(json.loads(json.loads(m.group(1))))
    if len(progs) != count:
        raise run.ToolError(f"TLC wrote {len(progs)} of {count} programs of {flavour}:\n{out[-2000:]}")
    m = re.search(r"(\d+) states checked", out.replace(",", ""))
    ps = [program(f"{name}-{i}", d, p, i) for i, p in enumerate(progs)]
    return ps, {"graph": name + " (random behaviours)", "states": 0, "transitions": int(m.group(1)) if m else 0, "programs": count}


def program(id, d, phases, i):
    rng = random.Random(i)
    out = [seq(*[new(p) for p in d["pollers"]], *[opn(s, s.rstrip("2")) for s in d["sources"]],
               *([evnew("c1", rng.choice(d["caps"]))]))]
    for ph in phases:
        if "adv" in ph:
            out.append(adv(ph["adv"]))
            continue
        ops = {}
        for t, l in enumerate(ph["ops"], 1):
            r = []
            for o in l:
                k = o["op"]
                if k in ("add", "mod"):
                    r.append((add if k == "add" else mod)(o["s"], o["key"], o["i"], o["m"], o["p"]))
                elif k == "del":
                    r.append(dele(o["s"], o["p"]))
                elif k == "notify":
                    r.append(notify(o["p"]))
                elif k == "wait":
                    r.append(wait(None if o["to"] < 0 else o["to"], o["c"], o["p"]))
                elif k == "env":
                    r.append(env(o["x"], o["s"]))
                elif k == "sig":
                    r.append(sig(o["to"]))
                elif k == "evnew":
                    r.append(evnew(o["c"], o["cap"]))
                elif k == "reopen":
                    r += [dele(o["s"], p) for p in d["pollers"]]
                    r += [env("close", o["s"], quiet=True), opn(o["s"], o["kind"])]
                elif k == "renew":
                    r += [dict(drop(o["p"]), quiet=True), new(o["p"])]
            for n, o in enumerate(r):
                if o["op"] in ("add", "mod", "del", "wait") and rng.randrange(100) < d.get("refuse", 0):
                    r[n] = refused(o, *([rng.choice((("poll", 0), ("poll", 1002), ("epoll_wait", 0), ("timerfd_settime", -1)))]
                                        if o["op"] == "wait" else rng.choice(((("ctl", 1),), (("ctl", 2),), (("epoll_ctl", -12),)))))
            if r:
                ops[str(t)] = r
        if ops:
            out.append({"ops": ops})
    if d.get("fine"):
        out = tour.split(out)
    return Prog(id, *out, threads=d["threads"], dfs=d["dfs"], pb=d["pb"], rand=d["rand"], max=200)
