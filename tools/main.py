"""Decides one property: explores the real crate, validates the traces against the specification,
attributes and confirms rejections, writes the evidence."""
import collections
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import control
import plan
import props
import run

ROOT = run.ROOT
MAXREPORT = 5


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def relevant(groups, kinds):
    """Kinds of a rejection; an execution that crashed or hung matches no action and has none."""
    return sorted({k for g in groups for k in g} & set(kinds))


class Found:
    def __init__(self, trace, pos, groups, kinds):
        self.t, self.pos, self.groups, self.kinds = trace, pos, groups, kinds


def one(bins, cfg, prog, sched, kinds, work, name, seed, scale):
    """Runs one program again (one schedule, or its whole exploration); returns rejections."""
    extra = ["--only", prog["id"]]
    if sched is not None:
        extra += ["--sched", ",".join(map(str, sched))]
    jobs = run.harness(bins[run.CONFIGS[cfg][0]], [prog], work, name, seed, scale, 1, 60, extra)
    files = {cfg: [run.run_job(j)[0] for j in jobs]}
    traces, _ = run.load(files)
    rej, _, _ = run.validate(traces, kinds, work, name)
    return [Found(t, p, g, relevant(g, kinds)) for t, p, g in rej]


def same(a, f):
    return bool(set(a.kinds) & set(f.kinds)) or (not a.kinds and not f.kinds)


def confirm(bins, f, prog, kinds, work, name, seed, scale):
    for n in range(3):
        r = [x for x in one(bins, f.t.cfg, prog, f.t.sched, kinds, work, f"{name}s{n}", seed, scale) if same(x, f)]
        if r:
            return r[0]
    for n in range(2):
        r = [x for x in one(bins, f.t.cfg, prog, None, kinds, work, f"{name}x{n}", seed, scale) if same(x, f)]
        if r:
            return r[0]
    return None


def known():
    """Findings that are recorded and not repaired: (property, configuration, program, kind)."""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split(None, 5)[1:5])
                out.append((d, line.split(None, 5)[5].strip()))
    return out


def describe(f):
    ev = json.loads(f.t.ev)
    e = ev[f.pos - 1] if f.pos <= len(ev) else {}
    return json.dumps(e, separators=(",", ":"))


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return decide(pid, tier, seed, work, t0)
    except Exception as e:  # noqa: BLE001
        if not isinstance(e, run.ToolError):
            traceback.print_exc()
        log(f"ERROR: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, work, t0):
    kinds = props.KINDS[pid]
    pl = plan.plan(pid, tier, seed)
    with cf.ThreadPoolExecutor(8) as ex:
        bf = ex.submit(run.build_all, ["epoll", "pipe", "poll"])
        side = [ex.submit(fn, work) for fn in pl.side]
        bins = bf.result()
        side = [s.result() for s in side]
    log(f"[{pid}] built and prepared after {time.time() - t0:.0f} s")
    by_cfg = {c: list(l) for c, l in pl.by_cfg.items()}
    for s in side:
        for c, l in s.get("programs", {}).items():
            by_cfg.setdefault(c, []).extend(l)
    index = {(c, p["id"]): p for c, l in by_cfg.items() for p in l}
    traces, rej, st = run.explore(bins, by_cfg, kinds, work, pid, seed, pl.scale, pl.budget)
    log(f"[{pid}] {st}")

    groups = collections.OrderedDict()
    for t, pos, g in sorted(rej, key=lambda r: r[0].n):
        f = Found(t, pos, g, relevant(g, kinds))
        groups.setdefault((t.cfg, t.prog, tuple(f.kinds)), f)
    violations, dropped = [], collections.Counter()
    kf = known()
    kf_seen = []
    started = time.time()
    for n, ((cfg, prog, ks), f) in enumerate(groups.items()):
        if len(violations) >= MAXREPORT or (violations and time.time() - started > 60) or time.time() - started > 400:
            dropped["not examined (enough violations, or out of time)"] += 1
            continue
        pd = index[(cfg, prog)]
        hit = [d for d, what in kf if d["property"] == pid and d["cfg"] == cfg and d["prog"] == prog and d["kind"] in ks]
        if hit:
            kf_seen.append((hit[0], [w for d, w in kf if d is hit[0]][0]))
            continue
        c = confirm(bins, f, pd, kinds, work, f"confirm{n}", seed, pl.scale)
        if c is None:
            dropped["not reproduced"] += 1
            log(f"[{pid}] not reproduced: {cfg} {prog} {ks} {describe(f)}")
            continue
        why = None
        for label, ccfg, cprog in control.controls(pid, cfg, pd):
            r = one(bins, ccfg, cprog, None, kinds, work, f"control{n}", seed, pl.scale)
            if any(same(x, c) for x in r):
                why = label
                break
        if why:
            dropped[f"also violated {why}"] += 1
            log(f"[{pid}] not attributed ({why}): {cfg} {prog} {ks}")
            continue
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{pid}-{len(violations)}.json")
        ev = json.loads(c.t.ev)
        with open(path, "w") as fh:
            json.dump({"property": pid, "config": cfg, "program": pd, "schedule": c.t.sched, "seed": seed,
                       "kinds": sorted(kinds), "violated": c.groups, "position": c.pos,
                       "at": ev[c.pos - 1] if c.pos <= len(ev) else None, "trace": ev}, fh, indent=1)
        violations.append((cfg, prog, c, path))
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        print(f"  {cfg} {prog}: {'/'.join(c.kinds) or 'crash or hang'} at event {c.pos}: {describe(c)[:400]}")
    for d, what in kf_seen:
        print(f"KNOWN-FINDING: property={pid} {what}")

    samples = [{"config": t.cfg, "program": t.prog, "schedule": t.sched, "trace": json.loads(t.ev)}
               for t in sorted(traces, key=lambda t: t.n)[len(traces) // 2:len(traces) // 2 + 2]]
    mc = [s["mc"] for s in side if "mc" in s]
    cov = {
        "states": st["tlc_distinct"] + sum(m["states"] for m in mc),
        "transitions": st["tlc_generated"] + sum(m["transitions"] for m in mc),
        "traces_validated_against_impl": st["traces"],
        "samples": samples,
        "spec_model_checking": mc,
        "programs": st["programs"],
        "programs_by_origin": pl.origins(by_cfg),
        "configurations": {c: len(l) for c, l in by_cfg.items()},
        "executions": st["executions"],
        "scheduling_steps": st["steps"],
        "programs_with_every_schedule_within_preemption_bound": st["complete"],
        "duplicate_traces": st["duplicate_traces"],
        "guards_in_force": sorted(kinds),
        "rejections": len(rej),
        "rejections_not_reported": dict(dropped),
        "exhaustive": False,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ["Linux epoll and poll backends, x86_64; time, timers and signals are virtual",
                                   "threads are interleaved at system calls, atomic accesses and lock operations, sequentially consistent"],
                   "wall_s": round(time.time() - t0, 1), "violations": len(violations)}, fh, indent=1)
    log(f"[{pid}] {len(violations)} violations, {dict(dropped)}, {time.time() - t0:.0f} s")
    bad = [m for m in mc if m.get("error")]
    if bad and not violations:
        raise run.ToolError(f"the specification does not check: {bad}")
    if not violations and not traces:
        raise run.ToolError("nothing was explored")
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        bins = run.build_all([run.CONFIGS[d["config"]][0]])
        r = one(bins, d["config"], d["program"], d["schedule"], set(d["kinds"]), work, "replay", d["seed"], 1.0)
        for f in r:
            print(f"VIOLATION property={d['property']} replay={path}")
            ev = json.loads(f.t.ev)
            for i, e in enumerate(ev, 1):
                print("=>" if i == f.pos else "  ", i, json.dumps(e, separators=(",", ":")))
            print("violated:", f.groups)
        if not r:
            print("accepted")
        return 1 if r else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
