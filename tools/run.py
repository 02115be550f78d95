"""Builds the crate under test, runs programs on it, and has TLC check the recorded traces."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

import dsl
import tracefmt

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

# configuration -> (build, faults at every creation of a poller, backend of the specification)
CONFIGS = {
    "epoll": ("epoll", None, "epoll"),
    "notimer": ("epoll", [["timerfd_create", 0]], "epoll"),
    "pipe": ("pipe", None, "epoll"),
    "poll": ("poll", None, "poll"),
}
CFGS = {"epoll": "", "pipe": " --cfg polling_test_epoll_pipe", "poll": " --cfg polling_test_poll_backend"}


class ToolError(Exception):
    pass


def community():
    for d, _, fs in os.walk("/opt/veriftools/tla"):
        for f in fs:
            if f.startswith("CommunityModules") and f.endswith(".jar"):
                yield os.path.join(d, f)


CP = ":".join(["/opt/veriftools/tla/tla2tools.jar"] + sorted(community()))


def source_hash():
    """Of what the crate is built from: time stamps alone do not tell one tree from another."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(os.path.relpath(os.path.join(d, f), REPO).encode() + b"\0")
                with open(os.path.join(d, f), "rb") as x:
                    h.update(x.read() + b"\0")
    return h.hexdigest()


def build(cfg):
    target = os.path.join(BUILD, "target", cfg)
    stamp = os.path.join(target, "source")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        if old is not None:
            os.unlink(stamp)
        for x in glob.glob(os.path.join(target, "debug", ".fingerprint", "poll*")):
            shutil.rmtree(x)
    env = dict(os.environ, RUSTC_WRAPPER=os.path.join(ROOT, "harness/wrap.sh"),
               RUSTFLAGS="--cfg rustix_use_libc" + CFGS[cfg],
               CARGO_TARGET_DIR=os.path.join(BUILD, "target", cfg), CARGO_NET_OFFLINE="true")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError(f"build of {cfg} failed:\n{r.stderr[-4000:]}")
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(BUILD, "target", cfg, "debug", "pollharness")


def build_all(cfgs):
    with cf.ThreadPoolExecutor(3) as ex:
        return dict(zip(cfgs, ex.map(build, cfgs)))


def expand(progs, configs):
    """[(config, program dict)] for the programs (Prog) on the configurations they apply to."""
    out = {}
    for c in configs:
        b, faults, _ = CONFIGS[c]
        l = []
        for p in progs:
            if p.on is not None and c not in p.on:
                continue
            l.append(dsl.with_faults(p.d, faults, "") if faults else p.d)
        out[c] = l
    return out


def harness(binary, progs, work, name, seed, scale=1.0, parts=1, budget=60, extra=()):
    """Runs programs; returns (list of output files, list of stats)."""
    pf = os.path.join(work, f"{name}.progs")
    with open(pf, "w") as f:
        for p in progs:
            f.write(json.dumps(p) + "\n")
    jobs = []
    for i in range(parts):
        out = os.path.join(work, f"{name}.{i}.out")
        jobs.append(([binary, "--progs", pf, "--out", out, "--seed", str(seed), "--scale", str(scale), "--part", str(i),
                      "--parts", str(parts), "--budget-s", str(budget), "--hang-ms", "6000", *extra], out))
    return jobs


def run_job(job):
    cmd, out = job
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError(f"harness failed ({r.returncode}): {r.stderr[-2000:]}")
    return out, json.loads(r.stderr.strip().splitlines()[-1])


class Trace:
    __slots__ = ("cfg", "prog", "mode", "sched", "ev", "prof", "n")

    def __init__(self, cfg, prog, mode, sched, ev, prof):
        self.cfg, self.prog, self.mode, self.sched, self.ev, self.prof = cfg, prog, mode, sched, ev, prof


def load(files_by_cfg):
    """Traces, normalised and without duplicates (per backend of the specification)."""
    seen = {}
    out = []
    dup = 0
    for cfg, files in files_by_cfg.items():
        be = CONFIGS[cfg][2]
        for f in files:
            for line in open(f):
                d = json.loads(line)
                ev, prof = tracefmt.canon(tracefmt.norm(d["trace"], be))
                s = json.dumps(ev, separators=(",", ":"))
                k = hash(s)
                if k in seen:
                    dup += 1
                    continue
                seen[k] = 1
                out.append(Trace(cfg, d["prog"], d["mode"], d["sched"], s, prof))
                out[-1].n = len(ev)
    return out, dup


def tla_set(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"


def chunks(traces, target):
    ts = sorted(traces, key=lambda t: (t.prof[1] > 6, t.prof, t.n))
    cur, size = [], 0
    for t in ts:
        big = cur and (t.prof[1] > 6) != (cur[0].prof[1] > 6)
        if cur and (size + t.n > target or big or len(cur) >= 4000):
            yield cur
            cur, size = [], 0
        cur.append(t)
        size += t.n
    if cur:
        yield cur


REJ = re.compile(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+),\s*<<\s*(\d+),\s*(\{.*?\})\s*>>\s*>>', re.S)


def tlc(spec, cfg, work, name, args=(), mem="2g", props=(), timeout=800):
    meta = os.path.join(work, name + ".meta")
    cmd = ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", *props, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg, *args, spec]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"TLC timed out on {name}") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


GEN = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def validate_chunk(arg):
    chunk, kinds, work, name = arg
    tf = os.path.join(work, name + ".ndjson")
    with open(tf, "w") as f:
        for i, t in enumerate(chunk):
            f.write('{"id":%d,"ev":%s}\n' % (i + 1, t.ev))
    np, ns, nc, nt = (max(t.prof[k] for t in chunk) for k in range(4))
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(f"""SPECIFICATION TraceSpec
CONSTANT Pollers = {tla_set("p%d" % i for i in range(np))}
CONSTANT Sources = {tla_set("s%d" % i for i in range(ns))}
CONSTANT Containers = {tla_set("c%d" % i for i in range(nc))}
CONSTANT Threads = {{{",".join(str(i + 1) for i in range(nt))}}}
CONSTANT Enabled = {tla_set(sorted(kinds))}
CONSTANT Report <- TraceReport
CONSTANT TraceFile = "{tf}"
CONSTRAINT Progress
INVARIANT TypeOK
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
""")
    out = tlc("PollingTrace.tla", cfg, work, name, args=("-workers", "1"),
              props=("-Dtlc2.tool.queue.IStateQueue=StateDeque",))
    m = re.search(r'<<"VALIDATED", (\d+)>>', out)
    g = GEN.findall(out)
    if not m or int(m.group(1)) != len(chunk) or not g or "Error:" in out:
        k = out.find("Error:")
        raise ToolError(f"TLC failed on {name}:\n{out[k:k + 3000] if k >= 0 else out[-3000:]}")
    rej = []
    for i, pos, kpos, ks in REJ.findall(out):
        groups = [sorted(re.findall(r'"(\w+)"', x)) for x in re.findall(r"\{([^{}]*)\}", ks)]
        groups = [x for x in groups if x]
        rej.append((chunk[int(i) - 1], int(pos), groups if int(kpos) == int(pos) else []))
    if out.count('"REJECTED"') != len(rej):
        raise ToolError(f"cannot read the verdict of {name}:\n{out[-3000:]}")
    return rej, int(g[-1][0]), int(g[-1][1])


def validate(traces, kinds, work, name, target=None):
    """Returns (rejections [(trace, position, kinds)], generated states, distinct states)."""
    total = sum(t.n for t in traces)
    target = target or max(4000, min(60000, total // (2 * NCPU) + 1))
    cs = [(c, kinds, work, f"{name}{i}") for i, c in enumerate(chunks(traces, target))]
    cs.sort(key=lambda c: -sum(t.n for t in c[0]))
    rej, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, g, d in ex.map(validate_chunk, cs):
            rej += r
            gen += g
            dist += d
    return rej, gen, dist


def explore(bins, by_cfg, kinds, work, name, seed, scale=1.0, budget=60):
    """Runs and validates programs.  by_cfg: config -> program dicts."""
    jobs = []
    for c, progs in by_cfg.items():
        if not progs:
            continue
        parts = 4 if len(progs) >= 12 else 1
        for j in harness(bins[CONFIGS[c][0]], progs, work, f"{name}-{c}", seed, scale, parts, budget):
            jobs.append((c, j))
    t0 = time.time()
    files, stats = {}, {"programs": 0, "executions": 0, "steps": 0, "distinct": 0, "complete": 0, "cut": 0}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (c, _), (out, st) in zip(jobs, ex.map(lambda j: run_job(j[1]), jobs)):
            files.setdefault(c, []).append(out)
            for k in stats:
                stats[k] += st[k]
    t1 = time.time()
    traces, dup = load(files)
    t2 = time.time()
    rej, gen, dist = validate(traces, kinds, work, name)
    stats.update(traces=len(traces), duplicate_traces=dup, tlc_generated=gen, tlc_distinct=dist,
                 run_s=round(t1 - t0, 1), load_s=round(t2 - t1, 1), tlc_s=round(time.time() - t2, 1))
    return traces, rej, stats
