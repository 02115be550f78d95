"""What a check runs: programs per configuration, and side jobs."""
import collections

import gen
import mc
import progs
import run
import tour

ALL = ["epoll", "notimer", "pipe", "poll"]
QUICK_SCALE = {"C01": 0.4, "C07": 0.5, "C10": 0.6, "C11": 0.5, "C12": 0.6, "C13": 0.5, "C20": 0.4}

MODES = ["O", "L", "E", "EO"]
INTERESTS = ["", "r", "w", "rw", "p"]
# property -> source kind -> programs in the quick tier (thorough: all that cover the graph)
TOURS = {
    "C02": {"us": 8},
    "C04": {"us": 25, "efd": 10, "pr": 10, "pw": 12},
    "C05": {"us": 20, "efd": 10, "pr": 10, "pw": 10},
    "C06": {"us": 25, "efd": 10, "pr": 10, "pw": 10},
    "C07": {"us": 15, "pr": 8, "pw": 8},
    "C08": {"us": 25, "efd": 8, "pr": 12, "pw": 12},
    "C09": {"us": 20, "efd": 8},
    "C13": {"us": 12, "pr": 6},
    "C16": {"us": 15, "efd": 8},
    "C17": {"us": 15, "efd": 8, "pr": 6, "pw": 6},
    "C18": {"us": 20, "efd": 10, "pr": 8, "pw": 8},
    "C19": {"us": 40, "pr": 15, "pw": 15},
}
# what a tour covers, if not everything: registrations of these modes
FOCUS = {"C04": ("O", "EO"), "C05": ("L",), "C06": ("E", "EO")}
# property -> flavour of random behaviours -> programs in the quick tier (thorough: ten times)
GENS = {
    "C01": {"notes": 40, "three": 20, "calls": 20},
    "C02": {"notes": 40, "calls": 30, "three": 15, "timed": 20},
    "C03": {"timed": 60, "calls": 20},
    "C04": {"calls": 30, "seq": 30, "three": 10},
    "C05": {"calls": 30, "seq": 30, "three": 10},
    "C06": {"calls": 30, "seq": 30, "three": 10},
    "C07": {"calls": 30, "seq": 30, "three": 20, "pipes": 20},
    "C08": {"seq": 50, "calls": 20, "pairs": 10},
    "C09": {"seq": 50, "calls": 30, "pairs": 15},
    "C10": {"three": 30, "notes": 20},
    "C11": {"three": 40, "calls": 40},
    "C12": {"signals": 60, "timed": 20},
    "C13": {"calls": 25, "notes": 15, "timed": 20, "seq": 20},
    "C14": {"seq": 40, "calls": 20, "pairs": 20},
    "C15": {"pairs": 60},
    "C16": {"seq": 60, "calls": 30, "three": 15},
    "C17": {"calls": 40, "seq": 50},
    "C18": {"states": 60},
    "C19": {"seq": 50, "states": 20},
    "C20": {"refused": 50},
}


class Plan:
    def __init__(self):
        self.by_cfg = {}
        self.side = []
        self.scale = 1.0
        self.budget = 60
        self.origin = {}

    def origins(self, by_cfg):
        return dict(collections.Counter(self.origin.get(p["id"], "behaviours of the specification")
                                        for l in by_cfg.values() for p in l))


def tour_job(pid, kind, count, seed):
    focus = FOCUS.get(pid)
    keep = (lambda a, o: any(f'"{m}"' in o or f'\\"{m}\\"' in a for m in focus)) if focus else (lambda a, o: True)

    def job(work):
        ps, st = tour.tours(kind, MODES, INTERESTS, work, f"tour-{kind}", seed, keep, count, fine=pid == "C18")
        return {"programs": run.expand(ps, ALL), "mc": st}
    return job


def gen_job(flavour, count, seed):
    def job(work):
        ps, st = gen.generate(flavour, count, seed, work)
        return {"programs": run.expand(ps, ALL), "mc": st}
    return job


def plan(pid, tier, seed):
    full = tier == "thorough"
    pl = Plan()
    P = progs.PROGS[pid](full)
    if pid == "C13":
        P = P + progs.c13_fail(full)
    pl.by_cfg = run.expand(P, ALL)
    for p in P:
        pl.origin[p.d["id"]] = "written by hand"
    for kind, n in TOURS.get(pid, {}).items():
        pl.side.append(tour_job(pid, kind, 10**6 if full else n, seed))
    for fl, n in GENS.get(pid, {}).items():
        pl.side.append(gen_job(fl, n * 10 if full else n, seed))
    pl.side += mc.jobs(pid, full)
    pl.scale = 10.0 if full else QUICK_SCALE.get(pid, 1.0)
    pl.budget = 500 if full else 60
    return pl
