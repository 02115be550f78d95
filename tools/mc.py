"""Exhaustive exploration of the specification (spec/PollingMC.tla) and the kill matrix."""
import os
import re

import props
import run

ALLKINDS = sorted(set().union(*props.KINDS.values()))

# name -> threads, pollers, sources, modes, interests, condition steps, conditions, timeouts, calls per
# thread, who calls what, events per batch, environment steps, capacities
C = dict
CONFIGS = {
    # two threads that do everything
    "two": C(t=2, m="O", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="All", ev=1, ticks=1),
    "edge": C(t=2, m="E EO", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="Roles", ev=1, ticks=2),
    # threads that wait and notify
    "notes": C(t=2, s=0, m="O", i="r", steps="StepsI", c="", to="ToMs", n=3, ops="Notes", ev=0, ticks=2),
    "live": C(t=2, m="O", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="Roles", ev=1, ticks=1),
    # one thread, every mode, conditions of several kinds
    "modes": C(t=1, m="O L E EO", i="r -", steps="StepsIH", c="I H", to="ToInf", n=4, ops="Regs", ev=1, ticks=2),
    "extra": C(t=1, m="O L", i="r p -", steps="StepsP", c="I P E", to="ToInf", n=3, ops="Regs", ev=1, ticks=2),
    "write": C(t=1, m="O L E", i="r w rw", steps="StepsO", c="I O", to="ToInf", n=3, ops="Regs", ev=1, ticks=2),
    # two sources and batches of one
    "batch": C(t=1, s=2, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=4, ops="Regs", ev=2, ticks=2, cap="1 2"),
    # two pollers that watch the same source
    "pollers": C(t=2, p=2, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="Waits", ev=1, ticks=1),
    # timeouts
    # calls that the system refuses
    "faults": C(t=2, m="O", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="All", ev=1, ticks=1, flt="TRUE,FALSE"),
    "time": C(t=2, m="L", i="r", steps="StepsI", c="I", to="ToAll", n=2, ops="Waits", ev=1, ticks=2),
}
BIG = {
    "time3": C(t=2, m="L", i="r", steps="StepsI", c="I", to="ToAll", n=2, ops="Waits", ev=1, ticks=3),
    "batch5": C(t=1, s=2, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=5, ops="Regs", ev=2, ticks=2, cap="1 2"),
    "two3": C(t=2, m="O L", i="r", steps="StepsI", c="I", to="ToZero", n=3, ops="All", ev=1, ticks=2),
    "faults3": C(t=2, m="O L", i="r", steps="StepsI", c="I", to="ToZero", n=2, ops="All", ev=1, ticks=2, flt="TRUE,FALSE"),
    "three": C(t=3, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=2, ops="Roles", ev=1, ticks=1),
    "notes3": C(t=3, s=0, m="O", i="r", steps="StepsI", c="", to="ToMs", n=2, ops="Notes", ev=0, ticks=2),
    "modes5": C(t=1, m="O L E EO", i="r w -", steps="StepsIH", c="I H", to="ToInf", n=5, ops="Regs", ev=1, ticks=3),
    "edge3": C(t=2, m="E EO", i="r -", steps="StepsIH", c="I H", to="ToInf", n=3, ops="Roles", ev=1, ticks=2),
    "batch3": C(t=2, s=2, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=3, ops="Waits", ev=2, ticks=2, cap="1 2"),
    "pollers3": C(t=2, p=2, m="O L", i="r", steps="StepsI", c="I", to="ToInf", n=3, ops="Waits", ev=1, ticks=2),
}
# guards removed, where, and the property whose monitor must fire
KILL = [
    ("C01", "lost_notify", "notes"), ("C01", "notify_error", "notes"), ("C02", "spurious early", "notes"),
    ("C03", "late", "time"), ("C03", "zero_blocks late", "time"), ("C04", "oneshot_repeat", "two"),
    ("C05", "nocond level_after", "time"), ("C06", "edge_repeat", "modes"),
    ("C07", "miss miss_level miss_oneshot lost_ready", "two"),
    ("C07", "miss miss_oneshot", "batch"), ("C08", "key", "two"), ("C08", "flags flags_extra", "extra"),
    ("C08", "dup", "batch"), ("C09", "res", "modes"), ("C09", "res res_unexpected", "modes"), ("C10", "two_waiters", "notes"),
    ("C10", "busy_events count", "notes"), ("C10", "busy_blocked", "notes"), ("C11", "op_blocked", "two"),
    ("C16", "count", "two"), ("C16", "batch", "batch"), ("C16", "busy_touch busy_events", "two"),
    ("C17", "ghost", "modes"), ("C19", "flags_extra flags", "extra"),
    ("C20", "wait_error", "faults"), ("C20", "fail_events", "faults"), ("C09", "res", "faults"),
]
# monitors of other properties that may fire first
SAME = {"C19": "C08"}
# property -> configurations
USE = {
    "C01": "notes two", "C02": "notes time", "C03": "time", "C04": "two modes", "C05": "modes write", "C06": "edge modes",
    "C07": "batch two", "C08": "extra write", "C09": "modes", "C10": "notes", "C11": "two", "C12": "time", "C13": "two",
    "C14": "", "C15": "pollers", "C16": "batch two", "C17": "modes", "C18": "two", "C19": "extra modes",
    "C20": "faults",
}
USE_BIG = {
    "C01": "notes3 two3", "C02": "notes3 three", "C03": "two3 time3", "C04": "two3 modes5", "C05": "modes5", "C06": "edge3 modes5",
    "C07": "batch3 three", "C08": "modes5 batch3", "C09": "modes5 two3", "C10": "notes3 three", "C11": "three two3", "C12": "two3 time3",
    "C13": "two3", "C14": "", "C15": "pollers3", "C16": "batch3 batch5", "C17": "modes5", "C18": "two3", "C19": "modes5",
    "C20": "faults3",
}


def sets(s):
    return "{%s}" % ",".join('"%s"' % x for x in s.split())


def config(c, kinds, live, work, name, target=None):
    t = c["t"]
    path = os.path.join(work, name + ".cfg")
    ints = ",".join("{%s}" % ",".join('"%s"' % x for x in i if x != "-") for i in c["i"].split())
    with open(path, "w") as f:
        f.write(f"""SPECIFICATION {'LiveSpec' if live else 'MCSpec'}
CONSTANT Pollers = {run.tla_set("pq"[:c.get("p", 1)])}
CONSTANT Sources = {run.tla_set("st"[:c.get("s", 1)])}
CONSTANT Containers = {run.tla_set("c%d" % (i + 1) for i in range(t))}
CONSTANT Threads = {{{",".join(str(i + 1) for i in range(t))}}}
CONSTANT Enabled = {run.tla_set(kinds)}
CONSTANT Report <- NoReport
CONSTANT Modes = {sets(c["m"])}
CONSTANT Interests = {{{ints}}}
CONSTANT Conds = {sets(c["c"])}
CONSTANT Caps = {{{",".join(c.get("cap", "1024").split())}}}
CONSTANT CondSteps <- {c["steps"]}
CONSTANT Timeouts <- {c["to"]}
CONSTANT Budget = {c["n"]}
CONSTANT OpsOf <- {c["ops"]}
CONSTANT MaxEv = {c["ev"]}
CONSTANT MaxTicks = {c["ticks"]}
CONSTANT Bad = {'FALSE' if live else 'TRUE'}
CONSTANT Faulty = {{{c.get('flt', 'FALSE')}}}
CONSTANT Target = "{target or '-'}"
INVARIANT {'NotTarget' if target else 'Clean'}
CHECK_DEADLOCK FALSE
""")
        if live:
            f.write("PROPERTY Returns\nPROPERTY OpsReturn\n")
        else:
            f.write("CONSTRAINT Going\n")
    return path


def check(name, c, work, live=False, workers=2, mem="3g", timeout=800, partial=False):
    """All guards in force: no monitor fires, and every call can go on."""
    nm = f"mc-{name}{'-live' if live else ''}"
    p = config(c, ALLKINDS, live, work, nm)
    if not live:
        with open(p, "a") as f:
            f.write("INVARIANT Receptive\nINVARIANT TypeOK\nINVARIANT OneWaiter\nINVARIANT MustIsMay\n")
            if c.get("p", 1) > 1:
                f.write("PROPERTY Independent\n")
    try:
        o = run.tlc("PollingMC.tla", p, work, nm, args=("-workers", str(workers)), mem=mem, timeout=timeout)
    except run.ToolError:
        if partial:
            return {"name": nm, "states": 0, "transitions": 0, "note": f"not finished within {timeout} s"}
        raise
    g = run.GEN.findall(o)
    r = {"name": nm, "states": int(g[-1][1]) if g else 0, "transitions": int(g[-1][0]) if g else 0}
    if "No error has been found" not in o:
        r["error"] = o[o.find("Error:"):][:1500]
    return r


def kill(pid, off, name, work):
    """Without these guards the monitor of the property fires."""
    nm = f"kill-{pid}-{off.replace(' ', '-')}-{name}"
    # guards carry several kinds; without the other names of the same guards
    p = config(CONFIGS[name], kinds_without(off.split()), False, work, nm, SAME.get(pid, pid))
    o = run.tlc("PollingMC.tla", p, work, nm, args=("-workers", "2"))
    g = run.GEN.findall(o)
    r = {"name": nm, "states": int(g[-1][1]) if g else 0, "transitions": int(g[-1][0]) if g else 0}
    if "Invariant NotTarget is violated" not in o:
        r["error"] = f"the monitor of {pid} does not fire without {off}: " + o[-500:]
    else:
        r["fired"] = re.findall(r"bad \|-> {(.*?)}", o)[-1].replace('"', "")
    return r


def kinds_without(off):
    """The kinds in force when a guard of the given kinds is to be removed: only the bare names."""
    extra = {"after_fail", "after_readd", "after_during", "none_interest", "extra_cond", "miss_extra", "leftover", "level_after",
             "miss_level", "miss_edge", "miss_oneshot", "flags_extra", "res_edge", "sig_lost"}
    return sorted(set(ALLKINDS) - set(off) - extra)


LIVE = {"C01": "live", "C07": "live", "C11": "live"}


def jobs(pid, full):
    """Side jobs of the check of a property."""
    out = []
    for n in USE[pid].split():
        out.append(lambda work, n=n: {"mc": check(n, CONFIGS[n], work)})
    if pid in LIVE:
        out.append(lambda work: {"mc": check(LIVE[pid], CONFIGS[LIVE[pid]], work, live=True)})
    for p, off, n in KILL:
        if p == pid:
            out.append(lambda work, off=off, n=n: {"mc": kill(pid, off, n, work)})
    if full:
        for n in USE_BIG[pid].split():
            out.append(lambda work, n=n: {"mc": check(n, BIG[n], work, workers=3, mem="5g", timeout=450, partial=True)})
        if pid == "C01":
            out.append(lambda work: {"mc": check("notes", CONFIGS["notes"], work, live=True)})
    return out
