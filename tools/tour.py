"""Programs that cover the edges of the graph of abstract states that spec/PollingTour.tla defines."""
import collections
import os
import random
import re
import time

import run
from dsl import MAXKEY, MS, Prog, add, adv, dele, env, evnew, mod, new, notify, opn, seq, wait

EDGE = re.compile(r'^<<"EDGE", "(.*)", <<(.*)>>, "(.*)">>$')


def edges(kind, modes, interests, work, name):
    """[(state, operation, state)] and the numbers of states TLC generated and found."""
    cfg = os.path.join(work, f"{name}.cfg")
    ints = ",".join("{%s}" % ",".join('"%s"' % c for c in i) for i in interests)
    with open(cfg, "w") as f:
        f.write(f"""SPECIFICATION TourSpec
CONSTANT Pollers = {{"p"}}
CONSTANT Sources = {{"s"}}
CONSTANT Containers = {{"c"}}
CONSTANT Threads = {{1}}
CONSTANT Enabled = {{}}
CONSTANT Report <- NoReport
CONSTANT Modes = {run.tla_set(modes)}
CONSTANT Interests = {{{ints}}}
CONSTANT Kind = "{kind}"
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
""")
    out = run.tlc("PollingTour.tla", cfg, work, name, args=("-workers", "4"))
    g = run.GEN.findall(out)
    if "Error" in out or not g:
        raise run.ToolError(f"TLC failed on {name}:\n{out[-3000:]}")
    es = []
    for line in out.splitlines():
        m = EDGE.match(line)
        if m:
            es.append((m.group(1), m.group(2), m.group(3)))
    es.sort()
    return es, int(g[-1][0]), int(g[-1][1])


FIRST = re.compile(r'^<<<<FALSE>>, .*, FALSE>>$')
OP = re.compile(r'"(\w+)"')


class Tour:
    def __init__(self, es, rng):
        self.out = collections.defaultdict(list)
        self.inn = collections.defaultdict(list)
        for a, o, b in es:
            self.out[a].append((o, b))
            self.inn[b].append(a)
        self.rng = rng
        for v in self.out.values():
            rng.shuffle(v)

    def start(self, want):
        self.left = collections.defaultdict(list)
        for a, o in sorted(want):
            self.left[a].append(o)
        for v in self.left.values():
            self.rng.shuffle(v)
        self.next = {a: dict(l) for a, l in self.out.items()}

    def walk(self, cur, length):
        """Walks from cur, covering operations that are left, and waiting often."""
        path = []
        waited = True
        while len(path) < length and self.left:
            if not waited and self.rng.random() < 0.6:
                o = "wait0" if self.rng.random() < 0.8 else "waitms"
                o = f'<<"{o}">>'
                if o in self.next[cur]:
                    path.append(o)
                    if o in self.left.get(cur, ()):
                        self.left[cur].remove(o)
                        if not self.left[cur]:
                            del self.left[cur]
                    cur = self.next[cur][o]
                    waited = True
                    continue
            l = self.left.get(cur)
            if l:
                o = l.pop()
                if not l:
                    del self.left[cur]
                path.append(o)
                cur = self.next[cur][o]
                waited = "wait" in o
                continue
            # the shortest way to a state with operations left
            seen = {cur: None}
            q = collections.deque([cur])
            goal = None
            while q and goal is None:
                x = q.popleft()
                for o, b in self.out[x]:
                    if b in seen:
                        continue
                    seen[b] = (x, o)
                    if b in self.left:
                        goal = b
                        break
                    q.append(b)
            if goal is None:
                self.left.clear()
                break
            back = []
            x = goal
            while seen[x] is not None:
                x, o = seen[x]
                back.append(o)
            path += back[::-1]
            cur = goal
            waited = "wait" in path[-1]
        return path


KEYS = ["0", str(2**32), str(2**63), str(2**64 - 2)]


def split(phases):
    """Every operation in a phase of its own: quiescence is observed after each."""
    out = []
    for ph in phases:
        out += [{"ops": {"1": [o]}} for o in ph["ops"]["1"]] if "ops" in ph else [ph]
    return out


def program(id, kind, path, fine=False, cap=0):
    phases, cur = [seq(new(), evnew("c", cap), opn("s", kind))], []
    n = 0

    def key():
        nonlocal n
        n += 1
        # every third key is that of the call before
        return KEYS[n % 4] if n % 11 == 0 else n - (n % 3 == 0)

    for o in path:
        a = OP.findall(o)
        if a[0] in ("add", "mod"):
            f = add if a[0] == "add" else mod
            if a[-1] == "bad":
                cur.append(f("s", MAXKEY, "".join(a[1:-1]), "L"))
            else:
                cur.append(f("s", key(), "".join(a[1:-1]), a[-1]))
        elif a[0] == "del":
            cur.append(dele())
        elif a[0] == "notify":
            cur.append(notify())
        elif a[0] == "env":
            cur += [env("close"), opn("s", kind)] if a[1] == "reopen" else [env(a[1])]
        elif a[0] == "wait0":
            cur.append(wait(0))
            phases.append(seq(*cur))
            cur = []
        elif a[0] == "waitms":
            cur.append(wait(MS))
            phases += [seq(*cur), adv(MS)]
            cur = []
    cur.append(wait(0))
    phases.append(seq(*cur))
    if fine:
        phases = split(phases)
    return Prog(id, *phases)


def tours(kind, modes, interests, work, name, seed, keep, count, length=60, fine=False):
    """Up to `count` programs that cover operations in states for which keep(state, operation) holds."""
    es, gen, dist = edges(kind, modes, interests, work, name)
    rng = random.Random(f"{seed}-{name}")
    want = {(a, o) for a, o, _ in es if keep(a, o)}
    init = min((a for a, _, _ in es if FIRST.match(a)), key=lambda a: (a.count(","), a))
    t = Tour(es, rng)
    t.start(want)
    out = []
    while t.left and len(out) < count:
        out.append(program(f"{name}-{len(out)}", kind, t.walk(init, length), fine))
    left = sum(len(v) for v in t.left.values())
    return out, {"graph": name, "states": dist, "transitions": gen, "operations_in_states": len({(a, o) for a, o, _ in es}),
                 "wanted": len(want), "covered": len(want) - left, "programs": len(out)}
