"""Hand-written programs, by property.  Each function returns a list of Prog."""
from dsl import *

ALLM = ("O", "L", "E", "EO")
KINDS = ("us", "pr", "pw", "efd")
EP = ("epoll", "notimer", "pipe")


def setup(*ops, p=True):
    return seq(*([new()] if p else []), *ops)


# ---------------------------------------------------------------- C01
def c01(full):
    R = numbers() + aged()
    X = dict(dfs=500, pb=2, rand=120)
    # two threads, wait and notify in every order, several rounds
    for n_wait, n_not in ((1, 1), (2, 1), (1, 2), (2, 2)):
        R.append(Prog(f"wn{n_wait}{n_not}", setup(),
                      par([wait(INF)] * n_wait, [notify()] * n_not),
                      par([wait(INF)], [notify()]), par([], [notify()]), par([], [notify()]),
                      par([wait(0), wait(0)]), **X))
    # notify before the wait, repeatedly; a later wait must need a new notification
    R.append(Prog("before", setup(), seq(notify(), notify()), seq(wait(INF)), seq(notify()), seq(wait(5 * SEC)),
                  seq(wait(INF), th=2), seq(notify()), seq(wait(INF), th=2), seq(notify(), notify())))
    for to in (0, 1, 3 * MS, INF):
        # earlier waits of every kind
        R.append(Prog(f"after{to}", setup(opn(), add()), seq(env("wr"), wait(to), env("drain"), mod()),
                      seq(notify(), wait(to)), seq(wait(0)), seq(wait(MS)), seq(notify()),
                      seq(wait(INF), th=2), seq(notify()), seq(wait(10 * SEC), th=2), seq(notify()),
                      par([notify()], [wait(to)]), par([notify()], [wait(INF)]), seq(notify()), **X))
        R.append(Prog(f"timer{to}", setup(), par([wait(to)], [notify()], [adv_op()] if 0 else []), adv(20 * MS),
                      par([wait(INF)], [notify()]), seq(notify(), th=2), **X))
    # three threads
    R.append(Prog("two-notifiers", setup(), par([wait(INF), wait(INF)], [notify()], [notify()]),
                  par([], [notify()]), par([], [], [notify()]), par([wait(0)]), dfs=900, pb=2, rand=250))
    R.append(Prog("two-notifiers2", setup(), par([wait(INF), wait(0), wait(INF)], [notify(), notify()], [notify()]),
                  par([], [notify()]), par([], [], [notify()]), par([wait(0)]), dfs=700, pb=2, rand=250))
    # with a source becoming ready, and batches of one
    for cap in (1, 2, 0):
        R.append(Prog(f"event{cap}", setup(evnew(cap=cap), opn(), opn("s2", "efd"), add(), add("s2", 2)),
                      par([wait(INF), wait(INF)], [notify()], [env("wr"), env("wr", "s2")]),
                      par([], [notify()]), par([wait(INF)], [notify()], [mod(), mod("s2", 2)]), seq(notify(), th=2),
                      seq(wait(0)), seq(wait(0)), seq(wait(INF)), seq(notify(), th=2), dfs=400, pb=2, rand=150))
        R.append(Prog(f"level{cap}", setup(evnew(cap=cap), opn(), opn("s2", "efd"), add(m="L"), add("s2", 2, m="L"),
                                           env("wr"), env("wr", "s2")),
                      seq(notify()), seq(wait(0)), seq(wait(0)), seq(env("drain"), env("drain", "s2")),
                      seq(notify()), seq(wait(INF)), seq(wait(MS)), seq(notify(), wait(INF)),
                      par([wait(INF)], [notify()]), seq(notify(), th=2)))
    # with registration calls on a third thread
    for nm, ops in (("add", [add()]), ("mod", [mod("t", 9)]), ("del", [dele("t")]), ("addmod", [add(), mod()]),
                    ("two", [mod("t", 9), dele("t")]), ("err", [add("t", 3), mod()])):
        R.append(Prog(f"reg-{nm}", setup(opn(), opn("t", "efd"), add("t", 4)),
                      par([wait(INF)], [notify()], ops), par([wait(INF)], [notify()]), seq(notify(), th=2),
                      seq(notify(), th=2), dfs=700, pb=2, rand=200))
        R.append(Prog(f"reg2-{nm}", setup(opn(), opn("t", "efd"), add("t", 4)),
                      par([wait(2 * MS), wait(INF)], [notify(), notify()], ops), adv(5 * MS), seq(notify(), th=2),
                      seq(notify(), th=2), par([wait(INF)]), seq(notify(), th=2), dfs=500, pb=2, rand=200))
        R.append(Prog(f"reg3-{nm}", setup(opn(), opn("t", "efd"), add("t", 4)),
                      par([wait(INF)]), par([], [notify()], ops), par([wait(INF)], [notify()]),
                      seq(notify(), th=2), dfs=500, pb=2, rand=150))
    R.append(Prog("four", setup(opn(), opn("t", "efd")),
                  par([wait(INF)], [notify()], [add()], [add("t", 2), dele("t")]),
                  seq(notify(), th=2), par([wait(INF)], [notify()]), dfs=600, pb=1, rand=400))
    # other pollers notify too
    R.append(Prog("others", setup(new("q")), par([wait(INF)], [notify("q"), notify("p")], [wait(INF, "d", "q")]),
                  seq(notify("q"), th=2), seq(notify("p"), th=2), **X))
    # very many notifications and waits
    R.append(Prog("many", setup(), seq(rep(5000, notify(), wait(0))), seq(rep(70000, notify())), seq(wait(INF)),
                  seq(wait(INF), th=2), seq(notify())))
    # signals during earlier waits and during this one
    for to in (INF, 5 * MS, DAY):
        R.append(Prog(f"sig{to}", setup(opn(), add()), par([wait(to), wait(INF)], [sig(1), notify()], [notify()]), par([], [notify()]), par([], [], [notify()]),
                      par([wait(0)]), par([wait(to)]), seq(sig(1), th=2), seq(sig(1), notify(), th=2), par([wait(INF)]), seq(notify(), th=2), dfs=600, pb=2, rand=200))
        R.append(Prog(f"sig2{to}", setup(opn(), add()), par([wait(to)], [sig(2)], [env("wr")]), par([], [notify()]), par([wait(to)], [sig(1)], [notify()]), par([], [], [notify()]),
                      par([wait(INF)], [notify()]), seq(notify(), th=2), dfs=400, pb=2, rand=150))
    # a notification stays until a wait
    R.append(Prog("stays", setup(), seq(notify()), adv(100 * SEC), seq(wait(INF)), seq(notify()), adv(DAY),
                  seq(wait(5 * SEC)), seq(wait(0))))
    # more calls than a pipe has room for
    for n in (255, 256, 257, 65535, 65536, 65537):
        R.append(Prog(f"exact{n}", setup(), seq(rep(n, notify())), seq(wait(INF)), seq(rep(n, notify())), par([wait(5 * SEC)]), par([wait(INF)]), par([], [rep(n, notify())]), seq(rep(n, notify(), wait(0))), seq(notify(), wait(INF)), dfs=2))
    R.append(Prog("fill-not", setup(), seq(rep(70000, notify(), wait(0))), par([wait(INF)]), par([], [notify()]), seq(wait(0)), dfs=2, rand=0))
    R.append(Prog("fill-same", setup(), seq(rep(70000, notify())), seq(wait(INF), wait(0)), par([wait(INF)]), par([], [notify()]), dfs=2, rand=0))
    R.append(Prog("fill-ops", setup(opn(), add()), seq(rep(70000, mod(), notify(), wait(0))), par([wait(INF)]), par([], [notify()]), seq(wait(0)), dfs=2, rand=0))
    # the waits of two threads follow each other
    R.append(Prog("handover-not", setup(notify()), par([wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([wait(INF)], [wait(INF, "d")], [notify(), notify()]),
                  par([], [], [notify()]), par([], [], [notify()]), **X))
    R.append(Prog("handover-ev", setup(opn(), add(), env("wr")), par([wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([], [], [notify()]), **X))
    return R


# ---------------------------------------------------------------- C02
def c02(full):
    R = []
    X = dict(dfs=500, pb=2, rand=120)
    for nm, ops in (("add", [add()]), ("adds", [add(), add("u", 3, "w", "L")]), ("mod", [mod("t", 9)]),
                    ("del", [dele("t")]), ("cycle", [mod("t", 9), dele("t"), add("t", 7)]),
                    ("err", [add("t", 3), mod(), dele()])):
        for to in (INF, 7 * MS):
            R.append(Prog(f"reg-{nm}-{to}", setup(opn(), opn("t", "efd"), opn("u", "pw"), env("fill", "u"), add("t", 4)),
                          par([wait(to)], ops), par([], [], [dele("t")]), adv(7 * MS),
                          par([wait(to)], [notify()]), par([wait(INF)]), **X))
            R.append(Prog(f"reg2-{nm}-{to}", setup(opn(), opn("t", "efd"), opn("u", "pw"), env("fill", "u"), add("t", 4)),
                          par([wait(to)]), par([], ops, [mod("t", 1), mod("t", 2)]), adv(7 * MS), par([wait(INF)]), **X))
    # notifications of the past
    for n in (1, 2, 3):
        R.append(Prog(f"coalesce{n}", setup(), par([], [notify()] * n), par([wait(INF)]), par([wait(INF)]),
                      par([], [notify()]), par([wait(INF)]), par([], [notify()] * n), par([wait(0), wait(0)]),
                      par([wait(4 * MS)]), adv(4 * MS)))
        R.append(Prog(f"concurrent{n}", setup(), par([wait(INF)] * n, [notify()] * n), par([wait(INF)], [notify()]),
                      par([wait(INF)]), **X))
    R.append(Prog("race3", setup(), par([wait(INF), wait(INF)], [notify()], [notify()]), par([wait(INF)]),
                  dfs=900, pb=2, rand=250))
    # notification together with an event, batch of one or more
    for cap in (1, 2, 0):
        for m in ALLM:
            R.append(Prog(f"both{cap}{m}", setup(evnew(cap=cap), opn(), add(m=m)), seq(env("wr"), notify()),
                          seq(wait(0)), seq(env("drain")), seq(wait(0)), par([wait(INF)], []), par([], [env("wr")]),
                          seq(env("drain")), seq(wait(0)), seq(wait(3 * MS)), adv(3 * MS), par([wait(INF)])))
        R.append(Prog(f"both3-{cap}", setup(evnew(cap=cap), opn(), opn("t", "efd"), add(m="L"), add("t", 2, m="L")),
                      seq(env("wr"), env("wr", "t"), notify()), seq(wait(INF)), seq(wait(INF)), seq(wait(INF)),
                      seq(env("drain"), env("drain", "t")), par([wait(INF)])))
    # timers of earlier waits
    for to in (1, 999999, 2 * MS, 5 * SEC):
        R.append(Prog(f"stale-ev{to}", setup(opn(), add(m="L")), seq(env("wr"), wait(to), env("drain")),
                      par([wait(INF)]), adv(to + 2 * MS), seq(env("wr"), th=2), seq(env("drain"), th=2),
                      par([wait(0)]), par([wait(to * 3)]), adv(2 * to), adv(to + 2 * MS), par([wait(INF)]), adv(DAY)))
        R.append(Prog(f"stale-not{to}", setup(), par([wait(to)], [notify()]), par([wait(INF)]), adv(to + 2 * MS),
                      par([], [notify()]), par([wait(to)]), adv(to + MS), par([wait(INF)]), adv(10 * to), **X))
        R.append(Prog(f"stale-zero{to}", setup(opn(), add()), par([wait(to)]), adv(to + MS), par([wait(0)]),
                      par([wait(INF)]), adv(to + MS), par([], [env("wr")]), par([wait(INF)]), adv(to)))
        # expired while nobody waited
        R.append(Prog(f"expired{to}", setup(opn(), add(m="L")), seq(env("wr"), wait(to), env("drain")), adv(2 * to),
                      seq(wait(INF)), adv(DAY)))
        R.append(Prog(f"expired2{to}", setup(opn(), add(m="L")), seq(env("wr"), wait(to), env("drain")), adv(2 * to),
                      seq(wait(10 * to)), adv(5 * to), adv(6 * to), par([wait(INF)])))
        R.append(Prog(f"expired3{to}", setup(opn(), add(m="L")), seq(env("wr"), wait(to), notify(), env("drain")), adv(2 * to),
                      seq(wait(INF)), seq(wait(INF)), adv(DAY)))
    # deliveries followed by nothing
    for m in ALLM:
        for kind in KINDS:
            i = "w" if kind == "pw" else "r"
            R.append(Prog(f"quiet-{m}{kind}", setup(opn("s", kind), add("s", 1, i, m)),
                          seq(env("fill" if kind == "pw" else "wr"), wait(0), env("fill" if kind == "pw" else "drain")),
                          seq(wait(INF)), adv(5 * SEC), seq(mod("s", 1, i, m), th=2), seq(dele("s"), th=2)))
    R.append(Prog("ready-uncovered", setup(opn(), opn("t", "us"), add(i=""), add("t", 2, "r")), seq(env("wr"), wait(2 * MS)),
                  par([wait(INF)]), par([], [env("shutw", "t")]), par([wait(INF)])))
    return R


# ---------------------------------------------------------------- C03
DURS = [1, 999, 1000, 1001, 500_000, 999_999, MS, MS + 1, 1_500_000, 2 * MS - 1, 10 * MS, 10 * MS + 300_001,
        999_999_999, SEC, SEC + 1, 3600 * SEC, DAY, 24 * DAY - 1, 24 * DAY, 2**31 * MS - 1, 2**31 * MS,
        2**31 * MS + MS, 25 * DAY, 2**32 * MS, 2**32 * MS + 5 * MS, 50 * DAY, 100 * DAY, 2**31 * SEC,
        2**32 * SEC + 1, 10**12 * SEC, (2**63 - 1) * SEC, (2**63) * SEC, (2**64 - 1) * SEC + 999_999_999,
        (2**63 - 1) * SEC + 999_999_999]


def c03(full):
    R = aged()
    for d in DURS:
        near = d < 10**6 * DAY
        for tk in ((0, 1, 700) if d < 10 * SEC else (0,)):
            R.append(Prog(f"plain{d}t{tk}", setup(), par([wait(d)]), *([adv(d - 1)] if d > 1 and near else []),
                          *([adv(1), adv(MS)] if near else [adv(3 * 10**9 * SEC)]), tick=tk))
        if d < 10**15:
            R.append(Prog(f"twice{d}", setup(), par([wait(d)]), adv(d + MS), par([wait(d), wait(2 * d)]), adv(d + MS),
                          adv(d), adv(d + MS), par([wait(INF)]), adv(d + 2 * MS)))
            R.append(Prog(f"quarter{d}", setup(), par([wait(d)]), adv(d // 4), adv(d // 4), adv(d // 4),
                          adv(d - 3 * (d // 4) - 1), adv(1), adv(MS)))
    # zero and none
    R.append(Prog("zero", setup(opn(), add()), seq(wait(0)), seq(wait(0)), seq(env("wr"), wait(0)), seq(wait(0)),
                  seq(notify(), wait(0)), seq(wait(0)), seq(wait(MS)), seq(wait(0)), tick=1))
    R.append(Prog("none", setup(opn(), add()), seq(wait(3 * MS)), adv(4 * MS), seq(wait(INF)), adv(400 * DAY),
                  seq(env("wr"), th=2), seq(wait(INF)), adv(10**5 * DAY)))
    # the timeout of an earlier wait has no influence
    for a in (1, 2 * MS, SEC, 30 * DAY, (2**64 - 1) * SEC, 0, INF):
        for b in (1, 3 * MS, 2 * SEC, 26 * DAY, (2**63 - 1) * SEC, 0, INF):
            how = [notify()] if (a is None or a) else []
            R.append(Prog(f"seq{a}-{b}", setup(), par([wait(a)], []), seq(*how, th=2), seq(wait(b)),
                          *([adv(b - 1), adv(1), adv(MS)] if b and b < 2**50 else [adv(2 * SEC), adv(9 * DAY)]),
                          seq(wait(5 * MS)), adv(5 * MS), tick=0))
            R.append(Prog(f"ev{a}-{b}", setup(opn(), add(m="L")), seq(env("wr"), wait(a), env("drain")), seq(wait(b)),
                          *([adv(b - 1), adv(1), adv(MS)] if b and b < 2**50 else [adv(2 * SEC)]), tick=3))
    # registration calls and unrelated readiness while waiting
    for d in (2 * MS, 1_500_000, SEC, 26 * DAY):
        X = dict(dfs=150, pb=2, rand=60)
        R.append(Prog(f"ops{d}", setup(opn(), opn("t", "efd"), add("t", 3)), par([wait(d)], [add(), dele()]), adv(d // 2),
                      par([], [mod("t", 4)]), adv(d - d // 2 - 1), adv(1), adv(MS), **X))
        R.append(Prog(f"ops2{d}", setup(opn(), opn("t", "efd"), add("t", 3)), par([wait(d)]), adv(d // 3),
                      par([], [mod("t", 4)], [mod("t", 5), dele("t")]), adv(d // 3), par([], [add()]),
                      adv(d // 3), adv(3), adv(MS), tick=5, **X))
        R.append(Prog(f"uncovered{d}", setup(opn(), add(i="w"), env("fill")), par([wait(d)]), adv(d // 2),
                      par([], [env("wr")]), adv(d - d // 2), adv(MS)))
        R.append(Prog(f"pending{d}", setup(opn(), add(m="L"), env("wr")), par([wait(d)]), par([wait(d)]),
                      seq(env("drain")), par([wait(d)]), adv(d - 1), adv(1), adv(MS)))
        R.append(Prog(f"busy{d}", setup(), par([wait(d)]), par([], [wait(d, "d"), wait(3 * d, "d")]), adv(d), adv(MS),
                      par([wait(d)], [wait(d, "d")]), adv(d), adv(MS), **X))
        R.append(Prog(f"early{d}", setup(opn(), add()), par([wait(d)]), adv(d // 2), par([], [env("wr")]),
                      par([wait(d)]), adv(d // 2 + MS), adv(d)))
    # time passes in the middle of calls
    for d in (1, MS, 3 * MS):
        R.append(Prog(f"delay{d}", setup(opn(), add()), par([wait(d)], [tick(d)], [tick(400_000), tick(d // 2 + 1)]),
                      adv(d), adv(MS), par([wait(d)]), adv(d), adv(MS), dfs=200, pb=2, rand=60))
    return R


# ---------------------------------------------------------------- source activity used below
#            kind, interest, becomes ready, ready again, becomes idle
ACT = [("us", "r", "wr", "wr", "drain"), ("pr", "r", "wr", "wr", "drain"), ("efd", "r", "wr", "wr", "drain"),
       ("us", "w", "unfill", "unfill", "fill"), ("pw", "w", "unfill", "unfill", "fill"),
       ("us", "rw", "wr", "wr", "drain")]


def idle(kind, i):
    """Operations after opening that leave nothing ready for the interest."""
    return [env("fill")] if "w" in i else []


# ---------------------------------------------------------------- C04
def c04(full):
    R = again(("O", "EO")) + long(("O", "EO")) + numbers(("O", "EO"))
    for m in ("O", "EO"):
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i), add("s", 1, i, m)]
            R.append(Prog(f"once-{m}{kind}{i}", setup(*b), seq(env(up), wait(0)), seq(wait(0), env(up2), wait(0)),
                          seq(env(down), env(up), wait(0), wait(0)), seq(mod("s", 2, i, m), wait(0), wait(0)),
                          seq(env(down), mod("s", 3, i, m), wait(0), env(up), wait(0), wait(0)),
                          seq(dele(), wait(0), add("s", 4, i, m), wait(0), wait(0))))
            for ev in ("hup", "shutw", "oob"):
                if kind == "efd" or (ev != "hup" and kind != "us"):
                    continue
                R.append(Prog(f"{ev}-{m}{kind}{i}", setup(*b), seq(env(up), wait(0)), seq(env(ev), wait(0)), seq(wait(0)),
                              seq(wait(MS)), adv(MS), seq(mod("s", 2, i, m), wait(0)), seq(wait(0)),
                              seq(mod("s", 2, "", m)), seq(wait(0)), seq(wait(0))))
                R.append(Prog(f"{ev}2-{m}{kind}{i}", setup(*b), seq(env(ev), wait(0)), seq(env(up), wait(0)), seq(wait(0)),
                              seq(mod("s", 2, i, m), wait(0)), seq(wait(0)), par([wait(INF)])))
            # failed modify does not re-arm
            R.append(Prog(f"nofail-{m}{kind}{i}", setup(*b), seq(env(up), wait(0)), seq(mod("s", MAXKEY, i, m), wait(0)),
                          seq(add("s", 5, i, m), wait(0)), seq(add("s", MAXKEY, i, m), wait(0)), seq(wait(2 * MS)), adv(2 * MS),
                          seq(mod("s", 6, i, m), wait(0), wait(0))))
            # other sources do not re-arm it
            R.append(Prog(f"others-{m}{kind}{i}", setup(*b, opn("t", "efd")), seq(env(up), wait(0)),
                          seq(add("t", 7, "r", "L"), env("wr", "t"), wait(0)), seq(wait(0), mod("t", 8, "r", "O"), wait(0)),
                          seq(dele("t"), wait(0)), seq(mod("s", 9, i, m), wait(0)), seq(wait(0))))
    # batches
    for m in ("O", "EO"):
        for cap in (1, 2, 3, 0):
            ss = ["a", "b", "d", "e"]
            R.append(Prog(f"batch-{m}{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss],
                                                   *[add(x, 10 + n, "r", m) for n, x in enumerate(ss)]),
                          seq(*[env("wr", x) for x in ss]), seq(*[wait(0)] * 5),
                          seq(mod("b", 20, "r", m), mod("e", 21, "r", m)), seq(*[wait(0)] * 4),
                          seq(*[mod(x, 30, "r", m) for x in ss], wait(0), mod("a", 31, "r", m), wait(0), wait(0), wait(0))))
    # several threads
    for m in ("O", "EO"):
        X = dict(dfs=300, pb=2, rand=120)
        R.append(Prog(f"race-{m}", setup(opn(), add(m=m)), par([wait(INF), wait(0)], [env("wr"), env("wr")]),
                      par([wait(0)]), par([wait(0)], [mod(m=m)]), par([wait(0), wait(0)]), **X))
        R.append(Prog(f"race2-{m}", setup(opn(), add(m=m)), par([wait(INF)]), par([wait(0)], [env("wr")], [mod("s", 2, "r", m)]),
                      par([wait(0), wait(0)]), par([wait(0)], [mod("s", 3, "r", m)], [env("wr")]), par([wait(0), wait(0)]), **X))
        R.append(Prog(f"race3-{m}", setup(opn(), opn("t", "efd"), add(m=m), add("t", 2, "r", m), env("wr"), env("wr", "t")),
                      par([wait(0), wait(0)], [mod("s", 5, "r", m)], [mod("t", 6, "r", m)]), par([wait(0), wait(0)]), **X))
        R.append(Prog(f"hup-race-{m}", setup(opn(), add(m=m)), par([wait(0), wait(0), wait(0)], [env("wr"), env("hup")]),
                      par([wait(0)]), par([wait(0), wait(0)], [mod(m=m)]), **X))
    # interest-less and mode changes
    R.append(Prog("modes", setup(opn(), add(m="L"), env("wr")), seq(wait(0), wait(0)), seq(mod(m="O"), wait(0), wait(0)),
                  seq(mod(m="L"), wait(0), wait(0)), seq(mod(m="EO"), wait(0), wait(0), env("wr"), wait(0)),
                  seq(mod(m="E"), wait(0), wait(0), env("wr"), wait(0)), seq(mod(m="O"), wait(0), wait(0), env("wr"), wait(0)),
                  on=EP))
    R.append(Prog("modes-poll", setup(opn(), add(m="L"), env("wr")), seq(wait(0), wait(0)), seq(mod(m="O"), wait(0), wait(0)),
                  seq(mod(m="L"), wait(0), wait(0)), seq(mod(m="O"), wait(0), wait(0)), seq(mod(m="E"), wait(0)),
                  seq(mod(m="O", plain=True), wait(0), wait(0)), seq(mod(m="EO"), wait(0))))
    R.append(Prog("plain", setup(opn(), add(plain=True), env("wr")), seq(wait(0), wait(0)), seq(mod(plain=True), wait(0), wait(0)),
                  seq(dele(), add(plain=True, ref=True), wait(0), wait(0), mod(plain=True), wait(0), wait(0))))
    for i in ("", "p", "rw", "rp", "wp"):
        R.append(Prog(f"int-{i}", setup(opn(), add("s", 1, i, "O")), seq(env("wr"), wait(0), wait(0)), seq(env("hup"), wait(0)),
                      seq(wait(0)), seq(mod("s", 2, i, "O"), wait(0)), seq(wait(0))))
    return R


# ---------------------------------------------------------------- C05
def c05(full):
    R = again(("L",)) + long(("L",)) + numbers(("L",))
    for kind, i, up, up2, down in ACT:
        b = [opn("s", kind), *idle(kind, i), add("s", 1, i, "L")]
        R.append(Prog(f"per-{kind}{i}", setup(*b), seq(wait(0)), seq(env(up), wait(0), wait(0), wait(INF), wait(5 * SEC)),
                      seq(env(up2), wait(0), wait(0)), seq(env(down), wait(0), wait(MS)), adv(MS), seq(env(up), wait(INF)),
                      seq(mod("s", 2, i, "L"), wait(0), wait(0)), seq(mod("s", 3, "", "L"), wait(0), wait(0)),
                      seq(mod("s", 4, i, "L"), wait(0)), seq(dele(), wait(0), wait(2 * MS)), adv(2 * MS),
                      seq(add("s", 5, i, "L"), wait(0), wait(0))))
        R.append(Prog(f"blk-{kind}{i}", setup(*b), par([wait(INF)]), par([], [env(up)]), par([wait(INF)]), par([wait(INF)]),
                      par([], [env(down)]), par([wait(INF)]), par([], [mod("s", 2, "", "L"), env(up)]), par([], [mod("s", 3, i, "L")]),
                      par([wait(INF)])))
        R.append(Prog(f"switch-{kind}{i}", setup(*b), seq(env(up), wait(0), wait(0)), seq(mod("s", 2, i, "O"), wait(0), wait(0)),
                      seq(mod("s", 3, i, "L"), wait(0), wait(0), wait(0)), seq(env(down), wait(0)), seq(env(up), wait(0), wait(0))))
    # part of the interest removed
    R.append(Prog("narrow", setup(opn(), add(i="rw", m="L"), env("wr")), seq(wait(0), wait(0)), seq(mod(i="r", m="L"), wait(0), wait(0)),
                  seq(mod(i="w", m="L"), wait(0), wait(0)), seq(mod(i="r", m="L"), env("drain"), wait(0)),
                  seq(mod(i="w", m="L"), env("fill"), wait(0)), seq(env("wr"), wait(0)), seq(mod(i="rw", m="L"), wait(0), wait(0)),
                  seq(mod(i="", m="L"), wait(0)), seq(env("hup"), wait(0), wait(0))))
    for ev in ("hup", "shutw", "oob"):
        for i in ("", "r", "w", "rw", "p", "rp"):
            R.append(Prog(f"{ev}-{i}", setup(opn(), env("fill"), add("s", 1, i, "L")), seq(env(ev), wait(0), wait(0)), seq(wait(2 * MS)),
                          adv(2 * MS), seq(mod("s", 2, "r", "L"), wait(0), wait(0)), seq(env("drain"), wait(0)),
                          seq(mod("s", 3, i, "L"), wait(0), wait(0)), seq(env("rdoob"), wait(0)), seq(dele(), wait(0))))
        R.append(Prog(f"pipe-{ev}", setup(opn("s", "pr"), add("s", 1, "r", "L")), seq(env("wr"), wait(0)),
                      seq(env("hup"), wait(0), wait(0)), seq(env("drain"), wait(0), wait(0)), seq(dele(), wait(0))))
        R.append(Prog(f"pipew-{ev}", setup(opn("s", "pw"), env("fill"), add("s", 1, "w", "L")), seq(wait(0)), seq(env("hup"), wait(0)),
                      seq(wait(0)), seq(dele(), wait(0))))
    # batches: every wait reports as much as it can, nothing starves
    for cap in (1, 2, 3, 0):
        ss = ["a", "b", "d", "e"]
        R.append(Prog(f"batch{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", "L") for n, x in enumerate(ss)]),
                      seq(*[env("wr", x) for x in ss]), seq(*[wait(0)] * 5), seq(env("drain", "a"), env("drain", "d")), seq(*[wait(0)] * 4),
                      seq(env("wr", "a"), wait(INF), wait(5 * SEC)), seq(notify(), wait(0), wait(0), wait(0)),
                      seq(dele("a"), dele("b"), wait(0), wait(0)), seq(env("drain", "e"), wait(0), wait(MS))))
    # with threads
    X = dict(dfs=250, pb=2, rand=120)
    R.append(Prog("race", setup(opn(), add(m="L")), par([wait(INF), wait(INF)], [env("wr")], [mod("s", 2, "r", "L")]), par([wait(0)]),
                  par([wait(0), wait(0)], [env("drain")]), par([wait(0)]), **X))
    R.append(Prog("race-del", setup(opn(), opn("t", "efd"), add(m="L"), add("t", 2, m="L"), env("wr"), env("wr", "t")),
                  par([wait(0), wait(0), wait(0)], [dele("s")], [mod("t", 3, "", "L")]), par([wait(0), wait(0)]), **X))
    R.append(Prog("race-none", setup(opn(), add(i="", m="L"), env("wr")), par([wait(INF)]), par([wait(INF)], [mod(m="L")], [notify()]),
                  par([wait(INF)], [notify()]), **X))
    # a level source together with notifications and timeouts
    R.append(Prog("with-notify", setup(opn(), add(m="L"), env("wr")), seq(notify(), wait(0), notify(), wait(INF)), seq(wait(0)),
                  seq(wait(7 * MS)), seq(env("drain"), wait(7 * MS)), adv(7 * MS), seq(env("wr"), wait(0), wait(0))))
    # many sources
    n = 40
    R.append(Prog("many", setup(*[opn(f"m{k}", "efd") for k in range(n)], *[add(f"m{k}", k, "r", "L") for k in range(n)],
                                *[env("wr", f"m{k}") for k in range(0, n, 2)]),
                  seq(wait(0), wait(0)), seq(*[dele(f"m{k}") for k in range(0, n, 3)], wait(0)),
                  seq(*[env("drain", f"m{k}") for k in range(0, n, 4)], wait(0), wait(0))))
    return R


# ---------------------------------------------------------------- C06
def c06(full):
    R = again(("E", "EO")) + long(("E", "EO")) + numbers(("E", "EO"))
    for m in ("E", "EO"):
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i), add("s", 1, i, m)]
            R.append(Prog(f"edge-{m}{kind}{i}", setup(*b), seq(wait(0)), seq(env(up), wait(0), wait(0)), seq(env(up2), wait(0), wait(0)),
                          seq(env(down), wait(0)), seq(env(up), wait(0), wait(0)), seq(mod("s", 2, i, m), wait(0), wait(0)),
                          seq(env(down), mod("s", 3, i, m), wait(0)), seq(env(up), wait(INF)), seq(dele(), wait(0)),
                          seq(add("s", 4, i, m), wait(0), wait(0)), seq(env(up2), wait(0), wait(MS)), adv(MS)))
            R.append(Prog(f"armready-{m}{kind}{i}", setup(opn("s", kind), *idle(kind, i), env(up), add("s", 1, i, m)), seq(wait(INF)),
                          seq(wait(0)), seq(wait(2 * MS)), adv(2 * MS), seq(mod("s", 2, i, m), wait(INF), wait(0)),
                          seq(mod("s", 3, "", m), wait(0)), seq(mod("s", 3, i, m), wait(INF), wait(0))))
            R.append(Prog(f"blk-{m}{kind}{i}", setup(*b), par([wait(INF)]), par([], [env(up)]), par([wait(INF)]), par([], [env(down), env(up)]),
                          par([wait(INF)]), par([], [mod("s", 2, i, m)]), par([wait(INF)]), par([], [env(up2)])))
            R.append(Prog(f"sw-{m}{kind}{i}", setup(*b), seq(env(up), mod("s", 2, i, "L"), wait(0), wait(0)),
                          seq(mod("s", 3, i, m), wait(0), wait(0)), seq(mod("s", 3, i, "O"), wait(0), wait(0)),
                          seq(mod("s", 4, i, m), wait(0), wait(0), env(up2), wait(0))))
        for ev in ("hup", "shutw", "oob"):
            for i in ("", "r", "w", "rw", "p"):
                R.append(Prog(f"{ev}-{m}{i}", setup(opn(), env("fill"), add("s", 1, i, m)), seq(env(ev), wait(0)), seq(wait(0)),
                              seq(env("wr"), wait(0), wait(0)), seq(env(ev), wait(0)), seq(mod("s", 2, i, m), wait(0), wait(0)),
                              seq(env("hup"), wait(0), wait(0))))
        for cap in (1, 2, 0):
            ss = ["a", "b", "d"]
            R.append(Prog(f"batch-{m}{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", m) for n, x in enumerate(ss)]),
                          seq(*[env("wr", x) for x in ss]), seq(*[wait(0)] * 4), seq(*[env("wr", x) for x in ss]),
                          seq(wait(0), env("wr", "a"), wait(0), wait(0), wait(0)), seq(mod("b", 20, "r", m), wait(0), wait(0))))
        X = dict(dfs=250, pb=2, rand=120)
        R.append(Prog(f"race-{m}", setup(opn(), add(m=m)), par([wait(INF), wait(0)], [env("wr"), env("wr")]), par([wait(0)]),
                      par([wait(0), wait(0)], [env("wr")], [mod("s", 2, "r", m)]), par([wait(0), wait(0)]), **X))
        R.append(Prog(f"race2-{m}", setup(opn()), par([wait(INF)], [env("wr")], [add(m=m)]), par([wait(0)]),
                      par([wait(0), wait(0)], [notify()], [env("wr")]), par([wait(0)]), **X))
        # refused registration leaves the armed edge alone
        R.append(Prog(f"refused-{m}", setup(opn(), add(m=m)), seq(env("wr"), add("s", 9, "r", m), wait(0), wait(0)),
                      seq(mod("s", MAXKEY, "r", m), wait(0)), seq(env("wr"), mod("s", MAXKEY, "r", "L"), wait(0), wait(0))))
    # support
    for m in ALLM:
        R.append(Prog(f"support-{m}", setup(opn(), opn("t", "efd"), add(m=m), wait(0), env("wr"), wait(0), wait(0)),
                      seq(add("t", 2, "r", "L"), mod("t", 3, "r", m), env("wr", "t"), wait(0), wait(0)), seq(mod("s", 1, "r", m), dele("s"), dele("t"))))
        R.append(Prog(f"support2-{m}", setup(opn(), add("s", 1, "rw", m), mod("s", 2, "w", m), mod("s", 3, "", m), dele(), add("s", 5, "p", m),
                                             wait(0), dele(), dele())))
    return R


# ---------------------------------------------------------------- C07
def c07(full):
    R = again() + long() + numbers() + crowd(260, "O")
    X = dict(dfs=350, pb=2, rand=120)
    for m in ALLM:
        for kind, i, up, up2, down in ACT:
            pre = [opn("s", kind), *idle(kind, i)]
            # every order of registering, becoming ready and waiting
            R.append(Prog(f"order-{m}{kind}{i}", setup(*pre), par([wait(INF)], [add("s", 1, i, m)], [env(up)]),
                          par([wait(INF)], [mod("s", 2, i, m)]), par([wait(0)]), dfs=250, pb=2, rand=100))
            R.append(Prog(f"rearm-{m}{kind}{i}", setup(*pre, add("s", 1, "", m)), par([wait(INF)]), par([], [mod("s", 1, i, m)], [env(up)]),
                          par([wait(INF)], [env(down), env(up2), mod("s", 3, i, m)]), par([wait(0)]), dfs=250, pb=2, rand=100))
            R.append(Prog(f"blocked-{m}{kind}{i}", setup(*pre, env(up)), par([wait(INF)]), par([], [add("s", 1, i, m)]), par([wait(INF)]),
                          par([], [mod("s", 2, i, m)]), par([wait(INF)]), par([], [dele(), add("s", 3, i, m)])))
            R.append(Prog(f"widen-{m}{kind}{i}", setup(*pre, add("s", 1, "p", m), env(up)), par([wait(INF)]), par([], [mod("s", 1, i, m)]),
                          par([wait(0)])))
        R.append(Prog(f"hup-{m}", setup(opn(), add(i="", m=m)), par([wait(INF)]), par([], [env("hup")]), par([wait(0)]),
                      par([wait(INF)], [mod("s", 2, "", m)]), par([wait(0)])))
    # a second source while the first is handled
    for m in ("O", "L"):
        R.append(Prog(f"two-{m}", setup(opn("a", "efd"), opn("b", "us"), add("a", 1, "r", m), add("b", 2, "r", m)),
                      par([wait(INF), wait(INF)], [env("wr", "a")], [env("wr", "b")]), par([wait(0)]),
                      par([wait(INF)], [mod("a", 3, "r", m)], [mod("b", 4, "r", m)]), par([wait(0)]), **X))
        R.append(Prog(f"addwhile-{m}", setup(opn("a", "efd"), opn("b", "us"), env("wr", "b")), par([wait(INF)]),
                      par([], [add("a", 1, "r", m), env("wr", "a")], [add("b", 2, "r", m)]), par([wait(0), wait(0)]), **X))
        R.append(Prog(f"delother-{m}", setup(opn("a", "efd"), opn("b", "us"), opn("d", "pr"), add("a", 1, "r", m), add("b", 2, "r", m), add("d", 3, "r", m)),
                      par([wait(INF)], [dele("a")], [env("wr", "d")]), par([wait(INF)], [env("wr", "b")]), par([wait(0)]), **X))
        R.append(Prog(f"delother2-{m}", setup(opn("a", "efd"), opn("b", "us"), opn("d", "pr"), add("a", 1, "r", m), add("b", 2, "r", m), add("d", 3, "r", m),
                                              env("wr", "d"), env("wr", "b"), dele("a")), seq(wait(INF)), seq(mod("d", 4, "r", m), dele("b"), wait(INF)),
                      seq(add("a", 6, "r", m), mod("d", 5, "r", m), env("wr", "a"), wait(INF), wait(0))))
    # more ready sources than a batch
    for m in ALLM:
        for cap in (1, 2, 3, 5):
            ss = ["a", "b", "d", "e", "f", "g"]
            R.append(Prog(f"batch-{m}{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", m) for n, x in enumerate(ss)],
                                                   *[env("wr", x) for x in ss]),
                          *[seq(wait(0)) for _ in range(7)], seq(*[mod(x, 20 + n, "r", m) for n, x in enumerate(ss)]), seq(*[wait(INF)] * 2),
                          seq(*[wait(0)] * 6)))
            R.append(Prog(f"batchn-{m}{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", m) for n, x in enumerate(ss)],
                                                    *[env("wr", x) for x in ss]), seq(notify()), seq(wait(0)), seq(wait(5 * SEC)), seq(notify()),
                          *[seq(wait(0)) for _ in range(6)], seq(dele("a"), mod("b", 3, "r", m)), seq(wait(0)), seq(wait(0))))
    # what a full batch leaves out comes next: sources that stay ready do not keep others out
    for cap in (1, 2, 3):
        for mm in ("LLO", "LLLE", "LLLLEO"):
            ss = [f"f{k}" for k in range(len(mm) if mm != "LLLLEO" else 5)]
            ms = [*mm[:4], "EO"] if mm == "LLLLEO" else list(mm)
            on = ("epoll", "notimer", "pipe") if "E" in mm else ("epoll", "notimer", "pipe", "poll")
            last, reg0 = ss[-1], setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", m) for n, (x, m) in enumerate(zip(ss, ms))])
            R.append(Prog(f"turn-{mm}{cap}", reg0, seq(*[env("wr", x) for x in ss]), *[seq(wait(0)) for _ in range(9)], seq(mod(last, 3, "r", ms[-1])),
                          *[seq(notify(), wait(0)) for _ in range(9)], seq(env("drain", last), env("wr", last), mod(last, 4, "r", ms[-1])), *[seq(wait(MS)) for _ in range(9)],
                          seq(env("drain", ss[0]), mod(last, 5, "r", ms[-1])), *[seq(mod(ss[0], 60, "r", "L"), wait(0)) for _ in range(8)], on=on))
            R.append(Prog(f"turnp-{mm}{cap}", reg0, seq(*[env("wr", x) for x in ss]), par([wait(0)] * 8, [mod(last, 3, "r", ms[-1]), notify(), env("drain", ss[0]), env("wr", ss[0])]), seq(*[wait(0)] * 8), rand=20, on=on))
    # batch and expired timer / notification in the same wait
    for cap in (1, 2):
        R.append(Prog(f"timerbatch{cap}", setup(evnew(cap=cap), opn("a", "efd"), opn("b", "efd"), add("a", 1), add("b", 2)),
                      par([wait(2 * MS)]), par([], [tick(3 * MS), env("wr", "a"), env("wr", "b"), notify()]), seq(wait(0)), seq(wait(0)), seq(wait(0)),
                      par([wait(2 * MS), wait(0), wait(0)], [env("wr", "a"), env("wr", "b"), notify()], [tick(2 * MS), mod("a", 5), mod("b", 6)]), seq(wait(0)),
                      seq(wait(0)), dfs=250, pb=1, rand=150))
    # many sources
    n = 60
    for m in ("O", "L"):
        R.append(Prog(f"many-{m}", setup(evnew(cap=16), *[opn(f"m{k}", "efd") for k in range(n)], *[add(f"m{k}", k, "r", m) for k in range(n)],
                                         *[env("wr", f"m{k}") for k in range(n)]), *[seq(wait(0)) for _ in range(5)],
                      seq(*[dele(f"m{k}") for k in range(0, n, 2)]), seq(*[mod(f"m{k}", 100 + k, "r", m) for k in range(1, n, 2)]), seq(wait(0), wait(0), wait(0)),
                      seq(*[add(f"m{k}", 200 + k, "r", m) for k in range(0, n, 4)]), seq(wait(0), wait(0), wait(0))))
    # the failed call does not disturb
    for o in (add("s", 9), mod("t", 9), dele("t"), mod("s", MAXKEY), add("t", MAXKEY)):
        R.append(Prog(f"fail-{o['op']}{o['s']}{o.get('key', '')[:2]}", setup(opn(), opn("t", "efd"), add(), env("wr")), seq(o), seq(wait(INF)), seq(wait(0)),
                      seq(env("drain"), mod()), par([wait(INF)]), par([], [o], [env("wr")]), **X))
    return R


# ---------------------------------------------------------------- C08
KEYS = [0, 1, 7, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 2]


def again(modes=ALLM):
    """The same call over and over: nothing about the registration changes, but it is armed again."""
    R = []
    for m in modes:
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i), opn("t", "efd"), add("t", 5, "r", m), add("s", 1, i, m)]
            A = mod("s", 1, i, m)
            R.append(Prog(f"again-{m}{kind}{i}", setup(*b), seq(A, A, wait(0)), seq(env(up), wait(0), A, wait(0), wait(0)), seq(A, A, A, wait(0), wait(0)), seq(env(down), A, A, wait(0), env(up2), wait(0)),
                          seq(A, wait(0), A, wait(INF), wait(0)), seq(env("wr", "t"), wait(0), A, mod("t", 5, "r", m), wait(0), mod("t", 5, "r", m), A, wait(0), wait(0)), seq(A, dele(), A, wait(0)), seq(add("s", 1, i, m), A, wait(0), A, wait(0)),
                          seq(dele(), add("s", 1, i, m), wait(0), dele(), add("s", 1, i, m), wait(0), wait(0))))
            R.append(Prog(f"again2-{m}{kind}{i}", setup(*b), par([wait(INF), wait(INF)], [A, env(up), A]), par([], [A]), par([wait(INF)], [A], [A]), par([wait(0)], [A, A, A]), par([wait(0), wait(0)]), dfs=100, pb=2, rand=40))
    return R


def aged():
    """A poller, and the machine, of any age."""
    R = []
    for a in (20 * DAY, 2**31 * MS, 25 * DAY, 2**32 * MS - MS, 2**32 * MS, 50 * DAY, 120 * DAY, 2**31 * SEC, 2**32 * SEC + SEC, 300 * 365 * DAY, 10**4 * 365 * DAY):
        b = [adv(a), par([wait(3 * MS)]), adv(3 * MS - 1), adv(1), adv(MS), par([wait(1_500_000)]), par([], [notify()]), seq(notify()), seq(wait(2 * SEC)), par([wait(2 * SEC)]), adv(SEC), par([], [], [sig(1)]), adv(SEC - 1), adv(1), adv(MS),
             par([wait(INF)]), adv(a), par([], [add()]), par([], [env("wr")]), seq(wait(0)), par([wait(MS)], [mod("s", 2)]), adv(MS), seq(wait(MS)), adv(2 * MS)]
        R.append(Prog(f"aged{a}", setup(opn()), *b, tick=a % 7 and 1))
        R.append(Prog(f"agedp{a}", seq(opn()), adv(a), setup(), *b))
    return R


NUMBERS = (0, 63, 64, 127, 128, 255, 256, 511, 1023, 1024, 1025, 4095, 4096, 16000)


def numbers(modes=("O", "L")):
    """Descriptor numbers, of sources and of the poller's own descriptors, mean nothing."""
    R = []
    for n in NUMBERS:
        for m in modes:
            R.append(Prog(f"num{n}-{m}", setup(opn("s", "us", fd=n), opn("t", "efd")), seq(mod(), dele(), add("s", 1, "r", m), add("t", 2, "rw", "L"), add("s", 3, "w", m)), seq(wait(0)), seq(env("wr"), env("wr", "t"), wait(0), wait(0)), seq(mod("s", 4, "w", m), wait(0), wait(0)),
                          seq(mod("s", 5, "", m), wait(0)), seq(dele(), wait(0), mod(), dele()), seq(add("s", 6, "rw", m), wait(0)), seq(notify(), dele("t"), wait(0), wait(INF)), seq(dele(), env("close")), seq(wait(0)), seq(opn("u", "efd", fd=n), add("u", 7, "r", m), wait(0)), seq(env("wr", "u"), wait(0), notify(), wait(0))))
        # the poller's descriptors have the lowest free numbers, and sources lower and higher ones
        R.append(Prog(f"own{n}", seq(gap(n), opn("z", "efd", fd=60), gap(0) if n == 0 else new("q"), new(), opn(), opn("t", "efd"), add(), add("t", 2, "r", "L")), par([wait(INF)], [notify()]), par([], [notify()]), par([wait(2 * MS)]), adv(2 * MS), par([wait(INF)], [env("wr", "t")]), seq(wait(0)), seq(notify(), wait(INF), mod("t", 3, "", "O")),
                      par([wait(INF)], [add("s", 4), mod("t", 5, "r", "L")]), seq(dele("t"), wait(0)), par([wait(INF)]), par([], [env("wr")]), seq(dele(), drop(), new(), notify(), wait(INF), add("s", 8, "r", "L"), wait(0)), par([wait(MS)]), seq(drop())))
    return R


def crowd(n, modes):
    """Many sources, ready all at once."""
    R = []
    S = [f"f{i}" for i in range(n)]
    for m in modes:
        R.append(Prog(f"crowd{n}-{m}", setup(*[opn(x, "efd") for x in S], *[add(x, 7 + i, "r", m) for i, x in enumerate(S)]), seq(wait(0)), seq(*[env("wr", x) for x in S]), seq(wait(0)), seq(wait(0)),
                      seq(*[mod(x, 3 * n + i, "r", m) for i, x in enumerate(S)]), seq(wait(0)), seq(wait(0)), seq(*[dele(x) for x in S[::2]]), seq(wait(0)), seq(wait(0))))
    return R


def long(modes=ALLM):
    """Nothing changes with the number of repetitions."""
    R = []
    N = 300
    for m in modes:
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i), opn("t", "efd"), add("t", 5, "r", "O"), add("s", 1, i, m)]
            A = mod("s", 1, i, m)
            R.append(Prog(f"long-{m}{kind}{i}", setup(*b), seq(rep(N, wait(0))), seq(env(up), wait(0)), seq(rep(N, wait(0))), seq(rep(N, A, wait(0))), seq(wait(0), env(down), rep(N, wait(0))), seq(rep(N, A)), seq(wait(0), env(up), wait(0), wait(0)),
                          seq(rep(N, dele(), add("s", 1, i, m), wait(0))), seq(wait(0), rep(N, dele(), dele(), A, add("s", 1, i, m), add("s", 1, i, m))), seq(wait(0)), seq(env("wr", "t"), rep(N, wait(0), mod("t", 5))), seq(wait(0), wait(0)),
                          seq(rep(N, notify(), wait(0), A)), seq(wait(0), wait(0)), seq(rep(N, env(down), env(up), A, wait(0))), seq(wait(0)), dfs=2))
    return R


def key_life():
    """The whole life of a registration with a key of every magnitude."""
    R = []
    for n, k in enumerate(KEYS):
        k2 = KEYS[(n * 5 + 4) % len(KEYS)]
        for m in ("O", "L", "E", "EO"):
            on = ("epoll", "pipe", "poll") if m in "OL" else ("epoll",)
            R.append(Prog(f"life{k}{m}", setup(opn(), opn("t", "efd"), add("s", k, "r", m), add("t", k2, "r", m)), seq(env("wr"), wait(0), wait(0), add("s", 5, "r", m), dele("s"), dele("s"), wait(0)),
                          seq(add("s", k, "r", m), add("s", k, "r", m), wait(0), wait(0), mod("s", k2, "r", m), wait(0)), seq(env("drain"), dele("s"), mod("s", k, "r", m), add("s", k2, "w", m), wait(0)),
                          seq(mod("s", k, "w", m), mod("s", k, "", m), wait(0), dele("s"), dele("t"), dele("t"), add("t", k, "w", m), wait(0), dele("t"), wait(0)), on=on))
    return R


def c08(full):
    R = numbers()
    for n, k in enumerate(KEYS):
        k2 = KEYS[(n * 5 + 3) % len(KEYS)]
        R.append(Prog(f"key{k}", setup(opn(), opn("t", "efd"), add("s", k, "rw"), add("t", k2, "r", "L"), env("wr")), seq(wait(0)),
                      seq(env("wr", "t"), wait(0)), seq(mod("s", k2, "r", "L"), wait(0), wait(0)), seq(mod("t", k, "r", "L"), wait(0)),
                      seq(dele("s"), wait(0)), seq(add("s", k, "w", "O"), wait(0)), seq(mod("s", MAXKEY, "r"), mod("t", MAXKEY), wait(0))))
    # same key on several sources
    R.append(Prog("samekey", setup(opn(), opn("t", "efd"), opn("u", "pr"), add("s", 5, "rw", "L"), add("t", 5, "r", "L"), add("u", 5, "r", "L")),
                  seq(wait(0)), seq(env("wr", "t"), wait(0)), seq(env("wr", "u"), env("wr", "s"), wait(0)), seq(mod("u", 6, "r", "L"), wait(0)),
                  seq(mod("u", 5, "r", "O"), wait(0), wait(0))))
    for m in ("O", "L", "E"):
        for i in ("", "r", "w", "rw", "p", "rp", "wp", "rwp", "h", "rh", "wh"):
            for kind in ("us", "pr", "pw", "efd"):
                conds = [["wr"], ["fill"], ["fill", "wr"], ["hup"], ["wr", "hup"], ["shutw"], ["fill", "hup"], ["wr", "shutw"], ["oob"], ["fill", "oob"]]
                if kind != "us":
                    conds = [["wr"], ["hup"], ["wr", "hup"], ["fill"], ["fill", "hup"]] if kind != "efd" else [["wr"], ["fill"]]
                ph = [seq(new())]
                for n, cs in enumerate(conds):
                    s = f"s{n}"
                    ph.append(seq(opn(s, kind), add(s, 30 + n, i, m, ctor=True), wait(0), *[env(c, s) for c in cs], wait(0),
                                  mod(s, 50 + n, i, m), wait(0), mod(s, 70 + n, {"r": "w", "w": "r"}.get(i, "rw"), m), wait(0),
                                  dele(s), env("close", s)))
                R.append(Prog(f"flags-{m}{kind}{i}", *ph))
    # conditions that change between becoming ready and being collected
    R.append(Prog("change", setup(opn(), add("s", 1, "rw"), env("fill")), seq(env("wr"), env("drain"), wait(0)), seq(env("wr"), env("unfill"), wait(0)),
                  seq(mod("s", 2, "r"), env("drain"), env("wr"), env("drain"), wait(0)), seq(env("fill"), mod("s", 3, "rw"), env("unfill"), env("fill"), wait(0)),
                  seq(env("wr"), mod("s", 4, "w"), wait(0)), seq(mod("s", 5, "rw"), wait(0))))
    R.append(Prog("race", setup(opn(), add("s", 1, "rw", "L"), env("fill")), par([wait(INF), wait(0)], [env("wr"), env("unfill")], [mod("s", 2, "r", "L")]),
                  par([wait(0)]), par([wait(0)], [mod("s", 3, "w", "L"), mod("s", 4, "rw", "L")], [env("drain")]), par([wait(0)]), dfs=300, pb=2, rand=120))
    # a delivered event used as the next interest
    for m in ALLM:
        for i1, i2 in (("rw", "r"), ("rw", "w"), ("rw", ""), ("rwp", "r"), ("r", "")):
            R.append(Prog(f"reuse-{m}{i1}{i2}", setup(opn(), add("s", 1, i1, m), env("wr")), seq(wait(0)), seq(mod("s", 2, i2, m, reuse="c", rkey="1")),
                          seq(wait(0), wait(0)), seq(env("drain"), wait(0)), seq(mod("s", 3, "rw", m), wait(0))))
    # one event per source and wait, whatever the number of changes
    R.append(Prog("dups", setup(opn(), opn("t", "efd"), add("s", 1, "rw", "L"), add("t", 2, "r", "L")),
                  seq(env("wr"), env("wr"), env("fill"), env("unfill"), env("wr", "t"), mod("s", 3, "rw", "L"), mod("t", 4, "r", "L"), wait(0)),
                  seq(dele("t"), add("t", 5, "r", "L"), wait(0)), seq(dele("s"), add("s", 6, "rw", "L"), wait(0)), seq(wait(0), notify(), wait(0))))
    return R


# ---------------------------------------------------------------- C09
def c09(full):
    R = again() + long() + numbers(ALLM) + crowd(300, "O")
    bad = [mod("s", MAXKEY, "rw", "L"), mod("s", MAXKEY, "", "O"), add("s", 9, "", "L"), add("s", MAXKEY, "w", "L")]
    badp = [mod("s", 9, "w", "E"), mod("s", 9, "", "EO"), add("s", 9, "w", "E"), mod("s", 8, "rw", "EO")]
    for m in ALLM:
        for i in ("r", "w", "rw", ""):
            # failures leave key, interest, mode and armed state; pending or not, armed or not
            for nm, bs in (("b", bad), ("p", badp)):
                base = m if nm == "b" else ("O" if m in ("O", "E") else "L")
                bs = bs if nm == "b" else badp
                on = None if nm == "b" else ("poll",)
                if nm == "p" and m in ("E", "EO"):
                    continue
                for n, x in enumerate(bs):
                    R.append(Prog(f"fail-{m}{i}{nm}{n}", setup(opn(), env("fill"), add("s", 3, i, base)), seq(x), seq(wait(0)),
                                  seq(env("wr"), x, wait(0), wait(0)), seq(x, wait(0)), seq(env("unfill"), x, wait(0), wait(0)), seq(mod("s", 4, i, base), x, wait(0), x, wait(0)),
                                  seq(env("drain"), wait(0)), seq(env("wr"), wait(0), wait(0)), seq(env("hup"), x, wait(0), wait(0)), seq(dele(), x, wait(0)), on=on))
    # bookkeeping over several sources and histories
    ss = ["a", "b", "d", "e"]
    o = [opn(x, k) for x, k in zip(ss, KINDS)]
    for perm in ("abde", "edba", "bead", "dabe"):
        for m in ("O", "L"):
            R.append(Prog(f"hist-{perm}{m}", setup(*o), seq(*[add(x, 10 + n, "rw", m) for n, x in enumerate("abde")]), seq(*[add(x, 1) for x in perm]),
                          seq(wait(0)), seq(dele(perm[0]), dele(perm[0]), mod(perm[0], 5), mod(perm[1], 21, "rw", m), wait(0)),
                          seq(dele(perm[1]), add(perm[0], 22, "rw", m), wait(0)), seq(mod(perm[2], 23, "w", m), mod(perm[3], 24, "r", m), wait(0)),
                          seq(*[env("wr", x) for x in "abde"], wait(0)), seq(dele(perm[3]), add(perm[3], 25, "rw", m), mod(perm[1], 3), add(perm[1], 26, "rw", m), wait(0)),
                          seq(*[dele(x) for x in perm]), seq(*[dele(x) for x in perm], wait(0)), seq(*[add(x, 30, "rw", m) for x in perm[:2]], wait(0))))
    # refused adds leave the source unregistered
    for x in (add("s", MAXKEY), add("s", MAXKEY, "rw", "L"), add("s", MAXKEY, plain=True), add("s", 3, "r", "E"), add("s", 3, "", "EO")):
        R.append(Prog(f"refused-{x['key'][:3]}{x['mode']}{x.get('r')}{x.get('plain')}", setup(opn(), env("wr")), seq(x), seq(wait(0)), seq(mod("s", 2)), seq(wait(0)), seq(dele(), dele()), seq(add("s", 4)), seq(wait(0)),
                      seq(dele(), dele())))
    for k in (MAXKEY, str(2**64 - 2), "0"):
        for m in ALLM:
            R.append(Prog(f"res-{k[-3:]}{m}", setup(opn(), opn("t", "efd"), add("s", k, "r", m), add("t", 1, "r", "L")), seq(mod("t", k, "r", m), env("wr", "t"), wait(0), wait(0)),
                          seq(mod("s", k, "r", m), env("wr"), wait(0)), seq(add("s", k, plain=True), mod("s", k, plain=True), mod("t", k, plain=True), wait(0))))
    # mixed errors at the same time
    R.append(Prog("mixed", setup(opn(), opn("t", "efd"), add("s", 1, "r", "L")), seq(add("s", MAXKEY), mod("t", MAXKEY), add("s", MAXKEY, "r", "E"), mod("t", 1, "r", "E"), add("s", 1, "r", "E")),
                  seq(env("wr"), wait(0), wait(0)), seq(dele("t"), dele("s"), dele("s"), wait(0))))
    # concurrent registration calls
    X = dict(dfs=400, pb=2, rand=150)
    R.append(Prog("race-add", setup(opn()), par([add("s", 1, "w")], [add("s", 2, "w")], [dele()]), par([wait(0)]), par([dele(), dele()]), par([add("s", 3, "w"), wait(0)]), **X))
    R.append(Prog("race-mod", setup(opn(), add("s", 1, "w")), par([mod("s", 2, "w", "L")], [mod("s", 3, "w", "L")], [dele(), add("s", 4, "w", "L")]), par([wait(0)]), par([dele(), dele()]), **X))
    R.append(Prog("race-del", setup(opn(), opn("t", "efd"), opn("u", "pw"), add("s", 1, "w", "L"), add("t", 2, "w", "L"), add("u", 3, "w", "L")),
                  par([dele("s"), dele("u")], [dele("s"), mod("t", 5, "w", "L")], [mod("u", 6, "w", "L")]), par([wait(0)]), par([add("s", 8, "w", "L"), add("u", 9, "w", "L"), wait(0)]), **X))
    R.append(Prog("race-fail", setup(opn(), add("s", 1, "r", "O")), par([wait(INF)], [add("s", 2), mod("s", MAXKEY), env("wr")], [add("s", 4)]), par([wait(0)]), **X))
    R.append(Prog("race-failp", setup(opn(), add("s", 1, "r", "O")), par([wait(INF)], [mod("s", 2, "w", "E"), env("wr")], [add("s", 4, "w", "EO")]), par([wait(0)]), on=("poll",), **X))
    # twenty sources, random-looking deletions (index bookkeeping)
    for st in (3, 7, 11):
        n = 20
        order = [(k * st) % n for k in range(n)]
        ph = [setup(*[opn(f"m{k}", "efd") for k in range(n)], *[add(f"m{k}", k, "w", "L") for k in range(n)])]
        for a in range(0, n, 2):
            ph.append(seq(dele(f"m{order[a]}"), mod(f"m{order[a + 1]}", 100 + a, "w", "L"), wait(0)))
        ph.append(seq(*[add(f"m{order[a]}", 200 + a, "w", "O") for a in range(0, n, 2)], *[add(f"m{order[a + 1]}", 3) for a in range(0, 4, 2)], wait(0), wait(0)))
        ph.append(seq(*[dele(f"m{k}") for k in range(n)], wait(0)))
        R.append(Prog(f"index{st}", *ph))
    R += key_life()
    return R


# ---------------------------------------------------------------- C10
def c10(full):
    R = []
    X = dict(dfs=400, pb=2, rand=150)
    for a in (INF, 5 * MS, 0):
        for b in (INF, 3 * MS, 0):
            R.append(Prog(f"two{a}-{b}", setup(opn(), add()), par([wait(a)], [wait(b, "d")]), par([], [], [notify()]), par([], [], [notify()]), adv(6 * MS),
                          par([wait(a)], [wait(b, "d")], [env("wr")]), par([], [], [notify()]), par([], [], [notify()]), adv(6 * MS), par([wait(0)]), **X))
    R.append(Prog("busy", setup(opn(), add()), par([wait(INF)]), par([], [wait(INF, "d"), wait(0, "d"), wait(SEC, "d")]), par([], [], [env("wr")]), par([], [wait(0, "d")]),
                  par([], [mod(), wait(INF, "d")]), par([wait(0)])))
    R.append(Prog("busynot", setup(opn(), add()), par([wait(INF)]), par([], [wait(INF, "d"), notify(), wait(0, "d")], [wait(0, "e")]), par([wait(INF)], [notify()]), par([], [notify()]), **X))
    R.append(Prog("busyev", setup(opn(), opn("t", "efd"), add(), add("t", 2)), par([wait(INF)]), par([], [wait(0, "d"), env("wr")], [wait(INF, "e"), env("wr", "t")]),
                  par([], [wait(0, "d")]), par([wait(0)]), par([mod(), mod("t", 2)]), par([wait(0)]), **X))
    R.append(Prog("keeps", setup(opn(), evnew("d"), add(m="L"), env("wr")), seq(wait(0, "d"), th=2), seq(env("drain")), par([wait(INF)]), par([], [wait(0, "d"), wait(INF, "d")]), par([], [], [env("wr")]),
                  par([], [wait(0, "d")])))
    # as soon as the first has returned, another can wait
    for how in ("notify", "event", "timeout", "signal"):
        trig = {"notify": [notify()], "event": [env("wr")], "timeout": [], "signal": [sig(1), notify()]}[how]
        R.append(Prog(f"next-{how}", setup(opn(), add()), par([wait(3 * MS)]), seq(*trig, th=3), *([adv(4 * MS)] if how == "timeout" else []),
                      par([], [wait(2 * MS, "d")]), adv(2 * MS), par([], [wait(INF, "d")]), par([], [], [notify()]), par([wait(INF)]), par([], [], [notify()]), par([wait(0)], []), par([], [wait(0, "d")])))
        R.append(Prog(f"nextrace-{how}", setup(opn(), add()), par([wait(3 * MS)], [wait(3 * MS, "d")], trig), adv(3 * MS), par([wait(MS)], []), adv(MS),
                      par([], [wait(INF, "d")]), par([], [], [notify()]), **X))
    R.append(Prog("three", setup(opn(), add()), par([wait(INF)], [wait(INF, "d")], [wait(INF, "e")]), par([], [], [], [notify()]), par([], [], [], [notify()]), par([], [], [], [notify()]),
                  par([wait(0)], [wait(0, "d")], [wait(0, "e")]), dfs=500, pb=2, rand=250))
    R.append(Prog("three-ev", setup(opn(), add(m="L")), par([wait(INF)], [wait(INF, "d")], [wait(INF, "e")], [env("wr")]), par([], [], [], [env("wr"), notify()]),
                  par([wait(0)], [wait(0, "d")], [wait(0, "e")]), dfs=500, pb=2, rand=250))
    # with operations in progress (the waiter may be between two system calls)
    R.append(Prog("ops", setup(opn(), opn("t", "efd"), add("t", 4)), par([wait(INF)], [wait(0, "d"), wait(INF, "d")], [add(), mod("t", 5)]), par([], [], [notify()]), par([], [], [notify()]), **X))
    R.append(Prog("oneshot", setup(opn(), add(), env("wr")), par([wait(INF)], [wait(INF, "d")]), par([], [], [notify()]), par([], [], [notify()]), par([wait(0)]), **X))
    R.append(Prog("handover", setup(), *[par([wait(INF)], [wait(INF, "d")], [notify()])] * 2, par([], [], [notify()]), par([], [], [notify()]), **X))
    R.append(Prog("handover-not", setup(notify()), par([wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([wait(INF)], [wait(INF, "d")], [notify(), notify()]),
                  par([], [], [notify()]), par([], [], [notify()]), **X))
    R.append(Prog("handover-ev", setup(opn(), add(), env("wr")), par([wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([], [], [notify()]), par([mod()], []), par([wait(INF)], [wait(INF, "d")], [notify()]),
                  par([], [], [notify()]), par([], [], [notify()]), **X))
    # several pollers do not exclude each other
    R.append(Prog("pollers", setup(new("q")), par([wait(INF)], [wait(INF, "d", "q")]), par([], [], [notify("q")]), par([], [], [notify("p")]), par([wait(4 * MS)], [wait(2 * MS, "d", "q")]), adv(2 * MS), adv(2 * MS), **X))
    # after errors
    R.append(Prog("aftererr", setup(opn(), add()), par([add(), dele("s"), dele("s"), wait(0)], [wait(0, "d")]), par([wait(INF)], []), par([], [wait(0, "d"), notify()]), **X))
    return R


# ---------------------------------------------------------------- C11
def c11(full):
    R = []
    X = dict(dfs=400, pb=2, rand=150)
    calls = {"add": [add()], "mod": [mod("t", 5)], "del": [dele("t")], "notify": [notify()], "err": [add("t", 1)], "err2": [mod()], "cycle": [add(), mod("s", 2), dele()],
             "many": [mod("t", k) for k in range(5)], "addw": [add("u", 6, "w")]}
    base = [opn(), opn("t", "efd"), opn("u", "pw"), add("t", 4)]
    for nm, ops in calls.items():
        R.append(Prog(f"blk-{nm}", setup(*base), par([wait(INF)]), par([], ops), par([], [env("wr", "t")]), par([], [notify()]), dfs=200, pb=2, rand=50))
        R.append(Prog(f"tmo-{nm}", setup(*base), par([wait(8 * MS)]), par([], ops), adv(8 * MS), par([wait(0)]), dfs=100, pb=2, rand=50))
        R.append(Prog(f"any-{nm}", setup(*base), par([wait(INF)], ops), par([], [env("wr", "t")]), par([], [notify()]), **X))
    names = list(calls)
    for a in range(len(names)):
        for b in range(a, len(names)):
            if {names[a], names[b]} <= {"err", "err2", "notify", "many"}:
                continue
            R.append(Prog(f"pair-{names[a]}-{names[b]}", setup(*base), par([wait(INF)]), par([], calls[names[a]], calls[names[b]]), par([], [env("wr", "t")]), par([], [notify()]), dfs=120, pb=2, rand=50))
    for nm in ("add", "mod", "del", "cycle"):
        R.append(Prog(f"three-{nm}", setup(*base), par([wait(INF)], calls[nm], [mod("t", 7)], [notify()]), par([], [notify()]), par([wait(INF)], [mod("t", 8)]), par([], [env("wr", "t")]), par([], [notify()]), dfs=300, pb=1, rand=250))
        R.append(Prog(f"ready-{nm}", setup(*base), par([wait(INF), wait(2 * MS)], calls[nm], [env("wr", "t"), env("wr", "s")]), adv(3 * MS), par([wait(0)], [add("s", 3), mod("t", 2)]), par([wait(0)]), **X))
    # the blocked wait obeys the new registrations
    for m in ("O", "L", "E"):
        R.append(Prog(f"gov-add-{m}", setup(opn(), env("wr")), par([wait(INF)]), par([], [add(m=m)]), par([wait(0)])))
        R.append(Prog(f"gov-mod-{m}", setup(opn(), env("wr"), add(i="", m=m)), par([wait(INF)]), par([], [mod("s", 6, "r", m)]), par([wait(0)])))
        R.append(Prog(f"gov-del-{m}", setup(opn(), add(m=m)), par([wait(INF)]), par([], [dele()]), par([], [env("wr")]), par([], [add("s", 2, "r", m)])))
        R.append(Prog(f"gov-narrow-{m}", setup(opn(), add(i="rw", m=m), env("fill")), par([wait(INF)]), par([], [mod("s", 1, "w", m)]), par([], [env("wr")]), par([], [env("unfill")])))
        R.append(Prog(f"gov-key-{m}", setup(opn(), add(m=m)), par([wait(INF)]), par([], [mod("s", 77, "r", m)]), par([], [env("wr")])))
        R.append(Prog(f"gov-rereg-{m}", setup(opn(), opn("t", "efd"), add(m=m), add("t", 2, "r", m)), par([wait(INF)]), par([], [dele(), add("s", 3, "r", m)], [dele("t")]), par([], [env("wr", "t")]), par([], [env("wr")]), **X))
    # calls without a waiter, and long histories
    R.append(Prog("many-ops", setup(*base), seq(rep(4500, mod("t", 4))), par([wait(INF)]), par([], [rep(4500, mod("t", 4))]), par([], [env("wr", "t")]), seq(rep(4500, add("t", 4))), par([wait(MS)]), adv(MS)))
    R.append(Prog("many-not", setup(*base), seq(rep(4500, notify(), mod("t", 4), wait(0))), par([wait(INF)]), par([], [notify()])))
    # more calls than a pipe has room for
    for n in (255, 256, 257, 65535, 65536, 65537):
        R.append(Prog(f"exact{n}", setup(*base), seq(rep(n, mod("t", 4))), par([wait(INF)]), par([], [mod("t", 5), env("wr", "t")]), seq(env("drain", "t"), rep(n, add("t", 4))), par([wait(INF)]), par([], [rep(n if n < 300 else 300, mod("t", 6))]), par([], [notify()]), par([wait(0)]), dfs=2))
    R.append(Prog("fill-ops", setup(*base), seq(rep(70000, mod("t", 4))), par([wait(INF)]), par([], [mod("t", 5), notify()]), par([wait(INF)]), par([], [env("wr", "t")]), dfs=2, rand=0))
    R.append(Prog("fill-not", setup(*base), seq(rep(70000, notify(), wait(0))), par([wait(INF)]), par([], [mod("t", 5), notify()]), dfs=2, rand=0))
    R.append(Prog("fill-err", setup(*base), seq(rep(70000, add("t", 4))), par([wait(MS)]), par([], [mod("t", 5)]), adv(MS), dfs=2, rand=0))
    R.append(Prog("ops-then-wait", setup(*base), seq(add(), mod("s", 2), dele(), mod("t", 5)), par([wait(3 * MS)]), adv(3 * MS), par([wait(0)]), par([wait(INF)]), par([], [env("wr", "t")])))
    R.append(Prog("concurrent", setup(*base), par([mod("t", 1), mod("t", 2)], [add(), dele()], [add("u", 3, "w"), notify()], [notify()]), par([wait(0)]), par([wait(INF)]), par([], [env("wr", "t")]), par([], [notify()]), dfs=300, pb=1, rand=250))
    R.append(Prog("drop-later", setup(*base), par([wait(INF)], [add(), notify()]), par([], [notify()]), par([drop()])))
    return R


# ---------------------------------------------------------------- C12
def c12(full):
    R = aged()
    X = dict(dfs=300, pb=2, rand=120)
    tos = (INF, 1, 1_500_000, 5 * MS, 2 * SEC, 30 * DAY, (2**64 - 1) * SEC)
    for to in tos:
        big = to is None or to > 10**16
        fin = [adv(3 * SEC)] if big else [adv(to - to // 2 - to // 4 - 1), adv(1), adv(MS)]
        h = 2 * MS if big else to
        R.append(Prog(f"sig{to}", setup(opn(), add()), par([wait(to)]), adv(h // 2), seq(sig(1), th=2), adv(h // 4), seq(sig(1), th=2), *fin, par([], [notify()]), par([wait(0)])))
        R.append(Prog(f"sigs{to}", setup(opn(), add()), par([wait(to)]), seq(sig(1), sig(1), th=2), seq(sig(1), th=2), seq(sig(1), th=2), adv(h // 2), seq(sig(1), th=2), adv(h // 4), *fin, par([], [notify()])))
        R.append(Prog(f"sigev{to}", setup(opn(), add()), par([wait(to)]), par([], [sig(1)], [env("wr")]), par([wait(0)]), par([wait(to)], [sig(1), notify()]), par([], [notify()]), **X))
        R.append(Prog(f"signot{to}", setup(opn(), add()), par([wait(to)]), par([], [sig(1)], [notify()]), par([wait(to)], [sig(1), sig(1)], [env("wr")]), par([], [sig(1), notify()]), **X))
        R.append(Prog(f"sigop{to}", setup(opn(), opn("t", "efd"), add("t", 3)), par([wait(to)]), par([], [sig(1)], [add()]), adv(h // 2), par([], [sig(1), mod("t", 4)]), par([], [sig(1), env("wr", "t")]), par([], [notify()]), **X))
    for m in ALLM:
        R.append(Prog(f"mode-{m}", setup(opn(), add(m=m)), par([wait(INF)]), par([], [sig(1)], [env("wr")]), par([], [sig(1)]), par([wait(0)]), par([wait(INF)], [mod("s", 2, "r", m), sig(1)]), par([], [sig(1), notify()]), **X))
    # any number of signals
    for to in (INF, 5 * MS):
        for n in (12, 70, 300):
            R.append(Prog(f"lots{n}-{to}", setup(opn(), add()), par([wait(to)]), *[seq(sig(1), th=2) for _ in range(n)], *([adv(4 * MS), seq(sig(1), th=2), adv(MS)] if to else []), par([], [env("wr")]), par([wait(0)]),
                          par([wait(to)]), *[seq(sig(1), th=2) for _ in range(n)], par([], [notify()]), par([wait(0)]), dfs=2))
    # just before and at the end of the timeout
    for to in (MS, 3 * MS + 7, 100):
        R.append(Prog(f"edge{to}", setup(), par([wait(to)]), adv(to - 1), seq(sig(1), th=2), seq(sig(1), th=2), adv(1), adv(MS), par([wait(to)], [sig(1)], [tick(to)]), adv(to), adv(MS), tick=0, **X))
        R.append(Prog(f"edget{to}", setup(), par([wait(to)]), adv(to // 2), seq(sig(1), th=2), seq(sig(1), th=2), adv(to // 2 + 2), adv(MS), tick=1))
        R.append(Prog(f"tick{to}", setup(), par([wait(to)]), par([], [sig(1), tick(to), sig(1)]), adv(to), adv(MS), par([wait(to)]), par([], [tick(to // 2), sig(1), tick(to // 2 - 1), sig(1)]), adv(MS), **X))
        # the timeout runs out, and something happens, between the signal and the wait's next step
        R.append(Prog(f"over{to}", setup(opn(), add()), par([wait(to)]), par([], [sig(1), env("wr"), tick(to)]), par([wait(0)]), par([wait(to)], [sig(1), notify(), tick(to)]), adv(to + MS), par([wait(0)]), dfs=300, pb=2, rand=60))
        R.append(Prog(f"over2{to}", setup(opn(), add()), par([wait(to)]), par([], [sig(1), tick(to - 1), sig(1), env("wr"), tick(1)], [notify()]), adv(MS), par([wait(0), wait(0)]), dfs=300, pb=3, rand=100))
    # the container is clean after a signal, leftovers do not appear
    R.append(Prog("leftover", setup(opn(), add(m="L"), env("wr")), seq(wait(0)), seq(env("drain")), par([wait(3 * MS)]), seq(sig(1), th=2), adv(3 * MS), par([wait(INF)]), seq(sig(1), th=2), seq(notify(), th=2)))
    R.append(Prog("stale", setup(opn(), add()), par([wait(3 * MS)]), seq(sig(1), th=2), seq(env("wr"), th=2), par([wait(INF)]), adv(5 * MS), seq(sig(1), th=2), adv(5 * MS), seq(notify(), th=2)))
    # another thread is turned away while signals arrive
    R.append(Prog("busy", setup(opn(), add()), par([wait(INF)]), par([], [sig(1), wait(0, "d")], [sig(1), wait(INF, "d")]), par([], [env("wr")]), **X))
    for cap in (1, 0):
        R.append(Prog(f"cap{cap}", setup(evnew(cap=cap), opn(), opn("t", "efd"), add(), add("t", 2)), par([wait(INF)]), par([], [sig(1), env("wr"), env("wr", "t")], [sig(1), notify()]), par([wait(0), wait(0)]), **X))
    return R


# ---------------------------------------------------------------- C13
FAULTS = [[["eventfd", 0]], [["timerfd_create", 0]], [["eventfd", 0], ["timerfd_create", 0]], [["pipe2", 0]],
          [["eventfd", 0], ["pipe2", 0]], [["eventfd", 0], ["pipe2", 0], ["timerfd_create", 0]]]


ERRNOS = {"EPERM": 1, "ENOMEM": 12, "ENODEV": 19, "EINVAL": 22, "ENFILE": 23, "EMFILE": 24}


def c13_errnos():
    """The facility is missing for other reasons than an unknown system call."""
    R = []
    for f in ("eventfd", "timerfd_create", "pipe2"):
        for nm, e in ERRNOS.items():
            b = [[f, -e]] + ([["eventfd", -e]] if f == "pipe2" else [])
            R.append(Prog(f"errno-{f}-{nm}", seq(new(faults=b), opn(), add()), seq(notify(), wait(INF)), par([wait(3 * MS)]), adv(3 * MS), adv(MS),
                          par([wait(INF)]), par([], [env("wr")]), par([wait(INF)]), par([], [notify()]), seq(drop()), audit=True))
    return R


def c13(full):
    R = c13_errnos()
    for n, f in enumerate(FAULTS):
        nw = new(faults=f)
        X = dict(dfs=200, pb=2, rand=80)
        R.append(Prog(f"life{n}", seq(nw, opn(), add(), env("wr"), wait(0), drop()), seq(nw, notify(), wait(INF), drop()), audit=True))
        R.append(Prog(f"wn{n}", seq(nw), par([wait(INF), wait(INF)], [notify(), notify()]), par([wait(INF)], [notify()]), par([], [notify()]), par([wait(0)]), par([wait(MS)]), adv(MS), par([wait(INF)]), par([], [notify()]), **X))
        R.append(Prog(f"coal{n}", seq(nw), seq(notify(), notify(), notify()), seq(wait(INF)), seq(wait(2 * MS)), adv(2 * MS), seq(rep(3000, notify(), wait(0))), seq(notify()), seq(wait(INF)), par([wait(INF)]), seq(notify(), th=2)))
        R.append(Prog(f"evs{n}", seq(nw, opn(), opn("t", "efd"), add("s", 1, "rw", "L"), add("t", 2)), seq(wait(0)), seq(env("wr"), env("wr", "t"), wait(0), wait(0)), seq(notify(), wait(0), wait(0)), seq(mod("t", 3), wait(INF)),
                      seq(dele("s"), wait(2 * MS)), adv(2 * MS), seq(dele("t"), wait(0)), audit=True))
        for m in ALLM:
            R.append(Prog(f"mode{n}{m}", seq(nw, evnew(cap=2), opn(), opn("t", "efd"), add("s", 1, "r", m), add("t", 2, "r", m)), par([wait(INF)], [env("wr")], [notify()]), par([wait(0), wait(0)], [env("wr", "t")]), par([wait(0)], [mod("s", 3, "r", m)]), par([wait(0)], [notify()]), par([wait(0)]), **X))
        for d in DURS:
            near = d < 2**55
            R.append(Prog(f"to{n}-{d}", seq(nw), par([wait(d)]), *([adv(d - 1)] if d > 1 and near else []), *([adv(1), adv(MS)] if near else [adv(3 * SEC)]), par([], [notify()]), par([wait(0)]), tick=d % 2))
        for d in (1, 1_500_000, 3 * MS, 26 * DAY):
            R.append(Prog(f"tosig{n}-{d}", seq(nw, opn(), add()), par([wait(d)]), adv(d // 2), seq(sig(1), th=2), adv(d - d // 2 - 1), adv(1), adv(MS), par([wait(d)]), par([], [notify()]), par([wait(INF)]), adv(2 * d), par([], [env("wr")]), **X))
            R.append(Prog(f"toev{n}-{d}", seq(nw, opn(), add(m="L")), seq(env("wr"), wait(d), env("drain")), par([wait(INF)]), adv(2 * d), par([], [notify()]), par([wait(d)]), adv(d), adv(MS)))
        R.append(Prog(f"busy{n}", seq(nw, opn(), add()), par([wait(INF)], [wait(0, "d"), wait(INF, "d")], [env("wr")]), par([], [], [notify()]), par([], [], [notify()]), **X))
        R.append(Prog(f"ops{n}", seq(nw, opn(), opn("t", "efd"), add("t", 4)), par([wait(INF)], [add(), mod("t", 5)], [notify()]), par([], [notify()]), par([wait(2 * MS)], [dele("t"), dele("s")]), adv(2 * MS), **X))
        R.append(Prog(f"pollable{n}", *steps([nw]), *steps([notify(), wait(0), opn(), add(), env("wr"), wait(0), mod(), wait(INF), notify(), wait(INF)])))
        R.append(Prog(f"nest{n}", seq(nw, new("q"), opn("x", "poller", p="p"), add("x", 9, "r", "L", p="q")), *steps([wait(0, "d", "q"), notify(), wait(0, "d", "q"), wait(0), wait(0, "d", "q")]), on=("epoll", "pipe")))
    return R


def c13_fail(full):
    """Creation that fails at each call."""
    R = []
    for n, base in enumerate([[], [["eventfd", 0]], [["timerfd_create", 0]], [["eventfd", 0], ["pipe2", 0]], [["pipe2", 0]]]):
        for k in range(1, 22):
            R.append(Prog(f"nth{n}-{k}", seq(new(faults=base + [["nth", k]])), seq(notify(), wait(0), opn(), add(), env("wr"), wait(0), wait(MS)), adv(MS), par([wait(INF)]), par([], [mod()], [notify()]), par([wait(INF)]), par([], [], [dele(), notify()]), seq(drop()), seq(new(), notify(), wait(INF), drop()), audit=True))
        for k in range(1, 4):
            R.append(Prog(f"ctl{n}-{k}", seq(new(faults=base + [["ctl", k]])), seq(notify(), wait(0)), seq(drop()), seq(new(), drop()), audit=True))
        for f in ("epoll_create", "pipe", "fcntl"):
            R.append(Prog(f"all{n}-{f}", seq(new(faults=base + [[f, 0]])), seq(notify(), wait(0)), par([wait(INF)]), par([], [notify()]), seq(drop()), seq(new(), drop()), audit=True))
    R.append(Prog("nopipes", seq(new(faults=[["eventfd", 0], ["pipe2", 0], ["pipe", 0]])), seq(new("q", faults=[["pipe2", 0], ["pipe", 0]])), seq(drop("q"), drop("p")), seq(new(), drop()), audit=True))
    return R


# ---------------------------------------------------------------- C14
def c14(full):
    R = []
    A = dict(audit=True)
    R.append(Prog("plain", seq(new()), seq(drop()), seq(new(), new("q")), seq(drop("q"), drop()), **A))
    for n, f in enumerate([[]] + FAULTS):
        R.append(Prog(f"faults{n}", seq(new(faults=f), notify(), wait(0), wait(MS)), adv(MS), seq(drop()), seq(new(faults=f), drop(), new(faults=f), drop()), **A))
    for kind, i, up, up2, down in ACT:
        for m in ALLM:
            R.append(Prog(f"src-{kind}{i}{m}", seq(new(), opn("s", kind), add("s", 1, i, m)), seq(env(up)), seq(wait(0)), seq(mod("s", 2, i, m)), seq(wait(0)), seq(dele()), seq(add("s", 3, i, m)), seq(wait(0)), seq(drop()), seq(env(down)), seq(env("close")), **A))
            R.append(Prog(f"leftreg-{kind}{i}{m}", seq(new(), opn("s", kind), opn("t", "efd"), add("s", 1, i, m), add("t", 2, "r", "L"), env(up), env("wr", "t")), seq(drop()), seq(new(), add("s", 1, i, m), wait(0), drop()), **A))
    for kind in ("ubs", "us"):
        R.append(Prog(f"flags-{kind}", seq(new(), opn("s", kind), add("s", 1, "rw", "L"), env("wr"), env("wr")), *steps([wait(0), mod("s", 2, "r"), wait(0), notify(), wait(0), dele(), add("s", 3, "w", plain=True), wait(0), add("s", 4), mod("s", MAXKEY), dele(), dele(), add("s", MAXKEY, ref=True), add("s", 8, plain=True, ref=True)]),
                      seq(drop()), seq(env("drain")), **A))
    R.append(Prog("waits", seq(new(), opn(), add(m="L"), env("wr")), seq(wait(5 * MS), wait(0), wait(INF)), seq(env("drain")), par([wait(5 * MS)]), adv(5 * MS), par([wait(INF)], [notify()]), seq(notify()), seq(drop()), seq(new()), seq(wait(MS)), adv(MS), seq(drop()), **A))
    R.append(Prog("errors", seq(new(), opn(), opn("t", "efd")), seq(add(), add(), mod("t", 1), dele("t"), mod("s", MAXKEY), mod("s", 1, "r", "E"), add("t", 1, "r", "EO")), seq(wait(0)), seq(drop()), **A))
    R.append(Prog("many", seq(new(), rep(300, add("s", 1), dele("s")), opn(), rep(300, add("s", 1), wait(0), mod("s", 2), dele("s"), notify(), wait(0)), drop()), **A))
    R.append(Prog("many2", seq(opn(), rep(100, new(), add("s", 1), wait(0), notify(), drop())), seq(new()), seq(drop()), **A))
    R.append(Prog("threads", seq(new(), opn(), add()), par([wait(INF)], [notify()], [env("wr"), mod("s", 2)]), par([wait(0)], [notify()]), seq(drop()), dfs=120, pb=1, rand=60, **A))
    R.append(Prog("signals", seq(new(), opn(), add()), par([wait(3 * MS)]), seq(sig(1), th=2), seq(sig(1), th=2), adv(3 * MS), seq(drop()), **A))
    R.append(Prog("closed", seq(new(), opn(), opn("t", "efd"), add(), add("t", 2, m="L"), env("wr", "t")), seq(dele("s"), env("close", "s")), seq(opn("s", "pr"), add(), env("wr"), wait(0)), seq(drop()), **A))
    return R


# ---------------------------------------------------------------- C15
def c15(full):
    R = []
    X = dict(dfs=250, pb=2, rand=100)
    for m1 in ALLM:
        for m2 in ("O", "L", "E"):
            R.append(Prog(f"share-{m1}{m2}", seq(new(), new("q"), opn(), add("s", 1, "r", m1), add("s", 2, "rw", m2, p="q")), seq(wait(0), wait(0, "d", "q")), seq(env("wr"), wait(0), wait(0, "d", "q")), seq(wait(0, "d", "q"), wait(0)),
                          seq(mod("s", 3, "w", m1), wait(0), wait(0, "d", "q")), seq(env("drain"), env("wr"), wait(0, "d", "q"), wait(0)), seq(dele("s"), wait(0), wait(0, "d", "q")), seq(mod("s", 5, "r", m2, p="q"), wait(0, "d", "q"), add("s", 6, "r", m1), wait(0)),
                          seq(dele("s", "q"), dele("s", "q"), wait(0), wait(0, "d", "q")), seq(drop("q"), wait(0), env("wr"), wait(0), mod("s", 8, "r", m1), wait(0))))
    R.append(Prog("notify", seq(new(), new("q")), seq(notify()), seq(wait(0, "d", "q")), seq(wait(MS, "d", "q")), adv(MS), seq(wait(INF)), seq(notify("q"), notify()), seq(wait(0, "d", "q")), seq(wait(0)), seq(wait(0), wait(0, "d", "q"))))
    R.append(Prog("waits", seq(new(), new("q")), par([wait(INF)], [wait(INF, "d", "q")]), par([], [], [notify("q")]), par([], [], [notify()]), par([wait(5 * MS)], [wait(3 * MS, "d", "q")]), adv(3 * MS), adv(2 * MS), par([wait(INF)], [wait(2 * MS, "d", "q")]), adv(2 * MS), par([], [wait(0, "d", "q")], [notify()]), **X))
    R.append(Prog("timers", seq(new(), new("q")), par([wait(INF)], [wait(2 * MS, "d", "q")]), adv(2 * MS), adv(2 * MS), par([], [notify()]), par([wait(3 * MS)], [wait(0, "d", "q"), wait(0, "d", "q")]), adv(3 * MS), adv(MS)))
    R.append(Prog("dropq", seq(new(), new("q"), opn(), opn("t", "efd"), add(), add("t", 2, m="L"), add("s", 3, p="q"), add("t", 4, p="q"), notify(), env("wr")), seq(drop("q")), seq(wait(0), wait(0)), seq(env("wr", "t"), wait(0)), par([wait(INF)]), seq(new("q"), th=2), seq(wait(0, "d", "q"), th=2), seq(add("s", 5, p="q"), wait(0, "d", "q"), th=2), seq(drop("q"), th=2)))
    R.append(Prog("dropwait", seq(new(), new("q"), opn(), add(), add("s", 3, p="q")), par([wait(INF)]), par([], [drop("q")]), par([], [env("wr")]), par([wait(5 * MS)]), adv(MS), par([], [new("q"), notify("q"), wait(0, "d", "q"), drop("q")]), adv(5 * MS)))
    R.append(Prog("race", seq(new(), new("q"), opn(), add(), add("s", 9, "r", "L", p="q")), par([wait(INF)], [wait(INF, "d", "q")], [env("wr")]), par([wait(0)], [wait(0, "d", "q")]), par([mod("s", 4), wait(0)], [mod("s", 5, "r", "O", p="q"), wait(0, "d", "q")]), par([wait(0)], [wait(0, "d", "q")]), **X))
    R.append(Prog("raceops", seq(new(), new("q"), opn(), opn("t", "efd"), add("t", 1), add("t", 2, p="q")), par([wait(INF)], [mod("t", 8, p="q"), add("s", 7, p="q")], [wait(INF, "d", "q")]), par([], [env("wr", "t")]), par([], [notify()], []), par([], [notify("q")]), **X))
    for n in (20, 70):
        Q = [f"q{i}" for i in range(n)]
        R.append(Prog(f"herd{n}", seq(*[new(q) for q in Q[:n // 2]], new(), *[new(q) for q in Q[n // 2:]], opn(), opn("t", "efd"), *[add("s", 10 + i, "r" if i % 2 else "w", "O", p=q) for i, q in enumerate(Q)], add("s", 1), add("t", 2, "r", "L")), seq(*[notify(q) for q in Q]), seq(wait(0)), par([wait(INF)]),
                      seq(*[wait(0, "d", q) for q in Q], th=2), seq(env("wr"), th=2), seq(*[wait(0, "d", q) for q in Q]), seq(*[drop(q) for q in Q[1::3]]), seq(mod("s", 3), wait(0), env("wr", "t"), wait(0)), seq(*[notify(q) for q in Q]), seq(*[mod("s", 5, p=q) for q in Q]), seq(wait(0), notify(), wait(INF)), par([wait(2 * MS)]),
                      seq(*[wait(MS if i == 7 else 0, "d", q) for i, q in enumerate(Q)], th=2), adv(2 * MS), seq(env("drain", "t"), *[drop(q) for q in Q]), seq(notify(), wait(INF), mod("s", 6), wait(0), wait(0))))
    R.append(Prog("errs", seq(new(), new("q"), opn(), add()), seq(add("s", 4, p="q"), add("s", 4, p="q")), seq(dele("s", "q"), mod("s", 5, p="q"), mod("s", 5)), seq(mod("s", MAXKEY, p="q"), add("s", MAXKEY, p="q")), seq(env("wr"), wait(0), wait(0, "d", "q")), seq(dele(), add("s", 1, p="q"), mod("s", 2)), seq(wait(0, "d", "q"), wait(0))))
    R.append(Prog("three", seq(new(), new("q"), new("z"), opn(), add("s", 1, "r", "L"), add("s", 2, "w", "O", p="q"), add("s", 3, "rw", "O", p="z"), env("wr")), seq(wait(0), wait(0, "d", "q"), wait(0, "e", "z")), seq(wait(0, "e", "z"), wait(0, "d", "q"), wait(0)),
                  seq(notify("z"), wait(0, "d", "q"), wait(0, "e", "z"), wait(0)), seq(drop("q"), mod("s", 4, "rw", "O", p="z"), wait(0, "e", "z"), wait(0)), seq(drop("p"), notify("z"), wait(INF, "e", "z")), seq(wait(MS, "e", "z")), adv(MS)))
    R.append(Prog("busy", seq(new(), new("q")), par([wait(INF)]), par([], [wait(0, "d", "q"), wait(MS, "d", "q")]), adv(MS), par([], [notify("q"), wait(INF, "d", "q")]), par([], [wait(0, "d")]), par([], [notify()])))
    R.append(Prog("sharecont", seq(new(), new("q"), opn(), opn("t", "efd"), add("s", 1, "r", "L"), add("t", 2, "r", "L", p="q"), env("wr")), seq(wait(0), wait(0, "c", "q")), seq(env("wr", "t"), wait(0, "c", "q"), wait(0)), seq(env("drain"), wait(0), wait(0, "c", "q"), notify(), wait(0))))
    return R


# ---------------------------------------------------------------- C16
def c16(full):
    R = long() + crowd(1100 if full else 300, "L")
    for cap in (1, 2, 3, 4, 5, 7, 0, 1024, 5000):
        ss = ["a", "b", "d", "e", "f"]
        R.append(Prog(f"cap{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", "L") for n, x in enumerate(ss)]),
                      seq(wait(0)), seq(env("wr", "a"), wait(0)), seq(*[env("wr", x) for x in ss], wait(0)), seq(wait(0), wait(0)), seq(notify(), wait(0)), seq(notify(), wait(INF)), seq(evclear()), seq(wait(0)), seq(*[env("drain", x) for x in ss], wait(0)),
                      seq(notify(), wait(0)), seq(wait(2 * MS)), adv(2 * MS), seq(env("wr", "d"), wait(3 * MS)), seq(evclear(), evclear(), notify(), wait(0))))
        R.append(Prog(f"cap1s{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in ss], *[add(x, 10 + n, "r", "O") for n, x in enumerate(ss)]),
                      seq(*[env("wr", x) for x in ss], notify(), wait(0)), seq(wait(0)), seq(wait(0)), seq(wait(0)), seq(wait(MS)), adv(MS), seq(*[mod(x, 5, "r", "O") for x in ss], wait(0)), seq(wait(0), evclear(), wait(0), notify(), wait(0), wait(0))))
    # reused, swapped and cleared containers; several containers
    R.append(Prog("reuse", setup(evnew("c", 4), evnew("d", 2), opn(), opn("t", "efd"), add(m="L"), add("t", 2, m="L"), env("wr")), seq(wait(0, "c"), wait(0, "d")), seq(env("wr", "t"), wait(0, "d"), wait(0, "c")), seq(env("drain"), wait(0, "c")), seq(env("drain", "t"), wait(0, "c"), wait(0, "d")),
                  seq(env("wr"), wait(0, "d"), evclear("c"), notify(), wait(0, "c")), seq(evclear("d"), wait(0, "d"))))
    R.append(Prog("timeouts", setup(evnew(), opn(), add(m="L"), env("wr")), seq(wait(0)), seq(env("drain")), seq(wait(0)), seq(env("wr"), wait(0)), seq(env("drain"), wait(3 * MS)), adv(3 * MS), seq(env("wr"), wait(0)), seq(env("drain"), notify(), wait(INF)), seq(wait(0))))
    R.append(Prog("timerleft", setup(evnew(), opn(), add(m="L")), par([wait(3 * MS)], [tick(3 * MS), env("wr")], [notify()]), adv(3 * MS), par([wait(0)]), par([wait(3 * MS)], [env("drain"), notify(), tick(4 * MS)]), adv(3 * MS), par([wait(0)]), dfs=200, pb=2, rand=100))
    R.append(Prog("sig", setup(evnew(), opn(), add(m="L"), env("wr")), seq(wait(0)), seq(env("drain")), par([wait(3 * MS)]), seq(sig(1), th=2), adv(3 * MS), seq(env("wr"), wait(0)), par([evclear(), env("drain"), wait(INF)]), seq(sig(1), th=2), seq(env("wr"), th=2)))
    R.append(Prog("busy", setup(evnew("c"), evnew("d"), opn(), add(m="L"), env("wr")), seq(wait(0, "d"), th=2), seq(env("drain")), par([wait(INF)]), par([], [wait(0, "d"), wait(MS, "d"), evclear("d"), wait(0, "d")]), par([], [notify()]), dfs=60, pb=2, rand=20))
    for m in ALLM:
        R.append(Prog(f"internal-{m}", setup(evnew(cap=3), opn(), add("s", str(2**64 - 2), "rw", m)), seq(notify(), wait(0)), seq(wait(MS)), adv(MS), seq(env("wr"), notify(), wait(0)), seq(notify(), wait(5 * MS), wait(5 * MS)), adv(5 * MS), adv(5 * MS), seq(notify(), mod("s", 0, "", m), wait(0))))
    for m in ALLM:
        for kind in ("us", "pr"):
            R.append(Prog(f"mix-{m}{kind}", setup(evnew(cap=2), opn("s", kind), opn("t", "efd"), add("s", 1, "r", m), add("t", 2, "rw", m)), seq(wait(0), wait(0)), seq(env("wr"), wait(0), wait(0)), seq(env("hup"), wait(0)), seq(mod("s", 3, "r", m), mod("t", 4, "r", m), env("wr", "t"), wait(0)), seq(wait(0)), seq(dele("s"), wait(0)), seq(evclear(), wait(0)), seq(dele("t"), wait(0))))
    # more events than any default: the container of the poll backend grows
    n = 45
    for cap in (1, 8, 40, 44, 45, 46, 47, 0):
        R.append(Prog(f"many{cap}", setup(evnew(cap=cap), *[opn(f"m{k}", "efd") for k in range(n)], *[add(f"m{k}", k, "w", "L") for k in range(n)]), seq(wait(0)), seq(wait(0), notify(), wait(0)), seq(evclear()), seq(wait(0)), seq(wait(MS))))
    n = 140
    for cap in (0, 64, 130):
        R.append(Prog(f"many140-{cap}", setup(evnew(cap=cap), *[opn(f"m{k}", "efd") for k in range(n)], *[add(f"m{k}", k, "w", "O" if k % 3 else "L") for k in range(n)]), seq(wait(0)), seq(wait(0), wait(0)),
                      seq(*[mod(f"m{k}", 1000 + k, "w", "O") for k in range(0, n, 2)], notify(), wait(0)), seq(wait(0), wait(0)), seq(*[dele(f"m{k}") for k in range(0, n, 3)], wait(0))))
    for caps in itertools.product((1, 2, 16, 1000), repeat=1):
        R.append(Prog(f"new{caps[0]}", seq(*[evnew(f"c{k}", k * caps[0]) for k in range(5)], *[evclear(f"c{k}") for k in range(5)])))
    return R


# ---------------------------------------------------------------- C17
def c17(full):
    R = long() + numbers()
    X = dict(dfs=250, pb=2, rand=100)
    for m in ALLM:
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i), add("s", 1, i, m)]
            for m2 in ("O", "L", "E"):
                R.append(Prog(f"fresh-{m}{m2}{kind}{i}", setup(*b), seq(env(up)), seq(dele()), seq(wait(0)), seq(wait(MS)), adv(MS), seq(add("s", 2, i, m2), wait(0), wait(0)), seq(dele(), env(down), add("s", 3, i, m2), wait(0)), seq(env(up), wait(0), wait(0)),
                              seq(dele(), add("s", 4, "", m2), wait(0)), seq(mod("s", 5, i, m2), wait(0)), seq(dele(), dele(), mod("s", 6), wait(0))))
            # deleted after delivery (disarmed), re-added in another mode
            R.append(Prog(f"dis-{m}{kind}{i}", setup(*b), seq(env(up), wait(0)), seq(dele(), wait(0)), seq(add("s", 7, i, m), wait(0), wait(0)), seq(wait(0), dele(), add("s", 8, i, "L"), wait(0), wait(0)), seq(dele(), add("s", 9, i, "O"), wait(0), wait(0))))
            # a new source with the same descriptor number
            R.append(Prog(f"num-{m}{kind}{i}", setup(opn("s", kind, fd=77), *idle(kind, i), add("s", 1, i, m)), seq(env(up)), seq(dele(), env("close")), seq(wait(0)), seq(opn("t", "us", fd=77), env("fill", "t"), wait(0)), seq(add("t", 2, "r", m), wait(0)), seq(env("wr", "t"), wait(0), wait(0)), seq(mod("t", 3, "rw", m), wait(0)),
                          seq(dele("t"), env("close", "t")), seq(opn("s", kind, fd=77), add("s", 4, i, "L"), wait(0)), seq(wait(0))))
    # pending when deleted, with other sources around
    for m in ("O", "L", "E"):
        for cap in (1, 2, 0):
            R.append(Prog(f"pend-{m}{cap}", setup(evnew(cap=cap), *[opn(x, "efd") for x in "abd"], *[add(x, n + 1, "r", m) for n, x in enumerate("abd")], *[env("wr", x) for x in "abd"]), seq(dele("b")), seq(wait(0), wait(0), wait(0)), seq(add("b", 9, "r", m), wait(0), wait(0)), seq(dele("a"), dele("d"), wait(0)),
                          seq(add("d", 8, "r", m), add("a", 7, "r", m), dele("b"), wait(0), wait(0))))
        R.append(Prog(f"race-{m}", setup(opn(), opn("t", "efd"), add(m=m), add("t", 2, m=m)), par([wait(INF), wait(0)], [env("wr")], [dele()]), par([], [notify()]), par([wait(0), wait(0)]), par([add("s", 5, "r", m)]), par([wait(0)]), **X))
        R.append(Prog(f"race2-{m}", setup(opn(), add(m=m), env("wr")), par([wait(0)], [dele(), add("s", 3, "r", m)]), par([wait(0), wait(0)]), par([dele()]), par([wait(0)]), **X))
        R.append(Prog(f"blk-{m}", setup(opn(), opn("t", "efd"), add(m=m), add("t", 2, m=m)), par([wait(INF)]), par([], [dele()]), par([], [env("wr")]), par([], [env("wr", "t")]), par([wait(0)]), par([], [add("s", 3, "r", m)]), par([wait(INF)])))
        R.append(Prog(f"index-{m}", setup(*[opn(x, "efd") for x in "abde"], *[add(x, n + 1, "r", m) for n, x in enumerate("abde")]), seq(dele("a"), env("wr", "e"), env("wr", "a"), wait(0)), seq(add("a", 10, "r", m), wait(0)), seq(dele("e"), dele("b"), env("wr", "d"), wait(0)), seq(add("b", 11, "r", m), env("wr", "b"), wait(0)), seq(add("e", 12, "r", m), wait(0))))
    # keys move between sources
    R.append(Prog("keys", setup(opn(), opn("t", "efd"), add("s", 1, "w", "L"), add("t", 2, "w", "L")), seq(dele("s"), wait(0)), seq(mod("t", 1, "w", "L"), wait(0)), seq(add("s", 2, "w", "L"), wait(0)), seq(dele("t"), wait(0)), seq(add("t", 2, "w", "O"), wait(0), wait(0))))
    for ev in ("hup", "shutw", "oob"):
        R.append(Prog(f"ev-{ev}", setup(opn(), add(i="rp", m="L")), seq(env(ev), wait(0)), seq(dele(), wait(0)), seq(wait(0)), seq(add("s", 2, "", "O"), wait(0)), seq(wait(0)), seq(dele(), add("s", 3, "w", "O"), wait(0), dele(), wait(0))))
    R += key_life()
    return R


# ---------------------------------------------------------------- C18
def c18(full):
    R = []
    on = ("epoll", "notimer", "pipe")
    for m in ALLM:
        R.append(Prog(f"look-{m}", *steps([new(), notify(), wait(0), notify(), notify(), wait(INF), opn(), add("s", 1, "r", m), env("wr"), wait(0), env("wr"), wait(0), env("drain"), mod("s", 2, "r", m), env("wr"), notify(), wait(0), wait(0), dele(), wait(0), add("s", 3, "rw", m), wait(0), wait(0)]), on=on))
    for cap in (1, 2):
        R.append(Prog(f"cap{cap}", *steps([new(), evnew(cap=cap), opn(), opn("t", "efd"), add(), add("t", 2), env("wr"), env("wr", "t"), notify(), wait(0), wait(0), wait(0), notify(), wait(0), mod("s", 3), wait(0)]), on=on))
    for mq in ("L", "O", "E", "EO"):
        R.append(Prog(f"nest-{mq}", setup(new("q"), opn("x", "poller", p="p"), add("x", 9, "r", mq, p="q"), opn(), add()), *steps([wait(0, "d", "q"), notify(), env("look", "x"), wait(0, "d", "q"), wait(0), env("look", "x"), mod("x", 8, "r", mq, p="q"), wait(0, "d", "q"), env("wr"), env("look", "x"), wait(0, "d", "q"), wait(0), env("look", "x"), mod("x", 7, "r", mq, p="q"), wait(0, "d", "q")]), on=on))
    R.append(Prog("nest-block", setup(new("q"), opn("x", "poller", p="p"), add("x", 9, "r", "L", p="q"), opn(), add()), par([], [wait(INF, "d", "q")]), par([notify(), env("look", "x")]), par([wait(0), env("look", "x")]), par([], [wait(INF, "d", "q")]), par([env("wr"), env("look", "x")]), par([wait(0), env("look", "x")]), par([], [wait(0, "d", "q")]), par([], [wait(MS, "d", "q")]), adv(MS), on=on))
    # timeouts on the inner poller
    R.append(Prog("timed", *steps([new(), wait(0), notify(), wait(2 * MS), opn(), add(m="L"), env("wr"), wait(5 * MS), env("drain"), notify(), wait(INF), env("wr"), wait(INF), env("drain")]), adv(10 * MS), *steps([notify(), wait(INF)]), on=on))
    R.append(Prog("untimed", *steps([new(), opn(), add("s", 1, "rw"), wait(INF), wait_none_after()]) if 0 else steps([new(), opn(), add("s", 1, "rw"), wait(INF), mod("s", 2, "w"), wait(INF), notify(), wait(INF), mod("s", 3, ""), notify(), wait(INF), env("hup"), wait(INF)]), on=on))
    R.append(Prog("threads", setup(opn(), add()), par([wait(INF)], [notify()], [env("wr")]), par([], [notify()]), par([wait(INF)], []), par([], [notify()]), par([wait(INF)], [mod("s", 2)]), par([], [env("drain")]), par([wait(INF)], [notify()]), dfs=300, pb=2, rand=100, on=on))
    R.append(Prog("busy", setup(opn(), add()), par([wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([], [], [notify()]), par([wait(INF)]), par([], [], [env("wr")]), dfs=200, pb=2, rand=80, on=on))
    R.append(Prog("ops", *steps([new(), opn(), opn("t", "efd"), env("wr"), add(i=""), mod("s", 1, "r"), mod("s", 1, ""), mod("s", 1, "w"), dele(), add("t", 2, "w", "L"), wait(INF), mod("t", 3, "w", "O"), wait(INF), add("t", 4), mod("t", MAXKEY), dele("t"), notify(), wait(INF)]), on=on))
    return R


# ---------------------------------------------------------------- C19
def c19(full):
    R = []
    for m in ALLM:
        for i in ("", "r", "w", "rw", "p", "rp", "wp", "rwp"):
            pre = [new(), opn(), env("fill"), add("s", 1, i, m)]
            R.append(Prog(f"oob-{m}{i}", seq(*pre), seq(wait(0)), seq(env("oob"), wait(0)), seq(wait(0)), seq(env("rdoob"), wait(0)), seq(mod("s", 2, i, m), wait(0)), seq(env("oob"), wait(0)), seq(mod("s", 3, i, m), wait(0), env("rdoob"), env("drain"), wait(0)), seq(env("wr"), wait(0))))
            R.append(Prog(f"hup-{m}{i}", seq(*pre), seq(env("hup"), wait(0)), seq(wait(0)), seq(mod("s", 2, i, m), wait(0)), seq(mod("s", 3, "", m), wait(0)), seq(dele(), wait(0), add("s", 4, i, m), wait(0))))
            R.append(Prog(f"shut-{m}{i}", seq(*pre), seq(env("shutw"), wait(0)), seq(wait(0)), seq(mod("s", 2, i, m), wait(0)), seq(env("unfill"), wait(0)), seq(mod("s", 3, i, m), env("hup"), wait(0))))
            R.append(Prog(f"blk-{m}{i}", seq(*pre), par([wait(INF)]), par([], [env("oob")]), par([], [env("hup")]), par([wait(0)]), par([], [mod("s", 3, i, m)]), par([wait(0)])))
            for kind in ("pr", "pw"):
                R.append(Prog(f"{kind}-{m}{i}", seq(new(), opn("s", kind), env("fill"), add("s", 1, i, m)), seq(wait(0)), seq(env("hup"), wait(0)), seq(wait(0)), seq(mod("s", 2, i, m), wait(0)), seq(wait(0))))
        # the interrupt flag in an interest
        R.append(Prog(f"inth-{m}", seq(new(), opn(), env("fill"), add("s", 1, "h", m)), seq(wait(0)), seq(env("wr"), wait(0)), seq(env("hup"), wait(0)), seq(mod("s", 2, "rh", m), wait(0)), seq(mod("s", 3, "wph", m), wait(0))))
        # reset by peer data: error conditions
        R.append(Prog(f"rst-{m}", seq(new(), opn(), add("s", 1, "r", m)), seq(env("fill"), env("hup"), wait(0)), seq(wait(0)), seq(mod("s", 2, "", m), wait(0)), seq(env("drain"), mod("s", 3, "w", m), wait(0))))
        R.append(Prog(f"prionly-{m}", seq(new(), opn(), opn("t", "efd"), add("s", 1, "p", m), add("t", 2, "r", m)), seq(env("wr"), env("wr", "t"), wait(0)), seq(env("oob"), wait(0)), seq(wait(0)), seq(mod("s", 5, "rp", m), wait(0)), seq(env("rdoob"), mod("s", 6, "rp", m), wait(0))))
    # event values
    ops = ["si1", "si0", "sp1", "sp0", "clr", "wi", "wp", "wne", "r1", "r0", "w1", "w0"]
    n = 0
    for key in ("0", "5", MAXKEY, str(2**63)):
        for i in ("", "r", "w", "rw", "p", "h", "rwph"):
            for ctor in (True, False):
                n += 1
                k = n % len(ops)
                R.append(Prog(f"ev{n}", seq(*[_reg_ev(key, i, ctor, [ops[(k + a) % 12], ops[(k * 5 + b) % 12], "clr", ops[(a + b) % 12]]) for a in range(4) for b in (0, 3, 7)],
                                            _reg_ev(key, i, ctor, ops), _reg_ev(key, i, ctor, ops[::-1]), _reg_ev(key, i, ctor, ["si1", "sp1", "si0", "wp", "clr", "wi", "sp0", "wne"]))))
    return R


# ---------------------------------------------------------------- C20
REFUSALS = ((("epoll_ctl", 0),), (("ctl", 1),), (("ctl", 2),), (("epoll_ctl", -12),), (("epoll_ctl", -1),))
WAITFAIL = {"epoll_wait": ("epoll", "notimer", "pipe"), "timerfd_settime": ("epoll", "pipe"), "poll": ("poll",)}


def c20(full):
    R = []
    f = refused
    # registration calls that fail: what was registered, and how, stays; the call can be made again
    for m in ALLM:
        for kind, i, up, up2, down in ACT:
            b = [opn("s", kind), *idle(kind, i)]
            for n, x in enumerate(REFUSALS[:3] if m != "L" else REFUSALS):
                on = EP if n else None
                for i2, m2 in ((i, m), ("", "L" if m == "O" else "O")):
                    R.append(Prog(f"mod{n}-{m}{kind}{i}{m2}", setup(*b, add("s", 1, i, m)), seq(f(mod("s", 2, i2, m2), *x)), seq(wait(0)), seq(env(up), wait(0), wait(0)), seq(f(mod("s", 3, i2, m2), *x), wait(0)),
                                  seq(mod("s", 4, i, m), wait(0)), seq(env(down), f(mod("s", 5, i2, m2), *x), wait(0), env(up), wait(0)), seq(f(dele(), *x), wait(0)), seq(dele(), dele(), wait(0)), on=on))
                R.append(Prog(f"add{n}-{m}{kind}{i}", setup(*b), seq(env(up), f(add("s", 1, i, m), *x)), seq(wait(0)), seq(mod("s", 2, i, m), wait(0), wait(0)), seq(f(add("s", 3, "", "L"), *x), wait(0)), seq(dele(), dele(), wait(0)),
                              seq(f(add("s", 4, i, m), *x), add("s", 5, i, m), wait(0)), seq(f(mod("s", 6, i, m), *x), f(dele(), *x), f(dele(), *x), wait(0)), seq(add("s", 7, i, m), mod("s", 8, i, m), wait(0)), on=on))
                R.append(Prog(f"del{n}-{m}{kind}{i}", setup(*b, add("s", 1, i, m)), seq(f(dele(), *x)), seq(env(up), wait(0)), seq(mod("s", 2, i, m), wait(0)), seq(f(dele(), *x), dele(), wait(0), f(dele(), *x)), seq(f(mod("s", 3, i, m), *x), wait(0)),
                              seq(add("s", 4, i, m), wait(0)), on=on))
    # waits that fail: notifications, events and containers survive, the poller is not left locked
    for fn, on in WAITFAIL.items():
        for e in (-12, -22, -1):
            x = (fn, e)
            for to in (0, MS, INF):
                W = f(wait(to), x)
                nm = f"{fn}{e}-{to}"
                if fn == "timerfd_settime" or to in (0, INF) or e == -12:
                    R.append(Prog(f"note-{nm}", setup(), seq(notify()), seq(W), seq(wait(INF)), seq(wait(0)), seq(W), seq(wait(MS)), adv(MS), seq(W, notify(), notify(), W, W), seq(wait(INF), wait(0)), seq(W, notify()), seq(wait(INF, "d"), th=2), seq(notify()), seq(W), seq(wait(INF), th=2), seq(wait(0)), on=on))
                    for m in ALLM:
                        R.append(Prog(f"ev-{m}{nm}", setup(opn(), opn("t", "efd"), add("s", 1, "r", m), add("t", 2, "r", m)), seq(env("wr"), W), seq(wait(0)), seq(W, wait(0)), seq(env("wr", "t"), mod("s", 3, "r", m), W, W, wait(0), wait(0)), seq(W, env("drain"), env("drain", "t"), W, wait(0)), seq(mod("s", 4, "r", m), mod("t", 5, "r", m), env("wr"), W, env("wr", "t"), wait(INF)), seq(wait(0)), on=on))
                R.append(Prog(f"cont-{nm}", setup(evnew("c", 2), opn(), add("s", 1, "r", "L"), env("wr")), seq(wait(0)), seq(W), seq(env("drain"), wait(0)), seq(W, evclear(), W, wait(0)), seq(env("wr"), evclear(), W, wait(0), W, wait(0)), on=on))
            W = f(wait(INF), x)
            R.append(Prog(f"thr-{fn}{e}", setup(opn(), add()), par([W, wait(INF)], [notify()], [env("wr")]), par([], [notify()]), par([W]), par([], [wait(INF, "d")]), par([], [], [notify()]), par([W], [mod("s", 2)]), par([wait(0)]), dfs=200, pb=2, rand=60, on=on))
            R.append(Prog(f"busy-{fn}{e}", setup(opn(), add()), par([W, wait(INF)], [wait(INF, "d")], [notify()]), par([], [], [notify()]), par([], [], [notify()]), par([wait(INF)]), par([], [], [notify()]), dfs=300, pb=2, rand=80, on=on))
            R.append(Prog(f"reg-{fn}{e}", setup(opn(), opn("t", "efd"), add("t", 9)), par([W, wait(INF)], [add("s", 1, "r", "L"), mod("t", 8)], [env("wr")]), par([], [notify()]), par([W], [dele("s"), env("wr", "t")]), par([wait(0)]), par([wait(0)]), dfs=200, pb=2, rand=60, on=on))
        # the second system call of the same wait
        for k in (1001, 1002, 1003):
            W = f(wait(INF), (fn, k))
            V = f(wait(5 * MS), (fn, k))
            R.append(Prog(f"nth-{fn}{k}", setup(opn(), opn("t", "efd"), add()), par([W, wait(INF)], [add("t", 1, "r", "L"), mod("s", 2)], [notify()]), par([], [notify()]), par([], [], [notify()]), par([V], [dele("t")], [env("wr")]), adv(10 * MS), par([], [mod("s", 3)]), par([wait(0)]), dfs=300, pb=2, rand=80, on=on))
    # a wait cut short by a failure while signals arrive
    for fn, on in WAITFAIL.items():
        R.append(Prog(f"sig-{fn}", setup(opn(), add()), par([f(wait(INF), (fn, 1002)), wait(INF)], [sig(1), sig(1)], [notify()]), par([], [notify()]), par([f(wait(MS), (fn, 1002))], [sig(1)]), adv(2 * MS), par([wait(0)], [env("wr")]), par([wait(0)]), dfs=200, pb=2, rand=60, on=on))
    # sources that the system does not accept
    for m in ALLM:
        for i in ("r", "w", "rw", ""):
            R.append(Prog(f"file-{m}{i}", setup(opn("f", "file"), opn("t", "efd"), add("t", 2, "r", m)), seq(f(add("f", 1, i, m))), seq(env("wr", "t"), wait(0)), seq(f(mod("f", 3, i, m)), wait(0)), seq(f(add("f", MAXKEY, i, m)), f(add("f", 4, i, m)), wait(0)), seq(notify(), mod("t", 5, "r", m), wait(0), wait(0)), seq(f(dele("f")), wait(0)), seq(f(dele("f")), f(add("f", 6, i, m)), dele("t"), wait(0)), seq(drop())))
        R.append(Prog(f"self-{m}", setup(opn("x", "poller", p="p"), opn(), add("s", 2, "r", m)), seq(f(add("x", 1, "r", m))), seq(env("wr"), wait(0)), seq(notify(), f(mod("x", 3, "r", m)), wait(0)), seq(f(dele("x")), mod("s", 4, "r", m), wait(0)), seq(notify(), wait(INF)), on=EP))
        R.append(Prog(f"loop-{m}", setup(new("q"), opn("x", "poller", p="p"), opn("y", "poller", p="q"), opn(), add("s", 2, "r", m)), seq(add("x", 1, "r", m, p="q"), f(add("y", 1, "r", m))), seq(env("wr"), env("look", "x"), wait(0), env("look", "x"), wait(0, "d", "q")), seq(notify("q"), notify(), f(mod("y", 3, "r", m)), wait(0), wait(0, "d", "q")), seq(f(dele("y")), dele("x", "q"), mod("s", 4, "r", m), wait(0)), on=EP))
    # against other threads
    X = dict(dfs=250, pb=2, rand=100)
    for n, x in enumerate(REFUSALS[:3]):
        R.append(Prog(f"race-{n}", setup(opn(), opn("t", "efd"), add()), par([wait(INF)], [f(mod("s", 2, "w", "L"), *x), env("wr")], [f(add("t", 3, "r", "L"), *x), notify()]), par([], [f(dele(), *x)]), par([wait(0)]), par([env("wr", "t"), wait(0)]), par([dele(), dele("t"), wait(0)]), **X))
    return R


def _reg_ev(key, i, ctor, ops):
    d = {"op": "ev", "key": key, "ctor": ctor, "ops": ops}
    for ch, n in (("r", "r"), ("w", "w"), ("p", "pri"), ("h", "hup")):
        if ch in i:
            d[n] = True
    return d


def adv_op():
    return None


PROGS = {f"C{n:02d}": globals()[f"c{n:02d}"] for n in range(1, 21)}
