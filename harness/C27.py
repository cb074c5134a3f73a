"""C27: period monitors against a partition of time computed directly"""
from .common import *
from . import common as C

BOUNDS = "2 or 3 periods with symbolic lengths, a period monitor made at a symbolic moment, 2..3 tallies at symbolic moments (level and non level, with weights, tallied, through queues, through value), over up to two cycles; two period monitors on one monitor, removal and reset at a symbolic moment; both process styles"
OUTSIDE = "tallies at exactly the moment at which a period ends may be counted in either of the two periods; a monitor that is switched off (its period monitors do not follow that); floating point rounding"


def windows(t, periods, end):
    """(t0, t1, index of the period)"""
    out = []
    i = 0
    while t < end:
        p = periods[i % len(periods)]
        out.append((t, t + p if t + p < end else end, i % len(periods)))
        t = t + p
        i += 1
    return out


def setup(S, k, n, yl):
    env = C.make_env(yl)
    periods = [S.real(f"p{i}", 1, 4) for i in range(k)]
    gaps = [S.real(f"g{i}", 0, 4) for i in range(n)]
    return env, periods, gaps


def overlap(a, b, c, d):
    lo = a if a > c else c
    hi = b if b < d else d
    return hi - lo if hi > lo else 0


def check_level(S, pm, segs, wins, values, msg):
    for i in range(len(pm.periods)):
        m = pm[i]
        tot = 0
        for v in values:
            want = 0
            for a, b, x in segs:
                if x == v:
                    for c, d, j in wins:
                        if j == i:
                            want = want + overlap(a, b, c, d)
            S.close(m.value_duration(v), want, f"{msg}: time in period with this value")
            tot = tot + want
        S.close(m.duration(), tot, f"{msg}: duration of the period")


def level(S, k, n, yl, how="tally", late=True):
    env, periods, gaps = setup(S, k, n, yl)
    S.assume(sum(gaps) <= 8)
    c0 = S.real("c", 0, 3) if late else 0
    q = C.sim.Queue("q", env=env)
    m = q.length if how == "queue" else C.sim.Monitor("m", level=True, initial_tally=0, env=env)
    d = [C.data(env, f"d{i}") for i in range(n)]
    segs, last = [], [0, 0]
    pms = []

    def put(i):
        t = env.now()
        segs.append((last[0], t, last[1]))
        last[0], last[1] = t, i + 1
        if how == "tally":
            m.tally(i + 1)
        elif how == "keyword":
            m.tally(value=i + 1)
        elif how == "value":
            m.value = i + 1
        else:
            d[i].enter(q)

    def p(c):
        for i in range(n):
            yield c.hold(gaps[i])
            put(i)

    def maker(c):
        yield c.hold(c0)
        pms.append(C.sim.PeriodMonitor(m, periods=periods, env=env))
        made.append(env.now())

    made = []
    a = C.actor(env, p, name="p")
    b = C.actor(env, maker, name="maker")
    env.run(till=8)
    segs.append((last[0], 8, last[1]))
    check_level(S, pms[0], segs, windows(made[0], periods, 8), range(n + 1), "level")
    tot = sum((pms[0][i].duration() for i in range(k)), 0)
    S.close(tot, 8 - made[0], "the periods cover all time since it was made")
    # undisturbed
    S.close(m.duration(), 8, "the monitor itself covers all time")
    for v in range(n + 1):
        S.close(m.value_duration(v), sum((y - x for x, y, u in segs if u == v), 0), "the monitor itself is not disturbed")
    S.check(m() == last[1], "current value")
    S.reach("level")


def nonlevel(S, k, n, yl, how="weight"):
    env, periods, gaps = setup(S, k, n, yl)
    S.assume(sum(gaps) <= 8)
    c0 = S.real("c", 0, 3)
    vals = [S.real(f"v{i}", -9, 9) for i in range(n)]
    q = C.sim.Queue("q", env=env)
    m = q.length_of_stay if how == "stay" else C.sim.Monitor("m", env=env)
    ws = [S.pick(f"w{i}", [1, 2]) if how == "weight" else 1 for i in range(n)]
    when = []
    pms, made = [], []
    d = [C.data(env, f"d{i}") for i in range(n)]

    def p(c):
        if how == "stay":
            for x in d:
                x.enter(q)
        for i in range(n):
            yield c.hold(gaps[i])
            when.append(env.now())
            if how == "stay":
                vals[i] = env.now()
                d[i].leave(q)
            elif how == "weight":
                m.tally(vals[i], ws[i])
            else:
                m.tally(value=vals[i])

    def maker(c):
        yield c.hold(c0)
        pms.append(C.sim.PeriodMonitor(m, periods=periods, env=env))
        made.append((env.now(), len(when)))
        if how == "weight":
            m.tally(100)
            extra.append(env.now())

    extra = []
    C.actor(env, p, name="p")
    C.actor(env, maker, name="maker")
    env.run(till=8)
    t0, first = made[0]
    pm = pms[0]
    wins = windows(t0, periods, 9)
    lo = [0] * k  # certainly in the period
    sure = [[] for _ in range(k)]
    edge = [0] * k
    allx = [(vals[i], ws[i], when[i]) for i in range(first, n)] + [(100, 1, t) for t in extra]
    boundary = False
    for v, w, t in allx:
        js = [j for c, d_, j in wins if S_in(t, c, d_)]
        if len(js) == 1:
            sure[js[0]].append((v, w))
        else:
            boundary = True
    S.check(sum(pm[i].number_of_entries() for i in range(k)) == len(allx), "every tally is in exactly one period")
    for i in range(k):
        if not boundary:
            S.check(pm[i].number_of_entries() == len(sure[i]), "the tallies in the period in which they fall")
            S.close(pm[i].weight(), sum((w for _, w in sure[i]), 0), "the weights")
            if sure[i]:
                S.close(pm[i].mean() * pm[i].weight(), sum((v * w for v, w in sure[i]), 0), "the values")
        else:
            S.check(pm[i].number_of_entries() >= len(sure[i]), "at least the tallies in the period in which they fall")
    S.close(sum((pm[i].weight() for i in range(k)), 0), sum((w for _, w, _ in allx), 0), "all weights")
    S.check(m.number_of_entries() == n + len(extra), "the monitor itself has all tallies")
    S.close(m.mean() * m.weight(), sum((v * w for v, w in zip(vals, ws)), 0) + 100 * len(extra), "the monitor itself has all values")
    S.reach("boundary" if boundary else "nonlevel")


def S_in(t, c, d):
    return c <= t and t <= d


def two(S, yl, remove):
    """two period monitors on one monitor; one is removed halfway"""
    env, periods, gaps = setup(S, 2, 2, yl)
    m = C.sim.Monitor("m", level=True, initial_tally=0, env=env)
    a = C.sim.PeriodMonitor(m, periods=periods, env=env)
    b = C.sim.PeriodMonitor(m, periods=[2, 3.5, 1], period_monitor_names=["x", "y", "z"], env=env)
    S.check([b[i].name() for i in range(3)] == ["x", "y", "z"], "names")
    segs, last = [], [0, 0]

    def p(c):
        for i in range(2):
            yield c.hold(gaps[i])
            segs.append((last[0], env.now(), last[1]))
            last[0], last[1] = env.now(), i + 1
            m.tally(i + 1)
            if remove and i == 0:
                a.remove()

    C.actor(env, p, name="p")
    env.run(till=8)
    segs.append((last[0], 8, last[1]))
    check_level(S, b, segs, windows(0, [2, 3.5, 1], 8), range(3), "second")
    if not remove:
        check_level(S, a, segs, windows(0, periods, 8), range(3), "first")
    for v in range(3):
        S.close(m.value_duration(v), sum((y - x for x, y, u in segs if u == v), 0), "the monitor itself is not disturbed")
    S.reach("removed" if remove else "two")


def removed(S, yl):
    """after its removal a period monitor does not record anything any more"""
    sim = C.sim
    env, periods, gaps = setup(S, 2, 2, yl)
    m = sim.Monitor("m", env=env)
    a, b = [sim.PeriodMonitor(m, periods=periods, env=env) for _ in range(2)]
    r = S.choice("r", 2)

    def p(c):
        for i in range(2):
            yield c.hold(gaps[i])
            m.tally(i)
            if i == r:
                a.remove()

    C.actor(env, p, name="p")
    env.run(till=9)
    S.check(sum(a[i].number_of_entries() for i in range(2)) == r + 1, "nothing more after the removal")
    S.check(sum(b[i].number_of_entries() for i in range(2)) == 2, "the other one is not affected")
    S.reach("removed")


def default(S, yl):
    """default names and periods"""
    sim = C.sim
    env = C.make_env(yl)
    m = sim.Monitor("m", env=env)
    d = sim.PeriodMonitor(m, periods=[2, 3.5, 1], env=env)
    h = sim.PeriodMonitor(m, env=env)
    S.check([d[i].name() for i in range(3)] == ["m.period [0 - 2]", "m.period [2 - 5.5]", "m.period [5.5 - 6.5]"], "default names")
    S.check([h[i].name() for i in range(24)] == [f"m.period [{i} - {i + 1}]" for i in range(24)], "24 periods of 1 by default")
    t = S.real("t", 0, 30)

    def p(c):
        yield c.hold(t)
        m.tally(1)

    C.actor(env, p, name="p")
    env.run(till=31)
    for i in range(24):
        inside = S.Or(S.And(i < t, t < i + 1), S.And(i + 24 < t, t < i + 25))
        edge = S.Or(t == i, t == i + 1, t == i + 24, t == i + 25)
        n = h[i].number_of_entries()
        S.check(n == 1 if inside else True if edge else n == 0, "in the hour in which it falls")
    S.reach("default")


def reset(S, yl):
    """reset of the monitor also resets the period monitors"""
    env, periods, gaps = setup(S, 2, 2, yl)
    m = C.sim.Monitor("m", level=True, initial_tally=0, env=env)
    a = C.sim.PeriodMonitor(m, periods=periods, env=env)
    r = S.real("r", 0, 6)
    segs, last = [], [0, 0]

    def p(c):
        for i in range(2):
            yield c.hold(gaps[i])
            segs.append((last[0], env.now(), last[1]))
            last[0], last[1] = env.now(), i + 1
            m.tally(i + 1)

    def res(c):
        yield c.hold(r)
        m.reset()

    C.actor(env, p, name="p")
    C.actor(env, res, name="res")
    env.run(till=8)
    segs.append((last[0], 8, last[1]))
    segs = [(x if x > r else r, y, u) for x, y, u in segs if y > r]
    check_level(S, a, segs, windows(0, periods, 8), range(3), "after reset")
    S.close(m.duration(), 8 - r, "the monitor itself")
    S.reach("reset")


def history(S, yl):
    """the model itself is not disturbed"""
    logs = []
    a, b = S.real("a", 0, 4), S.real("b", 0, 4)
    p0 = S.real("p0", 1, 4)
    for on in (False, True):
        env = C.make_env(yl)
        r = C.sim.Resource("r", env=env)
        log = []

        def p(c):
            yield c.hold(b)
            yield c.request(r)
            log.append((c.name(), env.now()))
            yield c.hold(a)
            c.release()
            yield c.standby()
            log.append((c.name(), env.now()))

        if on:
            pm = [C.sim.PeriodMonitor(x, periods=[p0, 2], env=env) for x in (r.requesters().length, r.requesters().length_of_stay, r.claimed_quantity)]
        C.actor(env, p, name="p")
        C.actor(env, p, name="q")
        env.run(till=9)
        log.append(("mean", r.claimed_quantity.mean()))
        log.append(("los", r.requesters().length_of_stay.mean()))
        logs.append(log)
    x, y = logs
    S.check([u[0] for u in x] == [u[0] for u in y], "the same events")
    for u, v in zip(x, y):
        S.close(u[1], v[1], "the same times and statistics")
    S.reach("history")


HARNESSES = [
    H(level, grid(k=[2], n=[2], yl=[True], how=["tally", "value", "keyword", "queue"]) + grid(k=[2], n=[2], yl=[False]) + grid(k=[3], n=[2], yl=[True], late=[False]), grid(k=[2, 3], n=[2, 3], yl=[True, False], how=["tally", "queue"]) + grid(k=[2], n=[2], yl=[True], how=["value", "keyword"]), expect=["level"]),
    H(nonlevel, grid(k=[2], n=[2], yl=[True], how=["weight", "keyword", "stay"]) + grid(k=[2], n=[2], yl=[False]), grid(k=[2, 3], n=[2, 3], yl=[True, False], how=["weight", "keyword", "stay"]), expect=["boundary", "nonlevel"]),
    H(two, grid(yl=[True], remove=[False, True]) + grid(yl=[False], remove=[True]), grid(yl=[True, False], remove=[False, True]), expect=["two", "removed"]),
    H(removed, grid(yl=[True, False]), expect=["removed"], bounds="two tallies, two period monitors"),
    H(default, grid(yl=[True, False]), expect=["default"], bounds="one tally"),
    H(reset, grid(yl=[True, False]), expect=["reset"]),
    H(history, grid(yl=[True, False]), expect=["history"]),
]
