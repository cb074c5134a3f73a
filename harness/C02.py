"""C02: run control, splitting of runs, scheduling in the past"""
from .common import *
from . import common as C

BOUNDS = "2-3 components with 1-2 events each at symbolic times in [0,100]; end moments real; run split in up to 3 parts; default_cap_now on/off; cap_now None/True/False"
OUTSIDE = "more events; runs stopped by exceptions in user code; animated runs"


def run_until(S, n, yieldless, how, mainprio):
    """run(till/duration): exactly the events before the end are handled"""
    env = C.make_env(yieldless)
    ran = []

    def script(c, t, p):
        ran.append(c)
        S.close(env.now(), t, "an event is handled at its time")
        return
        yield

    cs = []
    for i in range(n):
        t = S.real(f"t{i}", 0, 100)
        p = S.int(f"p{i}", -2, 2)
        c = C.actor(env, script, t, p, at=t, priority=p, name=f"c{i}")
        c.t, c.p = t, p
        cs.append(c)
    first = cs[0].t
    for c in cs[1:]:
        if c.t < first:
            first = c.t
    S.close(env.peek(), first, "peek() is the time of the first event")
    T = S.real("T", 0, 100)
    kw = {}
    if mainprio:
        kw = dict(priority=S.int("mp", -1, 1), urgent=S.flag("mu"))
    if how == "till":
        env.run(till=T, **kw)
    elif how == "duration":
        env.run(duration=T, **kw)
    else:
        env.run(T, **kw)
    S.close(env.now(), T, "the clock stands at the end of the run")
    S.check(env.current_component() is env.main(), "control is back at main")
    S.check(env.main().status() == "current", "main is current after run")
    for c in cs:
        did = c in ran
        if mainprio:
            mp = kw["priority"]
            before = S.Or(c.t < T, S.And(c.t == T, S.Or(c.p < mp, S.And(c.p == mp, not kw["urgent"]))))
        else:
            before = c.t <= T
        if did:
            S.check(before, "only events before the end of the run are handled")
        else:
            S.check(S.Not(before), "all events before the end of the run are handled")
            S.check(c.status() == "scheduled", "an event after the end remains scheduled")
            S.close(c.scheduled_time(), c.t, "an event after the end remains scheduled at its time")
    k = len(ran)
    env.run()
    S.check(len(ran) == n, "a later run handles the remaining events, exactly once")
    last = T
    for c in cs:
        if c.t > last:
            last = c.t
    S.close(env.now(), last, "run() without an end stops at the last event")
    S.log([c.name() for c in ran], k, env.now())
    S.reach("end")
    if 0 < k < n:
        S.reach("some before, some after")


def run_split(S, yieldless, parts, kind):
    """the same model run in one part and in several parts"""

    def model(env, hist):
        def script(c, ds):
            for d in ds:
                hist.append((c.name(), env.now()))
                yield c.hold(d)
            hist.append((c.name(), env.now()))

        for i in range(2):
            C.actor(env, script, D[i], at=A[i], name=f"c{i}")

    A = [S.real(f"a{i}", 0, 10) for i in range(2)]
    D = [[S.real(f"d{i}", 0, 10)] for i in range(2)]
    total = S.real("total", 0, 30)
    cuts = [S.real(f"cut{k}", 0, 30) for k in range(parts - 1)]
    for a, b in zip([0] + cuts, cuts + [total]):
        S.assume(a <= b)
    env1, h1 = C.make_env(yieldless), []
    model(env1, h1)
    env1.run(till=total)
    env2, h2 = C.make_env(yieldless), []
    model(env2, h2)
    prev = 0
    for c in cuts + [total]:
        if kind == "till":
            env2.run(till=c)
        else:
            env2.run(c - prev)
        S.close(env2.now(), c, "each part ends at its end")
        prev = c
    S.check([x[0] for x in h1] == [x[0] for x in h2], "running in parts gives the same events")
    for x, y in zip(h1, h2):
        S.close(x[1], y[1], "running in parts gives the same event times")
    S.close(env1.now(), env2.now(), "running in parts ends at the same time")
    S.log([x[0] for x in h2], env2.now())
    S.reach("end")
    if len(h1) == 4:
        S.reach("all events")


def past(S, yieldless, call, default_cap, cap):
    """scheduling relative to now, possibly in the past"""
    sim = C.sim
    sim.default_cap_now(default_cap)
    env = C.make_env(yieldless)
    t0 = S.real("t0", 0, 10)
    t1 = S.real("t1", -10, 30)
    S.assume(S.Or(t1 < t0, t1 == t0, t1 > t0))
    got = []
    raised = []

    def target(c):
        got.append(env.now())
        if call in ("activate_at", "activate_delay", "other_hold_till", "other_hold_duration"):
            yield c.passivate()
            got.append(env.now())

    def driver(c):
        yield c.hold(till=t0)
        now = env.now()
        try:
            if call == "activate_at":
                x.activate(at=t1, cap_now=cap)
            elif call == "activate_delay":
                x.activate(delay=t1 - t0, cap_now=cap)
            elif call == "other_hold_till":
                x.hold(till=t1, cap_now=cap)
            elif call == "other_hold_duration":
                x.hold(duration=t1 - t0, cap_now=cap)
            elif call == "create_at":
                C.actor(env, target, at=t1, cap_now=cap)
            elif call == "create_delay":
                C.actor(env, target, delay=t1 - t0, cap_now=cap)
            elif call == "hold_till":
                yield c.hold(till=t1, cap_now=cap)
                got.append(env.now())
            elif call == "hold_duration":
                yield c.hold(t1 - t0, cap_now=cap)
                got.append(env.now())
            elif call == "request_fail":
                yield c.request(r, fail_at=t1, cap_now=cap)
                got.append(env.now())
            elif call == "wait_fail":
                yield c.wait(s, fail_delay=t1 - t0, cap_now=cap)
                got.append(env.now())
            elif call == "from_store_fail":
                yield c.from_store(store, fail_at=t1, cap_now=cap)
                got.append(env.now())
            elif call == "to_store_fail":
                yield c.to_store(store0, it, fail_delay=t1 - t0, cap_now=cap)
                got.append(env.now())
        except ValueError:
            raised.append(1)
            S.close(env.now(), now, "an error does not move the clock")

    x = None
    if call in ("activate_at", "activate_delay", "other_hold_till", "other_hold_duration"):
        x = C.actor(env, target)
    if call == "request_fail":
        r = sim.Resource("r", capacity=0, env=env)
    if call == "wait_fail":
        s = sim.State("s", env=env)
    if call == "from_store_fail":
        store = sim.Store("st", env=env)
    if call == "to_store_fail":
        store0 = sim.Store("st0", capacity=0, env=env)
        it = C.data(env)
    C.actor(env, driver)
    env.run(till=50)
    eff = cap if cap is not None else default_cap
    first = 1 if x is not None else 0
    if raised:
        S.reach("raised")
        S.check(t1 < t0, "only scheduling in the past is refused")
        S.check(not eff, "scheduling in the past is not refused when capping is asked for")
        S.check(len(got) == first, "a refused call schedules nothing")
    else:
        S.check(S.Or(t1 >= t0, bool(eff)), "scheduling in the past is refused")
        S.check(len(got) == first + 1, "the event is handled once")
        if len(got) == first + 1:
            if eff:
                S.close(got[-1], t1 if t1 > t0 else t0, "a past moment is capped to now, others are kept")
            else:
                S.close(got[-1], t1, "the event is handled at the requested time")
        S.reach("scheduled")
    S.log(got, bool(raised))


def run_past(S, yieldless, default_cap, cap):
    """run(till) with an end before now"""
    sim = C.sim
    sim.default_cap_now(default_cap)
    env = C.make_env(yieldless)
    a = S.real("a", 0, 10)
    b = S.real("b", -5, 20)
    env.run(till=a)
    eff = cap if cap is not None else default_cap
    try:
        env.run(till=b, cap_now=cap)
    except ValueError:
        S.reach("raised")
        S.check(S.And(b < a, not eff), "only a run to the past is refused")
        S.close(env.now(), a, "a refused run does not move the clock")
        S.log("raised")
        return
    S.check(S.Or(b >= a, bool(eff)), "a run to the past is refused")
    S.close(env.now(), b if b > a else a, "the clock ends at the end of the run")
    S.log(env.now())
    S.reach("ran")


def run_open(S, yieldless):
    """run() and run(inf); a second run() with nothing left does nothing; peek"""
    env = C.make_env(yieldless)
    hist = []

    def script(c, d):
        hist.append(env.now())
        yield c.hold(d)
        hist.append(env.now())
        yield c.passivate()
        hist.append(env.now())

    a, d = S.real("a", 0, 10), S.real("d", 0, 10)
    x = C.actor(env, script, d, at=a)
    env.run()
    S.close(env.now(), a + d, "run() ends at the last event")
    S.check(len(hist) == 2, "run() handled all events")
    env.run()
    S.close(env.now(), a + d, "run() with no events left does not move the clock")
    e = S.real("e", 0, 10)
    x.activate(delay=e)
    S.close(env.peek(), a + d + e, "peek() gives the next event time")
    env.run()
    S.close(env.now(), a + d + e, "run() continues with new events")
    S.check(len(hist) == 3, "run() handled the new event")
    env.run(S.real("f", 0, 10))
    env.run(C.inf)
    S.check(env.now() == C.inf, "run(inf) ends at inf")
    S.log(hist)
    S.reach("end")


CALLS = ["activate_at", "activate_delay", "other_hold_till", "other_hold_duration", "create_at", "create_delay", "hold_till", "hold_duration", "request_fail", "wait_fail", "from_store_fail", "to_store_fail"]
HARNESSES = [
    H(run_until, grid(n=[2], yieldless=[True, False], how=["till", "duration"], mainprio=[True]) + grid(n=[3], yieldless=[True], how=["till", "positional"], mainprio=[False]),
      grid(n=[3], yieldless=[True, False], how=["till", "duration"], mainprio=[True, False]), expect=["end", "some before, some after"],
      bounds="n pending events, symbolic end, run priority and urgency"),
    H(run_split, grid(yieldless=[True], parts=[2], kind=["till", "duration"]) + grid(yieldless=[False], parts=[2], kind=["till"]),
      grid(yieldless=[True, False], parts=[2, 3], kind=["till", "duration"]), expect=["end", "all events"], bounds="2 components with 2 events each, 2-3 parts"),
    H(past, grid(yieldless=[True, False], call=CALLS, default_cap=[False, True], cap=[None]) + grid(yieldless=[True], call=CALLS, default_cap=[False, True], cap=[False, True]), expect=["raised", "scheduled"], bounds="one call, symbolic now and target moment"),
    H(run_past, grid(yieldless=[True, False], default_cap=[False, True], cap=[None, False, True]), expect=["raised", "ran"]),
    H(run_open, grid(yieldless=[True, False]), expect=["end"]),
]
