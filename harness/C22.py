"""C22: time units and dates, on symbolic durations and moments"""
from .common import *
from . import common as C
from .dates import dates
from .level import *

BOUNDS = "durations and times as text (durations up to 300000 seconds, four dates); every pair of time units with a symbolic amount; four start dates, symbolic moments and durations, one reset of the clock to a symbolic value; every call that takes a time or a duration, with every form of specification"
OUTSIDE = "floating point rounding (a date equal to now may turn out to be just before now) and the resolution (microseconds) of dates; parsing of date strings (a few formats only); time zones"

SECONDS = dict(years=365 * 86400, weeks=7 * 86400, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
UNITS = list(SECONDS)


def units(S, envs):
    """conversion to and from the unit of the environment"""
    eu, u, v = S.pick("env unit", envs), S.pick("unit", UNITS), S.pick("unit2", UNITS)
    env = C.make_env(True, time_unit=eu)
    S.check(env.get_time_unit() == eu, "the unit is as specified")
    x = S.real("x", -1000, 1000)
    f = SECONDS[u] / SECONDS[eu]
    a = getattr(env, u)(x)
    S.close(a / f, x, f"{u} in {eu}")
    S.close(getattr(env, "to_" + u)(a), x, "to and from a unit is the identity")
    S.close(env.to_time_unit(u, a), x, "to_time_unit is the same")
    S.close(getattr(env, u)(getattr(env, "to_" + u)(x)), x, "from and to a unit is the identity")
    S.close(getattr(env, u)(lambda: x) / f, x, "callable")
    S.close(env.to_time_unit(u, lambda: a), x, "callable")
    g = SECONDS[u] / SECONDS[v]
    S.close(getattr(env, "to_" + v)(a) / g, x, "conversion between two units")
    S.reach(u)


def monitors(S):
    """monitors converted to another unit have converted values"""
    sim = C.sim
    eu, u = S.pick("env unit", ["hours", "seconds"]), S.pick("unit", UNITS)
    env = C.make_env(True, time_unit=eu)
    f = SECONDS[eu] / SECONDS[u]
    m = sim.Monitor("m", type="float")
    xs = [S.real(f"x{i}", -10, 10) for i in range(2)]
    for x in xs:
        m.tally(x)
    for r in (m.to_time_unit(u), getattr(m, "to_" + u)()):
        got = r.x()
        S.check(len(got) == 2, "as many entries")
        for a, b in zip(got, xs):
            S.close(a / f, b, "converted value")
    S.reach(u)


def none(S):
    """without a time unit nothing can be converted"""
    sim = C.sim
    env = C.make_env(True)
    u = S.pick("unit", UNITS)
    what = S.choice("what", 5)
    try:
        if what == 0:
            getattr(env, u)(1)
        elif what == 1:
            getattr(env, "to_" + u)(1)
        elif what == 2:
            env.to_time_unit(u, 1)
        elif what == 3:
            sim.Monitor("m", type="float").to_time_unit(u)
        else:
            getattr(sim.Monitor("m", type="float"), "to_" + u)()
    except AttributeError:
        S.reach("refused")
    else:
        S.check(False, "conversion without a time unit is refused")


STARTS = [True, "dt", "2022-01-05 10:00", "dt2"]


def start(S, D, sim, unit=None, starts=STARTS):
    """-> environment, start date in seconds since 1970"""
    st = S.pick("start", starts)
    if st is True:
        d0, s0 = True, 0
    elif st == "dt":
        s0 = 86400 * 365
        d0 = D.dt(s0)
    elif st == "dt2":
        s0 = S.int("s0", 0, 10**9)
        d0 = D.dt(s0)
    else:
        d0, s0 = st, 1641376800
    if unit is None:
        env = C.make_env(True, datetime0=d0)
    elif S.flag("later"):
        env = C.make_env(True, time_unit=unit)
        env.datetime0(d0)
    else:
        env = C.make_env(True, datetime0=d0, time_unit=unit)
    return env, s0


def conversions(S, units_, reset):
    """time to date and back, duration to timedelta and back"""
    with dates(S) as D:
        sim = C.sim
        unit = S.pick("unit", units_)
        env, s0 = start(S, D, sim, unit)
        if unit is None:
            S.check(env.get_time_unit() == "seconds", "seconds if nothing specified")
            unit = "seconds"
        k = SECONDS[unit]
        if reset:
            g = S.real("gone", 0, 20)
            env.run(duration=g)
            S.near(D.secs(env.t_to_datetime(env.now())), s0 + g * k, "date of now", 1e-4)
            new = S.real("new", -5, 20)
            if S.flag("as date"):
                env.reset_now(D.dt(s0 + new * k))
            else:
                env.reset_now(new)
            S.near(env.now() * k, new * k, "new time", 1e-4)
            S.near(D.secs(env.t_to_datetime(env.now())), s0 + g * k, "the date of now does not change by a reset", 1e-4)
            s0 = s0 + (g - new) * k
            env.run(duration=1)
            S.near(D.secs(env.t_to_datetime(env.now())), s0 + (new + 1) * k, "dates go on after a reset", 1e-4)
        S.near(D.secs(env.datetime0()), s0, "date of time 0", 1e-4)
        t = S.real("t", -100, 100)
        d = env.t_to_datetime(t)
        S.near(D.secs(d), s0 + t * k, "date of a time", 1e-4)
        S.near(env.datetime_to_t(d) * k, t * k, "date to time inverts time to date", 1e-4)
        x = S.int("x", -10**6, 10**6)
        S.near(env.datetime_to_t(D.dt(s0 + x)) * k, x, "time of a date", 1e-4)
        S.near(D.secs(env.t_to_datetime(env.datetime_to_t(D.dt(s0 + x)))), s0 + x, "time to date inverts date to time", 1e-4)
        td = env.duration_to_timedelta(t)
        S.near(D.dsecs(td), t * k, "timedelta of a duration", 1e-4)
        S.near(env.timedelta_to_duration(td) * k, t * k, "timedelta to duration inverts duration to timedelta", 1e-4)
        S.near(env.timedelta_to_duration(D.td(x)) * k, x, "duration of a timedelta", 1e-4)
        S.check(env.t_to_datetime(inf) == inf, "infinite time")
        S.reach(unit)


def nodates(S):
    """dates need a start date"""
    with dates(S) as D:
        sim = C.sim
        env = C.make_env(True, time_unit="hours")
        f = S.pick("f", ["datetime_to_t", "timedelta_to_duration", "t_to_datetime", "spec_to_time", "spec_to_duration"])
        arg = {"datetime_to_t": D.dt(100), "timedelta_to_duration": D.td(100), "t_to_datetime": 1, "spec_to_time": D.dt(100), "spec_to_duration": D.td(5)}[f]
        try:
            getattr(env, f)(arg)
        except ValueError:
            S.reach("refused")
        else:
            S.check(False, "without a start date no dates")


def strings(S):
    """time to text, durations to text"""
    with dates(S) as D:
        env = C.make_env(True, time_unit="hours")
        x = S.pick("x", [0, 1.5, 1234.5678, -2])
        S.check(float(env.time_to_str(x)) == round(x, 3) and float(env.duration_to_str(x)) == round(x, 3), "number")
    if not S.symbolic:
        pass
    import datetime as real
    env = C.make_env(True, time_unit="hours", datetime0=real.datetime(2024, 2, 28, 12))
    x = S.pick("y", [0, 11.5, 12, 36.25, 1000.0])
    d = real.datetime(2024, 2, 28, 12) + real.timedelta(hours=x)
    S.check(env.time_to_str(x) == d.strftime("%a %Y-%m-%d %H:%M:%S"), "date as text")
    h = int(x) % 24
    txt = f"{h:02d}:{int(round((x - int(x)) * 60)):02d}:00"
    S.check(env.duration_to_str(x) == (f"{int(x) // 24} {txt}" if x >= 24 else txt), "duration as text")
    S.reach("text")


TIMES = ["number", "callable", "date", "callable date", "string", "distribution", "text number"]
DURATIONS = ["number", "callable", "timedelta", "callable timedelta", "string", "distribution", "text number"]


def calls(S, unit, reset, kinds, group):
    """every call interprets every form of time and duration in the same way"""
    with dates(S) as D:
        sim = C.sim
        env, s0 = start(S, D, sim, unit, [True, "dt"])
        k = SECONDS[unit]
        env.run(duration=2)
        if reset:
            new = S.real("new", -5, 5)
            env.reset_now(new)
            s0 = s0 + (2 - new) * k
        call = S.pick("call", CALLS[group])
        form = S.pick("form", kinds)
        now = env.now()
        if form in ("string", "text number") and reset:
            return
        d = S.pick("dc", [0.5, 3]) if form in ("string", "text number") else S.real("d", 0 if form in ("number", "callable") else 0.01, 9)
        timelike = call.endswith((" at", "_at", " till", " moments"))
        if timelike:
            t = now + d
            if form == "string":
                import datetime as real
                v = (real.datetime(1970, 1, 1) + real.timedelta(seconds=s0 + t * k)).strftime("%Y-%m-%d %H:%M:%S")
            else:
                v = {"number": lambda: t, "callable": lambda: (lambda: t), "date": lambda: D.dt(s0 + t * k), "callable date": lambda: (lambda: D.dt(s0 + t * k)),
                     "distribution": lambda: sim.Constant(t), "text number": lambda: str(t)}[form]()
        else:
            if form == "string":
                s = int(d * k)
                if s >= 86400 or d * k != s:
                    return
                v = f"{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}"
            else:
                v = {"number": lambda: d, "callable": lambda: (lambda: d), "date": lambda: D.td(d * k), "callable date": lambda: (lambda: D.td(d * k)),
                     "distribution": lambda: sim.Constant(d), "text number": lambda: str(d)}[form]()
        want = now + d
        hit = []
        near = lambda a, b, txt: S.near(a * k, b * k, txt, 1e-4)

        class X(sim.Component):
            def setup(self):
                hit.append(env.now())

        def p(c):
            if call == "hold duration":
                yield c.hold(v)
            elif call == "hold till":
                yield c.hold(till=v)
            elif call == "self activate at":
                yield c.activate(at=v)
            elif call == "self activate delay":
                yield c.activate(delay=v)
            elif call.startswith("request"):
                r = sim.Resource("r", capacity=0, env=env)
                yield c.request(r, **{call.split()[1]: v})
                S.check(c.failed(), "failed")
            elif call.startswith("wait"):
                yield c.wait(sim.State("s", env=env), **{call.split()[1]: v})
                S.check(c.failed(), "failed")
            elif call.startswith("from_store"):
                yield c.from_store(sim.Store("f", env=env), **{call.split()[1]: v})
                S.check(c.failed(), "failed")
            elif call.startswith("to_store"):
                yield c.to_store(sim.Store("t", capacity=0, env=env), C.data(env), **{call.split()[1]: v})
                S.check(c.failed(), "failed")
            else:
                hit.append(env.now())
                return
            hit.append(env.now())

        def at_end(c=None):
            pass

        if call == "component at":
            c = C.actor(env, p, at=v)
            near(c.scheduled_time(), want, "scheduled")
        elif call == "component delay":
            c = C.actor(env, p, delay=v)
            near(c.scheduled_time(), want, "scheduled")
        elif call in ("activate at", "activate delay"):
            c = C.actor(env, p, delay=1)
            c.activate(**{call.split()[1]: v})
            near(c.scheduled_time(), want, "scheduled")
        elif call == "run till":
            env.run(till=v)
            hit.append(env.now())
        elif call == "run duration":
            env.run(duration=v)
            hit.append(env.now())
        elif call == "reset at":
            before = D.secs(env.t_to_datetime(env.now()))
            env.reset_now(v)
            hit.append(env.now())
            S.near(D.secs(env.t_to_datetime(env.now())), before, "same date after the reset", 1e-4)
        elif call == "generator at":
            sim.ComponentGenerator(X, at=v, iat=1, number=1, force_at=True)
        elif call == "generator delay":
            sim.ComponentGenerator(X, delay=v, iat=1, number=1, force_at=True)
        elif call == "generator till":
            sim.ComponentGenerator(X, iat=100, till=v, at_end=lambda: hit.append(env.now()))
        elif call == "generator duration":
            sim.ComponentGenerator(X, iat=100, duration=v, at_end=lambda: hit.append(env.now()))
        elif call == "generator moments":
            sim.ComponentGenerator(X, moments=[v])
        elif call == "spec at":
            hit.append(env.spec_to_time(v))
        elif call == "spec duration":
            hit.append(now + env.spec_to_duration(v))
        else:
            C.actor(env, p)
        if not hit:
            env.run(duration=20)
        S.check(len(hit) == 1, f"{call}: happened once")
        near(hit[0], want, f"{call}: at the moment specified")
        S.reach(call)
        S.reach(form)


CALLS = dict(
    a=["hold duration", "hold till", "self activate at", "self activate delay", "component at", "component delay", "activate at", "activate delay", "run till", "run duration", "reset at", "spec at", "spec duration"],
    b=[f"{c} {a}" for c in ("request", "wait", "from_store", "to_store") for a in ("fail_at", "fail_delay")],
    c=["generator at", "generator delay", "generator till", "generator duration", "generator moments"],
)


FORMS = ["number", "callable", "date", "callable date", "distribution", "string", "text number"]
def printed(S, unit):
    """durations and times as text"""
    import datetime

    env = C.make_env(True, time_unit=unit, datetime0=datetime.datetime(2024, 2, 28, 23, 0, 0))
    d = S.int("s", 0, 300000) + S.real("f", 0.01, 0.99)
    x = d / SECONDS[unit]
    S.check(env.duration_to_str(inf) == "inf" and env.time_to_str(inf).strip() == "inf", "infinity")
    n = S.numbers(env.duration_to_str(x).replace(":", " "))
    if d < 86400:
        S.check(len(n) == 3, "hours, minutes and seconds within a day")
        n = [0] + n
        S.reach("short")
    else:
        S.check(len(n) == 4, "days, hours, minutes and seconds")
        S.reach("long")
    S.check(S.And(n[1] < 24, n[2] < 60, n[3] < 60, n[1] >= 0, n[2] >= 0, n[3] >= 0), "no more than 23:59:59")
    tot = n[0] * 86400 + n[1] * 3600 + n[2] * 60 + n[3]
    S.check(S.And(tot <= d + 1e-6, tot > d - 1 - 1e-6), "the duration as text is the duration")
    e = C.make_env(True, time_unit=unit)
    n = S.numbers(e.duration_to_str(x)), S.numbers(e.time_to_str(x))
    S.check(len(n[0]) == 1 and len(n[1]) == 1, "a number if there are no dates")
    S.near(n[0][0], x, "the duration as text is the duration", 0.0005)
    S.near(n[1][0], x, "the time as text is the time", 0.0005)
    k = S.choice("k", 4)
    secs = [0, 3600, 90061, 86400 * 366 + 59][k]
    want = ["Wed 2024-02-28 23:00:00", "Thu 2024-02-29 00:00:00", "Fri 2024-03-01 00:01:01", "Fri 2025-02-28 23:00:59"][k]
    S.check(env.time_to_str(secs / SECONDS[unit]).strip() == want, "the date as text")
    for tpl, a, b in (("t", "", " " + unit), ("(t)", " (yyyy-mm-dd)", f" ({unit})"), ("d", " " + unit, " " + unit), ("(d)", f" ({unit})", f" ({unit})")):
        S.check(env.get_time_unit(tpl) == a and e.get_time_unit(tpl) == b, "the unit as text")


HARNESSES = [
    H(printed, grid(unit=["seconds", "minutes", "hours", "days"]), expect=["short", "long"]),
    H(units, [dict(envs=[u]) for u in UNITS], expect=UNITS),
    H(monitors, [{}], expect=UNITS),
    H(none, [{}], expect=["refused"]),
    H(conversions, grid(units_=[[u] for u in UNITS + [None]], reset=[False, True]), expect=UNITS),
    H(nodates, [{}], expect=["refused"]),
    H(strings, [{}], expect=["text"]),
    H(calls, grid(unit=["hours", "minutes"], reset=[False, True], kinds=[FORMS], group=list(CALLS)), grid(unit=UNITS, reset=[False, True], kinds=[FORMS], group=list(CALLS)),
      expect=[c for g in CALLS.values() for c in g] + FORMS),
]
