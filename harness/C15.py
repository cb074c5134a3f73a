"""C15: level monitors against a piecewise constant reference function"""
import itertools
from .common import *
from . import common as C
from .level import *

BOUNDS = "initial value plus 3 (thorough: 4) operations (tally, monitoring off/on, reset, statistics in between) at moments with gaps that are symbolic (values from a small set) or from {0, 1, 2} (values symbolic); all statistics, percentiles, value and bin durations with symbolic bounds, value at a symbolic moment; untyped, float and integer monitors"
OUTSIDE = "floating point rounding; more operations; animation time"


def compare(S, m, L, now, symtime, symval, what):
    for ex0 in (False, True) if what in ("stats", "percentile") else ():
        parts = L.parts(now, ex0)
        txt = "excluding zeroes" if ex0 else "of the function"
        kw = dict(ex0=ex0)
        T = total(parts)
        if what == "stats":
            same(S, m, parts, txt, ex0=ex0, sd=not (symtime and symval))
            S.close(m.duration(**kw), T, f"duration {txt}")
        elif T > 0:
            q = S.pick("q", [50, 25]) if symtime else S.real("q", 1, 99) if not ex0 else 50
            lo, hi = percentile_weighted(parts, q)
            S.close(m.percentile(q, **kw), (lo + hi) / 2, f"percentile {txt}")
            S.close(m.percentile(q, interpolation="lower", **kw), lo, f"percentile (lower) {txt}")
            S.close(m.percentile(q, interpolation="higher", **kw), hi, f"percentile (higher) {txt}")
            S.close(m.percentile(q, interpolation="midpoint", **kw), (lo + hi) / 2, f"percentile (midpoint) {txt}")
            if symtime and q == 50:
                S.close(m.median(**kw), (lo + hi) / 2, "median")
            S.close(m.percentile(0, **kw), m.minimum(**kw), "percentile 0")
            S.close(m.percentile(100, **kw), m.maximum(**kw), "percentile 100")
    if what == "stats":
        S.close(m.duration_zero(), total([p for p in L.parts(now) if p[1] == 0]), "duration of zero")
    if what == "bins":
        x = S.real("x", -5, 5) if symval else S.pick("x", [0, 1, 2, 3])
        S.close(m.value_duration(x), total([p for p in L.parts(now) if p[1] == x]), "time with a certain value")
        lb, ub = (S.real("lb", -6, 6), S.real("ub", -6, 6)) if symval else (S.pick("lb", [-1, 0, 1]), S.pick("ub", [0, 1, 2]))
        S.close(m.bin_duration(lb, ub), total([p for p in L.parts(now) if lb < p[1] and p[1] <= ub]), "time in a bin")
        xs, ws = m.xduration()
        S.close(sum(ws), total(L.parts(now)), "total of xduration")
    if what == "at":
        # value at a moment
        t = S.real("t", -1, 25) if symtime else S.pick("t", [-1, 0, 0.5, 1, 1.5, 2, 3, 4, 5])
        S.assume(t <= now)
        if t == now:
            S.close(m(t), L.v, "value at now")
            S.reach("at now")
        else:
            S.close(m(t), L.at(t, now, m.off), "value at a moment")
            S.close(m.get(t), L.at(t, now, m.off), "value at a moment")
            S.reach("before start" if t < L.start else "in the past")
            if t >= L.start:
                tt, xx = m.tx()
                y = None
                for a, b in zip(tt, xx):
                    if a <= t:
                        y = b
                want = L.at(t, now, None)
                S.close(y, m.off if want is None else want, "value at a moment according to tx")
        S.close(m.xt()[1][-1], now, "xt up to now")
        S.check(len(m.xt()[0]) == len(m.xt()[1]), "xt lengths")
        S.check(not any(z == m.off for z in m.xt(exoff=True)[0]), "xt without off")


def level(S, nops, ops, mode, type="any", reads=False, initial=True, what="stats"):
    sim = C.sim
    env = C.make_env(True)
    symtime, symval = mode in ("time", "both"), mode in ("value", "both")

    def val(name):
        if symval:
            return S.real(name, -5, 5) if type in ("any", "float") else S.int(name, 0, 5)
        return S.pick(name, [0, 1, 3])

    m = {}

    def controller(c):
        d0 = S.real("d0", 0, 5) if symtime else 1
        yield c.hold(d0)
        v = val("v") if initial else 0
        m[0] = mon = sim.Monitor("m", level=True, type=type, env=env, **(dict(initial_tally=v) if initial else {}))
        L = Level(env.now(), v)
        if not symtime:
            # total 4, so that fractions of the total are exact in floating point
            gaps = S.pick("gaps", [g for g in itertools.product([0, 1, 2], repeat=nops + 1) if sum(g) == 4])
        for i in range(nops + 1):
            gap = S.real(f"gap{i}", 0, 5) if symtime else gaps[i]
            yield c.hold(gap)
            now = env.now()
            S.close(mon(), L.v, "current value")
            if i == nops:
                break
            if reads:
                mon.mean()
                mon.mean(ex0=True)
            op = ops[S.choice(f"op{i}", len(ops))]
            if op == "tally":
                v = val(f"v{i}")
                L.tally(now, v)
                mon.tally(v)
                S.close(mon.t(), now, "time of the last tally")
            elif op == "assign":
                v = val(f"v{i}")
                L.tally(now, v)
                mon.value = v
            elif op == "off":
                L.monitor(now, False)
                mon.monitor(False)
            elif op == "on":
                L.monitor(now, True)
                mon.monitor(True)
            elif op == "reset":
                L.reset(now)
                mon.reset()
            elif op == "reset_off":
                L.reset(now, False)
                mon.reset(monitor=False)
            S.reach(op)
            S.close(mon(), L.v, "current value")
            S.close(mon.value, L.v, "value property")
            S.check(mon.monitor() == L.on, "monitor() tells whether monitoring is on")
        now = env.now()
        S.close(mon.start_time(), L.start, "start time")
        try:
            mon.tally(2, 3)
        except ValueError:
            pass
        else:
            S.check(not L.on, "a level monitor does not take weights")
        compare(S, mon, L, now, symtime, symval, what)
        S.log(total(L.parts(now)))
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(m, "the controller ran")


def clock(S, stats_only=False):
    """the clock is reset in between: all moments are in terms of the new clock"""
    sim = C.sim
    env = C.make_env(True)
    ran = []

    def controller(c):
        yield c.hold(S.real("d0", 0, 5))
        m = sim.Monitor("m", level=True, initial_tally=1, stats_only=stats_only, env=env)
        raw = [env.now()]
        k, v, off = S.choice("k", 3), 1, 0
        last = start = raw[0]
        for i in range(3):
            d = S.real(f"d{i + 1}", 0, 5)
            yield c.hold(d)
            raw.append(raw[-1] + d)
            if i == k:
                new = S.real("new", -5, 5)
                off = raw[-1] - new
                env.reset_now(new)
            if i < 2 and S.flag(f"tally{i}"):
                v = [0, 3][i]
                m.tally(v)
                last = raw[-1]
            if not stats_only:
                xs, ts = m.xt()
                S.check(len(xs) == len(ts) and xs[-1] == v, "xt: values")
                # as documented, not corrected for the reset
                S.close(ts[0], start, "xt: starts at the start")
                S.close(ts[-1], raw[-1], "xt: up to now")
            S.close(m.t(), last - off, "time of the last tally")
            S.close(m.start_time(), start - off, "start time")
            S.close(m.duration(), raw[-1] - start, "duration")
        if not stats_only:
            S.close(m(start - off), m.xt()[0][0], "value at the start")
            S.check(m(start - off - 1) == m.off, "no value before the start")
            if last < raw[-1]:
                S.check(m(last - off) == v, "value at the moment of the last tally")
        ran.append(1)
        S.reach("clock")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


def not_numeric(S, fail):
    """values that are not numbers"""
    sim = C.sim
    env = C.make_env(True)
    vals = ["idle", "busy", "2", 3, None, True]
    num = {"idle": 0, "busy": 0, "2": 2, 3: 3, None: 0, True: 1}

    def controller(c):
        v = S.pick("v", vals[:4])
        mon = sim.Monitor("m", level=True, initial_tally=v, env=env)
        parts = []
        for i in range(2):
            g = S.real(f"g{i}", 0, 5)
            yield c.hold(g)
            if g > 0:
                parts.append((g, v))
            v = S.pick(f"v{i}", vals)
            mon.tally(v)
        g = S.real("g", 0, 5)
        yield c.hold(g)
        parts.append((g, v))
        same(S, mon, [(w, num[x]) for w, x in parts], "of values that are not numbers", sd=False)
        for x in vals:
            S.close(mon.value_duration(x), total([p for p in parts if p[1] == x]), "time with a certain value")
        S.close(mon.value_duration(["idle", 3]), total([p for p in parts if p[1] in ("idle", 3)]), "time with one of certain values")
        S.check(set(map(str, mon.values())) == {str(x) for _, x in parts}, "values")
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()


_ops = ["tally", "off", "on", "reset"]
HARNESSES = [
    H(level, grid(nops=[3], ops=[_ops], mode=["time"], what=["stats"], reads=[True]) + grid(nops=[2], ops=[["tally", "off"]], mode=["time"], what=["percentile"]) + grid(nops=[2], ops=[_ops], mode=["time"], what=["bins", "at"])
      + grid(nops=[2], ops=[["tally", "off", "reset"]], mode=["value"], what=["stats"]) + grid(nops=[2], ops=[["tally"]], mode=["value"], what=["percentile", "bins", "at"])
      + grid(nops=[2], ops=[["assign", "reset_off", "on"]], mode=["value"], type=["float", "uint8"]) + grid(nops=[2], ops=[["tally"]], mode=["both"], initial=[False]),
      grid(nops=[4], ops=[_ops], mode=["time"], what=["stats"], reads=[True, False]) + grid(nops=[3], ops=[["tally", "off", "on"]], mode=["time"], what=["percentile"]) + grid(nops=[3], ops=[_ops + ["reset_off"]], mode=["time"], what=["bins", "at"])
      + grid(nops=[3], ops=[_ops], mode=["value"], what=["stats", "at"]) + grid(nops=[3], ops=[["tally"]], mode=["value"], what=["percentile", "bins"])
      + grid(nops=[3], ops=[["assign", "reset_off", "on"]], mode=["value"], type=["float", "uint8", "int"]) + grid(nops=[3], ops=[["tally", "off"]], mode=["both"], initial=[False]),
      expect=_ops + ["assign", "reset_off", "end", "at now", "before start", "in the past"], bounds="nops operations"),
    H(clock, grid(stats_only=[False, True]), expect=["clock"], bounds="two tallies, a reset of the clock at one of three moments"),
    H(not_numeric, [dict(fail=False)], expect=["end"]),
]
