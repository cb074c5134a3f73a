"""C17: monitors that keep statistics only, against monitors that keep everything and against the reference"""
import itertools
from .common import *
from . import common as C
from .level import *

BOUNDS = "initial value plus 3 (thorough: 4) operations (tally, monitoring off/on, reset, reset to/from statistics only, statistics in between), gaps or values symbolic; non-level: 3-4 tallies with symbolic values or weights (zero included), values that are not numbers; printed statistics; queues and resources"
OUTSIDE = "floating point rounding; more operations; a value that has had no duration at all at the end counts in minimum and maximum of a full monitor, but not of a statistics only one (compared after some time has passed only)"


def both(S, f, s, parts, txt, ex0, sd, level, minmax=True):
    """full monitor f, statistics only monitor s, reference parts"""
    kw = dict(ex0=ex0)
    same(S, s, parts, txt + " (statistics only)", ex0=ex0, sd=sd, minmax=minmax)
    for name in ("mean", "minimum", "maximum") + (("std",) if sd else ()):
        if name in ("minimum", "maximum") and not minmax:
            continue
        a, b = getattr(f, name)(**kw), getattr(s, name)(**kw)
        if a != a:
            S.check(b != b, f"{name} {txt} is nan for both")
        elif name == "std":
            S.close(a * a, b * b, f"{name} {txt} is the same")
        else:
            S.close(a, b, f"{name} {txt} is the same")
    if level:
        S.close(s.duration(**kw), total(parts), f"duration {txt}")
        S.close(f.duration(**kw), s.duration(**kw), f"duration {txt} is the same")
    else:
        S.close(s.weight(**kw), total(parts), f"weight {txt}")
        S.check(s.number_of_entries(**kw) == len(parts), f"number of entries {txt}")
        S.check(f.number_of_entries(**kw) == s.number_of_entries(**kw), f"number of entries {txt} is the same")
        S.close(f.weight(**kw), s.weight(**kw), f"weight {txt} is the same")


def printed(S, f, s):
    """the printed statistics are the same"""
    def rows(m):
        out = {}
        for line in m.print_statistics(show_header=False, as_str=True).split("\n"):
            for key in ("mean", "std.deviation", "minimum", "maximum", "duration", "weight", "entries"):
                if key in line:
                    out[key] = S.numbers(line.split(key, 1)[1])
        return out

    a, b = rows(f), rows(s)
    S.check(set(a) == set(b), "the same lines are printed")
    for key in a:
        S.check(len(a[key]) == len(b[key]), f"printed {key}: as many columns")
        for x, y in zip(a[key], b[key]):
            if x != x:
                S.check(y != y, f"printed {key} is nan for both")
            else:
                S.near(x, y, f"printed {key} is the same", 0.0011)


FIRST = {"duration": dict(ex0=False), "mean": dict(ex0=True), "std": dict(ex0=False), "minimum": dict(ex0=True), "maximum": dict(ex0=False), "duration_zero": {}, "t": {}}


def level(S, nops, ops, mode, reads=False, types=None, print_=False, sd=True, first=False):
    sim = C.sim
    env = C.make_env(True)
    symtime, symval = mode == "time", mode == "value"
    ran = []

    def val(name):
        if types:
            return S.pick(name, [t for t in types if t is not None or name != "v"])
        return S.real(name, -5, 5) if symval else S.pick(name, [0, 1, 3])

    num = (lambda v: {"idle": 0, "2": 2, "1.5": 1.5, None: 0, True: 1, False: 0}.get(v, v)) if types else lambda v: v

    def controller(c):
        yield c.hold(1)
        v = val("v")
        f = sim.Monitor("m", level=True, initial_tally=v, env=env)
        s = sim.Monitor("m", level=True, initial_tally=v, stats_only=True, env=env)
        S.check(s.stats_only() and not f.stats_only(), "stats_only() tells")
        L = Level(env.now(), num(v))
        last = [env.now()]  # of the last tally, or any change of monitoring since then
        if not symtime:
            gaps = S.pick("gaps", [g for g in itertools.product([0, 1, 2], repeat=nops + 1) if sum(g) == 4 and g[-1] > 0])
        for i in range(nops + 1):
            gap = S.real(f"gap{i}", 0, 5) if symtime else gaps[i]
            if symtime and i == nops:
                S.assume(gap > 0)
            yield c.hold(gap)
            now = env.now()
            if i == nops:
                break
            if reads:
                w = S.choice(f"read{i}", 4)
                if w:
                    [s.mean, s.minimum, s.duration][w - 1](ex0=True)
            op = ops[S.choice(f"op{i}", len(ops))]
            if op == "tally":
                v = val(f"v{i}")
                L.tally(now, num(v))
                f.tally(v)
                s.tally(v)
            elif op in ("off", "on"):
                L.monitor(now, op == "on")
                f.monitor(op == "on")
                s.monitor(op == "on")
            elif op == "reset":
                L.reset(now)
                f.reset()
                s.reset()
            elif op in ("reset_off", "reset_on"):
                L.reset(now, op == "reset_on")
                f.reset(monitor=op == "reset_on")
                s.reset(monitor=op == "reset_on")
            elif op == "swap":
                # the full one becomes a statistics only one and the other way round
                L.reset(now)
                f.reset(stats_only=True)
                s.reset(stats_only=False)
                f, s = s, f
                S.check(s.stats_only() and not f.stats_only(), "stats_only() tells")
            last = [now] if op == "tally" else last + [now] if op != "off" else last
            S.reach(op)
            S.close(s(), v, "current value") if not types else S.check(s() == v, "current value")
            S.check(s.monitor() == L.on, "monitor() tells whether monitoring is on")
        if first:
            # whichever is asked for first, without any other having been calculated at this moment
            name = S.pick("first", list(FIRST))
            a, b = [getattr(x, name)(**FIRST[name]) for x in (f, s)]
            if a != a:
                S.check(b != b, f"first {name} is nan for both")
            elif name == "std":
                S.close(a * a, b * b, "first std is the same")
            elif name == "t":
                S.check(any(b == x for x in last), "time of the last tally")
            else:
                S.close(a, b, f"first {name} is the same")
            S.reach(name)
            S.check(any(s.t() == x for x in last), "time of the last tally")
        for ex0 in (True, False):
            parts = [p for p in L.parts(env.now(), ex0) if p[0] > 0]
            both(S, f, s, parts, "excluding zeroes" if ex0 else "of the signal", ex0, sd, True)
        S.close(s.duration_zero(), f.duration_zero(), "duration of zero is the same")
        if print_:
            printed(S, f, s)
        S.log(total(L.parts(env.now())))
        ran.append(1)
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


def tallies(S, n, ops, weights, symval=True, types=None, print_=False, sd=True):
    sim = C.sim
    env = C.make_env(True)
    f = sim.Monitor("m", env=env)
    s = sim.Monitor("m", stats_only=True, env=env)
    B = Bag()
    num = (lambda v: {"idle": 0, "2": 2, "1.5": 1.5, None: 0, True: 1, False: 0}.get(v, v)) if types else lambda v: v
    on = True
    for i in range(n):
        op = ops[S.choice(f"op{i}", len(ops))]
        if op == "tally":
            v = S.pick(f"v{i}", types) if types else S.real(f"v{i}", -5, 5) if symval else S.pick(f"v{i}", [0, 1, 3])
            if weights == "none":
                w = 1
                f.tally(v)
                s.tally(v)
            else:
                w = S.real(f"w{i}", 0, 5) if weights == "sym" else weights[i]
                f.tally(v, weight=w)
                s.tally(v, weight=w)
            if on:
                B.items.append((w, num(v), 0))
        elif op in ("off", "on"):
            on = op == "on"
            f.monitor(on)
            s.monitor(on)
        elif op == "reset":
            B.items = []
            f.reset()
            s.reset()
        elif op == "swap":
            B.items = []
            f.reset(stats_only=True)
            s.reset(stats_only=False)
            f, s = s, f
        S.reach(op)
    for ex0 in (False, True):
        both(S, f, s, B.parts(ex0=ex0), "excluding zeroes" if ex0 else "of the tallies", ex0, sd, False)
    S.check(f.number_of_entries_zero() == s.number_of_entries_zero(), "number of zeroes is the same")
    S.close(f.weight_zero(), s.weight_zero(), "weight of zeroes is the same")
    if print_ and (weights == "none" or any(w != 1 for w, _, _ in B.items)):
        printed(S, f, s)
    S.log(len(B.items))
    S.reach("end")


def in_queue(S, nops, kind):
    """the monitors of queues and resources"""
    sim = C.sim
    env = C.make_env(True)
    ran = []

    def user(c, r, t, d):
        yield c.hold(till=t)
        yield c.request(r)
        yield c.hold(d)
        c.release()

    def controller(c):
        if kind == "queue":
            qs = [sim.Queue(f"q{i}", env=env) for i in (0, 1)]
            qs[1].reset_monitors(stats_only=True)
            cs = [C.data(env, f"c{i}") for i in range(2)]
            for i in range(nops):
                yield c.hold(S.pick(f"g{i}", [0, 1, 3]))
                x = cs[S.choice(f"c{i}", 2)]
                for q in qs:
                    x.leave(q) if x in q else x.enter(q)
            pairs = [(qs[0].length, qs[1].length), (qs[0].length_of_stay, qs[1].length_of_stay), (qs[0].available_quantity, qs[1].available_quantity)][:2]
        else:
            rs = [sim.Resource(f"r{i}", capacity=1, env=env) for i in (0, 1)]
            rs[1].reset_monitors(stats_only=True)
            ts, ds = [S.pick(f"t{i}", [0, 1, 2.5]) for i in range(2)], [S.pick(f"d{i}", [0, 1, 4]) for i in range(2)]
            for r in rs:
                for t, d in zip(ts, ds):
                    C.actor(env, user, r, t, d)
            yield c.hold(6)
            pairs = [(getattr(rs[0], m), getattr(rs[1], m)) for m in ("claimed_quantity", "available_quantity", "capacity", "occupancy")] + [(rs[0].requesters().length, rs[1].requesters().length), (rs[0].claimers().length_of_stay, rs[1].claimers().length_of_stay)]
        yield c.hold(20)
        for f, s in pairs:
            S.check(s.stats_only() and not f.stats_only(), "stats_only() tells")
            for ex0 in (False, True):
                for name in ("mean", "minimum", "maximum"):
                    a, b = getattr(f, name)(ex0=ex0), getattr(s, name)(ex0=ex0)
                    if a != a:
                        S.check(b != b, f"{name} is nan for both")
                    else:
                        S.close(a, b, f"{name} is the same")
        ran.append(1)
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


_ops = ["tally", "off", "on", "reset"]
_t = ["idle", "2", "1.5", 3, None, True, False]
_all = _ops + ["reset_off", "reset_on", "swap"]
HARNESSES = [
    H(level, grid(nops=[3], ops=[["tally", "off", "on"]], mode=["value"], sd=[True]) + grid(nops=[2], ops=[_all], mode=["value"], reads=[True]) + grid(nops=[2], ops=[_all], mode=["time"], sd=[False]) + grid(nops=[1], ops=[_all], mode=["time"]) + grid(nops=[2], ops=[["tally", "off", "reset"]], mode=["pick"], print_=[True]) + grid(nops=[2], ops=[["tally", "off", "on"]], mode=["time"], types=[_t], sd=[False]),
      grid(nops=[4], ops=[["tally", "off", "on"]], mode=["value"]) + grid(nops=[3], ops=[_all], mode=["value"], reads=[True]) + grid(nops=[3], ops=[_all], mode=["time"], sd=[False]) + grid(nops=[2], ops=[_all], mode=["time"]) + grid(nops=[2], ops=[["tally", "off", "reset"]], mode=["pick"], print_=[True]) + grid(nops=[3], ops=[["tally", "off", "on"]], mode=["time"], types=[_t], sd=[False]),
      expect=_all + ["end"], bounds="nops operations"),
    H(tallies, grid(n=[3], ops=[_ops + ["swap"]], weights=["none", (1, 0, 2)]) + grid(n=[3], ops=[["tally", "off", "reset"]], weights=["none", (1, 0, 2)], symval=[False], print_=[True]) + grid(n=[3], ops=[["tally"]], weights=["sym"], symval=[False], sd=[False]) + grid(n=[2], ops=[["tally"]], weights=["sym"], symval=[True], sd=[False]) + grid(n=[2], ops=[["tally", "off", "on"]], weights=["none", (2, 2)], types=[_t], sd=[False]),
      grid(n=[4], ops=[_ops + ["swap"]], weights=["none", (1, 0, 2, 1), (0, 0, 1, 3)]) + grid(n=[4], ops=[_ops], weights=["none", (1, 0, 2, 1)], symval=[False], print_=[True]) + grid(n=[4], ops=[["tally"]], weights=["sym"], symval=[False], sd=[False]) + grid(n=[3], ops=[["tally", "off", "on"]], weights=["none", (2, 2, 4)], types=[_t], sd=[False]),
      expect=_ops + ["swap", "end"], bounds="n tallies"),
    H(level, grid(nops=[2], ops=[["tally", "off", "on"]], mode=["value"], first=[True]) + grid(nops=[1], ops=[_all], mode=["time"], sd=[False], first=[True]),
      grid(nops=[3], ops=[_ops], mode=["value"], first=[True]) + grid(nops=[2], ops=[_all], mode=["time"], sd=[False], first=[True]), expect=list(FIRST) + ["end"], bounds="nops operations, each statistic the first one asked for"),
    H(in_queue, grid(nops=[4], kind=["queue"]) + grid(nops=[0], kind=["resource"]), expect=["end"]),
]
