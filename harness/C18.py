"""C18: slicing, merging and mapping of monitors against reference functions"""
from .common import *
from . import common as C
from .level import *

BOUNDS = "level monitors with 2 (thorough: 3) recorded operations (tally, off, on) at symbolic moments, sliced at symbolic bounds (also open ended, beyond now, periodic with symbolic phase, and slices of slices, after a reset of the clock), merged or mapped with monitors of other types and start moments, value compared at a symbolic moment, duration and integral compared; non level: 3 tallies with weights at symbolic moments"
OUTSIDE = "floating point rounding; animation time; values outside the range of typed monitors; the value of a derived monitor at now itself"


def raises(S, f, msg):
    try:
        f()
    except (TypeError, ValueError):
        return
    S.check(False, msg)


def snapshot(m):
    out = [list(y) for y in m.xt()]
    try:
        out.append(list(m.xweight()[1]))
    except TypeError:
        pass  # a level monitor
    return out


def unchanged(S, m, before):
    for a, b in zip(before, snapshot(m)):
        S.check(len(a) == len(b), "the original monitor is not changed")
        for x, y in zip(a, b):
            S.close(x, y, "the original monitor is not changed")


def sealed(S, new, src):
    raises(S, lambda: new.tally(1), "a derived monitor does not accept tallies")
    raises(S, lambda: new.reset(), "a derived monitor can't be reset")
    raises(S, lambda: new.monitor(True), "a derived monitor can't be switched on")


class Rec:
    """records level monitors together with their reference"""

    def __init__(self, S, env, nops, ops, types=("any",), late=False, lo=0):
        self.S, self.env = S, env
        self.ms, self.ls = [], []
        self.nops, self.ops, self.types, self.late = nops, ops, types, late
        self.k = 0

    def val(self):
        self.k += 1
        return [3, 0, 5, 1, 8, 2, 6, 7][self.k % 8]

    def make(self, i):
        v = self.val()
        self.ms.append(C.sim.Monitor(f"m{i}", level=True, initial_tally=v, type=self.types[i], env=self.env))
        self.ls.append(Level(self.env.now(), v))

    def run(self, c):
        S, env = self.S, self.env
        yield c.hold(1)
        n = len(self.types)
        if not self.late:
            for i in range(n):
                self.make(i)
        for j in range(self.nops):
            yield c.hold(S.real(f"gap{j}", 0, 5))
            if self.late and j < n:
                self.make(j)
            i = S.choice(f"m{j}", len(self.ms))
            op = self.ops[S.choice(f"op{j}", len(self.ops))]
            m, L = self.ms[i], self.ls[i]
            if op == "tally":
                v = self.val()
                L.tally(env.now(), v)
                m.tally(v)
            else:
                L.monitor(env.now(), op == "on")
                m.monitor(op == "on")
            S.reach(op)
        yield c.hold(S.real("gapend", 0, 5))


def at(L, t, now):
    """reference value at raw time t < now; None: off or not started"""
    return L.at(t, now, None)


def integral(S, m):
    xs, ws = m.xduration()
    return sum((x * w for x, w in zip(xs, ws)), 0), sum(ws, 0)


def compare_at(S, new, want, tt, msg):
    got = new(tt)
    if want is None:
        S.check(got == new.off, f"{msg}: nothing outside the period(s) and while off")
        S.reach("nothing")
    else:
        S.close(got, want, f"{msg}: value at a moment")
        S.reach("value")


def slices(S, nops, ops, kind, reset=False, twice=False, type="any"):
    env = C.make_env(True)
    R = Rec(S, env, nops, ops, types=(type,))
    ran = []

    def controller(c):
        yield from R.run(c)
        m, L = R.ms[0], R.ls[0]
        raw = env.now()
        off = 0
        if reset:
            new_now = S.pick("reset", [0, -3])
            off = raw - new_now
            env.reset_now(new_now)
            if S.flag("later"):
                yield c.hold(1)
                raw = raw + 1
        now = raw - off
        before = snapshot(m)
        a = S.real("a", -4, 16)
        b = S.real("b", -4, 16)
        if kind == "window":
            periods = [(a, b)]
            new = m.slice(a, b) if S.flag("call") else m[a:b]
        elif kind == "from":
            periods = [(a, inf)]
            new = m.slice(a)
        elif kind == "till":
            periods = [(-inf, b)]
            new = m[:b]
        elif kind == "all":
            periods = [(-inf, inf)]
            new = m.slice()
        elif kind == "modulo":
            mod = 4
            S.assume(S.And(a < b, b - a < mod, a >= 0, a <= 5))
            new = m.slice(a, b, mod)
            periods = [(a + k * mod, b + k * mod) for k in range(-6, 5)]
        if twice:
            new = new.slice(2, 6)
            periods = [(x if x > 2 else 2, y if y < 6 else 6) for x, y in periods]
        tt = S.real("tt", -2, 16)
        S.assume(tt < now)
        inside = any(x <= tt and tt < y for x, y in periods)
        compare_at(S, new, at(L, tt + off, raw) if inside else None, tt, "slice")
        # duration and integral of the whole slice
        T, I = 0, 0
        for p, q, v, on in L.segments(raw):
            if on:
                for x, y in periods:
                    x = p - off if x == -inf or p - off > x else x
                    y = q - off if y == inf or q - off < y else y
                    if x < y:
                        T = T + (y - x)
                        I = I + v * (y - x)
        gi, gt = integral(S, new)
        S.close(gt, T, "slice: duration")
        S.close(gi, I, "slice: integral")
        ts = list(new.xt(add_now=False)[1])
        for x, y in zip(ts, ts[1:]):
            S.check(x <= y, "slice: times do not decrease")
        sealed(S, new, m)
        unchanged(S, m, before)
        S.log(tt, inside)
        ran.append(1)
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


def merges(S, nops, ops, how, types, late=False, reset=False):
    sim = C.sim
    env = C.make_env(True)
    R = Rec(S, env, nops, ops, types=types, late=late)
    ran = []

    def controller(c):
        yield from R.run(c)
        ms, Ls, now = R.ms, R.ls, env.now()
        S.assume(len(ms) == len(types))
        off = 0
        if reset:
            off = now - S.pick("reset", [0, -3])
            env.reset_now(now - off)
        before = [snapshot(m) for m in ms]
        if how == "merge":
            f = lambda *v: sum(v)
            new = ms[0].merge(*ms[1:])
        elif how == "add":
            f = lambda *v: sum(v)
            new = sum(ms)
        elif how == "map1":
            f = lambda v: 2 * v - 7
            new = ms[0].x_map(f)
        elif how == "map":
            f = lambda *v: v[0] * 2 - v[-1]
            new = ms[0].x_map(f, ms[1:])
        elif how == "merged slice":
            f = lambda *v: sum(v)
            new = ms[0].merge(*ms[1:])[2 - off : 4 - off]
        elif how == "t_multiply":
            f = lambda v: v
            factor = S.pick("factor", [0.5, 2, 3])
            new = ms[0].t_multiply(factor)
        tt = S.real("tt", 0, 16)
        S.assume(tt < now)
        vals = [at(L, tt, now) for L in Ls]
        want = None if any(v is None for v in vals) else f(*vals)
        if how == "merged slice" and not (2 <= tt and tt < 4):
            want = None
        if how == "t_multiply":
            S.assume((tt - off) * factor != now - off)
            compare_at(S, new, want, (tt - off) * factor, how)
            i0, t0 = integral(S, ms[0])
            i1, t1 = integral(S, new)
            S.close(t1, t0 * factor, "t_multiply: duration")
            S.close(i1, i0 * factor, "t_multiply: integral")
            S.close(new.start_time(), ms[0].start_time() * factor, "t_multiply: start time")
        else:
            compare_at(S, new, want, tt - off, how)
            # total duration: when all are on
            cuts = []
            for L in Ls:
                for p, q, v, on in L.segments(now):
                    for z in (p, q):
                        i = len(cuts)
                        while i > 0 and cuts[i - 1] > z:
                            i -= 1
                        cuts.insert(i, z)
            if how == "merged slice":
                for z in (2, 4):
                    i = len(cuts)
                    while i > 0 and cuts[i - 1] > z:
                        i -= 1
                    cuts.insert(i, z)
            T, I = 0, 0
            for x, y in zip(cuts, cuts[1:]):
                if x < y and y <= now:
                    vs = [at(L, x, now) for L in Ls]
                    if not any(v is None for v in vs) and not (how == "merged slice" and (x < 2 or x >= 4)):
                        T = T + (y - x)
                        I = I + f(*vs) * (y - x)
            gi, gt = integral(S, new)
            S.close(gt, T, "duration")
            S.close(gi, I, "integral")
        sealed(S, new, ms[0])
        for m, b in zip(ms, before):
            unchanged(S, m, b)
        S.log(tt)
        ran.append(1)
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


def entries(S, n, how, weights=True, reset=False):
    """non level monitors"""
    sim = C.sim
    env = C.make_env(True)
    ran = []
    nm = 2 if how in ("merge", "add", "merged slice") else 1

    def controller(c):
        ms = [sim.Monitor(f"m{i}", env=env, type="float") for i in range(nm)]
        items = [[] for _ in ms]  # (t, x, w)
        order = 0
        for j in range(n):
            yield c.hold(S.real(f"gap{j}", 0, 5))
            i = S.choice(f"m{j}", nm) if nm > 1 else 0
            x = S.real(f"x{j}", -5, 5)
            w = [1, 2, 0, 1, 3][S.choice(f"w{j}", 3)] if weights else 1
            ms[i].tally(x, weight=w) if w != 1 else ms[i].tally(x)
            items[i].append((env.now(), x, w))
        yield c.hold(S.pick("tail", [0, 1]))
        off = 0
        if reset:
            off = env.now()
            env.reset_now()
        now = env.now()
        before = [snapshot(m) for m in ms]
        a, b = S.real("a", -16, 16), S.real("b", -16, 16)
        f = lambda x: x
        inside = lambda t: True
        if how == "slice":
            new = ms[0].slice(a, b)
            inside = lambda t: S.And(a <= t, t < b)
        elif how == "from":
            new = ms[0][a:]
            inside = lambda t: a <= t
        elif how == "till":
            new = ms[0].slice(stop=b)
            inside = lambda t: t < b
        elif how == "modulo":
            S.assume(S.And(a < b, b - a < 5, a >= 0, a <= 5))
            new = ms[0].slice(a, b, 5)
            inside = lambda t: S.Or(*[S.And(a + 5 * k <= t, t < b + 5 * k) for k in range(-6, 4)])
        elif how == "map":
            f = lambda x: 3 * x - 1
            new = ms[0].x_map(f)
        elif how == "multiply":
            k = S.pick("k", [2, -0.5])
            f = lambda x: x * k
            new = [lambda: ms[0].multiply(k), lambda: ms[0] * k, lambda: k * ms[0], lambda: ms[0] / (1 / k)][S.choice("way", 4)]()
        elif how == "merge":
            new = ms[0].merge(ms[1])
        elif how == "add":
            new = ms[0] + ms[1]
        elif how == "merged slice":
            new = (ms[0] + ms[1])[a:b]
            inside = lambda t: S.And(a <= t, t < b)
        # reference: union in order of time; at equal times first those of the first monitor
        union = []
        for its in items:
            for it in its:
                i = len(union)
                while i > 0 and union[i - 1][0] > it[0]:
                    i -= 1
                union.insert(i, it)
        want = [(t, f(x), w) for t, x, w in union if inside(t - off)]
        xs, ws = new.xweight()
        S.check(len(xs) == len(ws) == len(want), f"{how}: exactly the entries asked for")
        ts = new.xt()[1]
        for (t, x, w), gx, gw, gt in zip(want, xs, ws, ts):
            S.close(gx, x, f"{how}: value")
            S.close(gw, w, f"{how}: weight")
            S.close(gt, t, f"{how}: moment")
        S.check(new.number_of_entries() == len(want), f"{how}: number of entries")
        S.close(new.weight(), sum((w for _, _, w in want), 0), f"{how}: weight")
        S.reach("none" if not want else "some")
        sealed(S, new, ms[0])
        for m, b0 in zip(ms, before):
            unchanged(S, m, b0)
        ran.append(1)
        S.log(len(want))
        S.reach("end")

    C.actor(env, controller, name="controller")
    env.run()
    S.check(ran, "the controller ran")


_o = ["tally", "off", "on"]
HARNESSES = [
    H(slices, grid(nops=[2], ops=[_o], kind=["window"]) + grid(nops=[2], ops=[_o], kind=["from", "till", "all"], reset=[True]) + grid(nops=[1], ops=[_o], kind=["window"], reset=[True]) + grid(nops=[1], ops=[["off"]], kind=["modulo"], reset=[True])
      + grid(nops=[1], ops=[["tally", "off"]], kind=["modulo"]) + grid(nops=[1], ops=[_o], kind=["window"], twice=[True], type=["uint8"]),
      grid(nops=[3], ops=[_o], kind=["window", "from", "till"]) + grid(nops=[2], ops=[_o], kind=["window", "modulo", "all"], reset=[True, False]) + grid(nops=[2], ops=[_o], kind=["window", "from"], twice=[True], type=["float", "uint8"]),
      expect=_o + ["value", "nothing", "end"], bounds="nops recorded operations"),
    H(merges, grid(nops=[2], ops=[_o], how=["merge"], types=[["any", "uint8"]]) + grid(nops=[2], ops=[["tally", "off"]], how=["map"], types=[["uint8", "float"]]) + grid(nops=[2], ops=[["tally"]], how=["add", "merged slice"], types=[["float", "float"]], late=[True]) + grid(nops=[2], ops=[_o], how=["t_multiply", "map1"], types=[["any"]]) + grid(nops=[1], ops=[_o], how=["t_multiply", "map1", "merge", "merged slice"], types=[["any"]], reset=[True]),
      grid(nops=[3], ops=[_o], how=["merge", "map", "merged slice"], types=[["any", "uint8"], ["float", "float"]], late=[True, False]) + grid(nops=[3], ops=[["tally"]], how=["merge"], types=[["any", "any", "any"]]) + grid(nops=[3], ops=[_o], how=["t_multiply", "map1"], types=[["any"], ["uint8"]]) + grid(nops=[2], ops=[_o], how=["t_multiply", "merge", "map", "merged slice"], types=[["any"], ["uint8", "float"]], reset=[True]),
      expect=_o + ["value", "nothing", "end"], bounds="nops recorded operations over all monitors"),
    H(entries, grid(n=[2], how=["slice", "from", "till"], reset=[True, False]) + grid(n=[2], how=["modulo", "map", "multiply"]) + grid(n=[3], how=["merge", "add"]) + grid(n=[2], how=["merged slice"], weights=[False]),
      grid(n=[3], how=["slice", "from", "till", "modulo"], reset=[True, False]) + grid(n=[3], how=["map", "multiply", "merge", "add", "merged slice"]), expect=["some", "none", "end"], bounds="n tallies"),
]
