"""C21: component generators in all modes, against the list of moments the documentation prescribes"""
from .common import *
from . import common as C
from .stream import world

BOUNDS = "up to 3 (thorough: 4) components per generator; inter arrival times, moments, disturbances, random numbers and the time limit symbolic; start and time limit in every way to specify them; with and without a reset of the clock before or during the generation; yieldless and yield style"
OUTSIDE = "more components; generators that are cancelled or interrupted by the model; all draws of a forced spread equal (probability 0); disturbance together with equidistant or force_at; at_end when number is 0"


class Recorder:
    def __init__(self, S, env, reset=None):
        self.S, self.env = S, env
        self.made, self.ends, self.bad = [], [], []
        rec = self
        self.base = 0  # what has been taken from the clock by resets

        class X(C.sim.Component):
            def setup(self, n=None, kind="x"):
                rec.created(self, n, kind)

        class Y(X):
            pass

        self.X, self.Y = X, Y

    def clock(self):
        return self.env.now() + self.base

    def reset(self, new):
        self.base += self.env.now() - new
        self.env.reset_now(new)

    def created(self, c, n, kind):
        self.made.append((self.clock(), n, type(c).__name__, self.env.current_component()))
        self.S.check(c.env is self.env and c.creation_time() == self.env.now(), "created in the generator's environment, now")

    def end(self):
        self.ends.append(self.clock())

    def verify(self, gen, moments, end, txt, process=True):
        """moments: when the components must have been created; end: when at_end must have been called"""
        S = self.S
        S.check(len(self.made) == len(moments), f"{txt}: number of components")
        for (t, n, kind, cur), m in zip(self.made, moments):
            S.close(t, m, f"{txt}: moment of creation")
            S.check(cur is gen, f"{txt}: created while the generator is current")
            S.check(n == 77, f"{txt}: arguments are passed")
        S.check(len(self.ends) == 1, f"{txt}: at_end called exactly once")
        S.close(self.ends[0], end, f"{txt}: at_end is called at the end")
        S.check(gen.isdata(), f"{txt}: the generator has terminated")


def interval(S, rec, yl, start, limit, lo=0):
    """-> keyword arguments, start, end (both on the unshifted clock)"""
    env, t0 = rec.env, rec.clock()
    kw = {}
    a = t0
    if start in ("at", "delay"):
        d = S.real("start", 0, 4)
        a = t0 + d
        kw = dict(at=env.now() + d) if start == "at" else dict(delay=d)
    elif start == "spec":
        d = S.pick("start", [0, 2.5])
        a = t0 + d
        kw = S.pick("how", [dict(at=lambda: env.now() + d), dict(delay=lambda: d), dict(delay=C.sim.Constant(d))])
    e = inf
    if limit in ("till", "duration"):
        w = S.real("limit", lo, 9)
        e = a + w
        kw.update(dict(till=env.now() + (e - t0)) if limit == "till" else dict(duration=w))
    elif limit == "spec":
        w = S.pick("limit", [3, 0.5])
        e = a + w
        kw.update(S.pick("how2", [dict(till=lambda: env.now() + (e - t0)), dict(duration=C.sim.Constant(w)), dict(duration=lambda: w)]))
    return kw, a, e


def go(S, rec, more=None, t=40):
    """run to the end, with a reset of the clock somewhere if more"""
    env = rec.env
    if more is not None:
        env.run(duration=more)
        rec.reset(S.pick("new", [0, 3, -2]))
    env.run(duration=t)


def begin(S, yl, pre):
    env = C.make_env(yl)
    rec = Recorder(S, env)
    if pre:
        env.run(2)
    if pre == "reset":
        rec.reset(S.pick("new0", [0, 5]))
    return env, rec


def iat(S, yl, start, limit, number, how="callable", force_at=False, pre=None, during=False, n=3):
    sim = C.sim
    env, rec = begin(S, yl, pre)
    kw, a, e = interval(S, rec, yl, start, limit)
    drawn = []

    def draw():
        x = S.real(f"iat{len(drawn)}", 0.25 if number is None else 0, 9)
        if number is None:
            S.assume(S.Or(len(drawn) < n, x > 9))  # not more than n of them fit
        drawn.append(x)
        return x

    if how == "callable":
        it = draw
    elif how == "constant":
        it = S.real("iat", 3.25 if number is None else 0, 9)
    elif how == "dis":
        it = sim.Constant(S.real("iat", 3.25 if number is None else 0, 9))
    # more arrivals than fit: the last one drawn is beyond any limit
    if number is None and how == "callable":
        def it():
            x = S.real(f"iat{len(drawn)}", 0, 9) if len(drawn) < n else 20
            drawn.append(x)
            return x
    num = number
    if number == "dis":
        num, number = sim.Constant(2), 2
    elif number == "float":
        num, number = 2.0, 2
    gen = sim.ComponentGenerator(rec.X, iat=it, number=num, force_at=force_at, at_end=rec.end, n=77, env=env, **kw)
    S.check(not rec.made, "nothing is created by creating the generator")
    go(S, rec, S.pick("during", [0, 1.5, 4]) if during else None, 60)
    # the prescribed moments
    if how != "callable":
        c = it if how == "constant" else it.sample()
        seq = [c] * 20
    else:
        seq = list(drawn)
    moments, t, i = [], a, 0
    end = None
    while True:
        if not (force_at and not moments):
            t = t + seq[i]
            i += 1
        if t > e:
            end = e
            break
        moments.append(t)
        if number is not None and len(moments) >= number:
            end = t
            break
    if how == "callable":
        S.check(len(drawn) == i, "as many inter arrival times sampled as needed")
    rec.verify(gen, moments, end, "iat")
    S.reach("number" if number is not None and len(moments) == number else "till")
    if not moments:
        S.reach("none")


def spread(S, yl, start, limit, number, force_at=False, force_till=False, pre=None, during=False):
    sim = C.sim
    env, rec = begin(S, yl, pre)
    kw, a, e = interval(S, rec, yl, start, limit)
    S.assume(e >= a)
    num = number
    if number == "dis":
        num, number = sim.Constant(1), 1
    with world(S) as w:
        try:
            gen = sim.ComponentGenerator(rec.X, number=num, force_at=force_at, force_till=force_till, at_end=rec.end, n=77, env=env, **kw)
        except ValueError:
            S.check(number == 1 and force_at and force_till or e == inf, "refused only if impossible")
            S.reach("refused")
            return
        S.check(not (number == 1 and force_at and force_till) and e != inf, "accepted only if possible")
        rs = [d[2] for d in w.glob.draws]
        if number > 1 and (force_at or force_till):
            S.assume(rs[0] != rs[1])
            S.assume(a < e)
        go(S, rec, S.pick("during", [0, 1.5, 4]) if during else None, 60)
    S.check(len(rec.made) == number, "spread: exactly the given number")
    ts = [m[0] for m in rec.made]
    for t, u in zip(ts, ts[1:]):
        S.le(t, u, "in order of time")
    S.le(a, ts[0], "spread: not before the start")
    S.le(ts[-1], e, "spread: not after the end")
    if force_at:
        S.close(ts[0], a, "spread: first at the start")
    if force_till:
        S.close(ts[-1], e, "spread: last at the end")
    if len(rs) == number and not force_at and not force_till:
        xs = sorted([a + (e - a) * r for r in rs])
        for x, t in zip(xs, ts):
            S.close(x, t, "spread: uniform over the interval")
        S.reach("uniform")
    rec.verify(gen, ts, ts[-1], "spread")
    S.reach(f"{number}")


def equidistant(S, yl, start, limit, number, pre=None, during=False):
    sim = C.sim
    env, rec = begin(S, yl, pre)
    kw, a, e = interval(S, rec, yl, start, limit)
    f = S.choice("force", 3)
    if f:
        kw.update(force_at=f == 1, force_till=f == 2)  # ignored
    try:
        gen = sim.ComponentGenerator(rec.X, number=number, equidistant=True, at_end=rec.end, n=77, env=env, **kw)
    except ValueError:
        S.check(number == 1, "refused only if impossible")
        S.reach("refused")
        return
    S.check(number != 1, "one component cannot be equidistant")
    go(S, rec, S.pick("during", [0, 1.5, 4]) if during else None, 60)
    rec.verify(gen, [a + (e - a) * i / (number - 1) for i in range(number)], e, "equidistant")
    S.reach(f"{number}")


def moments(S, yl, n, pre=None, during=False, how="list"):
    sim = C.sim
    env, rec = begin(S, yl, pre)
    ds = [S.real(f"m{i}", 0, 9) for i in range(n)]
    now = env.now()
    ms = [now + d for d in ds]
    t0 = rec.clock()
    if how == "tuple":
        ms = tuple(ms)
    elif how == "callable":
        q, ms = ms, (lambda: q)
    elif how == "iter":
        ms = iter(ms)
    gen = sim.ComponentGenerator(rec.X, moments=ms, at_end=rec.end, n=77, env=env)
    go(S, rec, S.pick("during", [0, 1.5, 4]) if during else None, 60)
    want = sorted(t0 + d for d in ds)
    rec.verify(gen, want, want[-1], "moments")
    S.reach(f"{n}")


def disturbance(S, yl, limit, number, pre=None, n=2, how="callable"):
    """a component is created at its regular moment and starts at that moment plus the disturbance"""
    sim = C.sim
    env, rec = begin(S, yl, pre)
    kw, a, e = interval(S, rec, yl, None, limit)
    iats, dist, started, made = [], [], [], []

    const = S.real("iat", 4, 9), S.real("dis", -2, 3)
    if how == "constant":
        S.assume(const[1] != 0)  # no disturbance

    def it():
        x = const[0] if how == "constant" else S.real(f"iat{len(iats)}", 0, 5) if number is not None or len(iats) < n else 20
        iats.append(x)
        return x

    def dis():
        x = const[1] if how == "constant" else S.real(f"dis{len(dist)}", -2, 3)
        S.assume(iats[-1] + x >= 0)
        dist.append(x)
        return x

    class Z(sim.Component):
        def setup(self, n):
            made.append(n)

        def process(self, **kw):
            started.append(rec.clock())

    class ZG(Z):
        def process(self, **kw):
            started.append(rec.clock())
            return
            yield

    gen = sim.ComponentGenerator(Z if yl else ZG, iat=const[0] if how == "constant" else it, disturbance=const[1] if how == "constant" else dis, number=number, at_end=rec.end, n=77, env=env, **kw)
    go(S, rec, None, 60)
    if how == "constant":
        for _ in range(20):
            it(), dis()
    want, t, i = [], a, 0
    end = None
    while end is None:
        u = t + iats[i] + dist[i]
        if u > e:
            end = e if e >= t else t
            break
        want.append(u)
        if number is not None and len(want) >= number:
            end = t
            break
        t = t + iats[i]
        i += 1
    S.check(len(made) == len(want) and made == [77] * len(want), "number of components")
    for x, y in zip(sorted(started), sorted(want)):
        S.close(x, y, "starts at its regular moment plus the disturbance")
    S.check(len(rec.ends) == 1, "at_end called exactly once")
    S.close(rec.ends[0], end, "at_end is called at the end")
    S.reach("number" if number is not None and len(want) == number else "till")


def classes(S, yl):
    """what is created: a class, a function, or what a distribution of those delivers; in the generator's environment"""
    sim = C.sim
    env, rec = begin(S, yl, None)
    if S.flag("other"):
        other = C.make_env(yl)  # becomes the default environment
    else:
        other = env
    how = S.choice("how", 4)
    seq = []
    if how == 0:
        cls = rec.Y
    elif how == 1:
        def cls(**kw):
            return rec.X(**kw)
    else:
        with_ = S.pick("p", [(1, 1), (1, 3)])
        cls = sim.Pdf((rec.X, with_[0], rec.Y, with_[1])) if how == 2 else sim.CumPdf((rec.X, 1, rec.Y, 4))
    mode = S.choice("mode", 3)
    kw = [dict(iat=2, number=2), dict(till=5, number=2), dict(moments=[1, 3])][mode]
    with world(S) as w:
        if how >= 2:
            cls.randomstream = w.glob
        gen = sim.ComponentGenerator(cls, at_end=rec.end, n=77, env=env, **kw)
        env.run(20)
    S.check(len(rec.made) == 2, "two components")
    S.check(sim.default_env() is other, "the default environment is as before")
    for (t, n, kind, cur) in rec.made:
        S.check(n == 77 and cur is gen, "created by the generator with its arguments")
        S.check(how != 0 or kind == "Y", "of the given class")
        S.check(how != 1 or kind == "X", "by the given function")
        S.reach(kind)


def nothing(S, yl):
    """number 0, and impossible intervals"""
    with world(S):
        nothing_(S, yl)


def nothing_(S, yl):
    sim = C.sim
    env, rec = begin(S, yl, None)
    env.run(1)
    what = S.choice("what", 4)
    if what == 0:
        kw = S.pick("kw", [dict(iat=1), dict(till=5), dict(iat=1, till=0.5 + 1), dict(equidistant=True, till=5)])
        sim.ComponentGenerator(rec.X, number=S.pick("number", [0, 0.5]), at_end=rec.end, n=77, **kw)
        env.run(10)
        S.check(not rec.made, "number 0: nothing is created")
        S.reach("0")
        return
    x = S.real("x", -3, 3)
    a = S.real("a", 1, 3)
    try:
        if what == 1:
            sim.ComponentGenerator(rec.X, iat=S.pick("iat", [None, 2]), number=2, at=a, till=x, at_end=rec.end, n=77)
            ok = a <= x
        elif what == 2:
            sim.ComponentGenerator(rec.X, iat=S.pick("iat", [None, 2]), number=2, at=a, duration=x, at_end=rec.end, n=77)
            ok = x >= 0
        else:
            sim.ComponentGenerator(rec.X, number=-1, iat=1, at_end=rec.end, n=77)
            ok = False
    except ValueError:
        S.check(what == 3 or (what == 1 and a > x) or (what == 2 and x < 0), "refused only if impossible")
        S.reach("refused")
        return
    S.check(ok, "a negative interval or number is refused")
    S.reach("accepted")


YL = [True, False]
q = []
HARNESSES = [
    H(iat, grid(yl=YL, start=[None, "at"], limit=["till"], number=[None, 2], force_at=[False, True])
      + grid(yl=YL, start=["delay"], limit=["duration", None], number=[3])
      + grid(yl=[True], start=["spec"], limit=["spec"], number=["dis"])
      + grid(yl=YL, start=[None], limit=["till"], number=["float"], how=["constant", "dis"])
      + grid(yl=YL, start=["at"], limit=["till", "duration"], number=[2], pre=["reset"], during=[False, True])
      + grid(yl=YL, start=[None], limit=["till"], number=[None], pre=["run"], during=[True], n=[2]),
      grid(yl=YL, start=[None, "at", "delay"], limit=["till", "duration"], number=[None, 4], force_at=[False, True], n=[4])
      + grid(yl=YL, start=["spec"], limit=["spec"], number=["dis", 3], force_at=[False, True])
      + grid(yl=YL, start=[None, "at"], limit=["till", "duration"], number=["float", None], how=["constant", "dis"], force_at=[False, True])
      + grid(yl=YL, start=["at", "delay", None], limit=["till", "duration"], number=[None, 3], pre=["reset", "run", None], during=[False, True]),
      expect=["number", "till", "none"]),
    H(spread, grid(yl=YL, start=[None, "at"], limit=["till", "duration"], number=[1, 2])
      + grid(yl=[True], start=["delay"], limit=["till"], number=[3])
      + grid(yl=[True], start=["at"], limit=["till", "duration", None], number=[1, 2, 3, "dis"], force_at=[True, False], force_till=[True])
      + grid(yl=[True], start=["at"], limit=["till"], number=[1, 2, 3], force_at=[True])
      + grid(yl=YL, start=["at"], limit=["till", "duration"], number=[2], pre=["reset"], during=[False, True]),
      grid(yl=YL, start=[None, "at", "spec"], limit=["till", "duration", "spec", None], number=[1, 2, 3, "dis"], force_at=[True, False], force_till=[True, False], pre=[None, "reset"]),
      expect=["uniform", "refused", "1", "2"]),
    H(equidistant, grid(yl=YL, start=[None, "at"], limit=["till", "duration"], number=[1, 2, 3]) + grid(yl=YL, start=["delay"], limit=["till"], number=[4], pre=["reset"], during=[False, True]),
      grid(yl=YL, start=[None, "at", "delay", "spec"], limit=["till", "duration", "spec"], number=[1, 2, 3, 4, 5], pre=[None, "reset"], during=[False, True]), expect=["refused", "2", "3"]),
    H(moments, grid(yl=YL, n=[1, 3]) + grid(yl=YL, n=[2], pre=["reset"], during=[False, True]) + grid(yl=[True], n=[2], how=["tuple", "callable", "iter"]),
      grid(yl=YL, n=[1, 2, 3, 4], pre=[None, "reset", "run"], during=[False, True], how=["list", "callable"]), expect=["1", "3"]),
    H(disturbance, grid(yl=YL, limit=["till", "duration"], number=[None]) + grid(yl=YL, limit=[None, "till"], number=[2]) + grid(yl=YL, limit=["till"], number=[2], pre=["reset"]) + grid(yl=YL, limit=["till"], number=[None, 2], how=["constant"]),
      grid(yl=YL, limit=["till", "duration", None], number=[3], how=["constant"]) + grid(yl=YL, limit=["till", "duration"], number=[None], n=[2, 3]) + grid(yl=YL, limit=[None, "till"], number=[2, 3], pre=[None, "reset"]), expect=["number", "till"]),
    H(classes, grid(yl=YL), expect=["X", "Y"]),
    H(nothing, grid(yl=YL), expect=["0", "refused", "accepted"]),
]
