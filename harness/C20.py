"""C20: means, arithmetic and time units of distributions, on symbolic random numbers and parameters"""
import math
import operator
from .common import *
from . import common as C
from .stream import Stream, world

BOUNDS = "every distribution class; every pair of distribution and environment time unit; symbolic parameters and random numbers; expressions of two and three operands (distributions, constants, numbers) and all operators; discrete distributions of 3 values with symbolic probabilities or values, nested ones included"
OUTSIDE = "numpy and scipy distributions; floating point rounding (relative tolerance 1e-6); the mean of Normal, Gamma, ... samples as computed by the Python library (taken as documented there)"

SECONDS = dict(years=365 * 86400, weeks=7 * 86400, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
UNITS = list(SECONDS)


def build(S, kind, sim, st, how, **kw):
    """-> distribution, its mean in its own unit (None: not known)"""
    a = how["a"]
    rs = dict(randomstream=st)
    if kind == "Uniform":
        return sim.Uniform(a, a + 3, **rs, **kw), a + 1.5
    if kind == "Uniform1":
        return sim.Uniform(a, **rs, **kw), a
    if kind == "IntUniform":
        return sim.IntUniform(2, 5, **rs, **kw), 3.5
    if kind == "Triangular":
        return sim.Triangular(1, 4, 2, **rs, **kw), 7 / 3
    if kind == "Triangular1":
        return sim.Triangular(1, 4, **rs, **kw), 2.5
    if kind == "Constant":
        return sim.Constant(a, **rs, **kw), a
    if kind == "Exponential":
        return sim.Exponential(a, **rs, **kw), a
    if kind == "ExponentialRate":
        return sim.Exponential(rate=1 / a, **rs, **kw), a
    if kind == "Normal":
        return sim.Normal(a, 2, **rs, **kw), a
    if kind == "NormalCov":
        return sim.Normal(a, coefficient_of_variation=0.5, use_gauss=True, **rs, **kw), a
    if kind == "Weibull":
        return sim.Weibull(a, 2, **rs, **kw), a * math.gamma(1.5)
    if kind == "Gamma":
        return sim.Gamma(3, a, **rs, **kw), 3 * a
    if kind == "GammaRate":
        return sim.Gamma(3, rate=1 / a, **rs, **kw), 3 * a
    if kind == "Erlang":
        return sim.Erlang(2, 1 / a, **rs, **kw), 2 * a
    if kind == "ErlangScale":
        return sim.Erlang(2, scale=a, **rs, **kw), 2 * a
    if kind == "Cdf":
        return sim.Cdf((a, 0, a + 2, 1, a + 4, 4), **rs, **kw), a + 1 * 0.25 + 3 * 0.75
    if kind == "Pdf":
        return sim.Pdf((a, 1, a + 4, 3), **rs, **kw), a + 3
    if kind == "PdfEqual":
        return sim.Pdf((a, a + 4), 1, **rs, **kw), a + 2
    if kind == "PdfDict":
        return sim.Pdf({1: 1, 5: 3}, **rs, **kw), 4
    if kind == "Pmf":
        return sim.Pmf((a, 1, a + 4, 3), **rs, **kw), a + 3
    if kind == "CumPdf":
        return sim.CumPdf((a, 1, a + 4, 4), **rs, **kw), a + 3
    if kind == "CumPmf":
        return sim.CumPmf((a, a + 4), (0.25, 1), **rs, **kw), a + 3
    if kind == "External":
        return sim.External(lambda x, y=0: x + y + st.random(), a, y=2, **kw), None
    if kind == "Text":
        kw.pop("env", None)
        return sim.Distribution("Uniform(2, 6)", randomstream=st, **kw), 4
    if kind == "TextNumber":
        kw.pop("env", None)
        return sim.Distribution("12", randomstream=st, **kw), 12
    if kind == "TextTri":
        kw.pop("env", None)
        return sim.Distribution(" 1, 4, 4", randomstream=st, **kw), 3
    if kind == "TextOwn":  # its own unit has preference
        u = kw.pop("time_unit", None)
        kw.pop("env", None)
        if u is None:
            return sim.Distribution("Uniform(2, 6)", randomstream=st), 4
        return sim.Distribution(f"Uniform(2, 6, time_unit='{u}')", randomstream=st, time_unit="weeks"), 4
    raise KeyError(kind)


KINDS = ["Uniform", "Uniform1", "IntUniform", "Triangular", "Triangular1", "Constant", "Exponential", "ExponentialRate", "Normal", "NormalCov", "Weibull", "Gamma", "GammaRate",
         "Erlang", "ErlangScale", "Cdf", "Pdf", "PdfEqual", "PdfDict", "Pmf", "CumPdf", "CumPmf", "External", "Text", "TextNumber", "TextTri", "TextOwn"]


def units(S, kinds, envs, dus):
    """sample and mean with a unit = conversion factor * sample and mean without"""
    sim = C.sim
    kind = S.pick("kind", kinds)
    eu, du = S.pick("env unit", envs), S.pick("unit", dus)
    f = SECONDS[du] / SECONDS[eu]
    a = S.real("a", 0.5, 8)
    other = S.flag("other env")
    env = C.make_env(True, time_unit=eu)
    if other:
        if kind.startswith("Text"):
            return
        C.make_env(True, time_unit="weeks" if eu != "weeks" else "hours")  # becomes the default environment
        kw = dict(env=env)
    else:
        kw = dict(env=env) if S.flag("env given") and not kind.startswith("Text") else {}
    memo = {}
    with world(S) as w:
        p, m = build(S, kind, sim, Stream(S, memo=memo), dict(a=a), **kw)
        d, _ = build(S, kind, sim, Stream(S, memo=memo), dict(a=a), time_unit=du, **kw)
        pm, dm = p.mean(), d.mean()
        if m is None:
            S.check(pm != pm and dm != dm, "mean not known")
        else:
            S.close(pm, m, f"mean of {kind}")
            S.close(dm / f, m, f"mean of {kind} with a time unit")
        v, u = p.sample(), d.sample()
        S.close(u / f, v, f"sample of {kind} with a time unit")
        # nested and combined
        e1, e2 = d + f, 2 * d
        if m is not None:
            S.close(e1.mean() / f, m + 1, "mean of an expression")
            S.close(e2.mean() / f, 2 * m, "mean of an expression")
            for cls in (sim.Pdf, sim.Pmf):
                S.close(cls((d, 1, 2 * f, 3)).mean() / f, (m + 6) / 4, "mean of a distribution with a distribution as value")
                S.close(cls((d, d), 1).mean() / f, m, "mean of a distribution with distributions as values")
                S.close(cls({e2: 1}).mean() / f, 2 * m, "mean of a distribution with an expression as value")
            for cls in (sim.CumPdf, sim.CumPmf):
                S.close(cls((d, 1, 2 * f, 4)).mean() / f, (m + 6) / 4, "mean of a distribution with a distribution as value")
            S.close(sim.Bounded(d).mean() / f, m, "mean of a distribution bounded by nothing")
        S.check(not w.glob.draws, "only the own stream is used")
        S.reach(kind)


def factor(S):
    """the same duration expressed in two units is the same; bounds have their own unit"""
    sim = C.sim
    eu, du = S.pick("env unit", UNITS), S.pick("unit", UNITS)
    env = C.make_env(True, time_unit=eu)
    f = SECONDS[du] / SECONDS[eu]
    lo, hi = S.real("lo", 0, 4), S.real("hi", 0, 4)
    S.assume(lo <= hi)
    st = Stream(S)
    b = sim.Bounded(sim.Uniform(0, 4, time_unit=du, randomstream=st), lo, hi, number_of_retries=1, time_unit=du)
    v = b.sample() / f
    r = 4 * st.draws[0][2]
    S.assume(S.And(S.Or(r < lo - 0.001, r > lo + 0.001), S.Or(r < hi - 0.001, r > hi + 0.001)))
    if S.And(lo < r, r < hi):
        S.close(v, r, "within the bounds, which are in the same unit")
        S.reach("in")
    else:
        S.close(v, lo, "rejected, given bounds in the same unit")
        S.reach("out")


def nounit(S):
    """a time unit needs an environment with one; unknown units are refused"""
    sim = C.sim
    C.make_env(True, time_unit=S.pick("env unit", ["n/a", "hours"]))
    u = S.pick("unit", ["hours", "hour", None])
    kind = S.pick("kind", ["Uniform", "Constant", "Pdf", "Cdf", "Erlang"])
    kw = {} if u is None else dict(time_unit=u)
    try:
        d, m = build(S, kind, sim, Stream(S), dict(a=2.0), **kw)
    except (AttributeError, ValueError):
        S.check(u == "hour" or (u is not None and sim.default_env().get_time_unit() == "n/a"), "refused")
        S.reach("refused")
    else:
        S.check(u is None or (u == "hours" and sim.default_env().get_time_unit() == "hours"), "accepted")
        S.close(d.mean(), m, "mean")
        S.reach("accepted")


OPS = [("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv), ("//", operator.floordiv)]


def arithmetic(S, left, right, depth=1):
    """every operand is sampled once per sample, and the operator applied to the samples"""
    sim = C.sim
    C.make_env(True, time_unit="hours")
    memo = {}
    with world(S) as w:
        streams = []

        def operand(name, kind):
            """-> operand, function giving its value for the n-th sample, mean, random?"""
            if kind == "number":
                c = S.pick(name, [2, -3, 0.5])
                return c, lambda n: c, c, False
            if kind == "symbol":
                c = S.real(name, 0.5, 4)
                return c, lambda n: c, c, False
            if kind == "constant":
                c = S.pick(name, [2, -3, 0.5])
                return sim.Constant(c, time_unit="minutes"), lambda n: c / 60, c / 60, False
            st = Stream(S, name, memo)
            streams.append(st)
            if kind == "Uniform":
                return sim.Uniform(1, 3, randomstream=st), lambda n: 1 + 2 * st.draws[n][2], 2, True
            if kind == "Map":
                return sim.Map(sim.Uniform(1, 3, randomstream=st), lambda x: x + 1), lambda n: 2 + 2 * st.draws[n][2], float("nan"), True
            if kind == "Pdf":
                return sim.Pdf((1, 1, 4, 2), randomstream=st), lambda n: 1 if st.draws[n][2] < 1 / 3 else 4, 3, True
            raise KeyError(kind)

        x, xv, xm, xr = operand("x", left)
        y, yv, ym, yr = operand("y", right)
        sym, op = S.pick("op", OPS)
        e = op(x, y)
        f = lambda n: op(xv(n), yv(n))
        if depth == 1:
            un = S.pick("unary", ["", "-", "+"])
            if un == "-":
                e, f = -e, lambda n: -op(xv(n), yv(n))
            elif un == "+":
                e = +e
        else:
            z, zv, zm, zr = operand("z", "Uniform")
            _, op2 = S.pick("op2", OPS[:3])
            flip = S.flag("flip")
            e = op2(z, e) if flip else op2(e, z)
            f = (lambda n: op2(zv(n), op(xv(n), yv(n)))) if flip else (lambda n: op2(op(xv(n), yv(n)), zv(n)))
        S.check(isinstance(e, sim.Uniform.__mro__[1]), "an expression with a distribution is a distribution")
        for n in range(2):
            v = e() if n else e.sample()
            S.check(all(len(st.draws) == n + 1 for st in streams), "every operand is sampled exactly once")
            S.close(v, f(n), "the operator applied to the samples")
        S.check(not w.glob.draws, "only the own streams are used")
        m = e.mean()
        S.check(all(len(st.draws) == 2 for st in streams), "the mean does not sample")
        if depth == 1 and m == m:
            sgn = -1 if un == "-" else 1
            if sym in "+-":
                S.close(m, sgn * op(xm, ym), "mean of a sum or difference")
            elif sym == "*":
                S.check(not (xr and yr), "mean of a product only if one operand is constant")
                S.close(m, sgn * xm * ym, "mean of a product with a constant")
            elif sym == "/":
                S.check(not yr, "mean of a quotient only if divided by a constant")
                S.close(m, sgn * xm / ym, "mean of a quotient")
            else:
                S.check(not (xr or yr), "no mean of an integer division")
            S.reach("mean")
        elif depth == 1:
            known = xm == xm and ym == ym
            S.check(not known or (sym == "*" and xr and yr) or (sym == "/" and yr) or sym == "//", "mean of a sum, difference or product with a constant is known")
        S.reach(sym)


def power(S):
    sim = C.sim
    C.make_env(True)
    st = Stream(S)
    d = sim.Uniform(1, 3, randomstream=st)
    first = S.flag("first")
    e = d**2 if first else 2 ** sim.Pdf((1, 1, 3, 2), randomstream=st)
    v = e.sample()
    S.check(len(st.draws) == 1, "sampled once")
    r = st.draws[0][2]
    if first:
        S.close(v, (1 + 2 * r) * (1 + 2 * r), "power")
    else:
        S.check(v in (2, 8), "power of a number")
    m = e.mean()
    S.check(m != m or abs(m - 26 / 6) < 1e-6, "mean of a power is not known")


def means(S, kind, n, symbolic):
    """mean of discrete and interpolated distributions = sum of probability * value"""
    sim = C.sim
    C.make_env(True)
    if symbolic == "p":
        ps = [S.real(f"p{i}", 0, 4) for i in range(n)]
        S.assume(sum(ps) >= 0.5)
        xs = S.pick("xs", [[2, 5, -1, 8][:n], [1, 1, 1, 1][:n], ["3", 4, 0.5, 2][:n], ["a", 2, 3, 4][:n]])
    else:
        ps = S.pick("ps", [[1, 2, 4, 1][:n], [0, 3, 0, 1][:n], [1, 1, 1, 1][:n]])
        xs = [S.real(f"x{i}", -10, 10) for i in range(n)]
    if kind == "Cdf":
        if symbolic == "p":
            S.assume(all(isinstance(x, (int, float)) for x in xs))
            xs = sorted(xs)
        else:
            for a, b in zip(xs, xs[1:]):
                S.assume(a <= b)
        cs = [0]
        for p in ps[1:]:
            cs.append(cs[-1] + p)
        S.assume(cs[-1] >= 0.5)
        m = sim.Cdf([y for q in zip(xs, cs) for y in q]).mean()
        S.close(m * cs[-1], sum(p * (a + b) / 2 for a, b, p in zip(xs, xs[1:], ps[1:])), "mean of Cdf")
        S.reach("Cdf")
        return
    cls = getattr(sim, kind)
    if kind.startswith("Cum"):
        cs = []
        for p in ps:
            cs.append((cs[-1] if cs else 0) + p)
        d = cls([y for q in zip(xs, cs) for y in q]) if S.flag("flat") else cls(xs, cs)
    else:
        d = cls([y for q in zip(xs, ps) for y in q]) if S.flag("flat") else cls(xs, ps)
    m = d.mean()
    if "a" in xs:
        S.check(m != m, "no mean if a value is not a number")
        S.reach("nan")
        return
    S.close(m * sum(ps), sum(p * (float(x) if isinstance(x, str) else x) for p, x in zip(ps, xs)), f"mean of {kind}")
    S.reach("mean")


def sample_mean(S, kind):
    """for every random number the sample is what the mean is the integral of: Uniform and Triangular around the mean"""
    sim = C.sim
    C.make_env(True)
    memo = {}
    a, b = S.real("a", -5, 5), S.real("b", -5, 5)
    S.assume(a <= b)
    st = Stream(S, memo=memo)
    d = sim.Uniform(a, b, randomstream=st) if kind == "Uniform" else sim.Triangular(a, b, randomstream=st)
    if kind == "Triangular":
        S.close(d.mean(), (a + b) / 2, "mean of a symmetrical distribution")
        return
    v = d.sample()
    r = st.draws[0][2]
    if r > 0:
        memo[("r", 1, 0, 1)] = 1 - r
        S.close(v + d.sample(), 2 * d.mean(), "samples for r and 1-r are symmetrical around the mean")
        S.reach("symmetrical")


def usage(S):
    """a distribution with a unit as duration: the clock advances by the converted sample"""
    sim = C.sim
    eu, du = S.pick("units", [("hours", "minutes"), ("minutes", "hours"), ("days", "days"), ("seconds", "weeks")])
    env = C.make_env(True, time_unit=eu)
    f = SECONDS[du] / SECONDS[eu]
    kind = S.pick("kind", ["Uniform", "Erlang", "Constant", "Cdf", "Pdf", "Text"])
    memo, a = {}, S.real("a", 0.5, 4)
    d, m = build(S, kind, sim, Stream(S, memo=memo), dict(a=a), time_unit=du)
    q, m = build(S, kind, sim, Stream(S, memo=memo), dict(a=a))
    ran = []

    def p(c):
        t = env.now()
        if S.flag("spec"):
            yield c.hold(d)
        else:
            yield c.hold(d.sample())
        S.close((env.now() - t) / f, q.sample(), "held for the converted duration")
        ran.append(1)

    C.actor(env, p)
    env.run()
    S.check(ran == [1], "process done")
    S.reach(kind)


HARNESSES = [
    H(units, [dict(kinds=[k], envs=["hours", "seconds"], dus=["minutes", "days", "hours"]) for k in KINDS] + [dict(kinds=["Uniform", "Constant", "Erlang", "Cdf"], envs=UNITS, dus=UNITS)],
      [dict(kinds=[k], envs=UNITS, dus=UNITS) for k in KINDS], expect=KINDS),
    H(factor, [{}], expect=["in", "out"]),
    H(nounit, [{}], expect=["refused", "accepted"]),
    H(arithmetic, grid(left=["Uniform", "Pdf", "Map"], right=["Uniform", "Pdf", "Map", "number", "symbol", "constant"], depth=[1, 2])
      + grid(left=["number", "constant", "symbol"], right=["Uniform", "Pdf", "Map"], depth=[1, 2]), expect=["+", "-", "*", "/", "//", "mean"]),
    H(power, [{}]),
    H(means, grid(kind=["Pdf", "Pmf", "CumPdf", "CumPmf", "Cdf"], n=[3], symbolic=["p", "x"]), grid(kind=["Pdf", "Pmf", "CumPdf", "CumPmf", "Cdf"], n=[2, 3, 4], symbolic=["p", "x"]), expect=["mean", "nan", "Cdf"]),
    H(sample_mean, grid(kind=["Uniform", "Triangular"]), expect=["symmetrical"]),
    H(usage, [{}], expect=["Uniform", "Erlang", "Constant", "Cdf", "Pdf", "Text"]),
]
