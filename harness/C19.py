"""C19: support and inverse cumulative distribution of everything that can be sampled, on symbolic random numbers"""
import math
from .common import *
from . import common as C
from .stream import Stream, world

BOUNDS = "discrete distributions of 1..4 (thorough: 6) values with symbolic probabilities (zero included) and a symbolic random number in [0,1); interpolated distributions of 2..4 points, either the probabilities or the values symbolic; bounded sampling with symbolic bounds and up to 3 (thorough: 4) retries; sampling 0..4 of 3 values without replacement; Poisson with means 0.5 .. 5 and random numbers up to 0.999"
OUTSIDE = "the quality of the random generator itself; the shape of the exponential, normal, gamma, Weibull and beta samples as computed by the Python library (any value it may deliver is covered); floating point rounding; scipy and numpy distributions"


class Val:
    """a value that is not a number"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"val{self.n}"


def inverse(S, v, xs, ps, stream, txt):
    """v is one of xs, chosen according to the inverse cumulative distribution"""
    at = [i for i, x in enumerate(xs) if x is v]
    S.check(len(at) == 1, f"{txt}: one of the values")
    i = at[0]
    S.check(ps[i] > 0, f"{txt}: a value with a positive probability")
    tot = sum(ps)
    if stream.kinds == ["random"]:
        r = stream.draws[0][2]
        S.check(S.And(sum(ps[:i]) <= r * tot, r * tot <= sum(ps[: i + 1])), f"{txt}: chosen with exactly its probability")
        S.reach(f"value {i} from a random number")
    elif stream.kinds == ["choice"]:
        S.check(S.And(*[p == ps[0] for p in ps]), f"{txt}: equally likely values have equal probabilities")
        S.check(stream.draws[0][1][0] == len(xs), f"{txt}: every value can be chosen")
        S.reach(f"value {i} from equal probabilities")
    else:
        S.reach("drawn otherwise")


def discrete(S, kind, n, form, lo=0, hi=1):
    """Pdf and Pmf"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        ps = [S.real(f"p{i}", lo, hi) for i in range(n)]
        S.assume(sum(ps) > 0)
        xs = [Val(i) for i in range(n)] if form != "dict" else [10 * i + 5.0 for i in range(n)]
        if form == "number":
            xs = [7 * i + 2 for i in range(n)]
        st = Stream(S)
        cls = getattr(sim, kind)
        if form == "dict":
            d = cls(dict(zip(xs, ps)), randomstream=st)
        elif form == "two":
            d = cls(tuple(xs), ps, randomstream=st)
        else:
            d = cls([y for xp in zip(xs, ps) for y in xp], randomstream=st)
        v = d.sample()
        inverse(S, v, xs, ps, st, kind)
        v2 = d()
        S.check(any(v2 is x for x in xs), f"{kind}: calling is sampling")
        S.check(not w.glob.draws, "only the own stream is used")


def cumulative(S, kind, n, form):
    """CumPdf and CumPmf"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        cs = [S.real(f"c{i}", 0, 100) for i in range(n)]
        for a, b in zip(cs, cs[1:]):
            S.assume(a <= b)
        S.assume(cs[-1] > 0)
        xs = [Val(i) for i in range(n)]
        st = Stream(S)
        cls = getattr(sim, kind)
        if form == "two":
            d = cls(xs, tuple(cs), randomstream=st)
        else:
            d = cls([y for xp in zip(xs, cs) for y in xp], randomstream=st)
        inverse(S, d.sample(), xs, [b - a for a, b in zip([0] + cs, cs)], st, kind)
        S.check(not w.glob.draws, "only the own stream is used")


def interpolated(S, n, symbolic):
    """Cdf"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        if symbolic == "cum":
            xs = S.pick("xs", [[1.0, 2.0, 5.0, 5.0][:n], [-3.0, -3.0, 0.0, 4.0][:n], [2.0, 2.0, 2.0, 2.0][:n]])
            cs = [0.0] + [S.real(f"c{i}", 0, 4) for i in range(1, n)]
        else:
            xs = [S.real(f"x{i}", -10, 10) for i in range(n)]
            cs = S.pick("cs", [[0, 1, 4, 4][:n], [0, 0, 2, 8][:n], [0, 0.25, 0.25, 1][:n]])
        for q in (xs, cs):
            for a, b in zip(q, q[1:]):
                S.assume(a <= b)
        S.assume(cs[-1] > 0)
        st = Stream(S)
        d = sim.Cdf([y for xc in zip(xs, cs) for y in xc], randomstream=st)
        v = d.sample()
        S.le(xs[0], v, "not below the lowest value")
        S.le(v, xs[-1], "not above the highest value")
        S.check(st.kinds == ["random"], "one random number")
        r = st.draws[0][2] * cs[-1]
        for i in range(n - 1):
            if S.And(cs[i] < r, r < cs[i + 1]):
                S.close((v - xs[i]) * (cs[i + 1] - cs[i]), (r - cs[i]) * (xs[i + 1] - xs[i]), "linear between the given points")
                S.reach(f"segment {i}")
        at = [x for x, c in zip(xs, cs) if c == r]
        if at:
            S.check(S.And(at[0] <= v, v <= at[-1]), "the given value at a given cumulative probability")
            S.reach("point")
        S.check(not w.glob.draws, "only the own stream is used")


def mono(S):
    """two random numbers in order give samples in order (Cdf with symbolic points)"""
    sim = C.sim
    C.make_env(True)
    cs = [0.0, S.real("c1", 0, 1), 1.0]
    xs = S.pick("xs", [[1.0, 2.0, 5.0], [0.0, 0.0, 4.0]])
    spec = [y for xc in zip(xs, cs) for y in xc]
    st = Stream(S)
    d = sim.Cdf(spec, randomstream=st)
    a, b = d.sample(), d.sample()
    ra, rb = st.draws[0][2], st.draws[1][2]
    if ra <= rb:
        S.le(a, b, "monotone")
        S.reach("ordered")


def continuous(S, kind):
    """Uniform, Triangular, IntUniform, Constant, Exponential, Normal, Weibull, Gamma, Erlang, Beta"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        own = S.flag("own")
        st = Stream(S) if own else w.glob
        kw = dict(randomstream=st) if own else {}
        if kind == "Uniform":
            a, b = S.real("a", -10, 10), S.real("b", -10, 10)
            S.assume(a <= b)
            if S.flag("one bound"):
                S.check(sim.Uniform(a, **kw).sample() == a, "one bound: always that value")
            else:
                v = sim.Uniform(a, b, **kw).sample()
                S.le(a, v, "not below the lower bound")
                S.le(v, b, "not above the upper bound")
                if st.kinds == ["random"]:
                    S.close(v, a + (b - a) * st.draws[0][2], "inverse cumulative distribution")
        elif kind == "IntUniform":
            a = S.pick("a", [-2, 0, 3, 3.0])
            n = S.choice("n", 4)
            v = sim.IntUniform(a, a + n, **kw).sample() if n else sim.IntUniform(a, **kw).sample()
            S.check(a <= v <= a + n and v == int(v), "an integer within the bounds")
            if st.kinds == ["randint"]:
                S.check(st.draws[0][1] == (a, a + n), "every integer within the bounds is possible")
                S.check(v == st.draws[0][2], "the number that was drawn")
        elif kind == "Triangular":
            low, high, mode = S.pick("lhm", [(0, 4, 1), (0, 4, 4), (0, 4, 0), (-2, 2, None), (3, None, None), (1, 1, 1)])
            v = sim.Triangular(low, high, mode, **kw).sample()
            high = low if high is None else high
            mode = (low + high) / 2 if mode is None else mode
            S.le(low, v, "not below the lower bound")
            S.le(v, high, "not above the upper bound")
            if st.kinds == ["random"] and low < high:
                r = st.draws[0][2]
                if v <= mode and low < mode:
                    S.close((v - low) * (v - low), r * (high - low) * (mode - low), "inverse cumulative distribution, below the mode")
                    S.reach("below")
                elif v >= mode and mode < high:
                    S.close((high - v) * (high - v), (1 - r) * (high - low) * (high - mode), "inverse cumulative distribution, above the mode")
                    S.reach("above")
        elif kind == "Constant":
            c = S.real("c", -10, 10)
            v = sim.Constant(c, **kw).sample()
            S.check(v == c, "the constant")
            S.check(not st.draws, "no random number needed")
        elif kind == "Exponential":
            m = S.real("m", 0, 10)
            S.assume(m >= 0.125)
            v = (sim.Exponential(m, **kw) if S.flag("mean") else sim.Exponential(rate=1 / m, **kw)).sample()
            S.check(v >= 0, "not negative")
            if st.kinds == ["expovariate"]:
                S.close(v, st.draws[0][2] * m, "proportional to the mean")
        elif kind == "Normal":
            m = S.real("m", -10, 10)
            s = S.pick("s", [0, 1, 2.5])
            how = S.choice("how", 4)
            if how == 0:
                d = sim.Normal(m, s, **kw)
            elif how == 1:
                d = sim.Normal(m, s, use_gauss=True, **kw)
            elif how == 2:
                S.assume(m > 0.125)
                d = sim.Normal(m, coefficient_of_variation=s, **kw)
                s = s * m
            else:
                d, s = sim.Normal(m, **kw), 0
            v = d.sample()
            if st.kinds == ["normal"]:
                S.close(v, m + s * st.draws[0][2], "mean plus so many standard deviations")
        elif kind in ("Gamma", "Erlang", "Weibull"):
            sc = S.real("scale", 0, 10)
            S.assume(sc >= 0.125)
            sh = S.pick("shape", [1, 2, 5])
            if kind == "Weibull":
                d = sim.Weibull(sc, sh, **kw)
            elif kind == "Gamma":
                d = sim.Gamma(sh, sc, **kw) if S.flag("scale given") else sim.Gamma(sh, rate=1 / sc, **kw)
            else:
                d = sim.Erlang(sh, scale=sc, **kw) if S.flag("scale given") else sim.Erlang(sh, 1 / sc, **kw)
            v = d.sample()
            S.check(v >= 0, "not negative")
            if st.kinds == ["weibull" if kind == "Weibull" else "gamma"]:
                S.close(v, sc * st.draws[0][2], "proportional to the scale")
                S.check(st.draws[0][1] == (sh,), "the shape given")
        elif kind == "Beta":
            a, b = S.pick("ab", [(1, 2), (0.5, 3), (2, 2)])
            v = sim.Beta(a, b, **kw).sample()
            S.check(S.And(0 <= v, v <= 1), "between 0 and 1")
            if st.kinds == ["beta"]:
                S.check(st.draws[0][1] == (a, b), "the parameters given")
        S.check(not own or not w.glob.draws, "only the own stream is used")
        S.reach("own" if own else "global")


def poisson(S, mean):
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        st = Stream(S, rmax=0.999)
        k = sim.Poisson(mean, randomstream=st).sample()
        S.check(k >= 0 and k == int(k), "a nonnegative integer")
        if st.kinds == ["random"]:
            r = st.draws[0][2]
            cum = [sum(math.exp(-mean) * mean**i / math.factorial(i) for i in range(j)) for j in range(int(k) + 2)]
            S.le(cum[int(k)], r, "inverse cumulative distribution (lower)", 1e-9)
            S.le(r, cum[int(k) + 1], "inverse cumulative distribution (upper)", 1e-9)
            S.reach(f"{min(int(k), 3)}")
        S.check(not w.glob.draws, "only the own stream is used")


def bounded(S, retries, how):
    """Bounded and bounded_sample"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        st = Stream(S)
        base = sim.Uniform(0, 10, randomstream=st)
        lo = S.real("lo", -1, 12) if how in ("both", "lower") else None
        hi = S.real("hi", -1, 12) if how in ("both", "upper") else None
        inclo, inchi = S.flag("inclo"), S.flag("inchi")
        fail = S.pick("fail", [None, 77.0])
        if how == "both":
            if lo > hi:
                try:
                    sim.Bounded(base, lo, hi)
                except ValueError:
                    S.reach("refused")
                    return
                S.check(False, "a lower bound above the upper bound is refused")
        kw = dict(include_lowerbound=inclo, include_upperbound=inchi, number_of_retries=retries)
        if S.flag("call"):
            v = base.bounded_sample(lo, hi, fail, retries, inclo, inchi)
        else:
            v = sim.Bounded(base, lo, hi, fail, **kw).sample()
        got = [10 * d[2] for d in st.draws]
        S.check(set(st.kinds) <= {"random"}, "samples of the distribution that is bounded")

        def ok(x):
            c = []
            if lo is not None:
                c.append(lo <= x if inclo else lo < x)
            if hi is not None:
                c.append(x <= hi if inchi else x < hi)
            return S.And(*c) if c else True

        S.check(1 <= len(got) <= max(retries, 1), "at most the number of tries")
        for x in got[:-1]:
            S.check(S.Not(ok(x)), "samples within the bounds are not rejected")
        if ok(got[-1]):
            S.check(v == got[-1], "a sample within the bounds is returned")
            S.reach("sampled")
        else:
            S.check(len(got) == retries, "rejected only after all tries")
            S.check(v == (fail if fail is not None else (lo if lo is not None else hi)), "the fail value")
            S.reach("failed")
        S.check(not w.glob.draws, "only the own stream is used")


def bounded_text(S):
    """values that are not numbers are always accepted; a nested distribution is bounded as a whole"""
    sim = C.sim
    C.make_env(True)
    st = Stream(S)
    p = S.real("p", 0.125, 0.875)
    d = sim.Bounded(sim.Pdf(["a", p, 3, 1 - p], randomstream=st), 0, S.pick("hi", [1, 5]), fail_value="f", number_of_retries=2)
    hi = d.upperbound
    v = d.sample()
    if v == "a":
        S.check(st.kinds[-1] != "random" or st.draws[-1][2] <= p, "text")
    elif v == 3:
        S.check(hi == 5, "3 only if within the bounds")
    else:
        S.check(v == "f" and hi == 1 and len(st.draws) == 2, "fail value")
    S.reach(str(v))


def without_replacement(S, kind, n):
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        st, inner = Stream(S), Stream(S, "i")
        nested = S.flag("nested")
        xs = [Val(i) for i in range(n)]
        if nested:
            xs[-1] = sim.Uniform(1, 2, randomstream=inner)
        how = S.choice("how", 3)
        q = S.pick("q", [0.25, 1, 100])
        cls = getattr(sim, kind)
        d = cls(xs, q, randomstream=st) if how == 0 else cls(xs, [q] * n, randomstream=st) if how == 1 else cls([y for x in xs for y in (x, q)], randomstream=st)
        k = S.pick("k", [None, 0, 1, 2, n, n + 1, -1])
        if k == -1:
            try:
                d.sample(k)
            except ValueError:
                return
            S.check(False, "a negative number is refused")
        got = d.sample(n=k)
        if k is None:
            got = [got]
            k = 1
        S.check(isinstance(got, list) and len(got) == min(k, n), "as many as asked for, but not more than there are")
        used = []
        for v in got:
            at = [i for i, x in enumerate(xs) if x is v]
            if not at:
                S.check(nested and not isinstance(v, (Val, sim.Uniform)), "a value, or a sample of a nested distribution")
                S.check(S.And(1 <= v, v <= 2), "a sample of the nested distribution")
                at = [n - 1]
            else:
                S.check(not isinstance(v, sim.Uniform), "a nested distribution is sampled")
            used += at
        S.check(len(set(used)) == len(used), "all different")
        S.check(len(inner.draws) == (1 if nested and n - 1 in used else 0), "a nested distribution is sampled exactly once if chosen")
        S.check(not w.glob.draws, "only the own stream is used")
        S.reach(f"{len(got)}")


def nested(S, kind):
    """a chosen value that is a distribution is sampled, once, from its own stream"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        st, inner, other = Stream(S), Stream(S, "i"), Stream(S, "o")
        p = S.real("p", 0, 1)
        xs = [sim.Uniform(1, 2, randomstream=inner), sim.Pdf((8, 1, sim.Uniform(3, 4, randomstream=other), 2), randomstream=other)]
        if kind.startswith("Cum"):
            d = getattr(sim, kind)((xs[0], p, xs[1], 1), randomstream=st)
        else:
            d = getattr(sim, kind)((xs[0], p, xs[1], 1 - p), randomstream=st)
        v = d.sample()
        S.check(not isinstance(v, sim.Uniform) and not isinstance(v, sim.Pdf), "a sample")
        if inner.draws:
            S.check(len(inner.draws) == 1 and not other.draws and p > 0, "one nested distribution, sampled once")
            S.check(S.And(1 <= v, v < 2), "sample of the first")
            S.reach("first")
        else:
            S.check(p < 1, "second has positive probability")
            S.check(len(other.draws) in (1, 2), "sampled once")
            if len(other.draws) == 1:
                S.check(v == 8, "plain value")
                S.check(other.draws[0][2] * 3 <= 1, "with its probability")
            else:
                S.check(S.And(3 <= v, v < 4), "sample of the inner distribution")
            S.reach("second")
        S.check(not w.glob.draws, "only the own streams are used")


def spec(S):
    """Distribution(text, randomstream) uses that stream"""
    sim = C.sim
    C.make_env(True)
    with world(S) as w:
        txt, f = S.pick("spec", [
            ("Uniform(2, 6)", lambda r: 2 + 4 * r), ("uni(2,6)", lambda r: 2 + 4 * r), ("(2, 6)", lambda r: 2 + 4 * r), ("2,6", lambda r: 2 + 4 * r),
            ("10", lambda r: 10), ("Constant(3)", lambda r: 3), ("Cdf((0, 0, 10, 1))", lambda r: 10 * r), ("  U (2, 6)", lambda r: 2 + 4 * r),
            ("Pdf((1, 10, 2, 30))", lambda r: 1 if r < 0.25 else 2), ("CumPdf((1, 25, 2, 100))", lambda r: 1 if r < 0.25 else 2),
            ("Triangular(0, 4, 4)", lambda r: None), ("1, 5, 1", lambda r: None), ("Pmf((1, 10, 2, 30))", lambda r: 1 if r < 0.25 else 2),
        ])
        st = Stream(S)
        own = S.flag("own")
        d = sim.Distribution(txt, st) if own else sim.Distribution(txt)
        v = d.sample()
        used = st if own else w.glob
        S.check(not (w.glob if own else st).draws, "only the own stream is used")
        if used.draws:
            r = used.draws[0][2]
            x = f(r)
            if x is None:
                low, high = (0, 4) if txt.startswith("T") else (1, 5)
                S.check(S.And(low <= v, v <= high), "within the bounds")
            elif txt.startswith(("P", "CumP")):
                if r != 0.25:
                    S.check(v == x, f"sample of {txt}")
            else:
                S.close(v, x, f"sample of {txt}")
        else:
            S.check(v == f(0), f"sample of {txt}")
        S.reach(txt[:3].strip())


def seeding(S):
    """random_seed(randomstream=r) seeds r and nothing else"""
    sim = C.sim
    with world(S) as w:
        st = Stream(S)
        seed = S.pick("seed", [1, None, "*", "", "abc"])
        own = S.flag("own")
        sim.random_seed(seed, randomstream=st) if own else sim.random_seed(seed)
        a, b = (st, w.glob) if own else (w.glob, st)
        S.check(b.seeds == [], "the other stream is left alone")
        S.check(a.seeds == ([] if seed == "" else [(1234567 if seed is None else None if seed == "*" else seed,)]), "the stream is seeded with the seed")
        S.reach("own" if own else "global")


CONT = ["Uniform", "IntUniform", "Triangular", "Constant", "Exponential", "Normal", "Gamma", "Erlang", "Weibull", "Beta"]

HARNESSES = [
    H(discrete, grid(kind=["Pdf", "Pmf"], n=[3], form=["flat", "two", "dict", "number"]) + grid(kind=["Pdf", "Pmf"], n=[1, 2, 4], form=["flat"]) + [dict(kind="Pdf", n=3, form="flat", lo=1, hi=100)],
      grid(kind=["Pdf", "Pmf"], n=[1, 2, 3, 4, 5], form=["flat", "two", "dict", "number"]) + [dict(kind="Pdf", n=4, form="flat", lo=1, hi=100)],
      expect=["value 0 from a random number", "value 2 from a random number", "value 1 from equal probabilities"]),
    H(cumulative, grid(kind=["CumPdf", "CumPmf"], n=[1, 2, 3, 4], form=["flat", "two"]), grid(kind=["CumPdf", "CumPmf"], n=[1, 2, 3, 4, 5, 6], form=["flat", "two"]),
      expect=["value 0 from a random number", "value 2 from a random number"]),
    H(interpolated, grid(n=[2, 3, 4], symbolic=["cum", "x"]), grid(n=[2, 3, 4], symbolic=["cum", "x"]), expect=["segment 0", "segment 1", "point"]),
    H(mono, [{}], expect=["ordered"]),
    H(continuous, grid(kind=CONT), expect=["own", "global", "below", "above"]),
    H(poisson, grid(mean=[0.5, 1, 2.5, 5]), grid(mean=[0.5, 1, 2.5, 5, 20]), expect=["0", "3"]),
    H(bounded, grid(retries=[1, 2, 3], how=["both", "lower", "upper", "none"]), grid(retries=[1, 2, 3, 4], how=["both", "lower", "upper", "none"]), expect=["sampled", "failed", "refused"]),
    H(bounded_text, [{}], expect=["a", "3", "f"]),
    H(without_replacement, grid(kind=["Pdf", "Pmf"], n=[3]), grid(kind=["Pdf", "Pmf"], n=[1, 2, 3, 4]), expect=["0", "3"]),
    H(nested, grid(kind=["Pdf", "Pmf", "CumPdf", "CumPmf"]), expect=["first", "second"]),
    H(spec, [{}], expect=["Uni", "10", "Cdf", "Tri"]),
    H(seeding, [{}], expect=["own", "global"]),
]
