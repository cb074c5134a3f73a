"""C29: seeded random streams as unknown but fixed sequences of numbers: reproducible and independent"""
from .common import *
from . import common as C
from .stream import Stream, world

BOUNDS = "a stream with a given seed is an arbitrary (symbolic) but fixed sequence of numbers per seed; every distribution class, up to 3 samples (Poisson 1, Bounded 1 retry), with 0..2 draws elsewhere before, between and after; three small random models (holds, generators, requests with random durations) run twice in one program with reseeding in all ways, ten seeds of various types; both process styles"
OUTSIDE = "the generator of the Python library itself (that the same seed gives the same numbers is its guarantee); seed '*'; External with numpy or scipy distributions; distributions nested in another distribution that have no stream of their own"


class Seeded(Stream):
    """numbers depend on the seed and the position only"""

    def __init__(self, S, memo, seed="unseeded"):
        super().__init__(S, f"s{seed}_", memo)
        self.log = []

    def seed(self, *a, **kw):
        if hasattr(self, "memo"):
            self.log.append(a)
            self.name_ = f"s{a[0] if a else None}_"
            self.n = 0


class program(world):
    """a program: fresh state of the global stream"""

    def __init__(self, S, memo, before="before"):
        self.glob = Seeded(S, memo, before)


def dists(sim, kw):
    return dict(
        Uniform=lambda: sim.Uniform(2, 5, **kw),
        Exponential=lambda: sim.Exponential(3, **kw),
        Normal=lambda: sim.Normal(3, 1, **kw),
        Gauss=lambda: sim.Normal(3, 1, use_gauss=True, **kw),
        IntUniform=lambda: sim.IntUniform(1, 3, **kw),
        Triangular=lambda: sim.Triangular(1, 5, 2, **kw),
        Poisson=lambda: sim.Poisson(0.25, **kw),
        Weibull=lambda: sim.Weibull(1, 2, **kw),
        Gamma=lambda: sim.Gamma(2, 1, **kw),
        Erlang=lambda: sim.Erlang(2, 1, **kw),
        Beta=lambda: sim.Beta(2, 1, **kw),
        Cdf=lambda: sim.Cdf((1, 0, 3, 40, 7, 100), **kw),
        Pdf=lambda: sim.Pdf((1, 20, 2, 30, 3, 50), **kw),
        PdfEqual=lambda: sim.Pdf((1, 2, 3), 1, **kw),
        Pmf=lambda: sim.Pmf({1: 20, 2: 30, 3: 50}, **kw),
        CumPdf=lambda: sim.CumPdf((1, 20, 2, 50, 3, 100), **kw),
        CumPmf=lambda: sim.CumPmf((1, 20, 2, 50, 3, 100), **kw),
        Distribution=lambda: sim.Distribution("Unif(2,6)", **kw),
        Bounded=lambda: sim.Bounded(sim.Uniform(2, 6, **kw), lowerbound=3, upperbound=5, number_of_retries=1, fail_value=4),
        Expression=lambda: sim.Uniform(2, 6, **kw) * 2 + 1,
        Constant=lambda: sim.Constant(4, **kw),
    )


NAMES = ["Uniform", "Exponential", "Normal", "Gauss", "IntUniform", "Triangular", "Poisson", "Weibull", "Gamma", "Erlang", "Beta", "Cdf", "Pdf", "PdfEqual", "Pmf", "CumPdf", "CumPmf", "Distribution", "Bounded", "Expression", "Constant"]


SEEDS = [42, 0, 1, 2**32 - 1]
OTHER = [-1, 0.5, "abc", "0", False, b""]  # not accepted by numpy


def same(S, a, b, msg):
    S.check(len(a) == len(b), msg + ": as many")
    for x, y in zip(a, b):
        S.close(x, y, msg)


def elsewhere(S, n):
    """draws from the global stream, and from another one"""
    for _ in range(n):
        C.sim.Uniform(0, 1).sample()
        C.sim.Exponential(2)()


def own_stream(S, name, n=2):
    """a distribution with its own stream gives the same samples, whatever is drawn elsewhere"""
    memo = {}
    runs = []
    ks = [S.choice(f"k{i}", 2) for i in range(n + 1)]
    rs = S.choice("reseed", 3)
    for busy in (False, True):
        with program(S, memo, "busy" if busy else "quiet") as w:
            env = C.make_env(True)
            st = Seeded(S, memo, 7)
            d = dists(C.sim, dict(randomstream=st))[name]()
            if busy:
                elsewhere(S, ks[0])
                if rs == 1:
                    C.sim.random_seed(5)
                elif rs == 2:
                    C.make_env(True, random_seed=9)
            out = []
            for i in range(n):
                out.append(d.sample() if i % 2 == 0 else d())
                if busy:
                    elsewhere(S, ks[i + 1])
                    if i == 0:
                        other = dists(C.sim, dict(randomstream=Seeded(S, memo, 99)))[name]()
                        other.sample()
            if not busy:
                S.check(not w.glob.draws, "nothing is taken from the global stream")
            runs.append(out)
    same(S, *runs, "the same samples")
    S.reach("own")


def reseed(S, name, how):
    """after seeding again, the same samples"""
    memo = {}
    with program(S, memo) as w:
        C.make_env(True)
        st = Seeded(S, memo, 3)
        kw = dict(randomstream=st) if how == "stream" else {}
        d = dists(C.sim, kw)[name]()
        runs = []
        seed = S.pick("seed", SEEDS + ([] if how == "env" else OTHER)) if how != "default" and name in ("Uniform", "Constant", "Pdf") else 42
        for i in range(2):
            if how == "stream":
                C.sim.random_seed(seed, randomstream=st, set_numpy_random_seed=seed not in OTHER or seed == 0)
            elif how == "global":
                C.sim.random_seed(seed, set_numpy_random_seed=seed not in OTHER or seed == 0)
            elif how == "env":
                C.make_env(True, random_seed=seed)
            elif how == "default":
                C.make_env(True, random_seed=None)
            runs.append([d.sample() for _ in range(1 if name == "Poisson" else 2)])
            elsewhere(S, S.choice(f"k{i}", 2))
            if name != "Poisson":
                d.sample()
    same(S, *runs, "the same samples after seeding again")
    want = 1234567 if how == "default" else seed
    S.check((st if how == "stream" else w.glob).log[-1] == (want,), f"seeded with the given seed {want}")
    S.reach("reseed")


def not_seeded(S):
    """random_seed='' leaves the stream as it is"""
    memo = {}
    runs = []
    for again in (False, True):
        with program(S, memo, "x") as w:
            C.sim.random_seed(11)
            d = C.sim.Uniform(0, 1)
            out = [d.sample()]
            if again:
                C.make_env(True, random_seed="")
            out.append(d.sample())
            if again:
                C.sim.random_seed("")
                st = Seeded(S, memo, 3)
                C.sim.random_seed(5, randomstream=st)
                st.random()
            out.append(d.sample())
            runs.append(out)
    same(S, *runs, "not seeded: continues")
    S.reach("notseeded")


# ---- models
def m_hold(env, log):
    d = C.sim.Uniform(1, 3)

    def p(c):
        for _ in range(2):
            yield c.hold(d)
            log.append((c.name(), env.now()))

    C.actor(env, p, name="p")
    C.actor(env, p, name="q")


def m_generator(env, log):
    class X(C.sim.Component):
        def setup(self):
            log.append(("X", env.now()))

    C.sim.ComponentGenerator(X, iat=C.sim.Exponential(2), number=2, env=env)
    C.sim.ComponentGenerator(C.sim.Pdf((X, 1, C.sim.Component, 3)), iat=3, number=2, generator_name="g", env=env)

    class Y(C.sim.Component):
        def process(self):
            log.append(("Y", env.now()))
            yield from ()

    if not env.yieldless():
        C.sim.ComponentGenerator(Y, iat=3, disturbance=C.sim.Uniform(-1, 1), number=1, env=env)


def m_spread(env, log):
    class X(C.sim.Component):
        def setup(self):
            log.append(("X", env.now()))

    C.sim.ComponentGenerator(X, till=6, number=2, at=1, env=env)


def m_request(env, log):
    r = C.sim.Resource("r", env=env)
    d = C.sim.Exponential(1)

    def p(c):
        yield c.request(r)
        yield c.hold(d.sample())
        c.release()
        log.append((c.name(), env.now()))

    for i in range(3):
        C.actor(env, p, name=f"p{i}")


MODELS = dict(hold=m_hold, generator=m_generator, spread=m_spread, request=m_request)


def model(S, name, how, yl):
    """the same seed gives the same history"""
    memo = {}
    logs = []
    with program(S, memo) as w:
        for i in range(2):
            if how == "seed":
                env = C.make_env(yl, random_seed=5)
            elif how == "default":
                env = C.make_env(yl, random_seed=None)
            else:
                env = C.make_env(yl, random_seed="")
                C.sim.random_seed(5)
            log = []
            MODELS[name](env, log)
            env.run(till=8)
            logs.append(log)
            if i == 0:
                elsewhere(S, S.choice("k", 3))
    a, b = logs
    S.check([x[0] for x in a] == [x[0] for x in b], "the same events")
    same(S, [x[1] for x in a], [x[1] for x in b], "the same times")
    S.reach(name)


def library(S):
    """sim.Random is a stream of the library with the given seed"""
    import random

    s = S.pick("seed", [0, 1, 12299, "abc"])
    a, b, c = C.sim.Random(s), random.Random(s), C.sim.Random(s)
    x = [b.random() for _ in range(3)]
    S.check([a.random() for _ in range(3)] == x, "the same as random.Random")
    S.check([c.random() for _ in range(3)] == x, "each has its own state")
    S.reach("library")


HARNESSES = [
    H(own_stream, [p for p in grid(name=NAMES) if p["name"] != "Poisson"] + grid(name=["Poisson"], n=[1]), [p for p in grid(name=NAMES, n=[2, 3]) if (p["name"], p["n"]) != ("Poisson", 3)], expect=["own"]),
    H(reseed, grid(name=NAMES, how=["stream", "global", "env", "default"]), expect=["reseed"]),
    H(not_seeded, [{}], expect=["notseeded"]),
    H(model, grid(name=list(MODELS), how=["seed", "default", "global"], yl=[True]) + grid(name=list(MODELS), how=["seed"], yl=[False]), expect=list(MODELS)),
    H(library, [{}], expect=["library"]),
]
