"""C32: two environments in one program, run alternately, give the histories they have when run alone"""
from .common import *
from . import common as C
from . import C23, C24

BOUNDS = "seventeen small models in pairs (a symbolic and a fixed one), 1..3 symbolic durations each; both environments run in two stages, the boundary at a symbolic moment; created in both orders, in the same and in different process styles, nested (one environment run by a process of the other), with the other environment traced, reset, or reseeded"
OUTSIDE = "animation (only one environment can be animated); the global random stream, that all environments share by design; floating point rounding"

def m_derived(w):
    """objects made from other objects, and by objects, in the same environment"""
    env, i = w.env, w.inp
    sim = C.sim
    q = [w.keep(sim.Queue(f"q{k}", env=env)) for k in range(2)]
    m = [w.keep(sim.Monitor(f"m{k}", level=True, initial_tally=k, env=env)) for k in range(2)]
    n = w.keep(sim.Monitor("n", type="float", env=env))

    class X(sim.Component):
        def setup(self):
            w.V(f"X {self.env is env}", self.creation_time())
            self.enter(q[1])

    def p(c):
        c.enter(q[0])
        m[0].tally(3)
        n.tally(2)
        yield c.hold(i["a"] + 1)
        m[1].tally(4)
        n.tally(5)
        for k, x in enumerate((m[0] + m[1], m[0][0 : env.now()], n[0 : env.now()], m[0].freeze(), n.freeze(), n.x_map(lambda v: v * 2), n.merge(n), n * 2)):
            w.V(f"derived {k} {k in (3, 4) or x.env is env}", x.mean(), x.maximum())
            if k in (0, 3):
                yield c.hold(0.5)
        for k, x in enumerate((q[0] | q[1], q[0] & q[1], q[0] - q[1], q[0] ^ q[1], q[0].copy(), sim.Queue("z", fill=q[1], env=env), q[0].move("w"))):
            w.V(f"queue {k} {x.env is env} {[y.name() for y in x]}", x.length.mean(), x.length.duration())
        r = sim.Resource("r", env=env)
        s = sim.State("s", env=env)
        st = sim.Store("st", env=env)
        e = sim.Event(lambda: w.V("event"), delay=1, env=env)
        pms = [sim.PeriodMonitor(x, periods=(1, 1), env=env) for x in (n, m[0])]
        for o in (pms[0][0], pms[0][1], pms[1][0], pms[1][1], pms[1], r.requesters(), r.claimers(), r.claimed_quantity, s.waiters(), s.value, st.to_store_requesters(), st.from_store_requesters(), st.length, c.status, c.mode, e.status, pms[0]):
            w.V(f"env {o.env is env}")
        yield c.hold(1.5)
        w.V(f"event {e.action_taken()}")
        n.tally(8)
        for x in (pms[1][0], pms[1][1]):
            w.V("period", x.mean(), x.duration())
        for x in (pms[0][0], pms[0][1]):
            w.V("period", x.number_of_entries(), x.maximum())

    def g(c):
        yield c.hold(i["b"])
        sim.ComponentGenerator(X, iat=1, number=2, env=env)

    w.comps = [C.actor(env, p, name="p"), C.actor(env, g, name="g")]


FIXED = dict(a=1.25, b=0.5, c=2.0, g0=None, g1=None)
MODELS = dict({k: v for k, v in C24.MODELS.items() if k not in C24.SELFRUN}, derived=m_derived)
NAMES = list(MODELS)


def build(S, model, inp, yl):
    w = C24.World(S, inp, yl)
    w.comps = []
    MODELS[model](w)
    return w


def end(w):
    w.L("finish")
    C24.stats(w, w.monitors())
    w.final()
    return w.log


def alone(S, model, inp, yl, stops):
    w = build(S, model, inp, yl)
    for t in stops:
        w.env.run(till=t)
    return end(w)


def inputs(S, model):
    inp = C24.inputs(S, model, 0)
    if model in ("hold", "generator", "kill", "wait2", "store2", "request2"):
        inp["c"] = 2.25
    if model in ("kill", "generator"):
        inp["a"] = 0.75
    return inp


def alternate(S, model, other, yl, yl2, order):
    inp = inputs(S, model)
    u = S.real("u", 0, 4)
    A = [u, 12]
    B = [1.75, 12]
    log1 = alone(S, model, inp, yl, A)
    log2 = alone(S, other, FIXED, yl2, B)
    if order == "first":
        w = build(S, model, inp, yl)
        v = build(S, other, FIXED, yl2)
    else:
        v = build(S, other, FIXED, yl2)
        w = build(S, model, inp, yl)
    S.check(C.sim.default_env() is (v if order == "first" else w).env, "the last one created is the default environment")
    w.env.run(till=A[0])
    S.check(v.env.now() == 0, "the other clock does not move")
    v.env.run(till=B[0])
    S.close(w.env.now(), u, "the clock does not move")
    w.env.run(till=A[1])
    v.env.run(till=B[1])
    C24.same(S, log1, end(w))
    C24.same(S, log2, end(v))
    S.reach(model)


def meddle(S, model, yl, what):
    """the other environment is created, and something is done to it, in the midst of things"""
    inp = inputs(S, model)
    u = S.real("u", 0, 4)
    log1 = alone(S, model, inp, yl, [u, 12])
    w = build(S, model, inp, yl)
    w.env.run(till=u)
    v = build(S, "request", FIXED, not yl if what == "style" else yl)
    if what == "trace":
        v.env.trace(C24.Sink())
    elif what == "reset":
        v.env.run(till=1)
        v.env.reset_now(-3)
    elif what == "half":
        v.env.run(till=1)
        v.env = None
    w.env.run(till=12)
    C24.same(S, log1, end(w))
    S.reach(what)


def nested(S, model, other, yl):
    """a process runs a complete simulation in another environment"""
    inp = inputs(S, model)
    out = []
    logs = []
    log2 = alone(S, other, FIXED, yl, [12])
    for inner in (False, True):
        w = build(S, model, inp, yl)

        def p(c):
            yield c.hold(1.5)
            if inner:
                v = build(S, other, FIXED, yl)
                v.env.run(till=12)
                out.append(end(v))
            yield c.hold(1)
            w.V("p")

        C.actor(w.env, p, name="nest")
        w.env.run(till=12)
        logs.append(end(w))
    C24.same(S, *logs)
    C24.same(S, log2, out[0])
    S.reach(model)


def pairs(k):
    n = len(NAMES)
    return [(NAMES[i], NAMES[(i + d) % n]) for i in range(n) for d in k]


def P(k, **kw):
    return [dict(model=a, other=b, **o) for a, b in pairs(k) for o in grid(**kw)]


HARNESSES = [
    H(alternate, P([0], yl=[True], yl2=[True], order=["first"]) + P([5], yl=[True], yl2=[False], order=["last"]) + P([7], yl=[False], yl2=[False], order=["first"]),
      P([0, 1, 2, 3], yl=[True, False], yl2=[True, False], order=["first", "last"]), expect=NAMES),
    H(meddle, grid(model=["request", "wait", "store", "queue"], yl=[True], what=["trace", "reset", "half", "style"]), grid(model=NAMES, yl=[True, False], what=["trace", "reset", "half", "style"]),
      expect=["trace", "reset", "half", "style"]),
    H(nested, P([3], yl=[True]) + P([4], yl=[False]), P([0, 1, 2, 3], yl=[True, False]), expect=NAMES),
]
