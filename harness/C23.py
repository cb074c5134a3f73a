"""C23: the same model with and without resets of the clock, compared event by event"""
from .common import *
from . import common as C

BOUNDS = "twelve small models (holds, activations, requests, waits, stores, queues, interrupts, modes and standby, monitors, generators, runs), 2..3 symbolic durations each, one (thorough: two) resets at a symbolic moment to a symbolic value by a component or by main between runs; both process styles"
OUTSIDE = "the registered times in Monitor.xt(), Monitor.tx(), Monitor.t() and Environment.peek(), that are on the original time scale (documented); floating point rounding; animation"


class World:
    """one run of a model; T(t): a reported time on the original time scale"""

    def __init__(self, S, inp, reset, yl, nresets=1):
        self.S, self.inp, self.do, self.yl = S, inp, reset, yl
        self.env = C.make_env(yl)
        self.base = 0
        self.log = []
        self.nresets = nresets
        self.who = None

    def keep(self, obj):
        return obj

    def now(self):
        return self.env.now() + self.base

    def T(self, t):
        return t if t in (inf, -inf) else t + self.base

    def L(self, label, *times):
        self.log.append((label, self.now()) + tuple(self.T(t) for t in times))

    def V(self, label, *values):
        self.log.append((label, self.now()) + values)

    def reset(self, i=0):
        if self.do:
            new = self.inp[f"new{i}"]
            now = self.env.now()
            how = self.inp["how"]
            self.env.reset_now(new if how == 0 else (lambda: new))
            self.S.check(self.env.now() == new, "now is what it is reset to")
            self.base = self.base + now - new

    def resetter(self, c):
        for i in range(self.nresets):
            yield c.hold(self.inp[f"g{i}"])
            self.report("before")
            self.reset(i)
            self.report("after")

    def report(self, label):
        """everything that can be asked about all components"""
        for c in self.comps:
            self.L(f"{label} {c.name()}", c.creation_time(), c.scheduled_time(), c.mode_time())
            self.V(f"{label} {c.name()} {c.status()} {c.mode()}", c.remaining_duration())
            for q in sorted(c.queues(), key=lambda q: q.name()):
                self.L(f"{label} {c.name()} in {q.name()}", c.enter_time(q))


# ---- models: w.inp has a, b, c >= 0
def m_hold(w):
    env, i = w.env, w.inp

    def p(c):
        w.L("start")
        yield c.hold(i["a"])
        w.L("held")
        yield c.hold(till=env.now() + i["b"])
        w.L("held till")
        yield c.hold(lambda: 1)
        w.L("end", c.creation_time())

    def q(c):
        t = env.now() + i["c"]
        yield c.hold(i["c"])
        w.L("q")
        yield c.activate(at=env.now() + 2)
        w.L("q again")

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q", at=env.now() + 1)]


def m_activate(w):
    env, i = w.env, w.inp

    def p(c):
        w.L("p start")
        yield c.passivate()
        w.L("p activated")
        yield c.passivate()
        w.L("p activated again")

    def boss(c):
        yield c.hold(i["a"])
        w.comps[0].activate(at=env.now() + i["b"])
        w.L("activated", w.comps[0].scheduled_time())
        yield c.hold(6)
        w.comps[0].activate(delay=i["c"], at=env.now())
        w.L("activated", w.comps[0].scheduled_time())
        z = C.actor(env, p, name="z", at=env.now() + i["b"], delay=1)
        w.L("created", z.scheduled_time(), z.creation_time())
        z = C.actor(env, p, name="y", delay=i["b"])
        w.L("created", z.scheduled_time(), z.creation_time())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, boss, name="boss")]


def m_request(w):
    env, i = w.env, w.inp
    r = w.keep(C.sim.Resource("r", env=env))

    def p(c):
        yield c.request(r)
        yield c.hold(i["a"])
        c.release()
        w.L("p released")

    def q(c):
        yield c.request(r, fail_at=env.now() + i["b"])
        w.V("q", c.failed())
        if not c.failed():
            yield c.hold(1)
        yield c.request((r, 1, 2), fail_delay=i["c"])
        w.V("q2", c.failed())
        w.L("q3")

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]
    w.final = lambda: w.V("r", r.claimed_quantity.mean(), r.requesters().length_of_stay.mean(), r.occupancy.mean(), r.claimed_quantity.duration())


def m_wait(w):
    env, i = w.env, w.inp
    s = w.keep(C.sim.State("s", env=env))

    def p(c):
        yield c.hold(i["a"])
        s.set()
        yield c.hold(1)
        s.reset()
        yield c.hold(1)
        s.trigger(max=1)

    def q(c):
        yield c.wait(s, fail_at=env.now() + i["b"])
        w.V("q", c.failed())
        yield c.wait((s, False), fail_delay=i["c"])
        w.V("q2", c.failed())
        yield c.wait(s, fail_at=env.now() + 3)
        w.V("q3", c.failed())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]
    w.final = lambda: w.V("s", s.value.mean(), s.waiters().length.mean(), s.waiters().length_of_stay.mean())


def m_wait_for(w):
    env, i = w.env, w.inp
    s = w.keep(C.sim.State("s", env=env))

    def p(c):
        yield c.hold(i["a"])
        s.set()
        yield c.hold(1)
        s.reset()

    def q(c):
        yield c.wait_for(lambda: s(), states=(s,), fail_at=env.now() + i["b"])
        w.V("q", c.failed())
        yield c.wait_for(lambda: not s(), states=(s,), fail_delay=i["c"])
        w.V("q2", c.failed())
        yield c.wait_for(lambda: s(), states=(s,), fail_at=env.now() + 3)
        w.V("q3", c.failed())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]
    w.final = lambda: w.V("s", s.value.mean(), s.waiters().length.mean(), s.waiters().length_of_stay.mean())


def m_store(w):
    env, i = w.env, w.inp
    st = w.keep(C.sim.Store("st", capacity=1, env=env))

    def p(c):
        yield c.hold(i["a"])
        yield c.to_store(st, C.data(env, "i1"))
        w.L("p in")
        yield c.to_store(st, C.data(env, "i2"), fail_at=env.now() + i["b"])
        w.V("p in2", c.failed())

    def q(c):
        yield c.from_store(st, fail_at=env.now() + i["c"])
        w.V("q", c.failed())
        yield c.hold(1)
        yield c.from_store(st, fail_delay=2)
        w.V("q2", c.failed())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]
    w.final = lambda: w.V("st", st.length.mean(), st.length_of_stay.mean(), len(st))


def m_queue(w):
    env, i = w.env, w.inp
    q = w.keep(C.sim.Queue("q", env=env))
    d = [C.data(env, f"d{k}") for k in range(2)]

    def p(c):
        d[0].enter(q)
        yield c.hold(i["a"])
        d[1].enter(q)
        yield c.hold(i["b"])
        w.L("enter", d[0].enter_time(q), d[1].enter_time(q))
        d[0].leave(q)
        w.V("los", q.length_of_stay.maximum())
        yield c.hold(i["c"])
        d[1].leave(q)
        w.V("los", q.length_of_stay.maximum(), q.length_of_stay.mean(), q.length.mean(), q.length.duration())

    w.comps = [C.actor(env, p, name="p")] + d
    w.final = lambda: w.V("q", q.length.mean(), q.length_of_stay.number_of_entries(), q.arrival_rate() if w.now() > 0 else 0, q.departure_rate() if w.now() > 0 else 0)


def m_interrupt(w):
    env, i = w.env, w.inp

    def p(c):
        yield c.hold(i["a"])
        w.L("p held")
        yield c.hold(2)
        w.L("p end")

    def boss(c):
        yield c.hold(i["b"])
        x = w.comps[0]
        if x.isscheduled():
            x.interrupt()
            w.V("interrupted", x.remaining_duration())
            yield c.hold(i["c"])
            w.V("still", x.remaining_duration())
            x.resume()
            w.L("resumed", x.scheduled_time())
            yield c.hold(0)
            if x.isscheduled():
                x.remaining_duration(3)
                w.L("remaining set", x.scheduled_time())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, boss, name="boss")]


def m_mode(w):
    env, i = w.env, w.inp

    def p(c):
        c.set_mode("one")
        w.L("mode", c.mode_time())
        yield c.hold(i["a"], mode="two")
        w.L("mode", c.mode_time())
        yield c.hold(i["b"], mode="three")
        w.L("mode", c.mode_time())

    def q(c):
        n = 0
        while w.now() < 4:
            yield c.standby()
            n += 1
        w.V("standby", n)

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]

    def final():
        for x in w.comps:
            for v in x.status.values():
                w.V(f"{x.name()} {v}", x.status.value_duration(v))
        for v in ("one", "two", "three"):
            w.V(v, w.comps[0].mode.value_duration(v))

    w.final = final


def m_monitor(w):
    env, i = w.env, w.inp
    m = w.keep(C.sim.Monitor("m", level=True, initial_tally=1, env=env))
    n = w.keep(C.sim.Monitor("n", env=env))
    marks = []

    def p(c):
        yield c.hold(i["a"])
        m.tally(5)
        n.tally(2)
        marks.append(w.now())
        yield c.hold(i["b"])
        m.tally(2)
        n.tally(7)
        marks.append(w.now())
        yield c.hold(1)

    w.comps = [C.actor(env, p, name="p")]

    def final():
        t1, t2 = marks
        w.V("m", m.mean(), m.duration(), m.value_duration(5), n.mean(), n.number_of_entries())
        w.L("start", m.start_time(), n.start_time())
        for t in (0, t1, (t1 + t2) / 2, t2):
            w.V("m(t)", m(t - w.base))
        w.V("slice", m[t1 - w.base : t2 - w.base].duration(), m[t1 - w.base : t2 - w.base + 0.5].value_duration(5), n[t1 - w.base : t2 - w.base].number_of_entries())
        w.V("slice", m[t1 / 2 - w.base :].duration(), n[t2 - w.base :].number_of_entries(), m[: t2 - w.base].duration())

    w.final = final


def m_generator(w):
    env, i = w.env, w.inp

    class X(C.sim.Component):
        def setup(self, n):
            w.L(f"X{n}", self.creation_time())

    C.sim.ComponentGenerator(X, generator_name="g1.", iat=1 + i["a"], till=5, at_end=lambda: w.L("end 1"), n=1, env=env)
    C.sim.ComponentGenerator(X, generator_name="g2.", moments=[2, 1 + i["b"]], at_end=lambda: w.L("end 2"), n=2, env=env)

    def p(c):
        yield c.hold(3)
        C.sim.ComponentGenerator(X, generator_name="g3.", iat=2, at=env.now() + i["b"], duration=3, at_end=lambda: w.L("end 3"), n=3, env=env)
        C.sim.ComponentGenerator(X, generator_name="g4.", equidistant=True, till=env.now() + 3, number=2, at_end=lambda: w.L("end 4"), n=4, env=env)

    w.comps = [C.actor(env, p, name="p")]


def m_run(w):
    """main resets between runs"""
    env, i = w.env, w.inp

    def p(c):
        yield c.hold(i["a"])
        w.L("p")
        yield c.hold(i["b"])
        w.L("p2")

    w.comps = [C.actor(env, p, name="p")]
    env.run(till=env.now() + i["g0"])
    w.L("run")
    w.report("before")
    w.reset(0)
    w.report("after")
    env.run(till=env.now() + i["c"])
    w.L("run till")
    env.run(duration=1)
    w.L("run duration")
    w.reset(w.nresets - 1)
    env.run(till=env.now() + 2)
    w.L("run till")


MODELS = dict(hold=m_hold, activate=m_activate, request=m_request, wait=m_wait, wait_for=m_wait_for, store=m_store, queue=m_queue, interrupt=m_interrupt, mode=m_mode, monitor=m_monitor, generator=m_generator, run=m_run)


def compare(S, model, yl, nresets=1, grid_=False):
    inp = {k: S.real(k, 0, 4) for k in ("a", "b", "c")} if not grid_ else {k: S.pick(k, [0, 1, 2.5]) for k in ("a", "b", "c")}
    for i in range(nresets):
        inp[f"g{i}"] = S.real(f"g{i}", 0, 6)
        inp[f"new{i}"] = S.real(f"new{i}", -3, 9)
    inp["how"] = S.choice("how", 2) if model == "hold" else 0
    if model == "mode":
        S.assume(inp["a"] + inp["b"] > 0)
    logs = []
    for reset in (False, True):
        w = World(S, inp, reset, yl, nresets)
        w.final = lambda: None
        MODELS[model](w)
        if model != "run":
            w.comps.append(C.actor(w.env, w.resetter, name="resetter", priority=inp.get("prio", 0)))
            w.env.run(till=w.env.now() + 14)
        w.L("finish")
        w.final()
        logs.append(w.log)
    a, b = logs
    S.check([x[0] for x in a] == [x[0] for x in b], "the same events in the same order")
    for x, y in zip(a, b):
        S.check(len(x) == len(y), "as many values")
        for u, v in zip(x[1:], y[1:]):
            if u is None or isinstance(u, (str, bool)):
                S.check(u is v or u == v, f"{x[0]}: the same value")
            elif u != u:
                S.check(v != v, f"{x[0]}: nan in both")
            else:
                S.close(u, v, f"{x[0]}: the same, apart from the shift of the clock")
    S.reach(model)


NAMES = list(MODELS)
HARNESSES = [
    H(compare, grid(model=NAMES, yl=[True]) + grid(model=["hold", "request", "interrupt", "generator", "run"], yl=[False])
      + grid(model=["request", "store", "queue", "interrupt", "mode", "monitor", "run"], yl=[True], nresets=[2]),
      grid(model=NAMES, yl=[True, False]) + grid(model=NAMES, yl=[True], nresets=[2]), expect=NAMES),
]
