"""C24: the same model in both process styles, with and without trace, with and without monitoring: the same history"""
from .common import *
from . import common as C
from . import C23

BOUNDS = "nineteen small models (holds, activations, requests, multiple and preemptive requests, waits, stores, queues, interrupts, modes and standby, monitors, generators, runs, cancel/terminate, sub processes, main), 2..3 symbolic durations each; trace switched at a symbolic moment, all trace settings; one group (thorough: every single one) of the monitors of a model switched off, on, off and on again, or reset, at symbolic moments; both process styles"
OUTSIDE = "what is traced (the text itself); greenlet switching cost; floating point rounding; animation"


class World(C23.World):
    """one run of a model"""

    def __init__(self, S, inp, yl, act=None):
        super().__init__(S, inp, False, yl)
        self.act = act
        self.final = lambda: None
        self.objs = {}

    def keep(self, obj):
        self.objs[obj.name()] = obj
        return obj

    def switcher(self, c):
        for i in range(2):
            yield c.hold(self.inp[f"g{i}"])
            if self.act is not None:
                self.act(self, i)
            self.report(f"switch {i}")

    def monitors(self):
        out = {}
        for c in self.comps:
            out[f"{c.name()} status"] = c.status
            out[f"{c.name()} mode"] = c.mode
        for n, o in self.objs.items():
            if isinstance(o, C.sim.Monitor):
                out[n] = o
            else:
                if isinstance(o, C.sim.Queue):
                    out[n + " capacity"] = o.capacity
                for m in o.all_monitors():
                    out[f"{n} {m.name()}"] = m
        return out


# ---- further models
def m_store2(w):
    env, i = w.env, w.inp
    st = [w.keep(C.sim.Store(f"st{k}", capacity=1, env=env)) for k in range(2)]
    it = [C.data(env, f"i{k}") for k in range(3)]

    def p(c):
        yield c.hold(i["a"])
        for k in range(3):
            yield c.to_store(st, it[k], priority=-k)
            w.V(f"p in {c.to_store_store().name()}")
            it[k].nr = k

    def q(c):
        yield c.hold(i["b"])
        x = yield c.from_store(st[0], filter=lambda x: True, fail_delay=i["c"])
        w.V(f"q {x.name() if x else None} {c.from_store_item().name() if c.from_store_item() else None}", c.failed())
        x = yield c.from_store(st[::-1], fail_delay=2)
        w.V(f"q2 {x.name() if x else None}", c.failed())
        x = yield c.from_store(st, key=lambda x: -x.creation_time(), fail_delay=2)
        w.V(f"q3 {x.name() if x else None}", c.failed())
        st[0].set_capacity(2)

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q")]
    w.final = lambda: w.V("st " + " ".join(x.name() for s in st for x in s))


def m_request2(w):
    env, i = w.env, w.inp
    r = w.keep(C.sim.Resource("r", capacity=2, env=env))
    a = w.keep(C.sim.Resource("a", capacity=3, anonymous=True, env=env))

    def p(c):
        r_ = yield c.request((r, 2), (a, 1))
        w.V("p got")
        yield c.hold(i["a"])
        c.release((r, 1))
        w.V("p gave")
        yield c.hold(i["b"])
        c.release()
        a.release(1)

    def q(c):
        yield c.request(r, (a, 3), oneof=True)
        w.V(f"q {c.claimed_quantity(r)}", a.available_quantity())
        yield c.hold(i["c"])
        r.set_capacity(1)
        yield c.request((a, 2), mode="m", fail_delay=3)
        w.V(f"q {c.mode()}", c.failed())
        c.release()

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, name="q", priority=1)]
    w.final = lambda: w.V("r", r.claimed_quantity(), a.claimed_quantity(), r.capacity())


def m_preempt(w):
    env, i = w.env, w.inp
    r = w.keep(C.sim.Resource("r", preemptive=True, env=env))

    def p(c, prio):
        while True:
            yield c.request((r, 1, prio))
            w.V(f"{c.name()} got")
            yield c.hold(i["a"] + 1)
            if c.isclaiming(r):
                break
            w.V(f"{c.name()} bumped")
        w.V(f"{c.name()} ready")
        c.release()

    w.comps = [C.actor(env, p, 2, name="p"), C.actor(env, p, 1, name="q", at=i["b"])]


def m_wait2(w):
    env, i = w.env, w.inp
    s, t = w.keep(C.sim.State("s", value=0, env=env)), w.keep(C.sim.State("t", env=env))

    def p(c):
        yield c.hold(i["a"])
        s.set(2)
        yield c.hold(i["b"])
        t.trigger(max=1)
        s.set(3)
        yield c.hold(1)
        t.set()

    def q(c, n):
        yield c.wait((s, lambda v, comp, st: v >= n), (t, True), all=(n == 2), mode="waiting")
        w.V(f"{c.name()} {c.mode()} {s()} {t()}")
        yield c.wait((s, "$ > 2"), t, fail_delay=i["c"])
        w.V(f"{c.name()} {s()} {t()}", c.failed())

    w.comps = [C.actor(env, p, name="p"), C.actor(env, q, 2, name="q2"), C.actor(env, q, 3, name="q3")]


def m_kill(w):
    """cancel, passivate, terminate of other components; another process; sub processes; plain processes"""
    env, i = w.env, w.inp

    def sub(c, t):
        yield c.hold(t)
        w.V(f"{c.name()} sub")
        yield c.standby()
        w.V(f"{c.name()} standby")

    def p(c):
        yield from sub(c, i["a"])
        yield from sub(c, 1)
        w.V(f"{c.name()} end")

    def boss(c):
        yield c.hold(i["b"])
        w.comps[0].cancel()
        if not w.comps[1].isdata():
            w.comps[1].passivate()
        yield c.hold(1)
        w.V("state " + " ".join(x.status() for x in w.comps))
        for x in w.comps[:2]:
            if x.isdata():
                x.activate(process="again", script=p, delay=1)
            elif x.ispassive():
                x.activate()
        yield c.cancel()

    w.comps = [C.actor(env, p, name="p0"), C.actor(env, p, name="p1"), C.actor(env, boss, name="boss"), C.actor(env, p, name="p3", delay=i["c"], urgent=True)]


def m_main(w):
    env, i = w.env, w.inp

    def p(c):
        yield c.hold(i["a"])
        w.V("p")
        env.main().activate()
        yield c.hold(i["b"])
        w.V("p2")
        yield c.passivate()
        w.V("p3")

    p_ = C.actor(env, p, name="p")
    w.comps = [p_]
    env.run()
    w.V("main")
    env.run(i["c"])
    w.V("main2")
    if p_.ispassive():
        p_.activate()
    env.run(till=12)
    w.V("main3")


def m_plain(w):
    """processes without any hold"""
    env, i = w.env, w.inp

    def p(c, n):
        w.V(f"X {n} {c.status()}", c.creation_time())
        if n > 0:
            C.actor(env, p, n - 1, name="x", delay=i["b"])
        return
        yield

    w.comps = [C.actor(env, p, 2, name="x", at=i["a"])]


MODELS = dict(C23.MODELS, store2=m_store2, request2=m_request2, preempt=m_preempt, wait2=m_wait2, kill=m_kill, main=m_main, plain=m_plain)
SELFRUN = ("run", "main")


def inputs(S, model, g=1):
    inp = {k: S.real(k, 0, 4) for k in ("a", "b", "c")}
    if g == 1 and model in ("hold", "generator", "kill"):
        inp["c"] = 2.25
        if model != "hold":
            inp["a"] = 0.75
    inp["g0"] = S.real("g0", 0, 4) if g >= 1 or model == "run" else None
    inp["g1"] = S.real("g1", 0, 4) if g >= 2 else 1.5
    if model == "mode":
        S.assume(inp["a"] + inp["b"] > 0)
    if model == "main":
        S.assume(inp["a"] > 0)
    return inp


def run(S, model, inp, yl, act=None, before=None):
    w = World(S, inp, yl, act)
    if before is not None:
        before(w)
    w.comps = []
    MODELS[model](w)
    if model not in SELFRUN:
        if inp["g0"] is not None:
            w.comps.append(C.actor(w.env, w.switcher, name="switcher"))
        w.env.run(till=12)
    w.L("finish")
    return w


def same(S, a, b):
    S.check([x[0] for x in a] == [x[0] for x in b], "the same events in the same order")
    for x, y in zip(a, b):
        S.check(len(x) == len(y), "as many values")
        for u, v in zip(x[1:], y[1:]):
            if u is None or isinstance(u, (str, bool)):
                S.check(u is v or u == v, f"{x[0]}: the same value")
            elif u != u:
                S.check(v != v, f"{x[0]}: nan in both")
            else:
                S.close(u, v, f"{x[0]}: the same value")


def stats(w, names):
    """all that was registered by the monitors"""
    ms = w.monitors()
    for n in names:
        x, t = ms[n].xt(force_numeric=False)
        for xi, ti in zip(x, t):
            if isinstance(xi, (str, bool)) or xi is None:
                w.V(f"{n} {xi}", ti)
            else:
                w.V(n, xi, ti)


def style(S, model, g=0):
    inp = inputs(S, model, g)
    logs = []
    for yl in (True, False):
        w = run(S, model, inp, yl)
        stats(w, w.monitors())
        w.final()
        logs.append(w.log)
    same(S, *logs)
    S.reach(model)


class Sink:
    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += 1


def tracing(S, model, yl, how, g=1):
    """how on: always; later: at g0, off at g1; early: on, off at g0, on again at g1"""
    inp = inputs(S, model, 0 if how == "on" else g)
    line, stand, sup = S.pick("flags", [(False, True, False), (True, False, True)] if g == 1 else [(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)])
    sink = Sink()

    def act(w, i):
        w.env.trace(sink if (i == 0) == (how == "later") else False)
        w.env.suppress_trace_linenumbers(line)
        w.comps[0].suppress_trace(sup)

    def before(w):
        w.env.trace(sink if how != "later" else False)
        w.env.suppress_trace_standby(stand)

    a = run(S, model, inp, yl)
    b = run(S, model, inp, yl, act if how != "on" else None, before)
    for w in (a, b):
        stats(w, w.monitors())
        w.final()
    same(S, a.log, b.log)
    if sink.n > 5:
        S.reach("traced")
    S.reach(model)


def monitoring(S, model, yl, what, how, g=1):
    """what: index of the group of monitors, or all (None); how: off then on, reset then reset, stats_only"""
    inp = inputs(S, model, g)
    a = run(S, model, inp, yl)

    def act(w, i):
        ms = w.monitors()
        for k, n in enumerate(ms):
            if what is None or k % what[1] == what[0]:
                hit.add(n)
                if how == "off":
                    ms[n].monitor(i == 1)
                elif how == "offon":
                    ms[n].monitor(False)
                    ms[n].monitor(True)
                elif how == "reset":
                    ms[n].reset(monitor=(i == 1))
                else:
                    ms[n].reset(stats_only=True)

    hit = set()
    b = run(S, model, inp, yl, act)
    same(S, *([x for x in w.log if x[0] != "los"] for w in (a, b)))  # los: statistics of the monitors that are switched
    a.log, b.log = [], []
    rest = [n for n in a.monitors() if n not in hit]
    for w in (a, b):
        stats(w, rest)
    same(S, a.log, b.log)
    S.reach(model)


NAMES = list(MODELS)
SW = [n for n in NAMES if n not in SELFRUN]
HARNESSES = [
    H(style, grid(model=NAMES), grid(model=NAMES, g=[0, 2]), expect=NAMES),
    H(tracing, grid(model=NAMES, yl=[True], how=["on"]) + grid(model=SW, yl=[False], how=["later"]), grid(model=NAMES, yl=[True, False], how=["on"], g=[2]) + grid(model=SW, yl=[True, False], how=["later", "early"], g=[2]), expect=["traced"]),
    H(monitoring, grid(model=SW, yl=[True], what=[None], how=["off"]) + grid(model=SW, yl=[True], what=[(0, 2)], how=["reset"]) + grid(model=SW, yl=[True], what=[(1, 2)], how=["stats"]),
      grid(model=SW, yl=[True, False], what=[None, (0, 3), (1, 3), (2, 3)], how=["off", "reset", "offon", "stats"], g=[2]), expect=SW),
]
