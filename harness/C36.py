"""C36: the trace, read back as text, against a log that is kept by the components themselves"""
import io
from .common import *
from . import common as C

BOUNDS = "a component that does 3 (thorough: 4) operations (hold, passivate, standby, activate with and without delay, interrupt, resume, cancel, enter, leave, request, release, get, put, wait, set, to and from a store) with symbolic durations, amid three other components (holding, waiting for a resource, data), the trace switched off and on again, components whose trace is suppressed, after a reset of the clock; both process styles"
OUTSIDE = "source line numbers; the layout in columns; the legend; animation"
ACTIONS = ["hold", "till", "passivate", "standby", "activate", "delayed", "interrupt", "resume", "cancel", "enter", "leave", "request", "release", "set", "wait", "get", "store", "fail", "waitfail", "capacity", "silent", "mode"]


def entries(S, text):
    """('current', name, time, standby) or ('line', words without numbers, numbers)"""
    out = []
    for line in text.split("\n"):
        w = line.split()
        if len(w) >= 3 and w[2] == "current":
            n = S.numbers(w[0])
            S.check(len(n) == 1, "one time on the line of a component that becomes current")
            out.append(("current", w[1], n[0], "(standby)" in w))
        elif w:
            line = line.replace("!", " ").replace("=", " ")
            words = [x for x in line.replace("+", " ").replace("\u00ab", " \u00ab").replace("\u00bb", "\u00bb ").split() if not is_number(S, x)]
            out.append(("line", words, S.numbers(line)))
    return out


def is_number(S, w):
    return len(S.numbers(w)) > 0


def trace(S, yl, n, ops, reset=False, off=False, quiet=False, fully=False):
    sim = C.sim
    env = C.make_env(yl)
    if reset:
        env.run(till=3)
        env.reset_now(S.real("new", -5, 5))
    out = io.StringIO()
    q = sim.Queue("q", env=env)
    r = sim.Resource("r", env=env)
    r2 = sim.Resource("full", capacity=0, env=env)
    an = sim.Resource("an", capacity=9, anonymous=True, env=env)
    s = sim.State("s", value=0, env=env)
    st = sim.Store("st", env=env)
    item = C.data(env, "item")
    want = []
    t0 = env.now()
    tracing = [True]

    def current(c, standby=False):
        if tracing[0] and not (quiet and c is h):
            want.append(("current", c.name(), env.now(), standby))

    def line(c, words, *nums):
        """words that have to be there, in this order"""
        if tracing[0] and not (quiet and env.current_component() is h):
            want.append(("line", words.split(), list(nums)))

    def due(t):
        """numbers on the line of something scheduled for t"""
        now = env.now()
        return [t] if t == now else [t - now, t]

    def holder(c):
        current(c)
        while True:
            d = h.d
            line(c, "h hold scheduled for", *due(env.now() + d))
            yield c.hold(d)
            current(c)
            if not len(q):
                line(c, "h enter q")
                c.enter(q)

    def blocked(c):
        current(c)
        line(c, "b request from full", 1)
        line(c, "b request scheduled for", inf)
        yield c.request(r2)
        current(c)
        line(c, "b release from full", 1)
        line(c, "b ended")

    def process(c):
        current(c)
        for i in range(n):
            op = ops[S.choice(f"op{i}", len(ops))]
            now = env.now()
            if off and i == 1:
                env.trace(False)
                tracing[0] = False
            if off and i == 2:
                env.trace(out)
                tracing[0] = True
            if op == "hold":
                d = S.real(f"d{i}", 0, 4)
                line(c, "a hold scheduled for", *due(now + d))
                yield c.hold(d, priority=[0, 1][i % 2])
                current(c)
            elif op == "till":
                t = S.real(f"t{i}", 0, 6) + t0
                S.assume(t >= now)
                line(c, "a hold scheduled for", *due(t))
                yield c.hold(till=t, urgent=True)
                current(c)
            elif op == "passivate":
                line(c, "a passivate")
                S.reach("passivate")
                yield c.passivate()
                current(c)
            elif op == "standby":
                line(c, "standby")
                yield c.standby()
                current(c, True)
            elif op == "activate":
                S.assume(not h.isdata())
                line(h, "h activate scheduled for", *due(now))
                h.activate()
            elif op == "delayed":
                S.assume(not h.isdata())
                line(h, "h activate scheduled for", *due(now + 2))
                h.activate(delay=2)
            elif op == "interrupt":
                S.assume(h.isscheduled() or h.isinterrupted())
                line(h, "h interrupt" + (f".{h.interrupt_level() + 1}" if h.interrupt_level() else ""))
                h.interrupt()
            elif op == "resume":
                S.assume(h.isinterrupted())
                if h.interrupt_level() > 1:
                    line(h, "h resume")
                else:
                    line(h, "h resume")
                    line(h, "h hold scheduled for", *due(now + h.remaining_duration()))
                h.resume()
            elif op == "cancel":
                S.assume(not h.isdata())
                line(h, "cancel h")
                h.cancel()
            elif op == "enter":
                S.assume(item not in q)
                line(item, "item enter q")
                item.enter(q)
            elif op == "leave":
                S.assume(item in q)
                line(item, "item leave q")
                item.leave(q)
            elif op == "request":
                S.assume(not c.isclaiming(r))
                line(c, "a request from r", 1)
                line(c, "a claim from r", 1)
                line(c, "a request honor r scheduled for", now)
                yield c.request(r)
                current(c)
            elif op == "release":
                S.assume(c.isclaiming(r))
                line(c, "a release from r", 1)
                c.release(r)
            elif op == "set":
                line(s, "s set value", i + 1)
                s.set(i + 1)
            elif op == "wait":
                line(c, "a wait honor scheduled for", now)
                yield c.wait((s, s()))
                current(c)
            elif op == "get":
                k = S.pick(f"k{i}", [1, 2])
                line(c, "a get from an", k)
                line(c, "a claim from an", k)
                line(c, "a request honor an scheduled for", now)
                yield c.get((an, k))
                current(c)
            elif op == "store":
                x = C.data(env, f"x{i}")
                line(x, f"x{i} create")
                line(c, f"a x{i} to_store (st)")
                line(x, f"x{i} enter st")
                line(c, f"a to_store (st) honor with x{i} scheduled for", now)
                yield c.to_store(st, x)
                current(c)
            elif op in ("fail", "waitfail"):
                d = S.real(f"d{i}", 0, 4)
                if op == "fail":
                    S.assume(r2.capacity() == 0)
                    line(c, "a request from full", 1)
                    line(c, "a request scheduled for", *due(now + d))
                    yield c.request(r2, fail_delay=d)
                else:
                    line(c, "a wait scheduled for", *due(now + d))
                    yield c.wait((s, -5), fail_delay=d)
                current(c)
                line(c, "a request failed" if op == "fail" else "a wait failed")
            elif op == "capacity":
                S.assume(r2.capacity() == 0)
                line(b, "b claim from full", 1)
                line(b, "b request honor full scheduled for", now)
                r2.set_capacity(1)
            elif op == "silent":
                bad = S.flag(f"bad{i}")
                try:
                    with env.suppress_trace():
                        C.data(env, "new").enter(q)
                        if bad:
                            raise KeyError
                except KeyError:
                    pass
                S.check(bool(env.trace()) == tracing[0], "the trace is as it was")
            elif op == "mode":
                line(c, "a hold scheduled for mode busy", *due(now + 1))
                yield c.hold(1, mode="busy")
                current(c)
            S.reach(op)
        if c.isclaiming(r):
            line(c, "a release from r", 1)
        line(c, "a ended")

    env.suppress_trace_linenumbers(True)
    env.suppress_trace_standby(not fully)
    env.trace(out)
    h = None
    line(None, "h create")
    line(None, "h activate scheduled for", t0)
    h = C.actor(env, holder, name="h", suppress_trace=quiet)
    h.d = S.real("dh", 2, 5)
    line(None, "b create")
    line(None, "b activate scheduled for", t0)
    b = C.actor(env, blocked, name="b")
    line(None, "a create")
    line(None, "a activate scheduled for", t0)
    a = C.actor(env, process, name="a")
    e = S.real("e", 0, 5)
    line(None, "main run scheduled for", *due(t0 + e))
    env.run(e)
    current(env.main())
    env.trace(False)
    got = entries(S, out.getvalue())
    if not fully:
        # a component that gets control from standby and goes into standby again right away is not shown
        shown = []
        for w in want:
            if w[0] == "line" and w[1] == ["standby"] and shown and shown[-1][0] == "current" and shown[-1][3]:
                shown.pop()
                S.reach("not shown")
            else:
                shown.append(w)
        want = shown
    S.check(len(got) == len(want), "as many lines as there were events and actions")
    for g, w in zip(got, want):
        S.check(g[0] == w[0], f"the same kinds of lines, in the same order")
        if g[0] == "current":
            S.check(g[1] == w[1] and g[3] == w[3], "the component that is current")
            S.near(g[2], w[2], "the time at which it is current", 0.0005)
        else:
            i = 0
            for x in g[1]:
                if i < len(w[1]) and x == w[1][i]:
                    i += 1
            S.check(i == len(w[1]), f"the component and what happens: {w[1]}")
            S.check(len(g[2]) >= len(w[2]), f"the numbers on the line: {w[1]}")
            for x, y in zip(g[2], w[2]):
                if y is inf:
                    S.check(x == inf, "never")
                else:
                    S.near(x, y, "the number on the line", 0.0005)
    S.reach("end")


_t = ["hold", "till", "passivate", "standby", "activate", "delayed", "interrupt", "resume", "cancel"]
HARNESSES = [
    H(trace, grid(yl=[True], n=[2], ops=[ACTIONS]) + grid(yl=[False], n=[1], ops=[ACTIONS]) + grid(yl=[False], n=[2], ops=[_t[2:]]) + grid(yl=[True], n=[1], ops=[_t], reset=[True]) + grid(yl=[True], n=[3], ops=[["hold", "activate", "enter", "request"]], off=[True]) + grid(yl=[True, False], n=[2], ops=[["hold"] + _t[2:]], quiet=[True]) + grid(yl=[True], n=[3], ops=[["hold", "standby"]], fully=[True, False]),
      grid(yl=[True, False], n=[3], ops=[ACTIONS]) + grid(yl=[True], n=[3], ops=[ACTIONS], reset=[True]), expect=ACTIONS + ["end"], bounds="n operations"),
]
