"""C01: the order in which events are handled and the clock value at which they are handled"""
from .common import *
from . import common as C

BOUNDS = "3-4 components with simultaneous pending events (5 with the removal harness, 7 in all possible heap orders), events by honored requests, waits and store accesses (13 ways, 5 immediate ones), times real in [0,100], priorities integer in [-2,2], urgent free, up to 2 re-schedulings per component; both process styles"
OUTSIDE = "more simultaneously pending events than that; non-numeric priorities; animation time steps"


def key_le(S, a, b):
    """(time, priority, urgent/scheduling order) of a comes not after b; a, b: (t, p, urgent, seq)"""
    ta, pa, ua, sa = a
    tb, pb, ub, sb = b
    if ua and not ub:
        first = True
    elif ub and not ua:
        first = False
    elif ua:
        first = sa > sb
    else:
        first = sa < sb
    return S.Or(ta < tb, S.And(ta == tb, S.Or(pa < pb, S.And(pa == pb, first))))


class Ledger:
    """what the user scheduled: component -> (time, priority, urgent, order)"""

    def __init__(self, S, env):
        self.S, self.env = S, env
        self.pending = {}
        self.seq = 0
        self.last = 0
        self.handled = []

    def schedule(self, c, t, p=0, u=False):
        self.seq += 1
        self.pending[c] = (t, p, u, self.seq)

    def drop(self, c):
        self.pending.pop(c, None)

    def current(self, c):
        S = self.S
        S.check(c in self.pending, "a component only becomes current when an event was scheduled for it")
        k = self.pending.pop(c)
        S.close(self.env.now(), k[0], "a component becomes current exactly at its scheduled time")
        S.check(self.last <= self.env.now(), "the clock never goes back")
        for o in self.pending.values():
            S.check(key_le(S, k, o), "events are handled in order of time, then priority, then urgency/scheduling order")
        self.last = self.env.now()
        self.handled.append(c)
        S.check(c.status() == "current" and self.env.current_component() is c, "the component being handled is the current one")


def order_static(S, n, yieldless, kind, urg):
    env = C.make_env(yieldless)
    L = Ledger(S, env)

    def script(c):
        L.current(c)
        return
        yield

    cs = []
    for i in range(n):
        t = S.real(f"t{i}", 0, 100)
        p = S.int(f"p{i}", -2, 2)
        u = S.flag(f"u{i}") if urg else False
        c = C.actor(env, script, **{kind: t}, priority=p, urgent=u, name=f"c{i}")
        L.schedule(c, t, p, u)
        cs.append(c)
        S.close(c.scheduled_time(), t, "scheduled_time() is the requested time")
        S.check(c.scheduled_priority() == p, "scheduled_priority() is the requested priority")
    env.run()
    S.check(len(L.handled) == n and not L.pending, "every scheduled event is handled exactly once")
    S.log([c.name() for c in L.handled], env.now())
    S.reach("end")


def order_hold(S, n, m, yieldless, prio):
    """components that hold m times, symbolic durations (zero included), symbolic priorities"""
    env = C.make_env(yieldless)
    L = Ledger(S, env)

    def script(c, i):
        L.current(c)
        for k in range(m):
            d = S.real(f"d{i}.{k}", 0, 10)
            p = S.int(f"p{i}.{k}", -1, 1) if prio else 0
            u = S.flag(f"u{i}.{k}") if not prio else False
            till = (i + k) % 2 == 1
            L.schedule(c, env.now() + d, p, u)
            if till:
                yield c.hold(till=env.now() + d, priority=p, urgent=u)
            else:
                yield c.hold(d, priority=p, urgent=u)
            L.current(c)

    for i in range(n):
        c = C.actor(env, script, i, name=f"c{i}")
        L.schedule(c, 0)
    env.run()
    S.check(len(L.handled) == n * (m + 1) and not L.pending, "every scheduled event is handled exactly once")
    S.log([c.name() for c in L.handled], env.now())
    S.reach("end")


def order_removed(S, n, op, heap=False):
    """one of n pending events is cancelled or moved: the others keep their order.
    heap: every event is later than the one at its parent position in a binary heap, so that all heaps of n
    events occur, without exploring all insertion orders"""
    env = C.make_env(False)
    L = Ledger(S, env)

    def script(c):
        L.current(c)
        return
        yield

    cs = []
    ts = []
    for i in range(n):
        t = S.real(f"t{i}", 0, 100)
        for j, o in enumerate(ts):
            S.assume(o < t if heap and j == (i - 1) // 2 else t != o)
        ts.append(t)
        c = C.actor(env, script, at=t, name=f"c{i}")
        L.schedule(c, t)
        cs.append(c)
    x = cs[S.choice("which", n)]
    if op == "cancel":
        x.cancel()
        L.drop(x)
    elif op == "passivate":
        x.passivate()
        L.drop(x)
    elif op == "activate":
        t = S.real("tnew", 0, 100)
        for o in ts:
            S.assume(t != o)
        x.activate(at=t)
        L.schedule(x, t)
    elif op == "interrupt":
        x.interrupt()
        L.drop(x)
    left = len(L.pending)
    env.run()
    S.check(len(L.handled) == left and not L.pending, "every event that was not cancelled is handled exactly once")
    S.log([c.name() for c in L.handled], env.now())
    S.reach("end")


def order_spawn(S, yieldless):
    """components created and activated by running components, with delays and priorities"""
    env = C.make_env(yieldless)
    L = Ledger(S, env)

    def leaf(c):
        L.current(c)
        return
        yield

    def sleeper(c):
        L.current(c)
        yield c.passivate()
        L.current(c)

    def parent(c, i, s):
        L.current(c)
        d = S.real(f"d{i}", 0, 10)
        p = S.int(f"p{i}", -1, 1)
        u = S.flag(f"u{i}")
        k = C.actor(env, leaf, delay=d, priority=p, urgent=u, name=f"leaf{i}")
        L.schedule(k, env.now() + d, p, u)
        d2 = S.real(f"e{i}", 0, 10)
        p2 = S.int(f"q{i}", -1, 1)
        L.schedule(s, env.now() + d2, p2, False)
        s.activate(delay=d2, priority=p2)
        return
        yield

    ss = [C.actor(env, sleeper, name=f"s{i}") for i in range(2)]
    for s in ss:
        L.schedule(s, 0)
    for i in range(2):
        t = S.real(f"t{i}", 0, 10) if i else 1
        c = C.actor(env, parent, i, ss[i], at=t, name=f"p{i}", priority=5)
        L.schedule(c, t, 5)
    env.run()
    S.check(not L.pending, "every scheduled event is handled")
    S.check(len(L.handled) == 8, "every scheduled event is handled exactly once")
    S.log([c.name() for c in L.handled], env.now())
    S.reach("end")


HONORS = ["release", "release_anonymous", "capacity", "put", "set", "trigger", "wait_for", "leave", "from_store", "to_store", "enter", "store_capacity", "bump"]
AT_ONCE = ["request", "get", "wait", "from_store", "to_store"]


def order_honor(S, kind, yieldless):
    """a request, wait or store access that is honored at some moment is an ordinary event (priority 0) at that moment"""
    env = C.make_env(yieldless)
    sim = C.sim
    L = Ledger(S, env)
    r = sim.Resource("r", env=env, capacity=0 if kind == "capacity" else 1, preemptive=kind == "bump")
    a = sim.Resource("a", capacity=2, anonymous=True, initial_claimed_quantity=2, env=env)
    s = sim.State("s", env=env)
    st = sim.Store("st", capacity=1, env=env)
    item = C.data(env, "item")
    if kind in ("leave", "from_store", "store_capacity"):
        item.enter(st)

    def leaf(c):
        L.current(c)
        return
        yield

    def waiter(c):
        if kind in ("release", "capacity"):
            yield c.request(r, request_priority=1)
        elif kind in ("release_anonymous", "put"):
            yield c.get((a, 1))
        elif kind in ("set", "trigger"):
            yield c.wait(s)
        elif kind == "wait_for":
            yield c.wait_for(lambda: s(), states=(s,))
        elif kind in ("leave", "from_store", "store_capacity"):
            yield c.to_store(st, C.data(env, "new"), priority=2)
        elif kind in ("to_store", "enter"):
            yield c.from_store(st)
        elif kind == "bump":
            yield c.request((r, 1, 5))
            L.current(c)
            L.schedule(c, 90)
            yield c.hold(till=90)
        L.current(c)

    def leaf_at(name):
        d = S.pick("d" + name, [0, 2])
        p = S.int("p" + name, -1, 1)
        u = S.flag("u" + name)
        L.schedule(C.actor(env, leaf, delay=d, priority=p, urgent=u, name=name), env.now() + d, p, u)

    def boss(c):
        L.current(c)
        if kind == "release":
            yield c.request(r)
        w = C.actor(env, waiter, name="w")
        if kind == "bump":
            L.schedule(w, env.now())
        t = S.real("t", 0, 4)
        yield c.hold(t)
        if kind == "bump":
            S.assume(t > 0)
        leaf_at("before")
        own = kind in ("put", "from_store", "to_store", "bump")
        if kind != "bump":
            L.schedule(w, env.now())
        if kind == "release":
            c.release()
        elif kind == "release_anonymous":
            a.release(1)
        elif kind == "capacity":
            r.set_capacity(1)
        elif kind == "set":
            s.set()
        elif kind == "trigger":
            s.trigger()
        elif kind == "wait_for":
            s.set()
        elif kind == "leave":
            item.leave(st)
        elif kind == "enter":
            item.enter(st)
        elif kind == "store_capacity":
            st.set_capacity(2)
        if own:
            L.drop(w)
            L.seq += 1
            if kind == "put":
                first = c
                call = lambda: c.put((a, 1))
            elif kind == "from_store":
                call = lambda: c.from_store(st)
            elif kind == "to_store":
                call = lambda: c.to_store(st, item)
            else:
                call = lambda: c.request((r, 1, 1))
            # both get control at this moment, in the order in which they are scheduled
            order = (w, c) if kind in ("to_store", "from_store", "bump") else (c, w)
            for x in order:
                L.schedule(x, env.now())
            yield call()
            L.current(c)
        else:
            leaf_at("after")

    b = C.actor(env, boss, name="boss")
    L.schedule(b, 0)
    env.run(till=80)
    S.check(not L.pending, f"every scheduled event is handled")
    S.log([c.name() for c in L.handled])
    S.reach(kind)


def order_at_once(S, kind, yieldless):
    """what can be honored at once is an event (priority 0) at now"""
    env = C.make_env(yieldless)
    sim = C.sim
    L = Ledger(S, env)
    r = sim.Resource("r", env=env)
    a = sim.Resource("a", capacity=2, anonymous=True, env=env)
    s = sim.State("s", value=True, env=env)
    st = sim.Store("st", env=env)
    item = C.data(env, "item")
    if kind == "from_store":
        item.enter(st)

    def leaf(c):
        L.current(c)
        return
        yield

    def p(c):
        L.current(c)
        yield c.hold(till=3)
        for i in range(2):
            d = S.pick(f"d{i}", [0, 1])
            pr = S.int(f"p{i}", -1, 1)
            u = S.flag(f"u{i}")
            L.schedule(C.actor(env, leaf, delay=d, priority=pr, urgent=u, name=f"leaf{i}"), env.now() + d, pr, u)
        L.schedule(c, env.now())
        if kind == "request":
            yield c.request(r, priority=-1, urgent=True)
        elif kind == "get":
            yield c.get(a)
        elif kind == "wait":
            yield c.wait(s)
        elif kind == "from_store":
            yield c.from_store(st)
        elif kind == "to_store":
            yield c.to_store(st, item)
        L.current(c)

    L.schedule(C.actor(env, p, name="p"), 0)
    env.run(till=80)
    S.check(not L.pending, "every scheduled event is handled")
    S.log([c.name() for c in L.handled])
    S.reach(kind)


HARNESSES = [
    H(order_honor, grid(kind=HONORS, yieldless=[True, False]), grid(kind=HONORS, yieldless=[True, False]), expect=HONORS),
    H(order_at_once, grid(kind=AT_ONCE, yieldless=[True, False]), grid(kind=AT_ONCE, yieldless=[True, False]), expect=AT_ONCE),
    H(order_static, grid(n=[3], yieldless=[True, False], kind=["at", "delay"], urg=[True]),
      grid(n=[3], yieldless=[True, False], kind=["at", "delay"], urg=[True]) + grid(n=[4], yieldless=[False], kind=["at"], urg=[False]), expect=["end"],
      bounds="n components created with at=/delay=, priority and urgent symbolic"),
    H(order_hold, grid(n=[3], m=[1], yieldless=[True, False], prio=[True]) + grid(n=[2], m=[2], yieldless=[True, False], prio=[False]),
      grid(n=[3], m=[2], yieldless=[True, False], prio=[True]) + grid(n=[2], m=[3], yieldless=[True, False], prio=[False]), expect=["end"],
      bounds="n components each holding m times"),
    H(order_removed, grid(n=[4], op=["cancel", "passivate", "activate", "interrupt"]) + grid(n=[5], op=["cancel"]) + grid(n=[7], op=["cancel"], heap=[True]) + grid(n=[6], op=["activate"], heap=[True]),
      grid(n=[4, 5], op=["cancel", "passivate", "activate", "interrupt"]) + grid(n=[6], op=["cancel"])
      + grid(n=[7], op=["cancel", "passivate", "interrupt", "activate"], heap=[True]) + grid(n=[8, 9], op=["cancel"], heap=[True]), expect=["end"],
      bounds="n pending events at pairwise different times, one of them removed or moved"),
    H(order_spawn, grid(yieldless=[True]), grid(yieldless=[True, False]), expect=["end"], bounds="2 creators, 2 sleepers, 2 spawned components"),
]
