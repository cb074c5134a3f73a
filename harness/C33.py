"""C33: Event objects: the action is done exactly once, at its moment, in event order, unless cancelled"""
from .common import *
from . import common as C

BOUNDS = "up to 3 events with symbolic moments, delays and priorities, urgent or not, created before the run or by a process; one boss that does one or two of cancel, activate (now, later, at), interrupt, resume, passivate, hold, a new action, at symbolic moments; actions that create, cancel or move other events; both process styles"
OUTSIDE = "actions that use process interaction of the event itself (hold and the like), that are not allowed by the documentation"


def order(S, yl, n=3, pre=True):
    """actions in order of time, priority, urgency, creation"""
    env = C.make_env(yl)
    log, evs = [], []
    t0 = 0
    if not pre:
        t0 = S.real("t0", 0, 2)
        env.run(till=t0)
    for i in range(n):
        kw = {}
        form = S.choice(f"form{i}", 3) if i else 0
        d = S.real(f"d{i}", 0, 4)
        at = t0
        if form == 0:
            kw["delay"] = d if pre else (lambda d=d: d)
            at = t0 + d
        elif form == 1:
            kw["at"] = t0 + d
            at = t0 + d
        if i < 2:
            kw["priority"] = S.real(f"p{i}", -1, 1)
        kw["urgent"] = S.flag(f"u{i}") if i else False
        e = C.sim.Event(lambda i=i: log.append((i, env.now(), env.current_component())), name=f"e{i}", env=env, **kw)
        evs.append((at, kw.get("priority", 0), -i if kw["urgent"] else i, kw["urgent"], e))
        S.check(not e.action_taken(), "not taken yet")
        S.check(e.isscheduled() and not e.isdata(), "scheduled")
        S.close(e.scheduled_time(), at, "scheduled when asked")
    if S.flag("split"):
        stop = S.real("stop", 0, 4)
        S.assume(stop >= 0)
        env.run(till=t0 + stop)
        for at, _, _, _, e in evs:
            S.check(e.action_taken() == (at <= t0 + stop), "taken if and only if its time has come") if at != t0 + stop else None
    env.run()
    S.check(len(log) == n, "each action once")
    for (i, now, cur), nxt in zip(log, log[1:] + [None]):
        at, prio, seq, urg, e = evs[i]
        S.close(now, at, "at its moment")
        S.check(cur is e, "the event is the current component")
        S.check(e.action_taken(), "taken")
        S.check(e.isdata(), "finished")
        if nxt is not None:
            b = evs[nxt[0]]
            S.check(S.Or(at < b[0], S.And(at == b[0], S.Or(prio < b[1], S.And(prio == b[1], (urg, ) > (b[3], ) or (urg == b[3] and seq < b[2]))))), "in order of time, priority, urgency and creation")
    S.reach("order")


ACTS = ["cancel", "activate", "later", "at", "interrupt", "passivate", "action", "nothing"]


def boss(S, yl, k=1):
    """whatever is done to an event later"""
    env = C.make_env(yl)
    log = []
    d = S.real("d", 0, 4)
    e = C.sim.Event(lambda: log.append(("old", env.now())), "the action", delay=d, name="e", env=env)
    want = []
    state = ["scheduled", d, "old"]  # status, time, action

    def due(now):
        """the event happened before now"""
        if state[0] == "scheduled" and state[1] < now:
            want.append((state[2], state[1]))
            state[0] = "data"

    def p(c):
        for j in range(k):
            yield c.hold(S.real(f"g{j}", 0, 3))
            now = env.now()
            S.assume(S.Not(state[1] == now) if state[0] == "scheduled" else True)
            due(now)
            S.check(e.action_taken() == (len(want) > 0), "taken if and only if it happened")
            S.check(e.status() == state[0], "status")
            act = S.pick(f"act{j}", ACTS)
            x = S.real(f"x{j}", 0, 3)
            if act == "cancel":
                e.cancel()
                state[0] = "data"
            elif act == "activate":
                e.activate()
                state[:2] = ["scheduled", now]
            elif act == "later":
                e.activate(delay=x)
                state[:2] = ["scheduled", now + x]
            elif act == "at":
                e.activate(at=now + x)
                state[:2] = ["scheduled", now + x]
            elif act == "interrupt" and state[0] == "scheduled":
                e.interrupt()
                S.check(e.isinterrupted(), "interrupted")
                yield c.hold(x)
                S.check(len(log) == len(want), "not while interrupted")
                state[1] = env.now() + (state[1] - now)
                e.resume()
            elif act == "passivate" and state[0] == "scheduled":
                e.passivate()
                state[0] = "passive"
            elif act == "action":
                e.action(lambda: log.append(("new", env.now())))
                e.action_string("the new action")
                S.check(e.action_string() == "the new action", "action_string")
                state[2] = "new"
            S.check(e.status() == state[0], "status after " + act)
            if state[0] == "scheduled":
                S.close(e.scheduled_time(), state[1], "scheduled time after " + act)
            S.reach(act)

    C.actor(env, p, name="boss")
    env.run(till=30)
    due(30)
    S.check(len(log) == len(want), "as many actions as expected")
    for (a, t), (b, u) in zip(log, want):
        S.check(a == b, "the action that was set")
        S.close(t, u, "at its moment")
    S.check(e.action_taken() == (len(want) > 0), "action_taken")


def actions(S, yl):
    """actions that create, cancel or move other events, and change the model"""
    env = C.make_env(yl)
    log = []
    a, b, x = S.real("a", 0, 4), S.real("b", 0, 4), S.real("x", 0, 4)
    S.assume(S.Not(a == b))
    what = S.pick("what", ["create", "cancel", "move", "set", "release", "enter"])
    s = C.sim.State("s", env=env)
    r = C.sim.Resource("r", capacity=0, env=env)
    q = C.sim.Queue("q", env=env)

    def act():
        log.append(("e0", env.now()))
        if what == "create":
            C.sim.Event(lambda: log.append(("new", env.now())), delay=x, env=env)
        elif what == "cancel":
            e1.cancel()
        elif what == "move":
            e1.activate(delay=x)
        elif what == "set":
            s.set()
        elif what == "release":
            r.set_capacity(1)
        elif what == "enter":
            e1.enter(q)

    def p(c):
        if what == "set":
            yield c.wait(s)
        elif what == "release":
            yield c.request(r)
        else:
            yield c.passivate()
        log.append(("p", env.now()))

    C.actor(env, p, name="p")
    e0 = C.sim.Event(act, delay=a, name="e0", env=env)
    e1 = C.sim.Event(lambda: log.append(("e1", env.now())), delay=b, name="e1", env=env)
    env.run(till=40)
    want = [("e0", a), ("e1", b)]
    if what == "create":
        want.append(("new", a + x))
    elif what == "cancel":
        if a < b:
            want = want[:1]
    elif what == "move":
        if a < b:
            want = [want[0], ("e1", a + x)]
        else:
            want.append(("e1", a + x))
    elif what in ("set", "release"):
        want.append(("p", a))
    elif what == "enter":
        S.check(list(q) == [e1], "in the queue")
    S.check(sorted(l[0] for l in log) == sorted(l[0] for l in want), "the actions")
    for nm in set(l[0] for l in want):
        for (_, t), (_, u) in zip([l for l in log if l[0] == nm], [l for l in want if l[0] == nm]):
            S.close(t, u, f"{nm} at its moment")
    S.reach(what)


HARNESSES = [
    H(order, grid(yl=[True, False], n=[2], pre=[True, False]) + grid(yl=[True], n=[3]), grid(yl=[True, False], n=[3], pre=[True, False]), expect=["order"]),
    H(boss, grid(yl=[True], k=[1, 2]) + grid(yl=[False], k=[1]), grid(yl=[True, False], k=[1, 2, 3]), expect=ACTS),
    H(actions, grid(yl=[True, False]), expect=["create", "cancel", "move", "set", "release", "enter"]),
]
