"""C03: process interaction calls against a reference model of one component"""
from .common import *
from . import common as C

BOUNDS = "one component X under 3 (thorough: 4) process interaction calls by a controller at symbolic moments with symbolic delays; 14 kinds of calls; X's own behaviour: passivate, hold, request, wait, from_store or to_store between 3 positions; two (thorough: three) calls of X on itself (8 kinds); processes that are ordinary methods, in both process styles; at ties X goes first (other tie orders: C01)"
OUTSIDE = "longer call sequences; calls with a process other than the default one; priorities (C01)"

OPS = ["activate", "restart", "hold", "passivate", "cancel", "standby", "interrupt", "resume", "resume_all", "request", "wait", "wait_for", "from_store", "to_store", "nothing"]


class Model:
    """reference: what X should be"""

    def __init__(self, own, h):
        self.own, self.h = own, h
        self.status = "data"
        self.sched = inf
        self.pos = 0
        self.log = []
        self.level = 0
        self.remaining = None
        self.what = None

    def become_current(self, t):
        """X gets control: logs, does its own action"""
        self.log.append((self.pos, t))
        self.pos += 1
        self.level = 0
        if self.pos > 2:
            self.status, self.sched = "data", inf
            return
        o = self.own
        if o == "passivate":
            self.status, self.sched, self.remaining = "passive", inf, 0
        elif o == "hold":
            self.status, self.sched = "scheduled", t + self.h
        elif o in ("request", "from_store", "to_store"):
            self.status, self.sched, self.what = "requesting", t + self.h, o
        elif o == "wait":
            self.status, self.sched, self.what = "waiting", inf, "wait"
        elif o == "standby":
            self.status, self.sched = "standby", t
            self.fresh = True

    def advance(self, t):
        """all events of X before t"""
        while self.sched != inf and self.status in ("scheduled", "requesting", "waiting") and self.sched <= t:
            self.become_current(self.sched)

    def op(self, name, t, d):
        """-> True if the call must raise"""
        st = self.status
        if name == "nothing":
            return False
        if name in ("activate", "restart"):
            if st == "data" or name == "restart":
                self.pos = 0
            self.status, self.sched, self.level = "scheduled", t + d, 0
            return False
        if name == "cancel":
            self.status, self.sched, self.level = "data", inf, 0
            return False
        if name == "interrupt":
            if st == "scheduled":
                self.remaining = self.sched - t
                self.status, self.level = "interrupted", 1
            elif st == "interrupted":
                self.level += 1
            else:
                return True
            return False
        if name in ("resume", "resume_all"):
            if st != "interrupted":
                return True
            self.level -= 1
            if self.level == 0 or name == "resume_all":
                self.status, self.sched, self.level = "scheduled", t + self.remaining, 0
            return False
        if st == "data":
            return True
        self.level = 0
        if name == "hold":
            self.status, self.sched = "scheduled", t + d
        elif name == "passivate":
            self.remaining = self.sched - t if st in ("scheduled", "requesting", "waiting") and self.sched != inf else None
            self.status, self.sched = "passive", inf
        elif name == "standby":
            self.status, self.sched = "standby", t
            self.fresh = True
        elif name in ("request", "from_store", "to_store"):
            self.status, self.sched, self.what = "requesting", t + d, name
        elif name in ("wait", "wait_for"):
            self.status, self.sched, self.what = "waiting", t + d, name
        return False


BASIC = [o for o in OPS if o not in ("wait_for", "from_store", "to_store")]


def machine(S, nops, own, yieldless, first=None, ops=OPS):
    sim = C.sim
    env = C.make_env(yieldless)
    r = sim.Resource("r", capacity=0, env=env)
    s = sim.State("s", env=env)
    fu, em = sim.Store("full", capacity=0, env=env), sim.Store("empty", env=env)
    item = C.data(env, "item")
    h = S.real("h", 0, 20) if own in ("hold", "request", "from_store", "to_store") else None
    M = Model(own, h)
    log = []

    def script(x):
        k = 0
        while True:
            log.append((k, env.now()))
            S.check(x.status() == "current", "a component with control is current")
            k += 1
            if k > 2:
                return
            if own == "passivate":
                yield x.passivate()
            elif own == "hold":
                yield x.hold(h)
            elif own == "request":
                yield x.request(r, fail_delay=h)
            elif own == "from_store":
                yield x.from_store(em, fail_delay=h)
            elif own == "to_store":
                yield x.to_store(fu, item, fail_delay=h)
            elif own == "wait":
                yield x.wait(s)
            elif own == "standby":
                yield x.standby()

    kw = dict(script=script, args=())
    cls = C.GreenActor if yieldless else C.GenActor
    x = cls(name="x", env=env, process="")
    del x
    x = cls(name="x", env=env, **kw)
    M.status, M.sched = "scheduled", 0

    def verify(what):
        S.check(x.status() == M.status, f"status after {what}")
        if M.status in ("scheduled", "requesting", "waiting"):
            S.close(x.scheduled_time(), M.sched, f"scheduled time after {what}")
            S.close(x.remaining_duration(), M.sched - env.now(), f"remaining duration after {what}")
        elif M.status in ("passive", "data"):
            S.check(x.scheduled_time() == inf, f"no scheduled time after {what}")
        if M.status == "interrupted" or (M.status == "passive" and M.remaining is not None):
            S.close(x.remaining_duration(), M.remaining, f"remaining duration after {what}")
        S.check(x.interrupt_level() == M.level, f"interrupt level after {what}")
        for q, w in ((r.requesters(), "request"), (em.from_store_requesters(), "from_store"), (fu.to_store_requesters(), "to_store")):
            S.check((x in q) == (M.status == "requesting" and M.what == w), f"requesting iff in the requesters after {what}")
        S.check((x in s.waiters()) == (M.status == "waiting"), f"waiting iff in the waiters after {what}")
        for q, st in ((x.ispassive, "passive"), (x.isscheduled, "scheduled"), (x.isrequesting, "requesting"), (x.iswaiting, "waiting"), (x.isstandby, "standby"), (x.isinterrupted, "interrupted"), (x.isdata, "data")):
            S.check(q() == (M.status == st), f"is{st}() after {what}")
        S.check(not x.iscurrent(), "not current")

    def controller(c):
        t = 0
        for i in range(nops):
            gap = S.real(f"gap{i}", 0, 20)
            t = t + gap
            # X's events have priority 0, the controller's 1: at a tie X goes first
            yield c.hold(gap, priority=1)
            S.close(env.now(), t, "the controller's clock")
            was_standby = M.status == "standby"
            M.fresh = False
            M.advance(t)
            verify("the events before the call")
            name = first if (i == 0 and first is not None) else ops[S.choice(f"op{i}", len(ops))]
            d = S.real(f"d{i}", 0, 20) if name in ("activate", "restart", "hold", "request", "wait", "wait_for", "from_store", "to_store") else None
            must_raise = M.op(name, t, d)
            raised = False
            try:
                if name == "activate":
                    if x.isdata():
                        x.activate(delay=d, **kw)
                    else:
                        x.activate(delay=d)
                elif name == "restart":
                    x.activate(delay=d, process="process", **kw)
                elif name == "hold":
                    x.hold(d)
                elif name == "passivate":
                    x.passivate()
                elif name == "cancel":
                    x.cancel()
                elif name == "standby":
                    x.standby()
                elif name == "interrupt":
                    x.interrupt()
                elif name == "resume":
                    x.resume()
                elif name == "resume_all":
                    x.resume(all=True)
                elif name == "request":
                    x.request(r, fail_delay=d)
                elif name == "wait":
                    x.wait(s, fail_delay=d)
                elif name == "wait_for":
                    x.wait_for(lambda: s(), states=(s,), fail_delay=d)
                elif name == "from_store":
                    x.from_store(em, fail_delay=d)
                elif name == "to_store":
                    x.to_store(fu, item, fail_delay=d)
            except ValueError:
                raised = True
            S.check(raised == must_raise, f"{name} raises an error exactly when the status does not allow it")
            if raised:
                S.reach("refused")
            else:
                S.reach(name)
            verify(name)
            if was_standby and M.status == "standby" and not M.fresh:
                # gets control after this event, at this time
                M.become_current(t)
                if M.status == "standby":
                    M.fresh = False

    C.actor(env, controller, name="controller", priority=1)
    env.run(till=1000)
    M.advance(1000)
    # a component in standby at the last event got its turn after the last event of any other component
    S.check([k for k, _ in log] == [k for k, _ in M.log], "X continued from the positions prescribed")
    for (k, a), (_, b) in zip(log, M.log):
        S.close(a, b, "X continued at the moments prescribed")
    if own != "standby":
        S.check(x.status() == M.status, "final status")
    S.log(log, x.status())
    S.reach("end")


SELF = ["hold", "activate", "process", "passivate", "cancel", "interrupt", "resume", "end"]


def itself(S, n, yieldless):
    """calls of a component on itself"""
    env = C.make_env(yieldless)
    log = []
    exp = []  # (label, time)
    final = []

    def script(x, tag):
        t = env.now()
        log.append((tag, t))
        S.check(x.iscurrent() and x is env.current_component(), "current while active")
        for i in range(n):
            op = S.pick(f"op{tag}{i}", SELF)
            S.reach(op)
            d = S.real(f"d{tag}{i}", 0, 10) if op in ("hold", "activate", "process") else 0
            if op == "hold":
                exp.append((f"{tag}{i}", t + d))
                yield x.hold(d)
            elif op == "activate":
                exp.append((f"{tag}{i}", t + d))
                yield x.activate(delay=d)
            elif op == "process":
                if tag == "b":
                    continue
                exp.append(("b", t + d))
                yield x.activate(delay=d, process="again", script=script, args=("b",))
                S.check(False, "a process that is replaced does not continue")
            elif op == "passivate":
                final.append(("passive", tag, i))
                yield x.passivate()
                continue
            elif op == "cancel":
                final.append(("data", tag, i))
                yield x.cancel()
                S.check(False, "a cancelled component does not continue")
            elif op == "end":
                break
            else:
                try:
                    x.interrupt() if op == "interrupt" else x.resume()
                    S.check(False, "a component cannot interrupt or resume itself")
                except ValueError:
                    pass
                S.check(x.iscurrent(), "still current")
                continue
            t = t + d
            S.close(env.now(), t, "continues at the moment asked for")
            log.append((f"{tag}{i}", env.now()))
        final.append(("data", tag, None))

    x = C.actor(env, script, "a", name="x")
    exp.append(("a", 0))
    env.run(till=100)
    S.check([k for k, _ in log] == [k for k, _ in exp], "continues once per call, from where it was")
    for (k, a), (_, b) in zip(log, exp):
        S.close(a, b, "at the moment asked for")
    S.check(len(final) == 1 and x.status() == final[0][0], "status at the end")
    S.check(x.scheduled_time() == inf, "nothing scheduled any more")
    if final[0][0] == "data":
        g = S.real("g", 0, 5)
        seen = len(log)
        x.activate(delay=g, process="again", script=lambda x_: mark(x_), args=())
        S.check(x.isscheduled(), "can be activated afresh")
        env.run(till=200)
        S.check(again == [1], "afresh, once")
        S.check(len(log) == seen and x.isdata(), "the former process does not continue")
        S.reach("afresh")

    S.log(log, x.status())


again = []


def mark(x):
    again[:] = []
    yield x.hold(1)
    again.append(1)


def plain(S, op, style):
    """a process that is an ordinary method, in both process styles"""
    env = C.make_env(style == "yieldless")
    runs = []
    d, e, g = S.real("d", 1, 10), S.real("e", 0, 10), S.real("g", 0, 10)

    class P(C.sim.Component):
        def process(self, k=1):
            S.check(self.iscurrent(), "current")
            runs.append((k, env.now()))

    def controller(c):
        yield c.hold(0)
        p.append(P(name="p", delay=d, env=env))
        yield c.hold(g, priority=1)
        x = p[0]
        before = g < d
        S.check(x.status() == ("scheduled" if before else "data"), "scheduled until its moment, data afterwards")
        S.check(len(runs) == (0 if before else 1), "the process is done at its moment")
        if op == "activate":
            x.activate(delay=e, **({} if before else dict(k=2)))
            exp.append((1 if before else 2, g + e))
        elif op == "standby" and before:
            x.standby()
            exp.append((1, None))
        elif op == "passivate" and before:
            x.passivate()
            yield c.hold(e)
            x.activate()
            exp.append((1, g + e))
        elif op == "cancel":
            x.cancel()
            S.check(x.isdata(), "data after cancel")
            yield c.hold(e)
            x.activate(k=3)
            exp.append((3, g + e))
        else:
            if before:
                exp.append((1, d))
        if not before:
            exp.insert(0, (1, d))
        yield c.hold(20)
        yield c.hold(20)
        S.check(x.isdata() and x.scheduled_time() == inf, "data after the end")
        ends.append(1)

    p, exp, ends = [], [], []
    C.actor(env, controller)
    env.run()
    S.check(ends == [1], "the controller came to its end")
    S.check([k for k, _ in runs] == [k for k, _ in exp], "every activation gives one run of the process")
    for (_, a), (_, b) in zip(runs, exp):
        if b is not None:
            S.close(a, b, "at its moment")
    S.log(runs)
    S.reach(op)


_own = ["passivate", "hold", "request", "wait", "from_store", "to_store"]
HARNESSES = [
    H(machine, grid(nops=[2], own=_own, yieldless=[True, False]) + grid(nops=[3], own=["hold"], yieldless=[True], first=["standby", "interrupt"], ops=[BASIC]),
      grid(nops=[3], own=_own, yieldless=[True, False]), expect=["end", "refused"] + OPS,
      bounds="nops calls by the controller; X has 3 positions"),
    H(itself, grid(n=[2], yieldless=[True, False]), grid(n=[3], yieldless=[True, False]), expect=SELF + ["afresh"]),
    H(plain, grid(op=["activate", "standby", "passivate", "cancel", "nothing"], style=["yieldless", "yield"]), None, expect=["activate", "standby"]),
]
