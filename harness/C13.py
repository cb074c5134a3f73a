"""C13: waiting for states, against a reference"""
from .common import *
from . import common as C
from .C10 import defaults

BOUNDS = "2-4 waiting components with symbolic priorities, conditions on one or two states (value, $-expression, function, any/all, several values of one state, wait_for), symbolic initial values, 2-3 operations (set, reset, trigger with symbolic value, value_after and max 0-3), exact reference after every operation; string and boolean states"
OUTSIDE = "conditions that change states themselves; interrupted waiting components (C04)"


class Ref:
    """waiting lists of states; conds: function(values) per component"""

    def __init__(self, S, values):
        self.S = S
        self.v = list(values)
        self.lines = [[] for _ in values]
        self.waiting = {}
        self.honored = []

    def wait(self, k, cond, prios):
        """prios: {state index: priority} in order"""
        if cond(self.v):
            self.honored.append(k)
            return
        self.waiting[k] = (cond, prios)
        for i, p in prios.items():
            j = len(self.lines[i])
            while j > 0 and self.lines[i][j - 1][1] > p:
                j -= 1
            self.lines[i].insert(j, (k, p))

    def drop(self, k):
        del self.waiting[k]
        for i in range(len(self.lines)):
            self.lines[i] = [x for x in self.lines[i] if x[0] != k]

    def scan(self, i, m=inf):
        for k, _ in list(self.lines[i]):
            if m <= 0:
                return
            if self.waiting[k][0](self.v):
                self.drop(k)
                self.honored.append(k)
                m -= 1

    def set(self, i, x):
        if not (self.v[i] == x):
            self.v[i] = x
            self.scan(i)

    def trigger(self, i, x, after, m):
        if after is None:
            after = self.v[i]
        self.v[i] = x
        self.scan(i, m)
        self.v[i] = after
        self.scan(i)


def ask(S, k, kind, states):
    """returns (reference condition, {state: prio}, call)"""
    p = S.real(f"p{k}", -1, 1)
    A, B = states
    b = S.int(f"b{k}", 0, 2)
    if kind == "value":
        return lambda v: v[0] == b, {0: p}, lambda c: c.wait((A, b, p))
    if kind == "value_rp":
        return lambda v: v[0] == b, {0: p}, lambda c: c.wait((A, b), request_priority=p)
    if kind == "two":
        d = S.int(f"d{k}", 0, 2)
        return lambda v: S.Or(v[0] == b, v[0] == d), {0: p}, lambda c: c.wait((A, b, p), (A, d, p))
    if kind == "expr":
        return lambda v: v[0] >= 2, {0: p}, lambda c: c.wait((A, "$ >= 2", p))
    if kind == "fun":
        def f(x, comp, state):
            S.check(comp is c0[0] and state is A, "the function gets value, component and state")
            return x > b

        c0 = []
        return lambda v: v[0] > b, {0: p}, lambda c: (c0.append(c), c.wait((A, f, p)))[1]
    if kind == "any":
        p2 = S.real(f"pp{k}", -1, 1)
        return lambda v: S.Or(v[0] == b, v[1] < 1), {0: p, 1: p2}, lambda c: c.wait((A, b, p), (B, "$ < 1", p2))
    if kind == "all":
        p2 = S.real(f"pp{k}", -1, 1)
        return lambda v: S.And(v[0] == b, v[1] >= 1), {0: p, 1: p2}, lambda c: c.wait((A, b, p), (B, lambda x, c, s: x >= 1, p2), all=True)
    if kind in ("all_values", "any_values"):
        d = S.int(f"d{k}", 0, 2)
        both = S.And if kind == "all_values" else S.Or
        return lambda v: both(v[0] == b, v[1] == d), {0: p, 1: p}, lambda c: c.wait((A, b, p), (B, d, p), all=kind == "all_values")
    if kind == "all_expr":
        return lambda v: S.And(v[0] >= 1, v[1] == b), {0: p, 1: p}, lambda c: c.wait((A, "$ >= 1", p), (B, b, p), all=True)
    if kind == "for":
        return lambda v: v[0] + v[1] > b, {0: p, 1: p}, lambda c: c.wait_for(lambda: A() + B() > b, states=(A, B), request_priority=p)
    if kind == "for1":  # only B triggers
        return lambda v: v[0] + v[1] > b, {1: p}, lambda c: c.wait_for(lambda: A.get() + B.get() > b, states=(B,), request_priority=p)
    raise NotImplementedError(kind)


def history(S, kinds, ops, nops, yieldless=True, selfcall=True, values=2):
    sim = C.sim
    env = C.make_env(yieldless)
    n = len(kinds)
    v0 = [S.int("a", 0, 2), S.int("b", 0, 2)]
    st = [sim.State("A", value=v0[0], env=env), sim.State("B", value=v0[1], env=env)]
    R = Ref(S, v0)
    turns = []

    def verify():
        for i in (0, 1):
            S.close(st[i].get(), R.v[i], "value of the state")
            S.close(st[i](), R.v[i], "value of the state")
            S.close(st[i].value(), R.v[i], "value monitor")
            S.check([comps.index(c) for c in st[i].waiters()] == [k for k, _ in R.lines[i]], "exactly the components whose condition was not met wait, in order of priority and arrival")
        for k, c in enumerate(comps):
            S.check(c.iswaiting() == (k in R.waiting), "waiting iff the condition did not hold")

    def worker(c, k):
        yield c.hold(1)
        if selfcall:
            cond, prios, call = ask(S, k, kinds[k], st)
            R.wait(k, cond, prios)
            yield call(c)
        else:
            yield c.passivate()
        turns.append((k, env.now()))
        S.check(not c.failed(), "honored, not failed")
        S.check(not c.iswaiting() and not any(c in s.waiters() for s in st), "not waiting any more")
        yield c.passivate()
        S.check(False, "continues only once")

    comps = [C.actor(env, worker, k, name=f"w{k}") for k in range(n)]
    times = {}

    def controller(c):
        yield c.hold(1, priority=1)
        if not selfcall:
            for k, x in enumerate(comps):
                cond, prios, call = ask(S, k, kinds[k], st)
                R.wait(k, cond, prios)
                call(x)
                verify()
        else:
            verify()
        for k in R.honored:
            times[k] = 1
        if not R.honored:
            S.reach("all wait")
        for j in range(nops):
            yield c.hold(1)
            verify()
            before = len(R.honored)
            op = ops[S.choice(f"op{j}", len(ops))]
            i = S.choice(f"state{j}", 2) if values == 2 else 0
            x = S.int(f"x{j}", 0, 2)
            if op == "set":
                R.set(i, x)
                st[i].set(x)
            elif op == "reset":
                R.set(i, x)
                st[i].reset(x)
            elif op == "trigger":
                m = [0, 1, 2, inf][S.choice(f"max{j}", 4)]
                after = None if S.flag(f"none{j}") else S.int(f"after{j}", 0, 2)
                R.trigger(i, x, after, m)
                st[i].trigger(x, value_after=after, max=m)
            elif op == "trigger1":
                R.trigger(i, x, None, 1)
                st[i].trigger(x, max=1)
            elif op == "cancel":
                S.assume(len(R.waiting))
                k = list(R.waiting)[S.choice(f"k{j}", len(R.waiting))]
                R.drop(k)
                comps[k].cancel()
            S.reach(op)
            if len(R.honored) > before + 1:
                S.reach("several honored")
            for k in R.honored[before:]:
                times[k] = env.now()
            verify()

    C.actor(env, controller, name="controller", priority=1)
    env.run()
    S.check([k for k, _ in turns] == R.honored, "the honored components continue in the order of priority and arrival")
    for k, t in turns:
        S.check(t == times[k], "an honored component continues at the moment its condition becomes true")
    S.log([k for k, _ in turns])
    S.reach("end")


def kinds_of_values(S, yieldless, start):
    """boolean and string states, default values"""
    sim = C.sim
    env = C.make_env(yieldless)
    light = sim.State("light", value=start, env=env)
    door = sim.State("door", env=env)
    t1, t2, t3 = S.real("t1", 1, 5), S.real("t2", 1, 5), S.real("t3", 1, 5)
    S.assume(S.And(t1 > 1, t2 > t1, t3 > t2))
    colors = ["red", "yellow", "green"]
    c1, c2, c3 = [colors[S.choice(f"c{i}", 3)] for i in range(3)]
    d1, d2 = [S.flag(f"d{i}") for i in range(2)]
    done = {}

    def waiter(c, k):
        yield c.hold(1)
        if k == 0:
            yield c.wait((light, '$ in ("red", "yellow")'))
        elif k == 1:
            yield c.wait((light, "green"))
        elif k == 2:
            yield c.wait((light, '$ == "green"'), door, all=True)
        elif k == 3:
            yield c.wait((light, lambda v, comp, s: v.startswith("y")), (door, False), all=True)
        elif k == 4:
            yield c.wait(door)
        elif k == 5:
            yield c.wait(door, (light, "red"))
        done[k] = env.now()

    conds = [lambda l, d: l != "green", lambda l, d: l == "green", lambda l, d: l == "green" and d, lambda l, d: l == "yellow" and not d, lambda l, d: d, lambda l, d: d or l == "red"]
    hist = [(1, start, False), (t1, c1, False), (t1, c1, d1), (t2, c2, d1), (t2, c2, d2), (t3, c3, d2)]

    def driver(c):
        yield c.hold(till=t1)
        light.set(c1)
        door.set() if d1 else door.reset()
        yield c.hold(till=t2)
        light.reset(c2)
        door.set(d2)
        yield c.hold(till=t3)
        light.set(c3)

    C.actor(env, driver, name="driver")
    for k in range(6):
        C.actor(env, waiter, k, name=f"w{k}")
    env.run()
    for k in range(6):
        want = next((t for t, l, d in hist if conds[k](l, d)), None)
        S.check((k in done) == (want is not None), "continues iff the condition became true")
        if want is not None:
            S.check(done[k] == want, "continues exactly when the condition becomes true")
    S.log(sorted(done))
    S.reach("end")


_k = ["all_values", "any_values", "value", "value_rp", "two", "expr", "fun", "any", "all", "all_expr", "for", "for1"]
_ops = ["set", "reset", "trigger", "cancel"]
HARNESSES = [
    H(defaults, grid(what=['wait', 'wait_any', 'wait_all', 'wait_for'], yieldless=[True, False]), expect=['wait', 'wait_any', 'wait_all', 'wait_for'], bounds='default against explicit priority'),
    H(history, grid(kinds=[["value", "value", "fun"], ["two", "value_rp", "expr"]], ops=[["trigger"]], nops=[1], values=[1]) + grid(kinds=[["any", "all"], ["for", "for1"], ["any", "any"], ["all_expr", "for"]], ops=[["set", "trigger1", "cancel"]], nops=[1])
      + grid(kinds=[["value", "expr"], ["all", "fun"]], ops=[["set", "reset"]], nops=[2], yieldless=[False], selfcall=[False])
      + grid(kinds=[["any", "all", "for"]], ops=[["set", "trigger"]], nops=[1]) + grid(kinds=[["value", "any"], ["two", "all"], ["for1", "expr"], ["all_values", "any_values"]], ops=[["set", "trigger1"]], nops=[2]),
      grid(kinds=[["value", "value", "fun"], ["two", "value_rp", "expr"], ["any", "all", "for"], ["for1", "all_expr", "any"]], ops=[["set", "trigger", "cancel"]], nops=[1], yieldless=[True, False])
      + grid(kinds=[[a, b] for a in _k for b in ("any", "all", "for")], ops=[["set", "trigger1"]], nops=[2]), expect=["set", "reset", "trigger", "trigger1", "cancel", "several honored", "all wait", "end"], bounds="kinds: conditions"),
    H(kinds_of_values, grid(yieldless=[True, False], start=["red", "green"]), expect=["end"], bounds="6 components, 3 changes"),
]
