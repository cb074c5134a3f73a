"""C10: a timed request, wait or store request is honored in time or gives up exactly at its limit"""
from .common import *
from . import common as C

BOUNDS = "two components asking (one or two resources, states or stores, any/all/oneof) with symbolic fail moments (fail_at or fail_delay, symbolic fail priority, urgent or not), two symbolic moments (with symbolic priority) at which what they ask for becomes free; withdrawal by activate, passivate, cancel, hold, another request, all at symbolic moments"
OUTSIDE = "more than two components asking for the same thing with a limit; time units of the limit (C22)"


class Kind:
    """what is asked for: becomes free at most twice; honors one component at a time, states all at once"""

    everybody = False

    def __init__(self, S, env, what):
        sim = C.sim
        self.S, self.env, self.what = S, env, what
        self.items = {}
        if what in ("request", "all", "oneof"):
            n = 1 if what == "request" else 2
            self.res = [sim.Resource(f"r{i}", capacity=0, env=env) for i in range(n)]
            self.lists = [r.requesters() for r in self.res]
        elif what == "anon":
            self.res = [sim.Resource("r", capacity=4, initial_claimed_quantity=4, anonymous=True, env=env)]
            self.lists = [r.requesters() for r in self.res]
        elif what in ("wait", "wait_any", "wait_all", "wait_for"):
            self.st = [sim.State(f"s{i}", value=0, env=env) for i in range(1 if what == "wait" else 2)]
            self.lists = [s.waiters() for s in self.st]
            self.everybody = True
        elif what in ("from", "from2"):
            self.stores = [sim.Store(f"s{i}", env=env) for i in range(1 if what == "from" else 2)]
            self.lists = [s.from_store_requesters() for s in self.stores]
        elif what in ("to", "to2"):
            self.stores = [sim.Store(f"s{i}", capacity=2, env=env) for i in range(1 if what == "to" else 2)]
            self.blocks = [[C.data(env, name=f"block{i}{j}") for j in range(2)] for i in range(len(self.stores))]
            for s, bs in zip(self.stores, self.blocks):
                for b in bs:
                    b.enter(s)
            self.lists = [s.to_store_requesters() for s in self.stores]

    def ask(self, c, k, fail_priority=0, request_priority=0, **kw):
        w = self.what
        if w in ("request", "all", "oneof"):
            return c.request(*self.res, oneof=w == "oneof", priority=fail_priority, request_priority=request_priority, **kw)
        if w == "anon":
            return c.get((self.res[0], 1), priority=fail_priority, request_priority=request_priority, **kw)
        if w == "wait_for":
            return c.wait_for(cond=lambda: self.st[0]() == 1 and self.st[1]() == 0, states=self.st, priority=fail_priority, request_priority=request_priority, **kw)
        if w.startswith("wait"):
            a = [(s, 1) for s in self.st] if w != "wait_all" else [(self.st[0], 1), (self.st[1], 0)]
            return c.wait(*a, all=w == "wait_all", priority=fail_priority, request_priority=request_priority, **kw)
        if w.startswith("from"):
            return c.from_store(self.stores, fail_priority=fail_priority, request_priority=request_priority, **kw)
        self.items[k] = C.data(self.env, name=f"item{k}")
        return c.to_store(self.stores, self.items[k], fail_priority=fail_priority, request_priority=request_priority, **kw)

    def plain(self, c, k):
        """without any priority"""
        w = self.what
        if w in ("request", "all", "oneof"):
            return c.request(*self.res, oneof=w == "oneof")
        if w == "anon":
            return c.get((self.res[0], 1))
        if w == "wait_for":
            return c.wait_for(cond=lambda: self.st[0]() == 1 and self.st[1]() == 0, states=self.st)
        if w.startswith("wait"):
            return c.wait(*([(s, 1) for s in self.st] if w != "wait_all" else [(self.st[0], 1), (self.st[1], 0)]), all=w == "wait_all")
        if w.startswith("from"):
            return c.from_store(self.stores)
        self.items[k] = C.data(self.env, name=f"item{k}")
        return c.to_store(self.stores, self.items[k])

    def free(self, i):
        """makes room for one more (the i-th time)"""
        w = self.what
        if w in ("request", "all"):
            for r in self.res:
                r.set_capacity(r.capacity() + 1)
        elif w == "oneof":
            self.res[1 - i].set_capacity(1)
        elif w == "anon":
            self.res[0].release(1)
        elif w.startswith("wait"):
            self.st[-1 if w == "wait_any" else 0].set(1)
        elif w.startswith("from"):
            C.data(self.env, name=f"new{i}").enter(self.stores[i % len(self.stores)])
        else:
            s = i % len(self.stores)
            self.blocks[s].pop().leave(self.stores[s])

    def unfree(self):
        if self.everybody:
            self.st[-1 if self.what == "wait_any" else 0].set(0)

    def holds(self, c, k):
        """does component c hold what it asked for?"""
        w = self.what
        if w in ("request", "all"):
            return all(c.claimed_quantity(r) == 1 for r in self.res)
        if w == "oneof":
            return sum(c.claimed_quantity(r) == 1 for r in self.res) == 1
        if w.startswith("from"):
            return c.from_store_item() is not None
        if w.startswith("to"):
            return any(self.items[k] in s for s in self.stores)
        return None

    def holds_nothing(self, c, k):
        w = self.what
        if w in ("request", "all", "oneof"):
            return all(c.claimed_quantity(r) == 0 and c not in r.claimers() for r in self.res) and not c.claimed_resources() and not any(r in c.requested_resources() for r in self.res)
        if w.startswith("from"):
            return c.from_store_item() is None
        if w.startswith("to"):
            return not any(self.items[k] in s for s in self.stores)
        return True

    def total(self, honored):
        """number of components that got something, as seen in the objects asked for"""
        S = self.S
        if self.what in ("request", "all"):
            for r in self.res:
                S.close(r.claimed_quantity(), honored, "claimed quantity")
        elif self.what == "oneof":
            S.close(self.res[0].claimed_quantity() + self.res[1].claimed_quantity(), honored, "claimed quantity")
        elif self.what == "anon":
            S.close(4 - self.res[0].claimed_quantity(), self.freed - honored, "claimed quantity")
        elif self.what.startswith("from"):
            S.check(sum(len(s) for s in self.stores) == self.freed - honored, "contents of the stores")
        elif self.what.startswith("to"):
            S.check(sum(len(s) for s in self.stores) == 2 * len(self.stores) - self.freed + honored, "contents of the stores")

    freed = 0


def before(S, a, b):
    """event order on (time, priority, rank)"""
    return S.Or(a[0] < b[0], S.And(a[0] == b[0], S.Or(a[1] < b[1], S.And(a[1] == b[1], a[2] < b[2]))))


def timed(S, what, yieldless=True, n=2, spec="delay", frees=2, offset=False):
    sim = C.sim
    env = C.make_env(yieldless)
    if offset:
        env.reset_now(S.real("now0", -5, 5))
    t0 = env.now()
    K = Kind(S, env, what)
    f = [S.real(f"f{i}", 0, 6) for i in range(frees)]
    if frees == 2:
        S.assume(f[0] < f[1])
    pf = S.real("pf", -1, 1)
    events = [(f[i], pf, -10 if i == 0 else 10 + i) for i in range(frees)]  # the first is scheduled before the fail events, the others after them
    T, p, urg = [], [], []
    for k in range(n):
        d = S.real(f"d{k}", 0, 6)
        T.append(1 + d)
        p.append(S.real(f"p{k}", -1, 1))
        urg.append(S.pick(f"urgent{k}", [False, True]) if k == 0 else False)
    # reference
    rank = [(-100 - k if urg[k] else k) for k in range(n)]
    S.assume(f[0] > 1)  # asking is at time 1
    got, when = [None] * n, [None] * n
    for i in range(frees):
        for k in range(n):
            if when[k] is not None:
                continue
            if before(S, events[i], (T[k], p[k], rank[k])):
                got[k], when[k] = True, f[i]
                S.reach("honored")
                if f[i] == T[k]:
                    S.reach("honored at the limit")
                if not K.everybody:
                    break
    for k in range(n):
        if when[k] is None:
            got[k], when[k] = False, T[k]
            S.reach("failed")
    turns = []

    def check(c, k):
        ok = S.And(env.now() - t0 == when[k])
        S.check(ok, "continues exactly when honored or at its limit")
        S.check(c.failed() == (not got[k]), "failed() iff it gave up")
        S.check(not any(c in q for q in K.lists), "in no waiting list after being honored or giving up")
        S.check(c.iscurrent() and not c.isrequesting() and not c.iswaiting(), "status")
        if got[k]:
            S.check(K.holds(c, k) is not False, "honored: holds what it asked for")
        else:
            S.check(K.holds_nothing(c, k), "gave up: holds nothing")

    def asker(c, k):
        yield c.hold(1)
        d = T[k] - 1
        kw = dict(fail_delay=d) if spec == "delay" else dict(fail_at=t0 + T[k])
        v = yield K.ask(c, k, fail_priority=p[k], urgent=urg[k], **kw)
        turns.append(k)
        check(c, k)
        if what.startswith("from"):
            S.check((v is None) == (not got[k]) and v is c.from_store_item(), "from_store returns the item, or None when it failed")
        yield c.hold(20)
        # nothing happens afterwards
        S.check(env.now() - t0 == when[k] + 20, "the fail moment has no effect any more after honoring")
        S.check(K.holds(c, k) is not False if got[k] else K.holds_nothing(c, k), "never honored later")
        yield c.passivate()

    def freer(c):
        for i in range(frees):
            yield c.hold(till=t0 + f[i], priority=pf)
            K.freed += 1
            K.free(i)
            if i + 1 < frees:
                K.unfree()

    C.actor(env, freer, name="freer")
    comps = [C.actor(env, asker, k, name=f"a{k}") for k in range(n)]
    env.run(till=t0 + 15)
    K.total(sum(1 for g in got if g))
    env.run(till=t0 + 40)
    S.check(sorted(turns) == list(range(n)), "every component continues exactly once")
    K.total(sum(1 for g in got if g))
    S.log([bool(g) for g in got])
    S.reach("end")


def defaults(S, what, yieldless=True):
    """the default priority is 0: between -1 and 1, and in order of arrival with 0"""
    env = C.make_env(yieldless)
    K = Kind(S, env, what)
    first = S.flag("first")
    p = S.int("p", -1, 1)
    order = []

    def asker(c, k):
        yield c.hold(1 + k)
        yield K.plain(c, k) if (k == 0) == first else K.ask(c, k, request_priority=p)
        order.append(k)
        yield c.passivate()

    def freer(c):
        yield c.hold(5)
        K.freed += 1
        K.free(0)

    for k in range(2):
        C.actor(env, asker, k, name=f"a{k}")
    C.actor(env, freer, name="freer")
    env.run(till=20)
    d = 0 if first else 1
    if d == 0:
        want = 0 if p >= 0 else 1
    else:
        want = 0 if p <= 0 else 1
    S.check(len(order) == (2 if K.everybody else 1) and order[0] == want, "the default priority is 0")
    S.reach(what)


def unlimited(S, what, yieldless=True):
    """without a limit (none given, or an infinite one) it never fails"""
    env = C.make_env(yieldless)
    K = Kind(S, env, what)
    f = S.real("f", 0, 50)
    never = S.flag("never")
    kw = S.pick("kw", [{}, dict(fail_delay=inf), dict(fail_at=inf)])
    got = []

    def asker(c):
        yield K.ask(c, 0, **kw)
        got.append(env.now())
        S.check(not c.failed(), "does not fail")
        S.check(K.holds(c, 0) is not False, "honored: holds what it asked for")

    def freer(c):
        yield c.hold(f, priority=1)
        S.check(a.scheduled_time() == inf and (a.isrequesting() or a.iswaiting()) and not got, "waits, nothing is scheduled")
        if not never:
            K.freed += 1
            K.free(0)

    a = C.actor(env, asker, name="a")
    C.actor(env, freer, name="freer")
    env.run(till=100)
    if never:
        S.check(not got and any(a in q for q in K.lists), "still waiting")
    else:
        S.check(len(got) == 1, "honored once")
        S.close(got[0], f, "as soon as possible")
    S.reach("unlimited" if not never else "never")


def withdrawn(S, what, how, yieldless=True, limit=True):
    """component 0 waits first in line; it is withdrawn by another component at a moment w"""
    sim = C.sim
    env = C.make_env(yieldless)
    K = Kind(S, env, what)
    f, w = S.real("f", 1, 5), S.real("w", 1, 5)
    T = S.real("T", 1, 5) if limit else inf
    S.assume(S.And(f > 1, w > 1, T > 1))
    S.assume(S.And(f != w, f != T, w != T))
    dummy = sim.Resource("dummy", env=env)
    turns = []

    def asker(c, k):
        yield c.hold(1)
        v = yield K.ask(c, k, **(dict(fail_at=T) if limit and k == 0 else {}))
        turns.append((k, env.now(), c.failed()))
        if k == 1:
            S.check(K.holds(c, k) is not False, "the next in line gets it")
        yield c.passivate()
        S.check(False, "never continues again")

    K.ok = False
    a = [C.actor(env, asker, k, name=f"a{k}") for k in range(2)]

    def withdraw(c):
        yield c.hold(till=w)
        x = a[0]
        waiting = x.isrequesting() or x.iswaiting()
        S.check(S.And(w < f, w < T) if waiting else S.Or(w > f, w > T), "waits until honored or its limit")
        S.assume(waiting)
        K.ok = True
        how1 = how[S.choice("how", len(how))]
        delay = S.real("delay", 0, 4) if how1 in ("activate_later", "hold", "request") else None
        if how1 == "activate":
            x.activate()
        elif how1 == "activate_later":
            x.activate(delay=delay)
        elif how1 == "passivate":
            x.passivate()
        elif how1 == "cancel":
            x.cancel()
        elif how1 == "hold":
            x.hold(delay)
        elif how1 == "request":
            x.request((dummy, 2), fail_delay=delay)
        elif how1 == "standby":
            x.standby()
        S.reach(how1)
        S.check(not any(x in q for q in K.lists), "withdrawn: in no waiting list")
        S.check(K.holds_nothing(x, 0), "withdrawn: holds nothing")
        if how1 in ("activate", "activate_later", "hold", "passivate", "cancel", "standby"):
            S.check(x.failed(), "withdrawn: failed")
        yield c.hold(20)
        S.check(K.holds_nothing(x, 0), "withdrawn: is never honored later")
        S.check(not any(x in q for q in K.lists), "withdrawn: in no waiting list")
        mine = [t for t in turns if t[0] == 0]
        if how1 in ("passivate", "cancel"):
            S.check(not mine, "withdrawn: does not continue")
            S.check(x.ispassive() if how1 == "passivate" else x.isdata(), "status")
        elif how1 == "activate":
            S.check(len(mine) == 1 and S.And(mine[0][1] == w, mine[0][2]), "withdrawn: continues once, as activated")
        elif how1 == "standby":
            S.check(len(mine) == 1, "withdrawn: continues once")
        elif how1 == "request":
            S.check(len(mine) == 1 and mine[0][2] and S.And(mine[0][1] == w + delay), "the new request fails at its own limit")
        else:
            S.check(len(mine) == 1 and S.And(mine[0][1] == w + delay, mine[0][2]), "withdrawn: continues once, as rescheduled")

    def freer(c):
        yield c.hold(till=f)
        K.freed += 1
        K.free(0)

    C.actor(env, freer, name="freer")
    C.actor(env, withdraw, name="withdraw")
    env.run(till=30)
    S.assume(K.ok)
    other = [t for t in turns if t[0] == 1]
    S.check(len(other) == 1 and S.And(other[0][1] == f, S.Not(other[0][2])), "the next in line is honored as soon as it is free")
    K.total(1)
    S.log(len(turns))
    S.reach("end")


_all = ["request", "all", "oneof", "anon", "wait", "wait_any", "wait_all", "wait_for", "from", "from2", "to", "to2"]
_how = ["activate", "activate_later", "passivate", "cancel", "hold", "request", "standby"]
HARNESSES = [
    H(unlimited, grid(what=_all, yieldless=[True]), grid(what=_all, yieldless=[True, False]), expect=["unlimited", "never"]),
    H(timed, grid(what=_all, yieldless=[True]) + grid(what=["request", "wait", "from", "to"], yieldless=[False], spec=["at"], offset=[True]),
      grid(what=_all, yieldless=[True, False], spec=["delay", "at"], offset=[False, True]) + grid(what=["request", "wait", "from", "to"], n=[3]), expect=["honored", "failed", "honored at the limit", "end"], bounds="2 components, 2 freeing moments"),
    H(withdrawn, grid(what=_all, how=[_how], yieldless=[True]) + grid(what=["request", "wait", "from", "to"], how=[_how], yieldless=[False], limit=[False]), grid(what=_all, how=[_how], yieldless=[True, False], limit=[True, False]), expect=_how + ["end"], bounds="2 components"),
]
