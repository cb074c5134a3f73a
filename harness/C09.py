"""C09: order of honoring and no lost wake-ups"""
from .common import *
from . import common as C
from .C10 import defaults
from .shop import Shop

BOUNDS = "single resource: 3-4 requests with symbolic quantities and priorities, then 1-2 of: release (partial or full, by component or resource), capacity change, cancel, passivate, request, failing of a request, leaving the requesters queue; exact reference for who is honored in which order, for each honoring rule. Two resources: requests for one, both or one of both"
OUTSIDE = "more components; anonymous resources (C11)"


class Line:
    """reference: one resource, requests in priority/arrival order"""

    def __init__(self, S, cap, rule):
        self.S, self.cap, self.rule = S, cap, rule
        self.queue = []  # [k, q, prio]
        self.claims = {}
        self.honored = []

    def ok(self, x):
        if self.rule == "first" and self.queue[0] is not x:
            return False
        if self.rule == "highest" and not (x[2] == self.queue[0][2]):
            return False
        return x[1] <= self.cap - sum(self.claims.values(), 0)

    def grant(self, x):
        self.queue.remove(x)
        self.claims[x[0]] = self.claims.get(x[0], 0) + x[1]
        self.honored.append(x[0])

    def scan(self):
        again = True
        while again:
            again = False
            for x in self.queue:
                if self.ok(x):
                    self.grant(x)
                    again = True
                    break

    def request(self, k, q, p):
        i = len(self.queue)
        while i > 0 and self.queue[i - 1][2] > p:
            i -= 1
        x = [k, q, p]
        self.queue.insert(i, x)
        if self.ok(x):
            self.grant(x)

    def drop(self, k):
        self.queue = [x for x in self.queue if x[0] != k]
        self.scan()

    def release(self, k, q=None):
        h = self.claims.pop(k)
        if q is not None:
            rest = h - (q if q <= h else h)
            if rest > 0:
                self.claims[k] = rest
        self.scan()


def single(S, nreq, nops, ops, rule, yieldless=True, prio=True, selfcall=False):
    sim = C.sim
    n = nreq + 1
    cap = S.int("cap", 1, 4)
    shop = Shop(S, n, [cap], yieldless, rule)
    env = shop.env
    r = shop.res[0]
    L = Line(S, cap, rule)

    def verify(what):
        line = [c for c in r.requesters()]
        S.check(line == [shop.comps[x[0]] for x in L.queue], f"the waiting requests in order of priority and arrival after {what}")
        for k, c in enumerate(shop.comps):
            S.check(c.isrequesting() == any(x[0] == k for x in L.queue), f"exactly the requests that can be honored are honored after {what}")
            S.close(c.claimed_quantity(r), L.claims.get(k, 0), f"claims after {what}")

    def ask(i, k, **kw):
        q = S.int(f"q{i}", 1, 3)
        p = S.real(f"p{i}", -1, 1) if prio else 0
        if S.flag("spec") if i == 0 and not selfcall else False:
            L.request(k, q, p)
            shop.comps[k].request((r, q), request_priority=p, **kw)
        else:
            shop.request(k, [(0, q, p)], selfcall=selfcall, before=lambda: L.request(k, q, p), **kw)
        if not selfcall:
            verify("request")

    def controller(c):
        yield c.hold(1)
        for i in range(nreq):
            # the last one has a time limit
            ask(i, i, **(dict(fail_at=10) if i == nreq - 1 else {}))
            if selfcall:
                yield c.hold(0, priority=1)
                verify("request")
        yield c.hold(1)
        for i in range(nops):
            op = ops[S.choice(f"op{i}", len(ops))]
            k = S.choice(f"k{i}", nreq) if op not in ("release_r", "capacity", "fail", "request") else None
            x = shop.comps[k] if k is not None else None
            if op == "request":
                S.assume(shop.comps[nreq].ispassive() and env.now() < 10)
                ask(10 + i, nreq)
                yield c.hold(0, priority=1)
            elif op == "release":
                S.assume(k in L.claims)
                L.release(k)
                x.release()
            elif op == "partial":
                S.assume(k in L.claims)
                q = S.int(f"rq{i}", 1, 3)
                L.release(k, q)
                x.release((r, q))
            elif op == "release_r":
                L_claims = dict(L.claims)
                for j, c2 in enumerate(list(r.claimers())):
                    L.release(shop.comps.index(c2), L_claims[shop.comps.index(c2)])
                r.release()
            elif op == "cancel":
                S.assume(not x.isdata())
                L.queue = [y for y in L.queue if y[0] != k]
                L.claims.pop(k, None)
                L.scan()
                x.cancel()
            elif op in ("passivate", "activate"):
                S.assume(x.isrequesting())
                L.drop(k)
                x.passivate() if op == "passivate" else x.activate()
            elif op == "capacity":
                L.cap = S.int(f"newcap{i}", 0, 5)
                if S.flag(f"cm{i}"):
                    r.set_capacity(L.cap)
                else:
                    r.capacity.value = L.cap
                L.scan()
            elif op == "fail":
                S.assume(env.now() < 10)
                yield c.hold(11 - env.now())
                L.drop(nreq - 1)
            S.reach(op)
            verify(op)
        yield c.hold(1)
        verify("the end")

    C.actor(env, controller, name="controller", priority=1)
    env.run(till=9)
    env.run()
    L.drop(nreq - 1)  # has failed by now
    verify("the last event")
    # an honored component continues, in the order of honoring
    order = [x[1] for x in shop.turns if x[0] == "turn" and not x[3]]
    want = list(L.honored)
    S.log(order)
    if not any(o in ops for o in ("activate", "passivate", "cancel")):
        S.check(order == want, "honored components continue in the order of honoring")
    S.reach("end")


def several(S, kinds, nops, ops, rule, yieldless=True, selfcall=False):
    """requests on two resources: after every event no honorable request waits"""
    sim = C.sim
    cap = [S.int(f"cap{i}", 1, 3) for i in range(2)]
    n = len(kinds)
    shop = Shop(S, n, cap, yieldless, rule)
    env = shop.env

    def verify():
        shop.settle()
        shop.conserve()
        shop.nobody_forgotten()

    env.hook_ = verify

    def controller(c):
        yield c.hold(1)
        for i, kind in enumerate(kinds):
            q = S.int(f"q{i}", 1, 3)
            q2 = S.int(f"q{i}b", 1, 3)
            p = 0
            if kind == "bad":  # never honorable, but first in line
                items, p, q = [(0, 9, -1)], -1, 9
            elif kind == "0":
                items = [(0, q, p)]
            elif kind == "1":
                items = [(1, q2, p)]
            else:
                items = [(0, q, p), (1, q2, p)]
            shop.request(i, items, oneof=kind == "oneof", selfcall=selfcall)
            if selfcall:
                yield c.hold(0, priority=1)
            verify()
        yield c.hold(1)
        for i in range(nops):
            op = ops[S.choice(f"op{i}", len(ops))]
            if op == "capacity":
                ri = S.choice(f"ri{i}", 2)
                shop.cap[ri] = S.int(f"newcap{i}", 0, 4)
                shop.lowered[ri] = True
                shop.res[ri].set_capacity(shop.cap[ri])
            else:
                k = S.choice(f"k{i}", n)
                x = shop.comps[k]
                if op == "release":
                    S.assume(shop.held[k])
                    shop.held[k] = {}
                    x.release()
                elif op == "cancel":
                    S.assume(not x.isdata())
                    shop.forget(k)
                    x.cancel()
                elif op == "passivate":
                    S.assume(x.isrequesting())
                    shop.want[k] = None
                    x.passivate()
            S.reach(op)
            verify()
        yield c.hold(1)

    C.actor(env, controller, name="controller", priority=1)
    env.run()
    for k in range(n):
        if shop.honored_at[k] is not None:
            t = [x[2] for x in shop.turns if x[0] == "turn" and x[1] == k]
            S.check(len(t) > 0 and t[0] == shop.honored_at[k], "an honored component continues at the moment of honoring")
    S.log([sorted(h) for h in shop.held])
    S.reach("end")


_ops = ["release", "partial", "release_r", "cancel", "passivate", "activate", "capacity", "fail", "request"]
HARNESSES = [
    H(defaults, grid(what=['request', 'all', 'oneof'], yieldless=[True, False]), expect=['request', 'all', 'oneof'], bounds='default against explicit priority'),
    H(single, grid(nreq=[3], nops=[1], ops=[_ops], rule=["none", "first", "highest"], selfcall=[True])
      + grid(nreq=[3], nops=[1], ops=[["release", "capacity", "fail"]], rule=["none", "first"], yieldless=[False])
      + grid(nreq=[4], nops=[1], ops=[["release_r", "capacity"]], rule=["none", "first", "highest"], prio=[False])
      + grid(nreq=[2], nops=[2], ops=[["release", "request", "capacity", "fail"]], rule=["none", "first", "highest"]),
      grid(nreq=[3], nops=[2], ops=[_ops], rule=["none", "first", "highest"], yieldless=[True, False], selfcall=[True, False])
      + grid(nreq=[4], nops=[1], ops=[_ops], rule=["none", "first", "highest"])
      + grid(nreq=[2], nops=[3], ops=[_ops], rule=["none", "first", "highest"]),
      expect=_ops + ["end"], bounds="nreq initial requests, nops operations"),
    H(several, grid(kinds=[["0", "both", "1"], ["both", "0", "both"], ["0", "oneof", "0"]], nops=[1], ops=[["release", "cancel", "passivate", "capacity"]], rule=["none", "first", "highest"], selfcall=[True])
      + grid(kinds=[["0", "both", "oneof", "0"]], nops=[1], ops=[["release"]], rule=["first"]),
      grid(kinds=[["0", "both", "1"], ["both", "0", "both"], ["oneof", "both", "0"], ["0", "oneof", "oneof"]], nops=[2], ops=[["release", "cancel", "passivate", "capacity"]], rule=["none", "first", "highest"])
      + grid(kinds=[["0", "1", "both", "0"], ["0", "1", "both", "1"], ["0", "both", "oneof", "0"]], nops=[1], ops=[["release", "capacity", "cancel"]], rule=["none", "first", "highest"]),
      expect=["release", "cancel", "passivate", "capacity", "waits", "end"], bounds="2 resources"),
]
