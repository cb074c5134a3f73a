"""C11: anonymous resources against a reference tank"""
from .common import *
from . import common as C
from .C10 import defaults

BOUNDS = "3-4 components that get or put symbolic quantities (multiples of 1/4) with symbolic priorities at the same or different moments, symbolic capacity and initial quantity, then a release, capacity change, cancel or failing request; exact reference after every event; two anonymous resources in one request; anonymous and ordinary resources mixed"
OUTSIDE = "non-integer quantities within the library's tolerance of 1e-8"


class Tank:
    def __init__(self, cap, claimed, rule):
        self.cap, self.claimed, self.rule = cap, claimed, rule
        self.queue = []
        self.honored = []

    def ok(self, x):
        if self.rule == "first" and self.queue[0] is not x:
            return False
        if self.rule == "highest" and not (x[2] == self.queue[0][2]):
            return False
        return x[1] <= self.cap - self.claimed if x[1] > 0 else -x[1] <= self.claimed

    def grant(self, x):
        self.queue.remove(x)
        self.claimed = self.claimed + x[1]
        self.honored.append(x[0])

    def scan(self):
        again = True
        while again:
            again = False
            for x in self.queue:
                if self.ok(x):
                    self.grant(x)
                    again = True
                    break

    def request(self, k, q, p):
        i = len(self.queue)
        while i > 0 and self.queue[i - 1][2] > p:
            i -= 1
        x = [k, q, p]
        self.queue.insert(i, x)
        if self.ok(x):
            self.grant(x)
            self.scan()

    def drop(self, k):
        self.queue = [x for x in self.queue if x[0] != k]
        self.scan()


def tank(S, kinds, ops, yieldless, rule="none", prio=True, same=False, unit=1):
    sim = C.sim
    env = C.make_env(yieldless)
    n = len(kinds)
    cap = S.int("cap", 1, 4)
    init = S.int("init", 0, 4 / unit) * unit
    S.assume(init <= cap)
    r = sim.Resource("tank", capacity=cap, initial_claimed_quantity=init, anonymous=True, env=env, honor_only_first=rule == "first", honor_only_highest_priority=rule == "highest")
    T = Tank(cap, init, rule)
    turns = []
    changed = [False]

    def verify():
        S.close(r.claimed_quantity(), T.claimed, "claimed quantity is the initial quantity plus gets minus puts")
        S.close(r.available_quantity(), T.cap - T.claimed, "available quantity")
        if not changed[0]:
            S.check(S.And(r.claimed_quantity() >= 0, r.claimed_quantity() <= r.capacity()), "the contents stay between zero and capacity")
        line = list(r.requesters())
        S.check([workers.index(c) for c in line] == [x[0] for x in T.queue], "exactly the gets and puts that cannot be honored wait, in order of priority and arrival")
        for k, w in enumerate(workers):
            S.check(w.isrequesting() == any(x[0] == k for x in T.queue), "waiting iff not honorable")
            S.check(w.claimed_quantity(r) == 0 and len(w.claimed_resources()) == 0, "components hold nothing of an anonymous resource")
        S.check(len(r.claimers()) == 0, "no claimers")

    def worker(c, k):
        t = 1 if same else S.pick(f"t{k}", [1, 2]) if k > 0 else 1
        yield c.hold(t)
        q = S.int(f"q{k}", 0, 3 / unit) * unit
        p = S.real(f"p{k}", -1, 1) if prio else 0
        T.request(k, q if kinds[k] == "get" else -q, p)
        kw = dict(fail_at=5) if k == n - 1 else {}
        if kinds[k] == "get":
            yield c.get((r, q, p), **kw)
        else:
            yield c.put((r, q, p), **kw)
        turns.append((k, c.failed()))
        S.check(not c.isrequesting(), "continues when honored or failed")

    workers = [C.actor(env, worker, k, name=f"w{k}") for k in range(n)]
    env.hook_ = verify

    def controller(c):
        yield c.hold(3)
        op = ops[S.choice("op", len(ops))]
        if op == "release":
            q = S.int("rq", 0, 4 / unit) * unit
            S.assume(q <= T.claimed)
            T.claimed = T.claimed - q
            T.scan()
            r.release(q)
        elif op == "release_all":
            T.claimed = 0
            T.scan()
            r.release()
        elif op == "capacity":
            T.cap = S.int("newcap", 0, 6)
            changed[0] = True
            T.scan()
            r.set_capacity(T.cap)
        elif op in ("cancel", "passivate"):
            x = workers[S.choice("k", n)]
            S.assume(x.isrequesting())
            T.drop(workers.index(x))
            x.cancel() if op == "cancel" else x.passivate()
        S.reach(op)
        verify()
        yield c.hold(1)
        S.reach("waiting" if len(T.queue) else "no waiting")
        yield c.hold(1, priority=-1)
        # the last one gives up now
        if any(x[0] == n - 1 for x in T.queue):
            S.reach("fail")
            T.queue = [x for x in T.queue if x[0] != n - 1]
            honored = len(T.honored)
            T.scan()
        env.hook_ = None
        yield c.hold(0, priority=1)
        verify()

    C.actor(env, controller, name="controller", priority=1)
    env.run()
    S.check([k for k, f in turns if not f] == T.honored, "honored components continue in the order of honoring")
    S.check([k for k, f in turns if f] in ([], [n - 1]), "only a request with a limit fails")
    S.log([k for k, _ in turns], r.claimed_quantity())
    S.reach("end")


def two_tanks(S, yieldless, mixed, order):
    """requests for two resources at once: all or nothing, nobody forgotten"""
    sim = C.sim
    env = C.make_env(yieldless)
    caps = [S.int("capa", 1, 3), S.int("capb", 1, 3)]
    rs = [sim.Resource("a", capacity=caps[0], anonymous=True, env=env), sim.Resource("b", capacity=caps[1], anonymous=not mixed, env=env)]
    want = {}
    cur = [0, 0]
    plans = {"both": lambda k: [(0, S.int(f"qa{k}", 1, 2)), (1, S.int(f"qb{k}", 1, 2))], "a": lambda k: [(0, S.int(f"qa{k}", 1, 2))], "b": lambda k: [(1, S.int(f"qb{k}", 1, 2))],
             "puta": lambda k: [(0, -S.int(f"qa{k}", 1, 2))], "move": lambda k: [(0, -S.int(f"qa{k}", 1, 2)), (1, S.int(f"qb{k}", 1, 2))]}

    def verify():
        for k in list(want):
            c, items = want[k]
            if c.isrequesting():
                S.check(all(c in rs[i].requesters() for i, _ in items), "waits in all requesters queues")
            else:
                for i, q in items:
                    cur[i] = cur[i] + q
                del want[k]
                S.reach("honored")
        for i in (0, 1):
            S.close(rs[i].claimed_quantity(), cur[i], "a request for several resources is honored completely or not at all")
            S.check(S.And(cur[i] >= 0, cur[i] <= caps[i]), "the contents stay between zero and capacity")
            S.check(len(rs[i].requesters()) == sum(any(j == i for j, _ in items) for c, items in want.values()), "number waiting")
        for k, (c, items) in want.items():
            S.check(S.Or(*[(q > caps[i] - cur[i]) if q > 0 else (-q > cur[i]) for i, q in items]), "no get or put that can be honored is left waiting")
            S.reach("waits")

    env.hook_ = verify

    def worker(c, k):
        yield c.hold(1 + k // 2)
        items = plans[order[k]](k)
        want[k] = (c, items)
        if order[k] == "move":
            # a put in one and a get from another, as two entries of one request
            yield c.request(*[(rs[i], q) for i, q in items])
        elif order[k] == "puta":
            yield c.put((rs[0], -items[0][1]))
        else:
            yield c.get(*[(rs[i], q) for i, q in items]) if not mixed else c.request(*[(rs[i], q) for i, q in items])
        if mixed:
            yield c.hold(10)
            b = c.claimed_quantity(rs[1])
            if b > 0:
                cur[1] = cur[1] - b
                c.release()
        else:
            yield c.passivate()

    for k in range(len(order)):
        C.actor(env, worker, k, name=f"w{k}")
    env.run()
    S.log(cur[0], cur[1])
    S.reach("end")


_ops = ["release", "release_all", "capacity", "cancel", "passivate", "nothing"]
_gp = [["get", "put", "get"], ["put", "get", "put"], ["get", "get", "put"]]
HARNESSES = [
    H(defaults, grid(what=['anon'], yieldless=[True, False]), expect=['anon'], bounds='default against explicit priority'),
    H(tank, grid(kinds=[["get", "put", "get"]], ops=[["release", "cancel", "nothing"]], yieldless=[True, False], unit=[0.25])
      + grid(kinds=[["put", "put", "get"]], ops=[["release_all", "capacity", "passivate"]], yieldless=[True], prio=[False])
      + grid(kinds=[["put", "get", "get"], ["get", "put", "put"]], ops=[["nothing", "capacity"]], yieldless=[True], rule=["first", "highest"], prio=[True], same=[True]),
      grid(kinds=_gp + [["put", "put", "get"]], ops=[_ops], yieldless=[True, False], rule=["none", "first", "highest"], unit=[1, 0.25])
      + grid(kinds=[["get", "put", "put", "get"], ["put", "put", "get", "get"]], ops=[_ops], yieldless=[True], prio=[False]),
      expect=_ops + ["end", "fail", "waiting", "no waiting"], bounds="kinds: get/put of each component"),
    H(two_tanks, grid(yieldless=[True, False], mixed=[False], order=[["a", "b", "both", "puta"], ["both", "both", "puta", "move"]]) + grid(yieldless=[True], mixed=[True], order=[["both", "b", "both", "puta"]]),
      grid(yieldless=[True, False], mixed=[False], order=[["a", "b", "both", "puta"], ["both", "both", "puta", "move"], ["a", "both", "both", "puta", "move"]]) + grid(yieldless=[True, False], mixed=[True], order=[["both", "b", "both", "puta"], ["b", "both", "a", "puta", "both"]]),
      expect=["honored", "waits", "end"], bounds="4 components, 2 resources"),
]
