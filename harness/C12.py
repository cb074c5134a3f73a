"""C12: preemptive resources against a reference"""
from .common import *
from . import common as C

BOUNDS = "3-4 components that request symbolic integer quantities with symbolic priorities from a preemptive resource of symbolic capacity, then a release, capacity change, cancel or second request; exact reference (claims, bumped, waiting) after every call; bumped components in passivate, hold, another request, wait or interrupted"
OUTSIDE = "preemptive combined with honor_only_first / honor_only_highest_priority; a component that requests while already claiming from the same preemptive resource; quantities that are not integer"


class Ref:
    def __init__(self, cap):
        self.cap = cap
        self.claims = []  # [k, q, p] in order of priority and arrival
        self.queue = []
        self.bumped = []

    def free(self):
        return self.cap - sum((x[1] for x in self.claims), 0)

    @staticmethod
    def put(lst, x):
        i = len(lst)
        while i > 0 and lst[i - 1][2] > x[2]:
            i -= 1
        lst.insert(i, x)

    def scan(self):
        again = True
        while again:
            again = False
            for x in self.queue:
                if x[1] <= self.free():
                    self.queue.remove(x)
                    self.put(self.claims, x)
                    again = True
                    break

    def request(self, k, q, p):
        x = [k, q, p]
        self.put(self.queue, x)
        av = self.free()
        victims = []
        for y in reversed(self.claims):
            if av >= q or not (y[2] > p):
                break
            victims.append(y)
            av = av + y[1]
        if av >= q:
            for y in victims:
                self.claims.remove(y)
                self.bumped.append(y[0])
            self.queue.remove(x)
            self.put(self.claims, x)
            if victims:
                self.scan()
            return victims
        return []

    def drop(self, k):
        self.claims = [x for x in self.claims if x[0] != k]
        self.queue = [x for x in self.queue if x[0] != k]
        self.scan()


def preempt(S, n, ops, yieldless=True, activity=("passivate",), selfcall=False, ints=False):
    sim = C.sim
    env = C.make_env(yieldless)
    cap = S.int("cap", 1, 4)
    r = sim.Resource("r", capacity=cap, preemptive=True, env=env)
    other = sim.Resource("other", capacity=0, env=env)
    light = sim.State("light", value=False, env=env)
    R = Ref(cap)
    turns = []
    ended = set()
    stop = set()

    def worker(c, k):
        yield c.hold(1 + k)
        q = S.int(f"q{k}", 1, 12) * 0.25
        p = S.int(f"p{k}", 0, 2) if ints else S.real(f"p{k}", -2, 2)
        act = activity[S.choice(f"act{k}", len(activity))] if k < n - 1 else "passivate"
        R.bumped = []
        victims = R.request(k, q, p)
        if victims:
            S.reach(f"bumped {len(victims)}")
            if len(R.claims) > 1 and any(x[0] != k and x not in before for x in R.claims):
                S.reach("leftover")
        elif any(x[0] == k for x in R.queue):
            S.reach("waits")
        expect.extend((x[0], env.now()) for x in victims)
        yield c.request((r, q, p))
        # (a component that waited may be bumped right after)
        turns.append(("turn", k, env.now()))
        while True:
            claiming = c.isclaiming(r)
            S.check(claiming == any(x[0] == k for x in R.claims), "isclaiming tells whether the component is bumped")
            S.check(c.isbumped(r) != claiming, "isbumped")
            if k in stop or not claiming:
                break
            if act == "passivate":
                yield c.passivate()
            elif act == "hold":
                yield c.hold(50)
            elif act == "request":
                yield c.request(other)
            elif act == "wait":
                yield c.wait(light)
            S.reach(act)
            turns.append(("bumped", k, env.now()))
        if k in stop:
            return
        yield c.passivate()
        S.check(False, "a bumped component is activated only once")

    expect = []
    before = []
    workers = [C.actor(env, worker, k, name=f"w{k}") for k in range(n)]

    def verify():
        S.check([workers.index(c) for c in r.claimers()] == [x[0] for x in R.claims], "the claimers are exactly those that were not bumped, in order of priority")
        S.check([workers.index(c) for c in r.requesters()] == [x[0] for x in R.queue], "exactly the requests that cannot be honored wait")
        for x in R.claims:
            S.close(workers[x[0]].claimed_quantity(r), x[1], "a claimer keeps its whole claim")
        for k, c in enumerate(workers):
            if not any(x[0] == k for x in R.claims):
                S.check(c.claimed_quantity(r) == 0 and r not in c.claimed_resources(), "a bumped component loses its whole claim")
        S.close(r.claimed_quantity(), sum((x[1] for x in R.claims), 0), "quantities are conserved")
        S.close(r.available_quantity(), R.cap - r.claimed_quantity(), "quantities are conserved")

    def hook():
        before[:] = R.claims
        verify()

    env.hook_ = hook

    def controller(c):
        yield c.hold(till=n - 1 + 0.5)
        op = ops[S.choice("op", len(ops))]
        if op == "release":
            S.assume(R.claims)
            k = R.claims[S.choice("k", len(R.claims))][0]
            R.drop(k)
            workers[k].release(r)
            stop.add(k)
        elif op == "capacity":
            R.cap = S.int("newcap", 0, 6)
            R.scan()
            r.set_capacity(R.cap)
        elif op == "cancel":
            k = S.choice("k", n - 1)
            S.assume(not workers[k].isdata() and not workers[k].ispassive() or workers[k].isclaiming(r))
            R.drop(k)
            workers[k].cancel()
            stop.add(k)
        elif op == "fail":
            S.assume(R.queue)
            k = R.queue[S.choice("k", len(R.queue))][0]
            R.queue = [x for x in R.queue if x[0] != k]
            workers[k].passivate()
        S.reach(op)
        verify()

    C.actor(env, controller, name="controller")
    env.run(till=n + 5)
    got = [(k, t) for what, k, t in turns if what == "bumped" and k not in stop]
    want = [(k, t) for k, t in expect if k not in stop]
    S.check([k for k, _ in got] == [k for k, _ in want], "exactly the bumped components are activated")
    for (_, a), (_, b) in zip(got, want):
        S.check(a == b, "a bumped component is activated at once")
    S.log([k for k, _ in got], [x[0] for x in R.claims])
    S.reach("end")


_ops = ["release", "capacity", "cancel", "fail", "nothing"]
HARNESSES = [
    H(preempt, grid(n=[3], ops=[_ops], yieldless=[True]) + grid(n=[3], ops=[["nothing"]], yieldless=[False], activity=[["passivate", "hold"]]) + grid(n=[3], ops=[["nothing"]], yieldless=[True], activity=[["request", "wait", "hold"]], ints=[True])
      + grid(n=[4], ops=[_ops], yieldless=[True], ints=[True]),
      grid(n=[3], ops=[_ops], yieldless=[True, False], activity=[["passivate", "hold", "request", "wait"]]) + grid(n=[4], ops=[_ops], yieldless=[True]) + grid(n=[5], ops=[["nothing"]], ints=[True]),
      expect=_ops + ["bumped 1", "bumped 2", "leftover", "waits", "end", "passivate", "hold", "request", "wait"], bounds="n components, one operation"),
]
