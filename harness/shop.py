"""components that request from / release to resources, driven by a controller; ledger of who holds what.
Shared by C08, C09, C12."""
from .common import *
from . import common as C


class Shop:
    def __init__(self, S, n, caps, yieldless=True, rule="none", preemptive=False):
        sim = C.sim
        self.S = S
        self.env = C.make_env(yieldless)
        kw = dict(honor_only_first=rule == "first", honor_only_highest_priority=rule == "highest", preemptive=preemptive)
        self.rule = rule
        self.res = [sim.Resource(f"r{i}", capacity=c, env=self.env, **kw) for i, c in enumerate(caps)]
        self.cap = list(caps)
        self.n = n
        self.held = [{} for _ in range(n)]  # ledger: component -> resource index -> quantity
        self.want = [None] * n  # pending request: dict(items={ri: q}, prio={ri: p}, oneof)
        self.lowered = [False] * len(caps)
        self.honored_at = [None] * n
        self.turns = []
        self.todo = {}
        self.comps = [C.actor(self.env, self.worker, k, name=f"c{k}") for k in range(n)]
        self.ended = [False] * n

    def worker(self, c, k):
        """passive; each time it gets control (request honored or failed, activated) it notes that and becomes passive again"""
        self.turns.append(("start", k, self.env.now()))
        self.stop = getattr(self, "stop", set())
        while True:
            yield c.passivate()
            while k in self.todo:
                a, kw, before = self.todo.pop(k)
                before()
                yield c.request(*a, **kw)
                self.turns.append(("turn", k, self.env.now(), c.failed()))
            else:
                self.turns.append(("turn", k, self.env.now(), c.failed()))
            if k in self.stop:
                self.ended[k] = True
                self.forget(k)
                return

    def forget(self, k):
        """component k ends or is cancelled: what it holds has to come back"""
        self.held[k] = {}
        self.want[k] = None

    # ---- calls
    def request(self, k, items, oneof=False, selfcall=False, before=None, **kw):
        """items: list of (ri, q, prio); selfcall: the component itself does the request, as soon as it gets control"""
        w = {}
        for ri, q, p in items:
            w[ri] = w.get(ri, 0) + q

        def start():
            self.want[k] = dict(items=w, oneof=oneof)
            if before is not None:
                before()

        a = [(self.res[ri], q, p) for ri, q, p in items]
        kw = dict(kw, oneof=oneof)
        if selfcall:
            self.todo[k] = (a, kw, start)
            self.comps[k].activate()
        else:
            start()
            self.comps[k].request(*a, **kw)

    # ---- which requests were honored?
    def settle(self):
        """read off the statuses which pending requests were honored, update the ledger; atomicity of each request"""
        S = self.S
        for k in range(self.n):
            w = self.want[k]
            if w is None:
                continue
            c = self.comps[k]
            waiting = [c in self.res[ri].requesters() for ri in w["items"]]
            if c.isrequesting():
                S.check(all(waiting), "a requesting component is in the requesters of all resources it asked for")
                continue
            S.check(not any(waiting), "a component that is not requesting is in no requesters queue")
            self.want[k] = None
            got = {}
            for ri, r in enumerate(self.res):
                got[ri] = c.claimed_quantity(r) - self.held[k].get(ri, 0)
            if c.failed():
                for ri in got:
                    S.close(got[ri], 0, "a failed request claims nothing")
            elif w["oneof"]:
                S.check(S.Or(*[S.And(*[(got[rj] == (w["items"][ri] if rj == ri else 0)) for rj in got]) for ri in w["items"]]), "a oneof request claims from exactly one of its resources")
                for ri in w["items"]:
                    if got[ri] > 0:
                        self.held[k][ri] = self.held[k].get(ri, 0) + w["items"][ri]
                        break
                S.reach("honored oneof")
            else:
                for ri in got:
                    S.close(got[ri], w["items"].get(ri, 0), "an honored request claims everything it asked for")
                for ri, q in w["items"].items():
                    self.held[k][ri] = self.held[k].get(ri, 0) + q
                S.reach("honored")
            self.honored_at[k] = self.env.now()

    def conserve(self, what=""):
        """quantities add up, against the ledger"""
        S = self.S
        for ri, r in enumerate(self.res):
            total = 0
            for k, c in enumerate(self.comps):
                h = self.held[k].get(ri, 0)
                S.close(c.claimed_quantity(r), h, "a component holds exactly what it claimed and did not release")
                S.check((r in c.claimed_resources()) == (ri in self.held[k]), "claimed_resources of a component")
                S.check((c in r.claimers()) == (ri in self.held[k]), "claimers of a resource")
                S.check(c.isclaiming(r) == (ri in self.held[k]) and c.isbumped(r) != c.isclaiming(r), "isclaiming")
                total = total + h
            S.close(r.claimed_quantity(), total, "claimed quantity is the sum of what the claimers hold")
            S.close(r.capacity(), self.cap[ri], "capacity")
            S.close(r.available_quantity(), self.cap[ri] - total, "available plus claimed is the capacity")
            if not self.lowered[ri]:
                S.check(r.claimed_quantity() <= r.capacity(), "claimed quantity is not more than the capacity")
                S.check(r.claimed_quantity() >= 0, "claimed quantity is not negative")
            if r.capacity() > 0:
                S.close(r.occupancy(), total / self.cap[ri], "occupancy")
            S.check(len(r.claimers()) == sum(ri in h for h in self.held), "number of claimers")
            S.check(len(r.requesters()) == sum(w is not None and ri in w["items"] for w in self.want), "number of requesters")
        for k, c in enumerate(self.comps):
            w = self.want[k]
            S.check(c.isclaiming() == bool(self.held[k]) and c.isbumped() != c.isclaiming(), "isclaiming, of any resource")
            for ri, r in enumerate(self.res):
                S.close(c.requested_quantity(r), w["items"].get(ri, 0) if w else 0, "requested_quantity")
            S.check(set(c.requested_resources()) == {self.res[ri] for ri in (w["items"] if w else ())}, "requested_resources")

    def honorable(self, k):
        """could the pending request of component k be honored under the rules?"""
        S = self.S
        w = self.want[k]
        c = self.comps[k]
        oks = []
        for ri, q in w["items"].items():
            r = self.res[ri]
            held = sum((h.get(ri, 0) for h in self.held), 0)
            ok = q <= self.cap[ri] - held
            line = list(r.requesters())
            if self.rule == "first":
                ok = S.And(ok, line[0] is c)
            if self.rule == "highest":
                ok = S.And(ok, c.priority(r.requesters()) == line[0].priority(r.requesters()))
            oks.append(ok)
        return S.Or(*oks) if w["oneof"] else S.And(*oks)

    def nobody_forgotten(self):
        S = self.S
        for k in range(self.n):
            if self.want[k] is not None:
                S.check(S.Not(self.honorable(k)), "no component waits for a request that can be honored")
                S.reach("waits")
