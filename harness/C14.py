"""C14: stores against a reference"""
from .common import *
from . import common as C
from .C10 import defaults

BOUNDS = "sequences of 3-5 store operations on one or two stores of symbolic capacity: from_store with symbolic filter, key and request priority, to_store with symbolic item attribute, item priority and request priority, enter, explicit removal, capacity change, filter change, rescan after an attribute change, cancel and failing of waiting requests; reference and invariants (no item lost, duplicated or over capacity, nobody forgotten) after every operation"
OUTSIDE = "filters with side effects; Queue methods that move many components at once applied to a store (clear, move)"


class Item:
    def __init__(self, name, x):
        self.name, self.x = name, x


class Ref:
    def __init__(self, S, caps):
        self.S = S
        self.cap = list(caps)
        self.cont = [[] for _ in caps]  # [item, prio]
        self.fq = [[] for _ in caps]
        self.tq = [[] for _ in caps]
        self.pend = {}
        self.got = {}  # from_store: k -> (item, store)
        self.put_ = {}  # to_store: k -> store

    @staticmethod
    def insert(lst, x, p):
        i = len(lst)
        while i > 0 and lst[i - 1][1] > p:
            i -= 1
        lst.insert(i, [x, p])

    def room(self, s):
        return self.cap[s] - len(self.cont[s]) > 0

    def drop(self, k):
        d = self.pend.pop(k)
        for s in range(len(self.cap)):
            self.fq[s] = [y for y in self.fq[s] if y[0] != k]
            self.tq[s] = [y for y in self.tq[s] if y[0] != k]
        return d

    def enter(self, s, item, prio):
        self.insert(self.cont[s], item, prio)
        for k, _ in list(self.fq[s]):
            if self.pend[k]["filter"](item):
                self.drop(k)
                self.got[k] = (item, s)
                self.leave(s, item)
                break

    def leave(self, s, item):
        self.cont[s] = [y for y in self.cont[s] if y[0] is not item]
        self.admit(s)

    def admit(self, s):
        if self.tq[s] and self.room(s):
            k = self.tq[s][0][0]
            d = self.drop(k)
            self.put_[k] = s
            self.enter(s, d["item"], d["prio"])

    def from_store(self, k, ss, filt, key, p):
        best = None
        for s in ss:
            for item, _ in self.cont[s]:
                if filt(item):
                    if key is None:
                        best = (item, s)
                        break
                    if best is None or key(item) < key(best[0]):
                        best = (item, s)
            if best is not None and key is None:
                break
        if best is not None:
            self.got[k] = best
            self.leave(best[1], best[0])
        else:
            self.pend[k] = dict(kind="from", filter=filt, stores=ss)
            for s in ss:
                self.insert(self.fq[s], k, p)

    def to_store(self, k, ss, item, prio, p):
        for s in ss:
            if self.room(s):
                self.put_[k] = s
                self.enter(s, item, prio)
                return
        self.pend[k] = dict(kind="to", item=item, prio=prio, stores=ss)
        for s in ss:
            self.insert(self.tq[s], k, p)

    def capacity(self, s, c):
        self.cap[s] = c
        while self.tq[s] and self.room(s):
            self.admit(s)

    def rescan(self, s):
        for k, _ in list(self.fq[s]):
            if k in self.pend:
                for item, _ in self.cont[s]:
                    if self.pend[k]["filter"](item):
                        self.drop(k)
                        self.got[k] = (item, s)
                        self.leave(s, item)
                        break


def run(S, plan, nstores=1, yieldless=True, prio="sym", caps=None, monitor=True, start=0):
    sim = C.sim
    env = C.make_env(yieldless)
    n = len(plan)
    plan = [S.pick(f"plan{k}", x) if isinstance(x, list) else x for k, x in enumerate(plan)]
    cap = [S.int(f"cap{s}", 0 if "capacity" in plan else 1, 2) if caps is None else caps[s] for s in range(nstores)]
    st = [sim.Store(f"s{s}", capacity=cap[s], env=env) for s in range(nstores)]
    if not monitor:
        for s in st:
            s.monitor(False)
    R = Ref(S, cap)
    items = {}  # Item -> component
    removed = []
    lowered = [False] * nstores
    turns = {}
    comps = []

    def new_item(name, x):
        it = Item(name, x)
        c = C.data(env, name=name)
        c.x = x
        items[it] = c
        return it

    for j in range(start):
        it = new_item(f"start{j}", S.int(f"x_start{j}", 0, 2))
        s = j % nstores
        S.assume(cap[s] >= 1 + j // nstores)
        R.enter(s, it, 0)
        items[it].enter(st[s])

    def pr(name):
        return 0 if prio == "none" else S.real(name, -1, 1)

    def verify():
        for s in range(nstores):
            want = R.cont[s]
            S.check(list(st[s]) == [items[i] for i, _ in want], "contents of the store, in order of priority and arrival")
            S.check(len(st[s]) == len(want) and st[s].length() == len(want), "length of the store")
            S.close(st[s].capacity(), R.cap[s], "capacity of the store")
            S.close(st[s].available_quantity(), R.cap[s] - len(want), "available quantity of the store")
            if not lowered[s]:
                S.check(len(want) <= R.cap[s], "never more than its capacity")
            S.check([comps.index(c) for c in st[s].from_store_requesters()] == [k for k, _ in R.fq[s]], "waiting from_store requests in order")
            S.check([comps.index(c) for c in st[s].to_store_requesters()] == [k for k, _ in R.tq[s]], "waiting to_store requests in order")
        for k, c in enumerate(comps):
            S.check(c.isrequesting() == (k in R.pend), "waits iff it cannot be served")
        # invariants
        for it, c in items.items():
            places = sum(c in s for s in st) + sum(1 for g in R.got.values() if g[0] is it) + sum(1 for d in R.pend.values() if d.get("item") is it) + (it in removed)
            S.check(places == 1, "every item is in exactly one place")
        for k, d in R.pend.items():
            for s in d["stores"]:
                if d["kind"] == "from":
                    for it, _ in R.cont[s]:
                        S.check(S.Not(d["filter"](it)), "no from_store waits for an item that is there")
                else:
                    S.check(R.cap[s] - len(R.cont[s]) <= 0, "no to_store waits while there is room")

    def which(k):
        return list(range(nstores)) if nstores == 1 or "2" in plan[k] else [0]

    def worker(c, k):
        op = plan[k].rstrip("2")
        yield c.hold(k + 1)
        ss = which(k)
        stores = [st[s] for s in ss] if len(ss) > 1 else st[ss[0]]
        if op in ("from", "key", "fromfail"):
            b = S.int(f"b{k}", 0, 2)
            p = pr(f"p{k}")
            key = (lambda i: -i.x) if op == "key" else None
            filt[k] = lambda i: i.x >= b
            R.from_store(k, ss, filt[k], key, p)
            v = yield c.from_store(stores, filter=lambda i: filt[k](i), request_priority=p, key=key, fail_at=n + 1.5 if op == "fromfail" else None)
            turns[k] = env.now()
            if k in R.got:
                S.check(v is items[R.got[k][0]], "from_store returns the first matching item, or the one with the lowest key")
                S.check(c.from_store_item() is v and c.from_store_store() is st[R.got[k][1]], "from_store_item and from_store_store")
                S.check(not c.failed(), "honored")
            else:
                S.check(v is None and c.failed(), "failed")
        elif op in ("to", "tofail"):
            it = new_item(f"item{k}", S.int(f"x{k}", 0, 2))
            ip, p = pr(f"ip{k}"), pr(f"p{k}")
            R.to_store(k, ss, it, ip, p)
            yield c.to_store(stores, items[it], priority=ip, request_priority=p, fail_at=n + 1.5 if op == "tofail" else None)
            turns[k] = env.now()
            if k in R.put_:
                S.check(c.to_store_store() is st[R.put_[k]], "to_store_store")
                S.check(not c.failed(), "honored")
            else:
                S.check(c.failed(), "failed")
                removed.append(it)
        elif op == "enter":
            it = new_item(f"item{k}", S.int(f"x{k}", 0, 2))
            ip = pr(f"ip{k}")
            if R.room(0):
                R.enter(0, it, ip)
                items[it].enter_sorted(st[0], ip)
            else:
                try:
                    items[it].enter_sorted(st[0], ip)
                    S.check(False, "a full store refuses")
                except sim.QueueFullError:
                    S.reach("refused")
                removed.append(it)
        elif op == "remove":
            S.assume(len(R.cont[0]))
            it = R.cont[0][S.choice("which", len(R.cont[0]))][0]
            removed.append(it)
            R.leave(0, it)
            items[it].leave(st[0])
        elif op == "capacity":
            R_old = R.cap[0]
            new = S.int("newcap", 0, 3)
            if new < R_old:
                lowered[0] = True
            R.capacity(0, new)
            st[0].set_capacity(new)
        elif op == "rescan":
            S.assume(len(R.cont[0]))
            it = R.cont[0][S.choice("which", len(R.cont[0]))][0]
            it.x = S.int("newx", 0, 2)
            items[it].x = it.x
            R.rescan(0)
            st[0].rescan()
        elif op == "filter":
            ks = [q for q, d in R.pend.items() if d["kind"] == "from"]
            S.assume(ks)
            q = ks[S.choice("which", len(ks))]
            b = S.int("newb", 0, 2)
            stores_q = R.pend[q]["stores"]
            R.pend[q]["filter"] = filt[q] = lambda i: i.x <= b
            for s in stores_q:
                R.rescan(s)
            comps[q].filter(filt[q])
        elif op == "cancel":
            ks = list(R.pend)
            S.assume(ks)
            q = ks[S.choice("which", len(ks))]
            d = R.drop(q)
            if d["kind"] == "to":
                removed.append(d["item"])
            comps[q].cancel()
        S.reach(op)
        if len(turns) < len(R.got) + len(R.put_):
            S.reach("others honored")
        yield c.passivate()

    filt = {}
    when = {}

    def hook():
        if env.now() > n + 1:
            for k in list(R.pend):
                if plan[k].rstrip("2") in ("fromfail", "tofail"):
                    d = R.drop(k)
        else:
            verify()
        for k in list(R.got) + list(R.put_):
            when.setdefault(k, env.now())

    comps += [C.actor(env, worker, k, name=f"w{k}") for k in range(n)]
    env.hook_ = hook
    env.run(till=n + 1)
    env.run(till=n + 3)
    verify()
    for k in list(R.got) + list(R.put_):
        S.check(turns.get(k) == when[k], "continues at the moment it is served")
    S.check(len(turns) == len(R.got) + len(R.put_) + sum(1 for k in range(n) if plan[k].rstrip("2") in ("fromfail", "tofail") and k not in R.got and k not in R.put_ and not comps[k].isdata()), "nobody else continues")
    S.log(sorted(turns), [len(x) for x in R.cont])
    S.reach("end")


_q = [["from", "to", "from", "to"], ["to", "to", "from", "to"], ["to", "to", "from", "from"], ["to", "to", "to", "remove"], ["to", "to", "key"], ["from", "from", "enter", "enter"], ["from", "to", "capacity", "to"], ["to", "to", "to", "capacity"],
      ["from", "enter", "rescan"], ["from", "from", "enter", "filter"], ["to", "tofail", "from"], ["fromfail", "from", "to"], ["to", "to", "cancel", "from"]]
_base, _special = ["from", "to"], ["remove", "capacity", "rescan", "filter", "cancel", "key", "from", "to"]
_base2, _special2 = ["from2", "to2", "from", "to"], ["key2", "from2", "to2", "remove", "capacity", "filter", "cancel"]
_any = ["from", "to", "key", "enter"] + _special[:5]
HARNESSES = [
    H(defaults, grid(what=['from', 'from2', 'to', 'to2'], yieldless=[True, False]), expect=['from', 'from2', 'to', 'to2'], bounds='default against explicit priority'),
    H(run, grid(plan=_q, yieldless=[True]) + grid(plan=[["from", "to", "capacity", "to"], ["fromfail", "from", "to"], ["from", "from", "enter", "filter"], ["to", "tofail", "from"]], yieldless=[False], prio=["none"])
      + grid(plan=[[_base, _base, _base, _special, _base]], prio=["none"], start=[0, 1]) + grid(plan=[[_base, _base, _base, _special]], yieldless=[False])
      + grid(plan=[[_base2, _base2, _base2, _special2]], nstores=[2], prio=["none"]) + grid(plan=[[["from2"], ["from2"], ["from2", "to2"], _special2]], nstores=[2]) + grid(plan=[["from", "to", "to", "remove"]], monitor=[False], prio=["none"]),
      grid(plan=_q, yieldless=[True, False]) + grid(plan=[[_any, _any, _any, _any]], yieldless=[True, False], start=[0, 1]) + grid(plan=[[_base, _base, _base, _base, _special, _base]], prio=["none"], start=[1])
      + grid(plan=[[_base2, _base2, _base2, _special2, _base2]], nstores=[2], prio=["none"]) + grid(plan=[[_base2, _base2, _base2, _special2]], nstores=[2], yieldless=[True, False]),
      expect=["from", "to", "key", "capacity", "remove", "rescan", "filter", "cancel", "enter", "fromfail", "tofail", "others honored", "refused", "end"], bounds="plan: the operations"),
]
