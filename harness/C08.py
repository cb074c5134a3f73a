"""C08: conservation of resource quantities, against a ledger"""
from .common import *
from . import common as C
from .shop import Shop

BOUNDS = "3 components, 1-2 resources with symbolic integer capacity, 3 requests (one or two resources, the same resource twice, oneof; symbolic quantities (multiples of 1/4) and priorities) followed by 2 (thorough: 3) of: request, full or partial release, release by resource, cancel, end, passivate, re-activate, capacity change; ledger compared after every call and every event"
OUTSIDE = "non-integer quantities within the library's tolerance of 1e-8; more components; anonymous (C11) and preemptive (C12) resources"


def conservation(S, kinds, nops, ops, nres, yieldless=True, rule="none", pause=0, selfcall=False):
    sim = C.sim
    cap = [S.int(f"cap{i}", 1, 4) for i in range(nres)]
    shop = Shop(S, 3, cap, yieldless, rule)
    env = shop.env
    busy = [False]

    def verify():
        if not busy[0]:
            shop.settle()
            shop.conserve()

    env.hook_ = verify

    def ask(i, k, kind):
        q = S.int(f"q{i}", 1, 12) * 0.25
        p = S.real(f"p{i}", -1, 1) if kind in ("one", "same") else 0
        if kind in ("one", "noprio"):
            items = [(0, q, p)]
        elif kind == "two":
            items = [(0, q, p), (1, S.int(f"q{i}b", 0, 8) * 0.25, p)]
        elif kind == "same":
            items = [(0, q, p), (0, 1, p)]
        elif kind == "oneof":
            items = [(0, q, p), (1, S.int(f"q{i}b", 1, 8) * 0.25, p)]
        busy[0] = True
        shop.request(k, items, oneof=kind == "oneof", selfcall=selfcall)
        busy[0] = False
        verify()
        S.reach(kind)

    def controller(c):
        yield c.hold(1)
        for i, kind in enumerate(kinds):
            ask(i, i, kind)
            if selfcall:
                yield c.hold(0, priority=1)
            if pause == "any" and S.flag(f"pause{i}") or pause == 1:
                yield c.hold(1)
        yield c.hold(1)
        for i in range(nops):
            op = ops[S.choice(f"op{i}", len(ops))]
            k = S.choice(f"k{i}", 3) if op not in ("release_r", "capacity") else 0
            x = shop.comps[k]
            busy[0] = True
            if op == "request":
                S.assume(not x.isdata() and shop.want[k] is None)
                ask(10 + i, k, "noprio")
            elif op == "release":
                S.assume(len(shop.held[k]) > 0)
                x.release()
                shop.held[k] = {}
            elif op == "partial":
                S.assume(0 in shop.held[k])
                q = S.int(f"rq{i}", 0, 16) * 0.25
                h = shop.held[k].pop(0)
                rest = h - (q if q <= h else h)
                if rest > 0:
                    shop.held[k][0] = rest
                x.release((shop.res[0], q))
            elif op == "release_bad":
                S.assume(0 not in shop.held[k])
                try:
                    x.release(shop.res[0])
                    S.check(False, "releasing what is not claimed raises an error")
                except ValueError:
                    pass
            elif op == "release_r":
                for h in shop.held:
                    h.pop(0, None)
                shop.res[0].release()
            elif op == "cancel":
                S.assume(not x.isdata())
                shop.forget(k)
                x.cancel()
            elif op == "end":
                S.assume(x.ispassive())
                shop.stop.add(k)
                x.activate()
            elif op == "passivate":
                S.assume(not x.isdata())
                shop.want[k] = None
                x.passivate()
            elif op == "activate":
                S.assume(not x.isdata())
                shop.want[k] = None
                x.activate()
            elif op == "capacity":
                shop.cap[0] = S.int(f"newcap{i}", 0, 5)
                shop.lowered[0] = True
                shop.res[0].set_capacity(shop.cap[0])
            busy[0] = False
            S.reach(op)
            verify()
            if pause == "any" and S.flag(f"pauseop{i}") or pause == 0:
                yield c.hold(1)
        yield c.hold(1)

    C.actor(env, controller, name="controller", priority=1)
    env.run()
    for m in (shop.res[0].claimed_quantity, shop.res[0].available_quantity):
        pass
    S.log([len(h) for h in shop.held], [k for _, k, *_ in shop.turns])
    S.reach("end")


def statistics(S, nres=1):
    """the monitors of a resource record the true claimed quantity over time"""
    from .C07 import Signal, same_mean

    cap = S.pick("cap", [2, 3])
    shop = Shop(S, 2, [cap])
    env = shop.env
    r = shop.res[0]
    sig = {m: Signal(0, v) for m, v in (("claimed", 0), ("avail", cap), ("cap", cap), ("req", 0), ("cla", 0))}

    def verify():
        shop.settle()
        shop.conserve()
        t = env.now()
        held = sum((h.get(0, 0) for h in shop.held), 0)
        sig["claimed"].set(t, held)
        sig["avail"].set(t, shop.cap[0] - held)
        sig["cap"].set(t, shop.cap[0])
        sig["req"].set(t, sum(w is not None for w in shop.want))
        sig["cla"].set(t, sum(0 in h for h in shop.held))
        for name, m in (("claimed", r.claimed_quantity), ("avail", r.available_quantity), ("cap", r.capacity), ("req", r.requesters().length), ("cla", r.claimers().length)):
            same_mean(S, m.mean(), sig[name].integral(t), sig[name].duration(t), f"time average of {name}")

    env.hook_ = verify

    def controller(c):
        yield c.hold(S.real("g0", 0, 5))
        shop.request(0, [(0, S.pick("q0", [1, 2]), 0)])
        yield c.hold(S.real("g1", 0, 5))
        shop.request(1, [(0, S.pick("q1", [1, 2]), 0)])
        yield c.hold(S.real("g2", 0, 5))
        if S.flag("rel"):
            if shop.held[0]:
                shop.held[0] = {}
                shop.comps[0].release()
        else:
            shop.cap[0] = S.pick("newcap", [1, 4])
            shop.lowered[0] = True
            r.set_capacity(shop.cap[0])
        yield c.hold(S.real("g3", 0, 5))

    C.actor(env, controller, name="controller", priority=1)
    env.run()
    S.reach("end")


_ops = ["request", "release", "partial", "release_bad", "release_r", "cancel", "end", "passivate", "activate", "capacity"]
_all = dict(ops=[_ops])
HARNESSES = [
    H(conservation, grid(kinds=[["one", "one", "one"]], nops=[1], nres=[1], yieldless=[True, False], selfcall=[True], **_all)
      + grid(kinds=[["two", "one", "oneof"], ["oneof", "two", "one"], ["same", "two", "one"]], nops=[1], nres=[2], pause=[1], **_all)
      + grid(kinds=[["noprio", "noprio"]], nops=[2], nres=[1], pause=[0, 1], **_all),
      grid(kinds=[["one", "one", "one"]], nops=[2], nres=[1], yieldless=[True, False], rule=["none", "first", "highest"], pause=[0, 1], **_all)
      + grid(kinds=[["two", "one", "oneof"], ["oneof", "two", "one"], ["same", "two", "one"]], nops=[2], nres=[2], pause=[0, 1], selfcall=[False, True], **_all)
      + grid(kinds=[["noprio", "noprio"]], nops=[3], nres=[1], pause=["any"], **_all),
      expect=_ops + ["end", "one", "two", "oneof", "same", "honored", "honored oneof"], bounds="kinds: the initial requests; nops further operations"),
    H(statistics, [{}], expect=["end"], bounds="2 components, 1 resource, 4 symbolic moments"),
]
