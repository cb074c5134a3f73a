"""C28: status and mode histories against what was observed at every event"""
from .common import *
from . import common as C
from . import C24

BOUNDS = "lives of three (thorough four) phases out of nine kinds (hold, passive, standby, requesting, waiting, interrupted, storing, cancelled, moved on by another component), symbolic phase lengths and creation time, with and without modes; the nineteen models of C24 observed after every event; both process styles"
OUTSIDE = "values at exactly the moment of a change; floating point rounding"

KINDS = ["hold", "passivate", "standby", "request", "wait", "interrupt", "from_store", "to_store", "cancel", "activate", "hold0"]
STATUS = dict(hold="scheduled", passivate="passive", standby="standby", request="requesting", wait="waiting", interrupt="interrupted", from_store="requesting", to_store="requesting", cancel="data", activate="scheduled", hold0="scheduled")
ALL = ["data", "current", "standby", "passive", "interrupted", "scheduled", "requesting", "waiting"]


def check_monitor(S, m, segs, values, born, now, msg):
    """segs: (t0, t1, value)"""
    tot = 0
    for v in values:
        want = sum((b - a for a, b, x in segs if x == v), 0)
        S.close(m.value_duration(v), want, f"{msg}: time in {v}")
        tot = tot + want
    S.close(tot, now - born, f"{msg}: all time since creation")
    S.close(m.duration(), now - born, f"{msg}: duration")


def life(S, kinds, modes, yl):
    env = C.make_env(yl)
    born = S.real("born", 0, 3)
    durs = [S.real(f"d{i}", 0, 3) for i in range(len(kinds))]
    r = C.sim.Resource("r", capacity=0, env=env)
    s = C.sim.State("s", env=env)
    full, empty = C.sim.Store("full", capacity=0, env=env), C.sim.Store("empty", env=env)
    segs, msegs = [], []
    cur = []
    mode = ["zero" if modes else ""]

    def seg(what, t):
        if cur:
            segs.append((cur[-1][0], t, cur[-1][1]))
        cur.append((t, what))

    def setmode(i):
        t = env.now()
        msegs.append((mt[0], t, mode[0]))
        mode[0] = f"m{i}"
        mt[0] = t

    mt = [None]

    def p(c, start=0):
        for i in range(start, len(kinds)):
            k = kinds[i]
            kw = dict(mode=f"m{i}") if modes and (i != 1 or modes == 1) else {}
            if kw and k not in ("interrupt", "activate"):
                setmode(i)
            seg(STATUS[k], env.now())
            if k == "interrupt":
                # starts as a hold
                cur[-1] = (env.now(), "scheduled")
                yield c.hold(99)
            elif k == "activate":
                cur[-1] = (env.now(), "passive")
                yield c.passivate()
            elif k == "hold":
                yield c.hold(durs[i], **kw)
            elif k == "hold0":
                yield c.hold(0, **kw)
            elif k == "passivate":
                yield c.passivate(**kw)
            elif k == "standby":
                due[0] = inf
                yield c.standby(**kw)
                while env.now() < due[0]:
                    yield c.standby()
            elif k == "request":
                yield c.request(r, fail_delay=durs[i], **kw)
            elif k == "wait":
                yield c.wait(s, fail_delay=durs[i], **kw)
            elif k == "from_store":
                yield c.from_store(empty, fail_delay=durs[i], **kw)
            elif k == "to_store":
                yield c.to_store(full, C.data(env, "x"), fail_delay=durs[i], **kw)
            elif k == "cancel":
                yield c.cancel(**kw)
            ready.append(i)
            seg("passive", env.now())
            yield c.passivate()
        seg("data", env.now())

    due = [0]
    ready = []

    gap = S.pick("gap", [0, 0.5])

    def stop(c):
        ready.append(0)
        seg("passive", env.now())
        yield c.passivate()

    def boss(c):
        yield c.hold(born)
        x = C.actor(env, p, name="x", mode=mode[0])
        comp.append(x)
        cur.append((env.now(), "scheduled"))
        mt[0] = env.now()
        S.check(x.status() == "scheduled" and x.mode() == mode[0], "just created")
        S.close(x.creation_time(), env.now(), "creation time")
        for i, k in enumerate(kinds):
            yield c.hold(0)
            due[0] = env.now() + durs[i]
            if k == "interrupt":
                kw = dict(mode=f"m{i}") if modes and (i != 1 or modes == 1) else {}
                if kw:
                    setmode(i)
                seg("interrupted", env.now())
                x.interrupt(**kw)
                yield c.hold(durs[i])
                seg("scheduled", env.now())
                x.resume()
                x.hold(0)
                yield c.hold(0)
            elif k == "activate":
                kw = dict(mode=f"m{i}") if modes and (i != 1 or modes == 1) else {}
                if kw:
                    setmode(i)
                seg("scheduled", env.now())
                x.activate(delay=durs[i], **kw)
                yield c.hold(durs[i])
                yield c.hold(0)
            elif k == "passivate":
                S.check(x.status() == "passive", "passive")
                yield c.hold(durs[i])
                seg("scheduled", env.now())
                x.activate()
                yield c.hold(0)
            elif k == "cancel":
                S.check(x.status() == "data", "cancelled")
                yield c.hold(durs[i])
                seg("scheduled", env.now())
                if i % 2:
                    x.activate(process="again", script=p, args=(i + 1,))
                    yield c.hold(0)
                    S.check(x.mode() == mode[0], "mode")
                    continue
                x.activate(process="again", script=stop)
                yield c.hold(0)
            elif k != "hold0":
                S.check(x.status() == STATUS[k] or durs[i] <= 0, f"status while {k}")
                yield c.hold(durs[i])
                if k == "standby":
                    yield c.hold(0)
                yield c.hold(0)
            else:
                yield c.hold(0)
            S.check(x.mode() == mode[0], "mode")
            S.close(x.mode_time(), mt[0], "mode time")
            n = 0
            while not ready:
                n += 1
                S.check(n < 5, f"{k} ends in time")
                yield c.hold(0)
            ready.clear()
            S.check(x.status() == "passive", "passive in between")
            yield c.hold(gap)
            seg("scheduled", env.now())
            if k == "cancel":
                x.activate(process="again", script=p, args=(i + 1,))
            else:
                x.activate()
        yield c.hold(1)

    comp = []
    C.actor(env, boss, name="boss", priority=1)
    env.run(till=18)
    x = comp[0]
    now = env.now()
    S.check(x.status() == "data", "ended")
    segs.append((cur[-1][0], now, cur[-1][1]))
    msegs.append((mt[0], now, mode[0]))
    check_monitor(S, x.status, segs, ALL, born, now, "status")
    check_monitor(S, x.mode, msegs, sorted(set(m for _, _, m in msegs)), born, now, "mode")
    t = S.real("t", 0, 18)
    for mon, ss in ((x.status, segs), (x.mode, msegs)):
        for a, b, v in ss:
            if a < t < b:
                S.check(mon(t) == v, "value at a moment in the past")
                S.check(mon.get(t) == v, "value at a moment in the past")
    S.reach("life")


def models(S, model, yl):
    """the durations are those observed at all events"""
    inp = C24.inputs(S, model, 0)
    seen = {}

    def observe():
        now = w.env.now()
        for c in comps():
            old = seen.get(c)
            if old is None:
                old = seen[c] = dict(t=w.env.now(), status=c.status(), mode=c.mode(), dur={}, mdur={})
                S.close(c.creation_time(), now, "observed from its creation") if c not in first else None
            d = now - old["t"]
            old["dur"][old["status"]] = old["dur"].get(old["status"], 0) + d
            old["mdur"][old["mode"]] = old["mdur"].get(old["mode"], 0) + d
            old.update(t=now, status=c.status(), mode=c.mode())
            S.check(old["status"] in ALL, "a known status")

    def comps():
        return w.comps

    first = set()
    w = C24.World(S, inp, yl)
    w.comps = []
    w.env.hook_ = observe
    C24.MODELS[model](w)
    observe()
    if model not in C24.SELFRUN:
        w.env.run(till=12)
    observe()
    now = w.env.now()
    for c, o in seen.items():
        for v in ALL:
            S.close(c.status.value_duration(v), o["dur"].get(v, 0), f"time in status {v}")
        for v, d in o["mdur"].items():
            S.close(c.mode.value_duration(v), d, "time in mode")
        S.close(c.status.duration(), now - c.creation_time(), "all time since creation")
        S.close(c.mode.duration(), now - c.creation_time(), "all time since creation")
        S.check(c.status() == c.status.value and c.status() == c.status(now), "the status is the current value of the monitor")
    S.reach(model)


def assign(S, yl):
    """mode assigned in all ways, at any moment, also the same mode again"""
    env = C.make_env(yl)
    a, b = S.real("a", 0, 3), S.real("b", 0, 3)
    how = [S.choice(f"how{i}", 4) for i in range(2)]
    vals = [S.pick(f"val{i}", ["x", "y", ""]) for i in range(2)]
    c = C.data(env, "c", mode="x") if S.flag("given") else C.data(env, "c")
    m0 = c.mode()
    S.check(m0 in ("x", ""), "initial mode")
    log = [(0, m0)]
    env.run(a)
    for i in range(2):
        t = env.now()
        v = vals[i]
        if how[i] == 0:
            c.set_mode(v)
        elif how[i] == 1:
            c.mode.value = v
        elif how[i] == 2:
            c.set_mode(None)
        else:
            c.set_mode()
        if how[i] < 2:
            log.append((t, v))
        S.check(c.mode() == log[-1][1] and c.mode.value == log[-1][1], "mode")
        S.close(c.mode_time(), log[-1][0], "mode time")
        env.run(b)
        S.close(c.mode_time(), log[-1][0], "mode time, later")
    segs = [(t, u[0], v) for (t, v), u in zip(log, log[1:] + [(env.now(), None)])]
    check_monitor(S, c.mode, segs, ["x", "y", ""], 0, env.now(), "mode")
    S.reach("assign")


MODELS = list(C24.MODELS)
Q = [["hold", "passivate", "standby"], ["request", "wait", "hold"], ["interrupt", "hold", "cancel"], ["from_store", "to_store", "activate"], ["standby", "interrupt", "wait"], ["cancel", "request", "passivate"], ["activate", "standby", "interrupt"], ["wait", "cancel", "hold0"]]
T = [[a, b, c] for a in KINDS for b in KINDS for c in ("hold", "interrupt", "cancel", "standby")]
HARNESSES = [
    H(life, grid(kinds=Q + T[::6], modes=[1], yl=[True]) + grid(kinds=Q[:4], modes=[0, 2], yl=[False]), grid(kinds=T, modes=[1], yl=[True]) + grid(kinds=T[::5], modes=[0, 2], yl=[True, False]), expect=["life"]),
    H(models, grid(model=MODELS, yl=[True]), grid(model=MODELS, yl=[True, False]), expect=MODELS),
    H(assign, grid(yl=[True]), grid(yl=[True, False]), expect=["assign"]),
]
