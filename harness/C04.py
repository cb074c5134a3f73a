"""C04: interrupt, resume and remaining duration"""
from .common import *
from . import common as C

BOUNDS = "one holding component, 4 (thorough: 5) interrupt/resume/set calls at symbolic moments, symbolic durations in [0,50]; two (thorough: three) calls including a new hold (also till, also interrupted) by another component; three components resumed at once with symbolic priorities; at ties the holding component goes first"
OUTSIDE = "longer call sequences"

OPS = ["interrupt", "resume", "resume_all", "set_remaining", "nothing"]
HOLDS = OPS[:4] + ["hold", "hold_till", "hold_interrupted"]


def interrupts(S, nops, yieldless, start, ops=OPS):
    """X holds D; the controller interrupts and resumes it"""
    env = C.make_env(yieldless)
    D = S.real("D", 0, 50)
    done = []

    def script(x):
        if start == "hold":
            yield x.hold(D)
        else:
            yield x.hold(D, interrupted=start)
        done.append(env.now())
        yield x.passivate()
        done.append("again")

    x = C.actor(env, script, name="x")
    # reference: running with 'left' from 'since', or interrupted with 'left'
    m = dict(level=0 if start == "hold" else start, left=D, since=0, done=None)

    def controller(c):
        t = 0
        for i in range(nops):
            gap = S.real(f"gap{i}", 0, 50)
            t = t + gap
            yield c.hold(gap, priority=1)
            if m["done"] is None and m["level"] == 0 and m["since"] + m["left"] <= t:
                m["done"] = m["since"] + m["left"]
            op = S.pick(f"op{i}", ops)
            if m["done"] is not None:
                S.check(len(done) == 1, "the hold has ended")
                S.reach("ended in between")
                if op in ("interrupt", "resume"):
                    try:
                        x.interrupt() if op == "interrupt" else x.resume()
                    except ValueError:
                        S.reach("refused after the end")
                    else:
                        S.check(False, "interrupt and resume are refused on a passive component")
                return
            S.check(len(done) == 0, "the hold has not ended")
            S.check(x.status() == ("interrupted" if m["level"] else "scheduled"), "status")
            S.check(x.interrupt_level() == m["level"], "interrupt level")
            left = m["left"] if m["level"] else m["since"] + m["left"] - t
            S.close(x.remaining_duration(), left, "remaining duration")
            if op == "interrupt":
                x.interrupt()
                if m["level"] == 0:
                    m["left"] = left
                m["level"] += 1
                S.check(x.interrupted_status() == "scheduled", "the interrupted status is remembered")
                if m["level"] == 2:
                    S.reach("nested")
            elif op in ("resume", "resume_all"):
                try:
                    x.resume(all=op == "resume_all")
                    raised = False
                except ValueError:
                    raised = True
                S.check(raised == (m["level"] == 0), "resume is refused exactly when not interrupted")
                if not raised:
                    m["level"] = 0 if op == "resume_all" else m["level"] - 1
                    if m["level"] == 0:
                        m["since"] = t
                        S.reach("resumed")
            elif op == "set_remaining":
                v = S.real(f"v{i}", 0, 50)
                x.remaining_duration(v)
                m["left"] = v
                m["since"] = t
                S.reach("set")
            elif op.startswith("hold"):
                v = S.real(f"v{i}", 0, 50)
                k = S.pick(f"k{i}", [True, 2]) if op == "hold_interrupted" else False
                if op == "hold_till":
                    x.hold(till=t + v)
                else:
                    x.hold(v, interrupted=k)
                m["left"], m["since"], m["level"] = v, t, int(k)
                S.check(x.status() == ("interrupted" if k else "scheduled"), "status after a hold by another component")
                S.reach("held anew")
            left = m["left"] if m["level"] else m["since"] + m["left"] - t
            S.close(x.remaining_duration(), left, "remaining duration")
            S.check(x.interrupt_level() == m["level"], "interrupt level")
            if m["level"] == 0:
                S.close(x.scheduled_time(), t + left, "scheduled time")

    C.actor(env, controller, name="controller")
    env.run(till=10000)
    if m["done"] is None and m["level"] == 0:
        m["done"] = m["since"] + m["left"]
    if m["done"] is None:
        S.check(not done and x.isinterrupted(), "an interrupted component does not continue by itself")
        S.close(x.remaining_duration(), m["left"], "the remaining duration stays constant while interrupted")
        S.reach("left interrupted")
    else:
        S.check(len(done) == 1 and x.ispassive(), "the hold ends once")
        S.close(done[0], m["done"], "the hold ends after exactly its duration of not being interrupted")
        S.reach("ended")
    S.log(done, x.status())


def passivate_idiom(S, yieldless):
    """passivate and hold(remaining_duration()), the documented way to pause without interrupt"""
    env = C.make_env(yieldless)
    D = S.real("D", 0, 50)
    done = []

    def script(x):
        yield x.hold(D)
        done.append(env.now())

    x = C.actor(env, script, name="x")
    a, b = S.real("a", 0, 50), S.real("b", 0, 50)
    setv = S.flag("set")

    def controller(c):
        yield c.hold(a, priority=1)
        if done:
            S.check(D <= a, "only a completed hold has ended")
            S.reach("too late")
            return
        S.check(D > a, "a completed hold has ended")
        x.passivate()
        S.close(x.remaining_duration(), D - a, "remaining duration at passivate")
        if setv:
            v = S.real("v", 0, 50)
            x.remaining_duration(v)
        else:
            v = D - a
        yield c.hold(b)
        S.close(x.remaining_duration(), v, "remaining duration is kept while passive")
        x.hold(x.remaining_duration())
        S.close(x.scheduled_time(), a + b + v, "scheduled time")
        exp.append(a + b + v)

    exp = []
    C.actor(env, controller)
    env.run(till=10000)
    S.check(len(done) == 1, "the hold ends once")
    if exp:
        S.close(done[0], exp[0], "the hold ends after its remaining duration")
        S.reach("paused")
    S.log(done)


def two_interrupted(S, yieldless):
    """two components interrupted independently"""
    env = C.make_env(yieldless)
    Ds = [S.real(f"D{i}", 0, 50) for i in range(2)]
    done = {}

    def script(x, i):
        yield x.hold(Ds[i])
        done[i] = env.now()

    xs = [C.actor(env, script, i, name=f"x{i}") for i in range(2)]
    a = S.real("a", 0, 50)
    b = S.real("b", 0, 50)
    k = S.choice("which", 2)

    def controller(c):
        yield c.hold(a, priority=1)
        if k not in done:
            xs[k].interrupt()
            yield c.hold(b, priority=1)
            xs[k].resume()
            did.append(1)

    did = []
    C.actor(env, controller)
    env.run()
    for i in range(2):
        S.check(i in done, "every hold ends")
        S.close(done[i], Ds[i] + (b if did and i == k else 0), "each hold takes its duration plus the time interrupted")
    S.log(done[0], done[1])
    S.reach("end")
    if did:
        S.reach("interrupted")


def order(S, yieldless):
    """resumed at the same moment, with the same moment of continuation: priority, urgent and then the order of resuming decide"""
    env = C.make_env(yieldless)
    D = S.real("D", 1, 20)
    done = []

    def script(x, i):
        yield x.hold(D)
        done.append((i, env.now()))

    xs = [C.actor(env, script, i, name=f"x{i}") for i in range(3)]
    pr = [S.int(f"p{i}", -1, 1) for i in range(3)]
    ur = [S.flag(f"u{i}") for i in range(3)]
    a, b = S.real("a", 0, 20), S.real("b", 0, 20)
    S.assume(a < D)

    def controller(c):
        yield c.hold(a)
        for x in xs:
            x.interrupt()
        yield c.hold(b)
        for i, x in enumerate(xs):
            x.resume(priority=pr[i], urgent=ur[i])
        S.check(all(x.scheduled_priority() == p for x, p in zip(xs, pr)), "scheduled priority")

    C.actor(env, controller)
    env.run()
    S.check(len(done) == 3, "every hold ends")
    for (i, ti), (j, tj) in zip(done, done[1:]):
        S.close(ti, D + b, "after exactly the remaining duration")
        S.check(pr[i] <= pr[j], "in order of priority")
        if pr[i] == pr[j]:
            S.check((ur[i] and not ur[j]) or (ur[i] and ur[j] and i > j) or (not ur[i] and not ur[j] and i < j), "urgent ones first (last one first), then in order")
            S.reach("tie")


HARNESSES = [
    H(interrupts, grid(nops=[4], yieldless=[True], start=["hold", 1, 2]) + grid(nops=[3], yieldless=[False], start=["hold", 2]), grid(nops=[5], yieldless=[True], start=["hold", 1, 2]) + grid(nops=[4], yieldless=[False], start=["hold", 2]),
      expect=["ended", "left interrupted", "nested", "resumed", "set", "ended in between", "refused after the end"], bounds="nops calls by the controller"),
    H(interrupts, grid(nops=[2], yieldless=[True, False], start=["hold", 2], ops=[HOLDS]), grid(nops=[3], yieldless=[True, False], start=["hold", 2], ops=[HOLDS]), expect=["held anew"]),
    H(order, grid(yieldless=[True, False]), expect=["tie"]),
    H(passivate_idiom, grid(yieldless=[True, False]), expect=["paused", "too late"]),
    H(two_interrupted, grid(yieldless=[True, False]), expect=["end", "interrupted"]),
]
