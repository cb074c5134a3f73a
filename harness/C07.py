"""C07: capacity and statistics of a queue against a reference record of its length over time"""
from .common import *
from . import common as C

BOUNDS = "3 components, symbolic capacity, 4 (thorough: 5) operations (enter in 5 ways, leave, capacity change, reset, monitoring off/on) at symbolic moments; all statistics compared after every operation and at a symbolic later moment"
OUTSIDE = "more operations; numpy based code paths"

nan = float("nan")


class Signal:
    """reference: piecewise constant function, with off periods"""

    def __init__(self, t, v, on=True):
        self.pieces = []  # (from, value, on)
        self.t, self.v, self.on = t, v, on
        self.start = t

    def set(self, t, v=None, on=None):
        self.pieces.append((self.t, t, self.v, self.on))
        self.t = t
        if v is not None:
            self.v = v
        if on is not None:
            self.on = on

    def reset(self, t):
        self.pieces, self.t, self.start = [], t, t

    def parts(self, now):
        return [(b - a, v) for a, b, v, on in self.pieces + [(self.t, now, self.v, self.on)] if on]

    def duration(self, now):
        return sum((w for w, _ in self.parts(now)), 0)

    def integral(self, now):
        return sum((w * v for w, v in self.parts(now)), 0)


def same_mean(S, got, integral, duration, msg):
    if duration > 0:
        S.close(got, integral / duration, msg)
    else:
        S.check(got != got, msg)


def statistics(S, nops, ops, symcap=True, first=None):
    sim = C.sim
    env = C.make_env(True)
    comps = [C.data(env, name=f"c{i}") for i in range(3)]
    cap = S.real("cap", 0, 4) if symcap else S.pick("cap", [1, 2, 3])
    q = sim.Queue("q", capacity=cap, env=env)
    R = []
    L = Signal(0, 0)
    A = Signal(0, cap)
    stay = []
    since = {}
    counts = [0, 0]
    stay_on = [True]

    def verify(what):
        now = env.now()
        S.check([c for c in q] == R and len(q) == len(R), f"contents after {what}")
        S.check(q.length() == len(R) and q.length.value == len(R), f"length after {what}")
        S.check(q.number_of_arrivals == counts[0] and q.number_of_departures == counts[1], f"number of arrivals and departures after {what}")
        S.check(q.number_of_arrivals - q.number_of_departures == len(q), f"arrivals minus departures after {what}")
        S.close(q.capacity(), cap, f"capacity after {what}")
        S.close(q.available_quantity(), cap - len(R), f"available quantity after {what}")
        same_mean(S, q.length.mean(), L.integral(now), L.duration(now), f"mean length after {what}")
        S.close(q.length.duration(), L.duration(now), f"duration of the length monitor after {what}")
        if not symcap:
            same_mean(S, q.available_quantity.mean(), A.integral(now), A.duration(now), f"mean available quantity after {what}")
        for v in range(4):
            S.close(q.length.value_duration(v), sum((w for w, x in L.parts(now) if x == v), 0), f"time with a certain length after {what}")
        got = list(q.length_of_stay.x())
        S.check(len(got) == len(stay), f"one length of stay per departure after {what}")
        for a, b in zip(got, stay):
            S.close(a, b, f"length of stay after {what}")
        S.check(q.length_of_stay.number_of_entries() == len(stay), f"number of entries of the length of stay after {what}")
        for c in R:
            S.close(c.enter_time(q), since[c], f"enter time after {what}")
        for n, f in ((counts[0], q.arrival_rate), (counts[1], q.departure_rate)):
            if now > 0:
                S.close(f(), n / now, f"arrival and departure rate after {what}")

    def controller(x):
        nonlocal cap
        for i in range(nops + 1):
            yield x.hold(S.real(f"gap{i}", 0, 10))
            now = env.now()
            verify("some time")
            if i == nops:
                return
            op = first if i == 0 and first else ops[S.choice(f"op{i}", len(ops))]
            if op in ("enter", "prio", "head", "insert", "extend", "front"):
                free = [c for c in comps if c not in R]
                S.assume(free)
                c = free[0]
                full = not (len(R) + 1 <= cap)
                try:
                    if op == "enter":
                        c.enter(q)
                    elif op == "prio":
                        c.enter(q, S.real(f"p{i}", -1, 1))
                    elif op == "head":
                        c.enter_at_head(q)
                    elif op == "insert":
                        q.insert(0, c)
                    elif op == "front":
                        if R:
                            c.enter_in_front_of(q, R[0])
                        else:
                            q.add(c)
                    else:
                        q.extend([c])
                    raised = False
                except sim.QueueFullError:
                    raised = True
                S.check(raised == full, "an entry beyond the capacity raises QueueFullError, any other does not")
                if not full:
                    R[:] = list(q) if op == "prio" else [c] + R if op in ("head", "insert", "front") else R + [c]
                    S.check(c in R, "the component entered")
                    since[c] = now
                    counts[0] += 1
                    L.set(now, len(R))
                    A.set(now, cap - len(R))
                else:
                    S.reach("full")
            elif op == "leave":
                S.assume(R)
                c = R[S.choice(f"who{i}", len(R))]
                k = S.choice(f"how{i}", 3) if i == 1 else 0
                if k == 0:
                    c.leave(q)
                elif k == 1:
                    q.remove(c)
                else:
                    c.leave()
                R.remove(c)
                if stay_on[0]:
                    stay.append(now - since[c])
                counts[1] += 1
                L.set(now, len(R))
                A.set(now, cap - len(R))
            elif op == "capacity":
                cap = S.real(f"cap{i}", 0, 4) if symcap else S.pick(f"cap{i}", [0, 2, 4])
                if S.flag(f"how{i}"):
                    q.set_capacity(cap)
                else:
                    q.capacity.value = cap
                A.set(now, cap - len(R))
            elif op == "reset":
                q.reset_monitors()
                L.reset(now)
                stay.clear()
            elif op == "off":
                q.length.monitor(False)
                q.length_of_stay.monitor(False)
                L.set(now, on=False)
                stay_on[0] = False
            elif op == "on":
                q.length.monitor(True)
                q.length_of_stay.monitor(True)
                L.set(now, on=True)
                stay_on[0] = True
            elif op == "clear":
                q.clear()
                for c in R:
                    if stay_on[0]:
                        stay.append(now - since[c])
                    counts[1] += 1
                R.clear()
                L.set(now, 0)
                A.set(now, cap)
            elif op == "copy":
                S.assume(len(R) <= cap)
                q3 = q.copy(copy_capacity=True)
                S.check([c for c in q3] == R, "contents of a copy")
                S.close(q3.capacity(), cap, "capacity of a copy")
                S.close(q3.available_quantity(), cap - len(R), "available quantity of a copy")
                for c in list(q3):
                    c.leave(q3)
            S.reach(op)
            verify(op)

    C.actor(env, controller, name="controller")
    env.run()
    S.log(len(R), [float(x) if not hasattr(x, "terms") else x for x in stay])
    S.reach("end")


_base = ["enter", "leave", "capacity", "reset"]
_ent = ["prio", "head", "insert", "extend", "front", "clear", "copy"]
HARNESSES = [
    H(statistics, grid(nops=[3], ops=[["enter", "leave", "capacity", "reset"]], symcap=[True, False], first=["enter"])
      + grid(nops=[4], ops=[["leave", "off", "on"], ["enter", "leave"]], symcap=[False], first=["enter"])
      + grid(nops=[3], ops=[["leave", "enter"] + _ent], symcap=[True], first=["enter"]),
      grid(nops=[4], ops=[["enter", "leave", "capacity", "reset"]], symcap=[True, False])
      + grid(nops=[5], ops=[["enter", "leave", "off", "on"], ["enter", "leave", "reset"]], symcap=[False], first=["enter"])
      + grid(nops=[4], ops=[["leave", "enter", "reset"] + _ent], symcap=[True], first=["enter"]),
      expect=_base + _ent + ["off", "on", "full", "end"], bounds="nops operations"),
]
