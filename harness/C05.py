"""C05: standby, against a reference list of components in standby that is kept by the scripts themselves"""
from .common import *
from . import common as C

BOUNDS = "2-3 components that stand by for up to 3 rounds (with symbolic holds in between), 2 other components with 2 events each at symbolic moments, each of which may touch a standby component (activate, activate with delay, passivate, cancel, standby); any subset of the components may skip standby; two consecutive runs"
OUTSIDE = "more components, more rounds; animation"


def standby_order(S, n, rounds, skips, ops, yieldless, two_runs=False):
    env = C.make_env(yieldless)
    standing = []  # components in standby, in the order in which they went into it
    due = []  # those that have to get control before the next event
    last = [None]
    log = []
    served = [0]

    def control(c):
        """c got control"""
        t = env.now()
        S.check(env.current_component() is c, "the component with control is the current component")
        S.check(c.status() == "current", "the component with control is current")
        log.append((c.name(), t))
        if c in standing:
            S.check(len(due) > 0 and due[0] is c, "a standby component gets control once per event, in the order of going into standby")
            S.close(t, last[0], "a standby component gets control at the time of the event")
            standing.remove(c)
            if c in due:
                due.remove(c)
            served[0] += 1
            S.reach("standby turn")
            if c.skip_standby():
                due.clear()
        else:
            S.check(due == [], "all components in standby get control before the next event")
            last[0] = t
            due[:] = [] if c.skip_standby() else list(standing)

    def enter(c):
        standing.append(c)

    def leave(c):
        for l in (standing, due):
            if c in l:
                l.remove(c)

    def waiter(c, k):
        control(c)
        for i in range(rounds):
            enter(c)
            yield c.standby()
            control(c)
            if k == 0 and i == 0:
                d = S.real(f"w{k}_{i}", 0, 5)
                yield c.hold(d)
                control(c)

    ws = [C.actor(env, waiter, k, name=f"w{k}", skip_standby=bool(skips >> k & 1)) for k in range(n)]

    def other(c, k):
        control(c)
        for i in range(2):
            yield c.hold(S.real(f"e{k}_{i}", 0, 5))
            control(c)
            if k < len(ops) and i == 0:
                x = ws[S.choice(f"x{k}", n)]
                op = ops[k]
                if op != "nothing" and not x.isdata():
                    was = x in standing
                    leave(x)
                    if op == "activate":
                        x.activate()
                    elif op == "delay":
                        x.activate(delay=S.real(f"d{k}", 0, 5))
                    elif op == "passivate":
                        x.passivate()
                    elif op == "cancel":
                        x.cancel()
                    elif op == "standby":
                        enter(x)
                        x.standby()
                    if was:
                        S.reach("taken out of standby")

    for k in range(2):
        C.actor(env, other, k, name=f"e{k}", skip_standby=bool(skips >> (n + k) & 1))

    def state():
        for w in ws:
            S.check(w.isstandby() == (w in standing), "in standby")

    env.hook_ = state
    if two_runs:
        T = S.real("T", 0, 8)
        env.run(till=T)
        S.check(due == [], "all components in standby get control before the end of a run")
        due[:] = list(standing)  # the end of a run is an event of main
        last[0] = env.now()
        S.reach("first run")
    env.run()
    S.check(due == [], "no standby component is forgotten")
    S.log(log)
    S.reach("end")


_all = ["nothing", "activate", "delay", "passivate", "cancel", "standby"]
HARNESSES = [
    H(standby_order,
      grid(n=[2], rounds=[2], skips=[0, 1, 4, 5, 3], ops=[["standby"], ["activate"], ["nothing", "cancel"]], yieldless=[True])
      + grid(n=[2], rounds=[2], skips=[0], ops=[["delay"], ["passivate"], ["cancel"]], yieldless=[True])
      + grid(n=[2], rounds=[2], skips=[0, 4], ops=[["standby"], ["passivate"]], yieldless=[False])
      + grid(n=[2], rounds=[2], skips=[0, 2], ops=[["nothing"]], yieldless=[True, False], two_runs=[True])
      + grid(n=[3], rounds=[2], skips=[0], ops=[["activate"]], yieldless=[True]),
      grid(n=[3], rounds=[2], skips=[0, 1, 2, 8, 9, 10, 16], ops=[["standby", "activate"], ["activate", "cancel"], ["delay"], ["passivate", "standby"]], yieldless=[True, False])
      + grid(n=[2], rounds=[3], skips=list(range(16)), ops=[[o] for o in _all], yieldless=[True])
      + grid(n=[2], rounds=[2], skips=[0, 1, 2, 4], ops=[["nothing"], ["activate"]], yieldless=[True, False], two_runs=[True]),
      expect=["standby turn", "taken out of standby", "first run", "end"], bounds=BOUNDS),
]
