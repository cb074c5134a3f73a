"""C06: queue operations against a reference list of (component, priority)"""
from .common import *
from . import common as C

BOUNDS = "4 components and 2 queues; the first queue is loaded with 2-4 components with symbolic (real) priorities, then 1-2 (thorough: 3) of 27 kinds of queue operations on any component with symbolic priorities; iteration with one operation during it"
OUTSIDE = "more components and longer operation sequences; priorities that are not numbers"

OPS = ["enter", "enter_prio", "add_prio", "append_prio", "head", "front", "behind", "q_add", "q_head", "q_front", "q_behind", "q_sorted", "insert", "leave", "leave_all", "pop", "pop_i", "remove", "del_i", "del_slice", "priority", "clear", "move", "extend", "union", "intersection", "difference", "symdiff", "copy", "remove_all"]


class Ref:
    """reference: ordered list of [component, priority]"""

    def __init__(self):
        self.m = []

    def comps(self):
        return [c for c, _ in self.m]

    def pos(self, c):
        for i, (x, _) in enumerate(self.m):
            if x is c:
                return i
        return None

    def has(self, c):
        return self.pos(c) is not None

    def sorted_pos(self, p):
        i = 0
        while i < len(self.m) and self.m[i][1] <= p:
            i += 1
        return i

    def add(self, i, c, p):
        self.m.insert(i, [c, p])

    def tail_prio(self):
        return self.m[-1][1] if self.m else 0

    def drop(self, c):
        del self.m[self.pos(c)]


def agree(S, q, R, comps, others=(), deep=True):
    """all views of the queue agree with the reference"""
    want = R.comps()
    got = list(q)
    S.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "the members in order")
    S.check(len(q) == len(want) and q.length() == len(want), "the length")
    back = list(reversed(q))
    S.check(len(back) == len(want) and all(a is b for a, b in zip(back, want[::-1])), "the members in reversed order")
    n = len(want)
    S.check(q.head() is (want[0] if n else None) and q.tail() is (want[-1] if n else None), "head and tail")
    for c in comps:
        i = R.pos(c)
        S.check((c in q) == (i is not None), "membership")
        S.check(q.index(c) == (-1 if i is None else i), "index of a component")
        S.check(q.count(c) == (0 if i is None else 1) and c.count(q) == q.count(c), "count of a component")
        S.check((q in c.queues()) == (i is not None), "the component's own view of its queues")
        if i is not None:
            S.close(c.priority(q), R.m[i][1], "priority of a member")
            S.check(c.successor(q) is (want[i + 1] if i + 1 < n else None), "successor")
            S.check(c.predecessor(q) is (want[i - 1] if i > 0 else None), "predecessor")
            S.check(q.successor(c) is c.successor(q) and q.predecessor(c) is c.predecessor(q), "successor and predecessor of the queue")
            S.check(q[i] is c and q[i - n] is c, "the member at an index")
            S.check(q.component_with_name(c.name()) is c, "member by name")
    for i in (n, -n - 1):
        try:
            q[i]
            S.check(False, "an index out of range raises an error")
        except IndexError:
            pass
    if deep:
        for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 3, 2), slice(3, 0, -2), slice(-2, None), slice(1, 1)):
            a, b = q[sl], want[sl]
            S.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), "a slice of the queue")
        S.check(q.as_set() == set(want) and all(x is y for x, y in zip(q.as_list(), want)), "as_set and as_list")
    for i in range(n - 1):
        S.check(R.m[i][1] <= R.m[i + 1][1], "reference is sorted")


def perform(S, env, op, tag, q, R, q2, R2, comps, agree_new, must=None):
    sim = C.sim
    n = len(R.m)

    def pickc(name, cond=None):
        return comps[S.choice(name + tag, len(comps))]

    raised = None
    if op in ("enter", "enter_prio", "add_prio", "append_prio", "head", "front", "behind", "q_add", "q_head", "q_front", "q_behind", "q_sorted", "insert"):
        c = pickc("c")
        bad = R.has(c)
        p = S.real("p" + tag, -5, 5) if op in ("enter_prio", "add_prio", "append_prio", "q_sorted") else None
        pc = pickc("pos") if op in ("front", "behind", "q_front", "q_behind") else None
        if pc is not None and not R.has(pc):
            bad = True
        idx = S.choice("idx" + tag, n + 1) if op == "insert" else None
        try:
            if op == "enter":
                c.enter(q)
            elif op == "enter_prio":
                c.enter(q, p)
            elif op == "add_prio":
                q.add(c, p)
            elif op == "append_prio":
                q.append(c, p)
            elif op == "head":
                c.enter_at_head(q)
            elif op == "front":
                c.enter_in_front_of(q, pc)
            elif op == "behind":
                c.enter_behind(q, pc)
            elif op == "q_add":
                q.append(c) if S.flag("app" + tag) else q.add(c)
            elif op == "q_head":
                q.add_at_head(c)
            elif op == "q_front":
                q.add_in_front_of(c, pc)
            elif op == "q_behind":
                q.add_behind(c, pc)
            elif op == "q_sorted":
                q.add_sorted(c, p) if S.flag("srt" + tag) else c.enter_sorted(q, p)
            elif op == "insert":
                q.insert(idx, c)
            raised = False
        except ValueError:
            raised = True
        S.check(raised == bad, f"{op}: an error exactly if the component is a member already or the position is not in the queue")
        if not bad:
            if op in ("enter", "q_add"):
                R.add(n, c, R.tail_prio())
            elif op in ("enter_prio", "add_prio", "append_prio", "q_sorted"):
                R.add(R.sorted_pos(p), c, p)
            elif op in ("head", "q_head"):
                R.add(0, c, R.m[0][1] if n else 0)
            elif op in ("front", "q_front"):
                i = R.pos(pc)
                R.add(i, c, R.m[i][1])
            elif op in ("behind", "q_behind"):
                i = R.pos(pc)
                R.add(i + 1, c, R.m[i][1])
            elif op == "insert":
                R.add(idx, c, R.m[idx][1] if idx < n else R.tail_prio())
    elif op in ("leave", "remove"):
        c = pickc("c")
        try:
            c.leave(q) if op == "leave" else q.remove(c)
            raised = False
        except ValueError:
            raised = True
        S.check(raised == (not R.has(c)), "leave raises an error exactly if the component is not a member")
        if R.has(c):
            R.drop(c)
    elif op == "leave_all":
        c = pickc("c")
        c.leave()
        for r in (R, R2):
            if r.has(c):
                r.drop(c)
    elif op == "pop":
        c = q.pop()
        S.check(c is (R.comps()[0] if n else None), "pop takes the head")
        if n:
            del R.m[0]
    elif op in ("pop_i", "del_i"):
        i = S.choice("i" + tag, 2 * n + 2) - n - 1
        bad = not -n <= i < n
        try:
            if op == "pop_i":
                c = q.pop(i)
                S.check(bad or c is R.comps()[i], "pop takes the member at the index")
            else:
                del q[i]
            raised = False
        except IndexError:
            raised = True
        S.check(raised == bad, "an index out of range raises an error")
        if not bad:
            del R.m[i]
    elif op == "del_slice":
        sl = S.pick("sl" + tag, [slice(0, 2), slice(1, None), slice(None, None, 2), slice(-1, None), slice(None, None, -1), slice(1, 1)])
        del q[sl]
        del R.m[sl]
    elif op == "priority":
        c = pickc("c")
        p = S.real("p" + tag, -5, 5)
        bad = not R.has(c)
        try:
            c.priority(q, p)
            raised = False
        except ValueError:
            raised = True
        S.check(raised == bad, "priority raises an error exactly if the component is not a member")
        if not bad:
            i = R.pos(c)
            if not (R.m[i][1] == p):
                R.drop(c)
                R.add(R.sorted_pos(p), c, p)
    elif op == "clear":
        q.clear()
        R.m = []
    elif op == "remove_all":
        q.remove()
        R.m = []
    elif op in ("move", "copy"):
        q3 = q.move() if op == "move" else q.copy()
        R3 = Ref()
        R3.m = [list(x) for x in R.m]
        agree_new(q3, R3)
        if op == "move":
            R.m = []
    elif op == "extend":
        clear = S.flag("clr" + tag)
        aslist = S.flag("lst" + tag)
        if aslist:
            q.extend(R2.comps())
        else:
            q.extend(q2, clear_source=clear)
        for c in R2.comps():
            if not R.has(c):
                R.add(len(R.m), c, R.tail_prio())
        if clear and not aslist:
            R2.m = []
    else:
        f, g = {"union": (q.union, q.__or__), "intersection": (q.intersection, q.__and__), "difference": (q.difference, q.__sub__), "symdiff": (q.symmetric_difference, q.__xor__)}[op]
        q3 = g(q2) if S.flag("opr" + tag) else f(q2)
        R3 = Ref()
        for c, p in R.m:
            if op == "union" or (op == "intersection") == R2.has(c):
                R3.m.append([c, p if op == "difference" else 0])
        if op in ("union", "symdiff"):
            for c, p in R2.m:
                if not R.has(c):
                    R3.m.append([c, 0])
        agree_new(q3, R3)
    S.reach(op)


def operations(S, load, nops, ops, first=None):
    sim = C.sim
    env = C.make_env(True)
    q, q2 = sim.Queue("q", env=env), sim.Queue("q2", env=env)
    R, R2 = Ref(), Ref()
    comps = [C.data(env, name=f"c{i}") for i in range(4)]
    for k in range(load):
        p = S.real(f"load{k}", -5, 5)
        comps[k].enter(q, p)
        R.add(R.sorted_pos(p), comps[k], p)
    for c in (comps[0], comps[3]):
        c.enter(q2)
        R2.add(len(R2.m), c, 0)
    agree(S, q, R, comps)
    times = {c: 0 for c in comps}
    extra = []

    def agree_new(q3, R3):
        extra.append((q3, R3))
        agree(S, q3, R3, comps, deep=False)

    for i in range(nops):
        op = first if i == 0 and first is not None else ops[S.choice(f"op{i}", len(ops))]
        perform(S, env, op, f"_{i}", q, R, q2, R2, comps, agree_new)
        if op == "leave_all":
            for q3, R3 in extra:
                R3.m = [x for x in R3.m if q3 in x[0].queues()]
        agree(S, q, R, comps)
        agree(S, q2, R2, comps, deep=False)
        for q3, R3 in extra:
            agree(S, q3, R3, comps, deep=False)
        for c in comps:
            S.check(len(c.queues()) == R.has(c) + R2.has(c) + sum(R3.has(c) for _, R3 in extra), "number of queues of a component")
    S.log([c.name() for c in q])
    S.reach("end")


def iteration(S, rev):
    """an operation while iterating: members that stay are visited once, those that left before are not visited"""
    sim = C.sim
    env = C.make_env(True)
    q = sim.Queue("q", env=env)
    R = Ref()
    comps = [C.data(env, name=f"c{i}") for i in range(4)]
    for k in range(3):
        p = S.real(f"load{k}", -5, 5)
        comps[k].enter(q, p)
        R.add(R.sorted_pos(p), comps[k], p)
    at = S.choice("at", 3)
    op = S.pick("op", ["leave", "enter", "priority", "nothing", "head"])
    c = comps[S.choice("c", 4)] if op in ("leave", "priority") else comps[3]
    S.assume(op in ("enter", "head", "nothing") or R.has(c))
    seen = []
    for x in (reversed(q) if rev else q):
        S.check(x in q, "an iteration only gives members")
        if len(seen) == at:
            if op == "leave":
                c.leave(q)
                R.drop(c)
            elif op in ("enter", "priority"):
                p = S.real("p", -5, 5)
                if op == "enter":
                    c.enter(q, p)
                    R.add(R.sorted_pos(p), c, p)
                else:
                    c.priority(q, p)
                    if not (R.m[R.pos(c)][1] == p):
                        R.drop(c)
                        R.add(R.sorted_pos(p), c, p)
            elif op == "head":
                c.enter_at_head(q)
                R.add(0, c, R.m[0][1])
        seen.append(x)
        S.check(len(seen) < 9, "an iteration ends")
    S.check(len(set(seen)) == len(seen), "no member is given twice")
    for x in R.comps():
        S.check(x in seen, "every member that stays is given")
    agree(S, q, R, comps)
    S.reach("end")


HARNESSES = [
    H(operations, grid(load=[3, 4], nops=[1], ops=[OPS]) + grid(load=[2], nops=[2], ops=[OPS], first=["enter_prio", "priority", "front", "insert", "pop_i", "behind", "head", "q_add", "extend", "leave", "del_slice"])
      + grid(load=[3], nops=[2], ops=[["enter_prio", "priority"]]),
      grid(load=[4], nops=[1], ops=[OPS]) + grid(load=[3], nops=[2], ops=[OPS], first=OPS) + grid(load=[2], nops=[3], ops=[["enter_prio", "priority", "head", "insert", "pop", "q_add", "leave"]]),
      expect=OPS + ["end"], bounds="load: members at the start, nops: operations"),
    H(iteration, grid(rev=[False, True]), expect=["end"], bounds="3 members, one operation at any point"),
]
