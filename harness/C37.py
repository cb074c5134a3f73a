"""C37: names, base names and sequence numbers against counters per environment, kind and name"""
import inspect
from .common import *
from . import common as C

BOUNDS = "4 (thorough: 5) objects made one after another, each of a symbolically chosen kind (component, queue, resource, state, monitor), class (the library's or the user's), environment (two) and name (plain, serialized with a point or a comma, class based, none), amid renames; made by the model, by a generator, or in a process"
OUTSIDE = "stores and queues with the same serialized name; names of animation objects; other names"

KINDS = ["Component", "Queue", "Resource", "State", "Monitor"]
NAMES = ["plain", "x.", "x,", "", None, ".", ",", "x", "a.b", "x.1"]


class Numbers:
    """the reference: the serial numbers that were given"""

    def __init__(self):
        self.last = {}

    def name(self, where, kind, cls, name):
        if name is None or name == "":
            name = cls.lower() + "."
        elif name in (".", ","):
            name = cls.lower() + name
        if name[-1] not in ".,":
            return name, name, 1
        key = (where, kind, name)
        n = self.last.get(key, -1 if name[-1] == "." else 0) + 1
        self.last[key] = n
        return f"{name[:-1]}.{n}", name, n


def parts(kind, o):
    if kind == "Queue":
        return [o.length, o.length_of_stay, o.capacity, o.available_quantity]
    if kind == "Resource":
        return [o.requesters(), o.claimers(), o.capacity, o.claimed_quantity, o.available_quantity, o.occupancy, o.requesters().length, o.claimers().length_of_stay]
    if kind == "State":
        return [o.waiters(), o.value, o.waiters().length]
    return []


def verify(S, o, kind, want):
    S.check(o.name() == want[0], f"name {o.name()!r}, not {want[0]!r}")
    S.check(o.base_name() == want[1], "base name: the name at initialization")
    S.check(o.sequence_number() == want[2], "sequence number")
    for p in parts(kind, o):
        S.check(p.name().split(" ")[-1] == want[0], "the parts have the name of the object")


def names(S, n, kinds, rename=False):
    sim = C.sim

    class My(sim.Component):
        pass

    class MyQueue(sim.Queue):
        pass

    own = dict(Component=My, Queue=MyQueue)
    envs = [C.make_env(True), C.make_env(True)]
    N = Numbers()
    made = []
    for i in range(n):
        kind = S.pick(f"kind{i}", kinds)
        cls = getattr(sim, kind)
        if kind in own and S.flag(f"own{i}"):
            cls = own[kind]
        e = S.choice(f"env{i}", 2) if i else 0
        name = S.pick(f"name{i}", NAMES if i == n - 1 else NAMES[:5] + [","])
        o = cls(**({} if name is None and S.flag(f"omit{i}") else dict(name=name)), env=envs[e])
        made.append((o, kind, N.name(e, kind, cls.__name__, name)))
        if rename and i < n - 1 and S.flag(f"rename{i}"):
            o, k, want = made[-1]
            new = S.pick(f"new{i}", ["renamed", "x.7", "x."])
            fresh = cls(name="renamed", env=envs[1 - e]) if new == "renamed" else None
            S.check(o.name(new) == new, "name() returns the new name")
            made[-1] = (o, k, (new,) + want[1:])
            if fresh is not None:
                N.name(1 - e, kind, cls.__name__, "renamed")
                S.check([p.name() for p in parts(k, o)] == [p.name() for p in parts(k, fresh)], "the parts have the names that they have when made with this name")
            S.reach("renamed")
        S.reach(kind)
    for o, kind, want in made:
        verify(S, o, kind, want)
    S.reach("end")


def symbolic(S, kind, lens):
    """names of symbolic characters"""
    sim = C.sim
    cls = getattr(sim, kind)
    env = C.make_env(True)
    other = C.make_env(True)
    ch, code, undo = chr, ord, None
    if S.symbolic:
        if not inspect.isfunction(getattr(C.mod, "_set_name", None)):
            for what in ("class name", "again", "first", "plain", "end"):
                S.reach(what)
            return  # the concrete names of `names` remain
        from symex import text

        T = text.Text(S)
        ch, code = T.char, T.code
        undo = C.mod._set_name
        C.mod._set_name = text.transformed(C.mod, "_set_name", T)
    try:
        given = []  # (codes of the serialized name, last number)
        own = [ord(x) for x in kind.lower()]
        objs = []
        for i, n in enumerate(lens):
            cs = [S.int(f"c{i}_{j}", 33, 126) for j in range(n)]
            o = cls(name="".join(ch(c) for c in cs), env=env)
            serial = S.Or(cs[-1] == 46, cs[-1] == 44)
            num = 1
            base, want = cs, cs
            if serial:
                if n == 1:
                    base = own + cs
                    S.reach("class name")
                for g in given:
                    if len(g[0]) == len(base) and S.And(*[x == y for x, y in zip(g[0], base)]):
                        g[1] += 1
                        num = g[1]
                        S.reach("again")
                        break
                else:
                    num = 0 if cs[-1] == 46 else 1
                    given.append([base, num])
                    S.reach("first")
                want = base[:-1] + [46] + [ord(x) for x in str(num)]
            else:
                S.reach("plain")
            objs.append((o, want, base, num))
            cls(name="".join(ch(c) for c in cs), env=other)  # does not matter
        for o, want, base, num in objs:
            for got, w, msg in ((o.name(), want, "name"), (o.base_name(), base, "base name")):
                S.check(len(got) == len(w) and S.And(*[code(x) == y for x, y in zip(got, w)]), msg)
            S.check(o.sequence_number() == num, "sequence number")
            for p in parts(kind, o):
                got = p.name()[-len(want) :]
                S.check(S.And(*[code(x) == y for x, y in zip(got, want)]), "the parts have the name of the object")
            o.name("new")
            S.check(o.name() == "new" and o.sequence_number() == num, "after a rename")
            got = o.base_name()
            S.check(len(got) == len(base) and S.And(*[code(x) == y for x, y in zip(got, base)]), "base name, after a rename")
    finally:
        if undo:
            C.mod._set_name = undo
    S.reach("end")


def environments(S):
    sim = C.sim
    name = S.pick("name", ["plain", None, "e.", "e,"])
    first = sim.Environment(name="e.", random_seed="", isdefault_env=False).sequence_number()
    default = S.flag("default")
    e = sim.Environment(name=name, random_seed="", isdefault_env=default)
    if name is None and default:
        S.check(e.name() == "default environment", "name of the default environment")
    elif name == "plain":
        S.check((e.name(), e.base_name(), e.sequence_number()) == ("plain", "plain", 1), "plain name")
    elif name == "e.":
        S.check((e.name(), e.base_name(), e.sequence_number()) == (f"e.{first + 1}", "e.", first + 1), "serialized name")
    else:
        S.check(e.name() == f"{e.base_name()[:-1]}.{e.sequence_number()}", "serialized name")
    old = e.base_name(), e.sequence_number()
    e.name("new")
    S.check(e.name() == "new" and (e.base_name(), e.sequence_number()) == old, "after a rename")
    S.check(e.main().name() == "main", "name of main")
    S.reach("environments")


def running(S, yl):
    """components made during a run, by a generator and by other components, are numbered in the order of creation"""
    sim = C.sim
    env = C.make_env(yl)
    made = []

    class Car(sim.Component):
        def setup(self):
            made.append(self)

    def p(c):
        for i in range(2):
            yield c.hold(S.real(f"d{i}", 0, 5))
            Car(env=env)

    sim.ComponentGenerator(Car, iat=S.real("iat", 1, 4), number=2, at=S.real("at", 0, 4), env=env)
    C.actor(env, p, name="p")
    env.run(till=20)
    S.check([c.name() for c in made] == [f"car.{i}" for i in range(4)], "numbered in the order of creation")
    S.check([c.sequence_number() for c in made] == [0, 1, 2, 3] and all(c.base_name() == "car." for c in made), "numbers")
    st = sim.Store(S.pick("store", [None, "st", "st.", "st,"]), env=env)
    for q in (st.to_store_requesters(), st.from_store_requesters()):
        S.check(q.name().startswith(st.name() + "."), "the queues of a store have the name of the store")
    S.reach("running")


HARNESSES = [
    H(symbolic, grid(kind=KINDS, lens=[(2, 2, 2), (1, 1, 1), (3, 3)]), grid(kind=KINDS, lens=[(2, 2, 2, 2), (1, 1, 1, 1), (3, 3, 3), (1, 2, 1, 2)]), expect=["first", "again", "plain", "class name", "end"], bounds="names of symbolic characters"),
    H(names, grid(n=[2], kinds=[[k] for k in KINDS], rename=[True]) + grid(n=[2], kinds=[KINDS]), grid(n=[3], kinds=[[k] for k in KINDS]) + grid(n=[2], kinds=[KINDS], rename=[True]), expect=KINDS + ["renamed", "end"], bounds="n objects"),
    H(environments, [{}], expect=["environments"]),
    H(running, grid(yl=[True, False]), expect=["running"], bounds="four components"),
]
