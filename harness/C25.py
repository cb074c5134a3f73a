"""C25: interpolation and number helpers against their defining (in)equalities"""
from .common import *
from . import common as C

BOUNDS = "interpolate, colorinterpolate: any argument order, scalars, tuples and lists of up to 3 elements; interp, color_interp: 1..4 points (thorough 5), also coinciding points, scalars, tuples and lists; linspace 0..6 points; arange up to 5 points, rising and falling; searchsorted: up to 4 elements (thorough 6)"
OUTSIDE = "numpy itself (searchsorted and arange as documented); floating point rounding; named colors"
R = 50
E = 1e-9


def between(S, v, t, t0, t1, v0, v1, msg):
    """v is the value at t of the line from (t0, v0) to (t1, v1), t0 < t1"""
    S.close((v - v0) * (t1 - t0), (v1 - v0) * (t - t0), msg)
    S.check(S.Or(S.And(v0 <= v + E, v <= v1 + E), S.And(v1 <= v + E, v <= v0 + E)), msg + ": not outside the end values")


def ends(S, rev, far):
    t0, t1 = S.real("t0", -R, R), S.real("t1", -R, R)
    if rev:
        S.assume(t0 - t1 >= 0.01)
    else:
        S.assume(t1 - t0 >= 0.01)
    return t0, (inf if far else t1)


def interpolate(S, rev, kind, far=False):
    t0, t1 = ends(S, rev, far)
    t = S.real("t", -R, R)
    n = 1 if kind == "scalar" else 3
    v0 = [S.real(f"a{i}", -R, R) for i in range(n)]
    v1 = [S.real(f"b{i}", -R, R) for i in range(n)]
    if kind == "scalar":
        r = [C.sim.interpolate(t, t0, t1, v0[0], v1[0])]
    else:
        f = dict(tuple=tuple, list=list)[kind]
        got = C.sim.interpolate(t, t0, t1, f(v0), f(v1))
        S.check(isinstance(got, (tuple, list)) and len(got) == n, "as many elements")
        r = list(got)
    lo, hi = (t1, t0) if rev else (t0, t1)
    for x, a, b in zip(r, v0, v1):
        vlo, vhi = (b, a) if rev else (a, b)
        if t <= lo:
            S.close(x, vlo, "before the range: the value at the start")
            S.reach("before")
        elif far:
            S.close(x, vlo, "never reached: the value at the start")
        elif t >= hi:
            S.close(x, vhi, "after the range: the value at the end")
            S.reach("after")
        else:
            between(S, x, t, lo, hi, vlo, vhi, "on the line between the two points")
            S.reach("between")


def interpolate_none(S):
    """elements that are not given (None), equal values, coinciding moments"""
    t0, t1 = ends(S, False, False)
    t = S.real("t", -R, R)
    v = S.real("v", -R, R)
    w = S.real("w", -R, R)
    S.check(C.sim.interpolate(t, t0, t1, None, None) is None, "None between None and None")
    S.check(C.sim.interpolate(t, t0, t1, "abc", "abc") == "abc", "equal values need not be numbers")
    S.close(C.sim.interpolate(t, t0, t1, v, v), v, "equal values")
    S.close(C.sim.interpolate(t, t0, t0, v, w) if t >= t0 else w, w, "coinciding moments: the end value from then on")
    r = C.sim.interpolate(t, t0, t1, (v, None, w, 7), (w, None, None, 7))
    S.close(r[0], C.sim.interpolate(t, t0, t1, v, w), "element by element")
    S.check(r[1] is None and (r[2] is None or t <= t0), "no value if not given at both ends")
    S.check(r[3] == 7, "equal elements")
    if t0 < t < t1:
        S.check(r[2] is None, "no value halfway if not given at both ends")
        S.reach("halfway")


def monotone(S, rev):
    t0, t1 = ends(S, rev, False)
    t, u = S.real("t", -R, R), S.real("u", -R, R)
    v0, v1 = S.real("v0", -R, R), S.real("v1", -R, R)
    S.assume(t <= u)
    a, b = C.sim.interpolate(t, t0, t1, v0, v1), C.sim.interpolate(u, t0, t1, v0, v1)
    if (v1 >= v0) != rev:
        S.check(a <= b + E, "not decreasing")
        S.reach("up")
    else:
        S.check(b <= a + E, "not increasing")
        S.reach("down")


def interp(S, n, kind, ties=False):
    xp = [S.real("x0", -R, R)]
    for i in range(1, n):
        d = S.real(f"d{i}", 0, R)
        S.assume(S.Or(d == 0, d >= 0.01) if ties else d >= 0.01)
        xp.append(xp[-1] + d)
    x = S.real("x", -2 * R, 5 * R)
    m = 1 if kind == "scalar" else 2
    vs = [[S.real(f"f{i}{k}", -R, R) for k in range(m)] for i in range(n)]
    kw, lr = {}, S.choice("lr", 2)
    f = dict(scalar=lambda v: v[0], tuple=tuple, list=list)[kind]
    if lr:
        kw = dict(left=f([S.real(f"l{k}", -R, R) for k in range(m)]), right=f([S.real(f"r{k}", -R, R) for k in range(m)]))
    got = C.sim.interp(x, xp, [f(v) for v in vs], **kw)
    un = (lambda v: [v]) if kind == "scalar" else list
    if kind != "scalar":
        S.check(type(got) in (tuple, list) and len(got) == m, "as many elements as the points have")
    for k in range(m):
        r = un(got)[k]
        if x < xp[0]:
            S.close(r, un(kw["left"])[k] if lr else vs[0][k], "left of the points")
            S.reach("left")
        elif x > xp[-1]:
            S.close(r, un(kw["right"])[k] if lr else vs[-1][k], "right of the points")
            S.reach("right")
        else:
            at = [i for i in range(n) if xp[i] == x]
            if at:
                if len(at) == 1:
                    S.close(r, vs[at[0]][k], "at a point")
                    S.reach("at")
                else:
                    S.check(S.Or(*(S.And(r <= vs[i][k] + E, r >= vs[i][k] - E) for i in at)), "at a jump: one of the values there")
                    S.reach("jump")
            else:
                i = max(i for i in range(n) if xp[i] < x)
                between(S, r, x, xp[i], xp[i + 1], vs[i][k], vs[i + 1][k], "on the line between the neighbouring points")
                S.reach("between")


def interp_errors(S):
    for xp, fp in (([], []), ([1, 2], [3]), ([1], [2, 3])):
        try:
            C.sim.interp(S.real("x", 0, 4), xp, fp)
            S.check(False, "no or not as many points: refused")
        except ValueError:
            S.reach("refused")


def linspace(S, num, endpoint):
    a, b = S.real("a", -R, R), S.real("b", -R, R)
    r = list(C.sim.linspace(a, b, num, endpoint))
    S.check(len(r) == num, "as many points as asked for")
    for i, x in enumerate(r):
        k = num - 1 if endpoint else num
        S.close(x, a + (b - a) * i / k if k else a, "equally spaced points from start")
    if num > 1 and endpoint:
        S.close(r[-1], b, "the last point is the end")
    S.reach("linspace")


def linspace50(S):
    a, b = S.real("a", -R, R), S.real("b", -R, R)
    r = list(C.sim.linspace(a, b))
    S.check(len(r) == 50, "50 points by default")
    S.close(r[0], a, "first")
    S.close(r[-1], b, "last")
    S.close(r[30], a + (b - a) * 30 / 49, "30th")


class NP:
    """numpy, with arange for symbolic numbers as numpy documents it"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, n):
        return getattr(self.np, n)

    def arange(self, start, stop=None, step=1):
        if all(isinstance(x, (int, float)) for x in (start, stop, step)):
            return self.np.arange(start, stop, step)
        out = []
        while (start < stop) if step > 0 else (start > stop):
            out.append(start)
            start = start + step
        return out


class numpy_:
    """with or without numpy"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        m = C.mod
        self.saved = m.has_numpy, m.__dict__.get("numpy")
        m.has_numpy = lambda: self.on
        if self.on:
            import numpy

            m.numpy = NP(numpy)

    def __exit__(self, *a):
        C.mod.has_numpy = self.saved[0]
        if self.saved[1] is None:
            C.mod.__dict__.pop("numpy", None)
        else:
            C.mod.numpy = self.saved[1]


def arange(S, sign, np):
    a, n, st = S.real("a", -R, R), S.real("n", -1, 5), S.real("step", 0.25, 4) * sign
    S.assume(S.And(*(S.Or(n <= k - 0.01, n >= k + 0.01) for k in range(0, 6))))
    stop = a + n * st
    with numpy_(np):
        r = [x for x in C.sim.arange(a, stop, st)]
    want = 0
    while want < n:
        want += 1
    S.check(len(r) == want, "the points before stop")
    for i, x in enumerate(r):
        S.close(x, a + i * st, "start plus a multiple of step")
    S.reach(f"n{want}")


def arange1(S, np):
    """step 1 by default; start beyond stop gives nothing"""
    a, b = S.int("a", -3, 3), S.int("b", -3, 3)
    with numpy_(np):
        r = [x for x in C.sim.arange(a, b)]
    S.check(len(r) == (b - a if b > a else 0), "integer points")
    for i, x in enumerate(r):
        S.check(x == a + i, "integer points")
    S.reach("arange1")


def searchsorted(S, n, np):
    a = []
    for i in range(n):
        x = S.real(f"x{i}", -R, R)
        if a:
            S.assume(x >= a[-1])
        a.append(x)
    v = S.real("v", -R, R)
    with numpy_(np):
        for side in ("left", "right", None):
            i = int(C.sim.searchsorted(a, v, side) if side else C.sim.searchsorted(a, v))
            for k in range(n):
                if side == "right":
                    S.check((a[k] <= v) if k < i else (a[k] > v), "right: after all that are not greater")
                else:
                    S.check((a[k] < v) if k < i else (a[k] >= v), "left: before all that are not smaller")
        try:
            C.sim.searchsorted(a, v, "middle")
            S.check(False, "side other than left or right is refused")
        except ValueError:
            pass
    S.reach("searchsorted")


def rgb(S, name, n):
    return tuple(S.int(f"{name}{i}", 0, 255) for i in range(n))


def full(c):
    return tuple(c) + (255,) * (4 - len(c))


def color(S, rev, how):
    """how t: colorinterpolate; x: color_interp"""
    env = C.make_env(True)
    n = S.pick("n", [3, 4])
    c0, c1 = rgb(S, "c", n), rgb(S, "d", 7 - n)
    t0, t1 = (S.pick("ends", [(0, 1), (3, 7), (-2.5, 7.5)]))
    t = S.real("t", -5, 9)
    if how == "t":
        r = env.colorinterpolate(t, *((t1, t0, c1, c0) if rev else (t0, t1, c0, c1)))
    else:
        r = env.color_interp(t, [t0, t1], [c0, c1])
    r = full(r)
    S.check(len(r) == 4, "red, green, blue and alpha")
    for x, a, b in zip(r, full(c0), full(c1)):
        if t <= t0:
            S.check(x == a, "the first color before")
        elif t >= t1:
            S.check(x == b, "the last color after")
        else:
            v = a + (b - a) * (t - t0) / (t1 - t0)
            S.check(S.And(x <= v + 0.001, x > v - 1.001), "integer part of the value on the line")
            S.check(S.And(x >= 0, x <= 255), "a proper color")
            S.reach("between")


def spec(S):
    """color specifications: hex, with and without alpha, names with alpha"""
    env = C.make_env(True)
    c = rgb(S, "c", 4)
    S.check(tuple(env.colorspec_to_tuple(c)) == c, "r, g, b, alpha")
    S.check(tuple(env.colorspec_to_tuple(list(c[:3]))) == c[:3] + (255,), "r, g, b")
    S.check(tuple(env.colorspec_to_tuple(("red", c[3]))) == (255, 0, 0, c[3]), "a name and alpha")
    S.check(tuple(env.colorspec_to_tuple((c[:3], c[3]))) == c, "a color and alpha")
    k = S.choice("k", 16)
    h = "0123456789abcdef"[k]
    S.check(tuple(env.colorspec_to_tuple(f"#{h}10{h}f{h}")) == (k * 16 + 1, k, 15 * 16 + k, 255), "#rrggbb") if True else None
    S.check(tuple(env.colorspec_to_tuple(f"#0{h}{h}0f0{h}{h}")) == (k, 16 * k, 240, 17 * k), "#rrggbbaa")
    S.check(tuple(env.colorspec_to_tuple(f"red#{h}1")) == (255, 0, 0, 16 * k + 1), "name#aa")
    S.reach("spec")


HARNESSES = [
    H(interpolate, grid(rev=[False, True], kind=["scalar", "tuple", "list"]) + [dict(rev=False, kind="scalar", far=True), dict(rev=False, kind="tuple", far=True)], expect=["before", "between", "after"]),
    H(interpolate_none, [{}], expect=["halfway"]),
    H(monotone, grid(rev=[False, True]), expect=["up", "down"]),
    H(interp, grid(n=[1, 2, 3, 4], kind=["scalar", "tuple", "list"]) + grid(n=[2, 3, 4], kind=["scalar", "tuple"], ties=[True]), grid(n=[1, 2, 3, 4, 5], kind=["scalar", "tuple", "list"], ties=[False, True]), expect=["left", "right", "at", "jump", "between"]),
    H(interp_errors, [{}], expect=["refused"]),
    H(linspace, grid(num=[0, 1, 2, 3, 6], endpoint=[True, False]), expect=["linspace"]),
    H(linspace50, [{}]),
    H(arange, grid(sign=[1, -1], np=[False, True]), expect=["n0", "n1", "n5"]),
    H(arange1, grid(np=[False, True]), expect=["arange1"]),
    H(searchsorted, grid(n=[0, 1, 2, 4], np=[False, True]), grid(n=[0, 1, 2, 3, 4, 5, 6], np=[False, True]), expect=["searchsorted"]),
    H(color, grid(rev=[False, True], how=["t"]) + [dict(rev=False, how="x")], expect=["between"]),
    H(spec, [{}], expect=["spec"]),
]
