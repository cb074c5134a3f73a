"""C26: trajectories against the laws of motion"""
from .common import *
from . import common as C

BOUNDS = "movement: symbolic length and moments; v0, v1, vmax, acc, dec from small sets (thorough: v0, v1 symbolic); polygons of up to 3 segments with symbolic axis parallel legs and a skew last leg; circles with symbolic radius and center; Catmull-Rom and Bezier splines through 2..4 given points at a symbolic moment; merges of up to 3 parts, nested both ways and summed, with symbolic durations and moments"
OUTSIDE = "splines through other points than a few given ones, or with more than 4 points per segment; values of sin, cos and atan2 (any function, the same in code and oracle); trajectories of zero length with all speeds zero; floating point rounding"
E = 1e-9


def speeds(S, sym, kind):
    """vmax, v0, v1, acc, dec"""
    if kind == "flat":
        vmax = S.real("vmax", 0.25, 8) if sym else S.pick("vmax", [None, 2])
        return vmax, S.pick("v0", [None, 1]), S.pick("v1", [None, 0]), inf, inf
    vmax = S.pick("vmax", [1, 4])
    acc, dec = dict(both=[(1, 0.5), (2, 2)], acc=[(0.5, inf)], dec=[(inf, 1)])[kind][S.choice("ad", 2) if kind == "both" else 0]
    if sym:
        v0, v1 = S.real("v0", 0, 4), S.real("v1", 0, 4)
    else:
        v0, v1 = S.pick("v0", [0, 1, 2]), S.pick("v1", [None, 0, 0.5])
    return vmax, v0, v1, acc, dec


def line(S, L, t0, sp, env):
    vmax, v0, v1, acc, dec = sp
    kw = {}
    for n, v in dict(vmax=vmax, v0=v0, v1=v1, acc=acc if acc != inf else None, dec=dec if dec != inf else None).items():
        if v is not None:
            kw[n] = v
    return C.sim.TrajectoryPolygon((0, 0, L, 0), t0=t0, env=env, **kw)


def motion(S, kind, what, sym=False):
    """what profile: the covered length at a moment; steps: the covered lengths at two moments"""
    env = C.make_env(True)
    L = S.real("L", 0.5, 40)
    t0 = S.real("t0", -5, 5) if kind == "flat" else S.pick("t0", [0, 3])
    sp = vmax, v0, v1, acc, dec = speeds(S, sym, kind)
    vmax = 1 if vmax is None else vmax
    v0, v1 = vmax if v0 is None else v0, vmax if v1 is None else v1
    need = lambda a, b, acc: (b * b - a * a) / (2 * acc)
    feasible = S.And(acc == inf or v0 <= vmax, dec == inf or v1 <= vmax)
    if acc != inf and dec != inf:
        feasible = S.And(feasible, need(v0, v1, acc) <= L, need(v1, v0, dec) <= L)
    elif acc != inf:
        feasible = S.And(feasible, need(v0, vmax, acc) <= L)
        if v1 > vmax:
            feasible = False
    elif dec != inf:
        feasible = S.And(feasible, need(v1, vmax, dec) <= L)
    try:
        tr = line(S, L, t0, sp, env)
    except ValueError:
        if acc != inf and dec != inf:
            S.check(S.Not(S.And(v0 <= vmax, v1 <= vmax, need(v0, v1, acc) <= L - 1e-6, need(v1, v0, dec) <= L - 1e-6)), "only refused if v0 or v1 is above vmax or the length is too small for the speed to change")
        else:
            S.check(S.Or(v0 > vmax, v1 > vmax, acc != inf, dec != inf), "refused without need")
        S.reach("refused")
        return
    D = tr.duration()
    S.check(D > 0, "takes time")
    S.close(tr.t0(), t0, "starts at t0")
    S.close(tr.t1(), t0 + D, "ends after its duration")
    S.close(tr.length(), L, "total length")
    S.close(tr.length(tr.t0()), 0, "nothing covered at the start")
    S.close(tr.length(tr.t1()), L, "everything covered at the end")
    S.close(tr.x(tr.t1()), L, "at the end at the end")
    S.close(tr.x(tr.t0()), 0, "at the start at the start")
    t = S.real("t", -10, 60)
    a = tr.length(t)
    if what == "steps":
        h = S.real("h", 0, 20)
        b = tr.length(t + h)
        S.check(a <= b + E, "covered length does not decrease")
        S.check(b - a <= vmax * h + E, "never faster than the maximum speed")
        S.reach("steps")
        return
    S.close(tr.x(t), a, "position on the line is the covered length")
    S.close(tr.y(t), 0, "on the line")
    S.check(S.And(-E <= a, a <= L + E), "covered length between 0 and the total")
    S.check(tr.in_trajectory(t) == S.And(t >= t0, t <= t0 + D), "in trajectory between start and end")
    if t <= t0:
        S.close(a, 0, "waits at the begin")
        S.reach("before")
    elif t >= t0 + D:
        S.close(a, L, "stays at the end")
        S.reach("after")
    else:
        S.reach("during")
        # time optimal profile
        u, w = t - t0, t0 + D - t
        if acc == inf and dec == inf:
            S.close(a, vmax * u, "constant speed")
            S.close(D * vmax, L, "duration")
        else:
            A, B = 0 if acc == inf else 1 / (2 * acc), 0 if dec == inf else 1 / (2 * dec)
            vp = vmax
            if (vmax * vmax - v0 * v0) * A + (vmax * vmax - v1 * v1) * B > L:
                vp = C.mod.math.sqrt((L + v0 * v0 * A + v1 * v1 * B) / (A + B))
                S.reach("peak")
            else:
                S.reach("full speed")
            sa, sd = (vp * vp - v0 * v0) * A, (vp * vp - v1 * v1) * B
            ta, td = (vp - v0) * 2 * A, (vp - v1) * 2 * B
            tm = (L - sa - sd) / vp
            S.close(D, ta + tm + td, "duration")
            if u < ta:
                S.close(a, v0 * u + acc * u * u / 2, "accelerates")
            elif u <= ta + tm:
                S.close(a, sa + vp * (u - ta), "full speed")
            else:
                S.close(a, L - v1 * w - dec * w * w / 2, "decelerates")


def vertices(S, n):
    a, b = S.real("a", 0.5, 9), S.real("b", 0.5, 9)
    sg = S.pick("sign", [1, -1])
    xs = [(1, 2), (1 + a, 2), (1 + a, 2 + sg * b), (1 + a - 3, 2 + sg * b + 4)][: n + 1]
    return xs, [a, b, 5][:n]


def flat(pts):
    return [v for p in pts for v in p]


def polygon(S, n, acc=False, ori=None):
    """the position is the point of the polygon at the covered length"""
    env = C.make_env(True)
    pts, legs = vertices(S, n)
    t0 = S.real("t0", -5, 5)
    v = S.pick("v", [1, 2.5])
    kw = dict(v0=0, acc=2) if acc else {}
    if ori == "number":
        kw["orientation"] = 33
    elif ori == "function":
        kw["orientation"] = lambda angle: angle + 7
    tr = C.sim.TrajectoryPolygon(flat(pts), t0=t0, vmax=v, env=env, **kw) if not acc else C.sim.TrajectoryPolygon(tuple(flat(pts)), t0=t0, vmax=9, env=env, **kw)
    L = sum(legs)
    S.close(tr.length(), L, "the total length is that of the polygon")
    if not acc:
        S.close(tr.duration() * v, L, "duration")
    t = S.real("t", -10, 40)
    s = tr.length(t)
    x, y = tr.x(t), tr.y(t)
    if not acc:
        u = t - t0
        want = 0 if u <= 0 else L if v * u >= L else v * u
        S.close(s, want, "covered length at constant speed")
    S.close(x, pts[0][0] if t <= t0 else pts[-1][0] if t >= tr.t1() else x, "stays at the ends")
    S.close(y, pts[0][1] if t <= t0 else pts[-1][1] if t >= tr.t1() else y, "stays at the ends")
    cum = 0
    m = C.mod.math
    for i in range(n):
        if cum <= s <= cum + legs[i]:
            f = (s - cum) / legs[i]
            dx, dy = pts[i + 1][0] - pts[i][0], pts[i + 1][1] - pts[i][1]
            S.close(x, pts[i][0] + f * dx, "x on the segment")
            S.close(y, pts[i][1] + f * dy, "y on the segment")
            if cum < s < cum + legs[i]:
                an = m.degrees(m.atan2(dy, dx))
                S.close(tr.angle(t), 33 if ori == "number" else an + 7 if ori == "function" else an, "direction of the segment")
                S.reach(f"segment{i}")
        cum = cum + legs[i]
    S.reach("polygon")


def default_t0(S):
    """starts now if t0 is not given"""
    env = C.make_env(True)
    d = S.real("d", 0, 9)
    L = S.real("L", 1, 9)
    env.run(till=d)
    trs = [C.sim.TrajectoryPolygon((0, 0, L, 0), env=env), C.sim.TrajectoryCircle(L, env=env), C.sim.TrajectoryStandstill((1, 2), L, env=env)]
    trs.append(trs[0] + trs[1])
    for tr in trs:
        S.close(tr.t0(), d, "starts now")
    S.close(trs[0].t1(), d + L, "speed 1")
    S.close(trs[2].t1(), d + L, "standstill")
    S.reach("now")


def standstill(S):
    env = C.make_env(True)
    x, y, t0, d, t = S.real("x", -9, 9), S.real("y", -9, 9), S.real("t0", -5, 5), S.real("d", 0, 9), S.real("t", -9, 20)
    o = S.choice("o", 3)
    kw = [{}, dict(orientation=40), dict(orientation=lambda a: a + 12)][o]
    tr = C.sim.TrajectoryStandstill((x, y), d, t0=t0, env=env, **kw)
    S.close(tr.x(t), x, "x")
    S.close(tr.y(t), y, "y")
    S.close(tr.angle(t), (0, 40, 12)[o], "angle")
    S.close(tr.duration(), d, "duration")
    S.close(tr.t1(), t0 + d, "t1")
    S.check(tr.length(t) == 0 and tr.length() == 0, "no length")
    S.check(tr.in_trajectory(t) == S.And(t >= t0, t <= t0 + d), "in trajectory")
    S.reach("standstill")


def circle(S, ori=None):
    env = C.make_env(True)
    r, xc, yc, t0 = S.real("r", 0.5, 9), S.real("xc", -9, 9), S.real("yc", -9, 9), S.real("t0", -5, 5)
    a0, a1 = S.pick("angles", [(0, 360), (90, -45), (30, 75), (0, -720)])
    v = S.pick("v", [1, 3])
    kw = dict(orientation=33) if ori == "number" else dict(orientation=lambda a: a + 7) if ori == "function" else {}
    tr = C.sim.TrajectoryCircle(r, xc, yc, a0, a1, t0=t0, vmax=v, env=env, **kw)
    m = C.mod.math
    L = abs(a1 - a0) * (m.pi / 180) * r
    S.close(tr.length(), L, "length of the arc")
    S.close(tr.duration() * v, L, "duration")
    t = S.real("t", -10, 150)
    s = tr.length(t)
    u = (t - t0) * v
    want = 0 if u <= 0 else L if u >= L else u
    S.close(s, want, "covered length")
    if L > 0 and 0 < u < L:
        S.reach("during")
    an = a0 + (a1 - a0) * s / L
    got = tr.angle(t)
    d = 90 if a1 > a0 else -90
    S.close(got, 33 if ori == "number" else an + d + (7 if ori else 0), "direction perpendicular to the radius")
    if ori is None:
        g = got - d
        S.close(tr.x(t), xc + r * m.cos(m.radians(g)), "x")
        S.close(tr.y(t), yc + r * m.sin(m.radians(g)), "y")
    S.reach("circle")


def parts(S, env, order):
    """three trajectories with strange own start times"""
    a, b, d = S.real("a", 0.5, 9), S.real("b", 0.5, 9), S.real("d", 0, 9)
    t0 = S.real("t0", -5, 5)
    p = C.sim.TrajectoryPolygon((0, 0, a, 0), t0=t0, env=env)
    q = C.sim.TrajectoryStandstill((a, 0), d, t0=77, env=env)
    r = C.sim.TrajectoryPolygon((a, 0, a, b, a + 1, b), t0=-33, vmax=2, env=env)

    def pos(t):
        """x, y, length"""
        u = t - t0
        if u <= 0:
            return 0, 0, 0
        if u <= a:
            return u, 0, u
        if u <= a + d:
            return a, 0, a
        s = 2 * (u - a - d)
        if s <= b:
            return a, s, a + s
        if s <= b + 1:
            return a + s - b, b, a + s
        return a + 1, b, a + b + 1

    return p, q, r, pos, t0, a + d + (b + 1) / 2, a + b + 1


def merged(S, how):
    env = C.make_env(True)
    p, q, r, pos, t0, D, L = parts(S, env, how)
    tr = dict(left=lambda: (p + q) + r, right=lambda: p + (q + r), sum=lambda: sum((p, q, r)), list=lambda: C.sim.TrajectoryMerged([p, q, r]), deep=lambda: p + (q + C.sim.TrajectoryMerged([r])))[how]()
    S.close(tr.t0(), t0, "starts when the first starts")
    S.close(tr.duration(), D, "as long as all together")
    S.close(tr.t1(), t0 + D, "ends when the last ends")
    S.close(tr.length(), L, "length of all together")
    ts = [S.real("t", -10, 40)]
    if S.flag("another first"):
        tr.x(t0 + 1)
        tr.y(t0 + 2)
        r.x(5)
    for t in ts:
        x, y, s = pos(t)
        S.close(tr.x(t), x, "x: parts follow each other")
        S.close(tr.y(t), y, "y: parts follow each other")
        S.close(tr.length(t), s, "covered length")
        S.check(tr.in_trajectory(t) == S.And(t >= t0, t <= t0 + D), "in trajectory")
        if t > t0 + D:
            S.reach("after")
        elif t < t0:
            S.reach("before")
        else:
            S.reach("during")


def shifted(S):
    """part of a merged trajectory is still the same on its own; x, y, length and angle asked for in any order"""
    env = C.make_env(True)
    a, b = S.real("a", 1, 9), S.real("b", 1, 9)
    t0, t1 = S.real("t0", -5, 5), S.real("t1", -5, 5)
    p = C.sim.TrajectoryPolygon((0, 0, a, 0), t0=t0, env=env)
    q = C.sim.TrajectoryPolygon((a, 0, a, b), t0=t1, env=env)
    m = p + q
    t = S.real("t", -9, 25)
    order = S.choice("order", 3)
    clamp = lambda v, hi: 0 if v < 0 else hi if v > hi else v
    asks = [lambda: S.close(m.x(t), clamp(t - t0, a), "merged x"), lambda: S.close(q.y(t), clamp(t - t1, b), "own y"), lambda: S.close(m.y(t), clamp(t - t0 - a, b), "merged y"), lambda: S.close(q.length(t), clamp(t - t1, b), "own length")]
    for i in range(4):
        asks[(i + order) % 4]()
    S.reach("shifted")


def rendered(S):
    """the rendered polygon has the position at every time step and the end"""
    env = C.make_env(True)
    a, t0 = S.real("a", 0.5, 3.5), S.real("t0", -5, 5)
    S.assume(S.And(*(S.Or(a <= k - 0.01, a >= k + 0.01) for k in (1, 2, 3))))
    tr = C.sim.TrajectoryPolygon((0, 0, a, 0), t0=t0, env=env)
    has = C.mod.has_numpy
    C.mod.has_numpy = lambda: False
    try:
        r = tr.rendered_polygon()
    finally:
        C.mod.has_numpy = has
    n = 0
    while n < a:
        S.close(r[2 * n], n, "x at a time step")
        n += 1
    S.check(len(r) == 2 * n + 2, "every time step and the end")
    S.close(r[-2], a, "the end")
    S.check(S.And(*(y == 0 for y in r[1::2])), "y")
    S.reach("rendered")


def catmull(pts, res):
    """uniform Catmull-Rom in y over equidistant x, end points mirrored"""
    ys = [2 * pts[0][1] - pts[1][1]] + [p[1] for p in pts] + [2 * pts[-1][1] - pts[-2][1]]
    out = []
    for i in range(len(pts) - 1):
        a, b, c, d = ys[i : i + 4]
        for k in range(res):
            u = k / res
            y = b + u / 2 * (c - a + u * (2 * a - 5 * b + 4 * c - d + u * (3 * (b - c) + d - a)))
            out.append((pts[i][0] + u * (pts[i + 1][0] - pts[i][0]), y))
    return out + [pts[-1]]


def bezier(pts, res):
    import math

    n = len(pts) - 1
    out = []
    for k in range(res):
        u = k / (res - 1)
        w = [math.comb(n, i) * u**i * (1 - u) ** (n - i) for i in range(n + 1)]
        out.append((sum(a * p[0] for a, p in zip(w, pts)), sum(a * p[1] for a, p in zip(w, pts))))
    return out


def spline(S, kind, acc=False):
    """a spline is the trajectory over the points of the curve"""
    from .C25 import numpy_

    env = C.make_env(True)
    pts = S.pick("points", [[(0, 0), (3, 4), (9, -4)], [(1, 2), (4, 2), (5, 9), (12, 3)], [(0, 0), (2, 5)]])
    res = S.pick("res", [2, 4])
    kw = dict(vmax=2, v0=0, v1=1, acc=0.5, dec=1) if acc else dict(vmax=2)
    t0 = S.real("t0", -5, 5)
    with numpy_(True):
        tr = C.sim.TrajectoryPolygon(flat(pts), spline=S.pick("name", [kind, kind.upper()[:1]]), res=res, t0=t0, env=env, **kw)
    ref = C.sim.TrajectoryPolygon(flat((catmull if kind == "catmull_rom" else bezier)(pts, res)), t0=t0, env=env, **kw)
    S.close(tr.length(), ref.length(), "length of the curve")
    S.close(tr.duration(), ref.duration(), "duration")
    for t, p in ((tr.t0() - 1, pts[0]), (tr.t0(), pts[0]), (tr.t1(), pts[-1]), (tr.t1() + 1, pts[-1])):
        S.close(tr.x(t), p[0], "starts and ends at the end points")
        S.close(tr.y(t), p[1], "starts and ends at the end points")
    if acc:
        return
    u = S.real("u", 0, 1)
    t = tr.t0() + u * tr.duration()
    S.close(tr.x(t), ref.x(t), "on the curve", 1e-4)
    S.close(tr.y(t), ref.y(t), "on the curve", 1e-4)
    S.close(tr.length(t), ref.length(t), "covered length")
    S.reach("spline")


def no_spline(S):
    from .C25 import numpy_

    env = C.make_env(True)
    with numpy_(True):
        try:
            C.sim.TrajectoryPolygon([0, 0, 1, 1], spline="x", env=env)
            S.check(False, "an unknown spline is refused")
        except ValueError:
            pass
        tr = C.sim.TrajectoryPolygon([0, 0, 3, 4], spline="", t0=0, env=env)
    S.close(tr.length(), 5, "no spline")
    S.reach("no spline")


HARNESSES = [
    H(spline, grid(kind=["catmull_rom", "bezier"], acc=[False, True]), expect=["spline"]),
    H(no_spline, [{}], expect=["no spline"]),
    H(motion, grid(kind=["flat", "both", "acc", "dec"], what=["profile", "steps"]) + [dict(kind="flat", sym=True, what="profile")], grid(kind=["flat", "both", "acc", "dec"], what=["profile", "steps"], sym=[False, True]), expect=["refused", "before", "during", "after", "steps", "peak", "full speed"]),
    H(polygon, grid(n=[1, 2, 3], ori=[None, "number", "function"]) + [dict(n=3, acc=True)], expect=["segment0", "segment2", "polygon"]),
    H(default_t0, [{}], expect=["now"]),
    H(standstill, [{}], expect=["standstill"]),
    H(circle, grid(ori=[None, "number", "function"]), expect=["during"]),
    H(merged, grid(how=["left", "right", "sum", "list", "deep"]), expect=["before", "during", "after"]),
    H(shifted, [{}], expect=["shifted"]),
    H(rendered, [{}], expect=["rendered"]),
]
