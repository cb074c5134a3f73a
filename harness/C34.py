"""C34: what animation objects prescribe: attribute values at a time, the layout of queues and the graphs of monitors"""
from .common import *
from . import common as C

BOUNDS = "Animate: every numeric and color attribute with symbolic begin and end values and times (begin and end times relative to each other from a few values where there is an update), asked at any time, one or two updates at symbolic moments; attributes of all Animate... classes given as constant, function of nothing, of t, of arg and t, method; AnimateQueue: up to 3 members with symbolic sizes, all directions, reverse, max_length, members entering and leaving; AnimateMonitor: up to 3 tallies at symbolic moments, level and non level, symbolic scales, with the clock reset; conversion of coordinates for any lower left corner and width"
OUTSIDE = "rendering (PIL, tkinter, OpenGL), images, video, sound, user interface elements; 3d rendering"

NUM = "x y offsetx offsety angle alpha linewidth fontsize".split()


def lin(S, t, t0, t1, v0, v1):
    """the prescribed value"""
    if t1 == inf:
        return v0
    if t <= t0:
        return v0
    if t >= t1:
        return v1
    return v0 + (v1 - v0) * (t - t0) / (t1 - t0)


def animate(S, attr, upd):
    """upd: number of updates"""
    env = C.make_env(True)
    s = S.real("s", 0, 2)
    env.run(till=s)
    v0, v1 = S.real("v0", -5, 5), S.real("v1", -5, 5)
    form = S.choice("form", 3)
    kw = {attr + "0": v0}
    t0, t1, e1 = s, inf, v0
    if form >= 1:
        t1 = s + (S.pick("dt", [1, 3]) if upd else S.real("dt", 0, 4))
        S.assume(t1 > s)
        kw.update({"t1": t1, attr + "1": v1})
        e1 = v1
    if form == 2:
        t0 = s + (0.5 if upd else S.real("d0", 0, 1))
        S.assume(t0 < t1)
        kw["t0"] = t0
    a = C.sim.Animate(rectangle0=(0, 0, 1, 1), env=env, **kw)
    b0 = v0
    for u in range(upd):
        dt = S.real(f"w{u}", 0, 4)
        env.run(till=env.now() + dt)
        now = env.now()
        cur = lin(S, now, t0, t1, b0, e1)
        S.close(getattr(a, attr)(), cur, "value now")
        how = S.choice(f"how{u}", 3)
        nv, nt = S.real(f"n{u}", -5, 5), now + S.pick(f"nt{u}", [1, 2])
        S.assume(nt > now)
        if how == 0:
            a.update(**{attr + "1": nv, "t1": nt})
            b0, e1, t0, t1 = cur, nv, now, nt
        elif how == 1:
            a.update(**{attr + "0": nv})
            b0, e1, t0, t1 = nv, nv, now, inf
        else:
            a.update(t1=nt)
            b0, e1, t0, t1 = cur, cur, now, nt
    t = S.real("t", 0, 16)
    f = getattr(a, attr)
    S.close(f(t), lin(S, t, t0, t1, b0, e1), f"{attr} at t")
    S.close(getattr(a.animation_object, attr)(t), lin(S, t, t0, t1, b0, e1), f"{attr} as drawn at t")
    S.check(bool(a.visible(t)) == bool(t >= t0), "visible from t0")
    S.check(bool(a.keep(t)), "kept")
    for other in NUM:
        if other != attr:
            S.close(getattr(a, other)(t), {"alpha": 255, "fontsize": 20}.get(other, 0), f"{other} is its default")
    S.reach(attr)


SHAPES = dict(circle=[None, (1, 2, 0, 90, True)], line=[(0, 0, 1, 1)], polygon=[(0, 0, 1, 0, 1, 1)], rectangle=[(0, 0, 2, 1)])


def shape(S, name, how):
    """the geometry of the object itself"""
    env = C.make_env(True)
    n = 1 if how == "scalar" else {"circle": 2, "line": 4, "polygon": 4, "rectangle": 4}[name]
    a0 = [S.real(f"a{i}", 0, 5) for i in range(n)]
    a1 = [S.real(f"b{i}", 0, 5) for i in range(n)]
    upd = S.flag("upd")
    t1 = 3 if upd else S.real("t1", 0, 4)
    S.assume(t1 > 0)
    rest = () if name != "circle" else (0, 90, False)
    s0, s1 = (a0[0], a1[0]) if how == "scalar" else (tuple(a0) + rest, tuple(a1) + rest)
    a = C.sim.Animate(**{name + "0": s0, name + "1": s1}, t1=t1, env=env)
    t = S.real("t", 0, 5)
    if upd:
        u = S.real("u", 0, 4)
        env.run(till=u)
        mid = [lin(S, u, 0, t1, x, y) for x, y in zip(a0, a1)]
        a.update(t1=u + 1, **{name + "1": s1})
        want = [lin(S, t, u, u + 1, x, y) for x, y in zip(mid, a1)]
    else:
        want = [lin(S, t, 0, t1, x, y) for x, y in zip(a0, a1)]
    got = getattr(a, name)(t)
    drawn = a.animation_object
    if how == "scalar":
        S.close(got, want[0], "radius")
        S.close(drawn.radius(t), want[0], "radius as drawn")
        S.close(drawn.radius1(t), want[0], "second radius as drawn")
        S.check(drawn.arc_angle0(t) == 0 and drawn.arc_angle1(t) == 360, "complete circle")
    else:
        S.check(len(got) == len(want) + len(rest), "as many elements")
        for x, y in zip(got, want):
            S.close(x, y, name)
        if name == "circle":
            S.close(drawn.radius(t), want[0], "radius as drawn")
            S.close(drawn.radius1(t), want[1], "radius1 as drawn")
            S.check(drawn.arc_angle1(t) == 90, "arc")
        else:
            for x, y in zip(drawn.spec(t), want):
                S.close(x, y, name + " as drawn")
    S.reach(name)


def color(S, attr):
    env = C.make_env(True)
    c = [[S.real(f"c{i}{k}", 0, 255) for k in range(1 + i)] for i in range(2)]
    c0, c1 = (c[0][0], 10, 20, 255), (c[1][0], c[1][1], 40, 255)
    t1 = S.real("t1", 0, 4)
    S.assume(t1 > 0)
    a = C.sim.Animate(rectangle0=(0, 0, 1, 1), env=env, t1=t1, **{attr + "0": c0, attr + "1": c1})
    t = S.real("t", 0, 5)
    got = getattr(a, attr)(t)
    S.check(len(got) == 4, "rgba")
    for g, x, y in zip(got, c0, c1):
        w = lin(S, t, 0, t1, x, y)
        S.check(S.And(g <= w, w < g + 1), "interpolated color, rounded down") if not S.And(x == y) else S.near(g, w, "same color", 1)
    S.reach(attr)


def classes(sim, env):
    return dict(
        AnimateText=lambda **kw: sim.AnimateText(text="a", env=env, **kw),
        AnimateRectangle=lambda **kw: sim.AnimateRectangle((0, 0, 1, 1), env=env, **kw),
        AnimatePolygon=lambda **kw: sim.AnimatePolygon((0, 0, 1, 1, 1, 0), env=env, **kw),
        AnimateLine=lambda **kw: sim.AnimateLine((0, 0, 1, 1), env=env, **kw),
        AnimatePoints=lambda **kw: sim.AnimatePoints((0, 0, 1, 1), env=env, **kw),
        AnimateCircle=lambda **kw: sim.AnimateCircle(5, env=env, **kw),
    )


CLS = ["AnimateText", "AnimateRectangle", "AnimatePolygon", "AnimateLine", "AnimatePoints", "AnimateCircle"]
FORMS = ["constant", "none", "t", "arg", "default", "method", "assign", "shared", "subclass"]


def dynamic(S, cls, form):
    """an attribute may be given in several ways"""
    env = C.make_env(True)
    other = C.make_env(True)
    base, base2 = set(env.an_objects), set(other.an_objects)
    v, k, t = S.real("v", -5, 5), S.real("k", -5, 5), S.real("t", 0, 5)

    class Thing:
        val = v

        def m(self, t):
            return self.val + k * t

    for attr in ("x", "offsety", "angle"):
        make = classes(C.sim, env)[cls]
        if form == "constant":
            o, want = make(**{attr: v}), v
        elif form == "none":
            o, want = make(**{attr: lambda: v * 2}), v * 2
        elif form == "t":
            o, want = make(**{attr: lambda t: v + k * t}), v + k * t
        elif form == "arg":
            o, want = make(arg=Thing, **{attr: lambda arg, t: arg.val + k * t}), v + k * t
        elif form == "default":
            o, want = make(layer=3, **{attr: lambda t, me=object: me.layer(t) + k * t}), 3 + k * t
        elif form == "method":
            o, want = make(**{attr: Thing().m}), v + k * t
        elif form == "shared":
            f = lambda t, me=object: me.layer(t) + k * t
            before = make(layer=5, **{attr: f})
            o, want = make(layer=3, **{attr: f}), 3 + k * t
            S.close(getattr(before, attr)(t), 5 + k * t, "the first of two objects with the same function")
            before.remove()
        elif form == "subclass":
            make = classes(type("sub", (), {cls: type("My", (getattr(C.sim, cls),), {attr: lambda self, t: v + k * t})}), env)[cls]
            o, want = make(), v + k * t
        else:
            o, want = make(**{attr: 0}), v
            setattr(o, attr, v)
        S.close(getattr(o, attr)(t), want, f"{cls} {attr} {form}")
        S.close(o.y(t), 0, "y")
        if o.depending_object is not None:
            S.close(getattr(o.depending_object, attr)(t), want, "the text of the object goes with it")
        S.check(o in env.an_objects and o not in other.an_objects, "in its environment")
        S.check(not o.is_removed(), "not removed")
        o.remove()
        S.check(o.is_removed() and env.an_objects == base, "removed")
        o.show()
        S.check(not o.is_removed(), "shown again")
        o.remove()
    S.reach(form)


def over3d(S, cls):
    env = C.make_env(True)
    base = set(env.an_objects_over3d)
    o = classes(C.sim, env)[cls](over3d=True, x=S.real("x", 0, 1))
    S.check(not o.is_removed() and o in env.an_objects_over3d, "shown")
    o.remove()
    S.check(o.is_removed() and env.an_objects_over3d == base, "removed")
    S.reach(cls)


def combined(S):
    env = C.make_env(True)
    v, k, t = S.real("v", -5, 5), S.real("k", -5, 5), S.real("t", 0, 5)
    a = C.sim.AnimateRectangle((0, 0, 1, 1), x=k, env=env)
    b = C.sim.AnimateCircle(3, x=2, env=env)
    c = C.sim.AnimateCombined((a, b))
    S.close(c.x(t), k, "the attribute of the first")
    S.close(c.radius(t), 3, "the attribute of the first that has it")
    c.x = v
    c.radius = k
    c.update(y=lambda t: t + v)
    for o in (a, b):
        S.close(o.x(t), v, "propagated")
        S.close(o.y(t), t + v, "propagated by update")
    S.close(b.radius(t), k, "only where it exists")
    S.check(not hasattr(a, "radius"), "not where it does not")
    c.remove()
    S.check(c.is_removed() and a.is_removed() and b.is_removed(), "all removed")
    c.show()
    S.check(not c.is_removed() and not a.is_removed(), "all shown")
    S.reach("combined")


def queue(S, d, rev, n=3):
    """the members of a queue are laid out one after the other"""
    env = C.make_env(True)
    other = C.make_env(True)
    base, base2 = set(env.an_objects), set(other.an_objects)
    q = C.sim.Queue("q", env=env)
    x0, y0 = S.real("x0", 0, 9), S.real("y0", 0, 9)
    w = [S.real(f"w{i}", 0, 9) for i in range(n)]
    h = [S.real(f"h{i}", 0, 9) for i in range(n)]
    made = {}

    class X(C.sim.Component):
        def setup(self, i):
            self.i = i

        def animation_objects(self, id):
            r = C.sim.AnimateRectangle((0, 0, 1, 1), env=env)
            made[self] = r
            return w[self.i], h[self.i], r

    xs = [X(i=i, env=env) for i in range(n)]
    prio = [S.choice(f"p{i}", 2) for i in range(n)]
    for x, p in zip(xs, prio):
        x.enter_sorted(q, p)
    ml = S.pick("ml", [None, 0, 1, 2])
    a = C.sim.AnimateQueue(q, x=x0, y=(lambda t: y0 + t), direction=d, reverse=rev, max_length=ml)
    S.check(not a.is_removed(), "shown")
    t = 0
    dx, dy = dict(w=(-1, 0), e=(1, 0), n=(0, 1), s=(0, -1))[d]
    vis = True
    for step in range(6):
        env.animation_pre_tick_sys(t)
        order = sorted([i for i in range(n) if xs[i] in q], key=lambda i: prio[i])
        if rev:
            order.reverse()
        x, y = x0, y0 + t
        shown = [] if not vis else order if ml is None else order[:ml]
        for i in shown:
            r = made[xs[i]]
            S.check(r in env.an_objects, "shown")
            S.close(r.x(t), x, "x position")
            S.close(r.y(t), y, "y position")
            x, y = x + dx * w[i], y + dy * h[i]
        S.check(len([o for o in env.an_objects if o in set(made.values())]) == len(shown), "nothing else is shown")
        S.close(a.ao_title.x(t), x0 + dict(w=25, e=-25, n=-25, s=-25)[d], "title")
        S.close(a.ao_title.y(t), y0 + t + dict(w=25, e=25, n=-25, s=25)[d], "title")
        if step == 0:
            out = S.choice("out", n)
            xs[out].leave(q)
            t = S.real("t", 0, 3)
        elif step == 1:
            a.max_length = ml = None
            a.show()
        elif step == 2:
            a.visible = vis = False
            a.show()  # is already shown
        elif step == 3:
            a.visible = vis = True
        elif step == 4:
            a.remove()
            S.check(a.is_removed() and env.an_objects == base, "all removed")
            a.show()
    S.check(other.an_objects == base2, "nothing in the other environment")
    a.remove()
    S.check(a.is_removed() and env.an_objects == base, "all removed")
    S.reach(d)


CLS3 = dict(Box="x", Sphere="radius", Cylinder="z1", Bar="bar_width", Line="y0", Rectangle="z")


def dynamic3d(S, cls, form):
    env = C.make_env(True)
    other = C.make_env(True)
    base, base2 = set(env.an_objects3d), set(other.an_objects3d)
    v, k, t = S.real("v", -5, 5), S.real("k", -5, 5), S.real("t", 0, 5)
    attr = CLS3[cls]
    klass = getattr(C.sim, "Animate3d" + cls)
    f, want = dict(constant=(v, v), none=(lambda: v * 2, v * 2), t=(lambda t: v + k * t, v + k * t), arg=(lambda arg, t: arg + k * t, v + k * t), default=(lambda t, me=object: me.layer(t) + k * t, 3 + k * t))[form]
    o = klass(layer=3, arg=v, env=env, **{attr: f})
    S.close(getattr(o, attr)(t), want, f"{cls} {attr} {form}")
    S.check(env.an_objects3d - base == {o} and other.an_objects3d == base2, "in its environment")
    S.check(not o.is_removed(), "not removed")
    o.remove()
    S.check(o.is_removed() and env.an_objects3d == base, "removed")
    o.show()
    S.check(not o.is_removed(), "shown again")
    S.reach(form)


def queue3d(S, d, rev, n=2):
    env = C.make_env(True)
    q = C.sim.Queue("q", env=env)
    C.make_env(True)
    base = set(env.an_objects3d)
    p0 = [S.real(f"x{i}", 0, 9) for i in range(3)]
    dim = [[S.real(f"w{i}{j}", 0, 9) if j == "xyz".index(d[0]) else 77 for j in range(3)] for i in range(n)]
    made = {}

    class X(C.sim.Component):
        def setup(self, i):
            self.i = i

        def animation3d_objects(self, id):
            r = made[self] = C.sim.Animate3dBox(env=env)
            return (*dim[self.i], r)

    xs = [X(i=i, env=env) for i in range(n)]
    for x in xs[1:] + xs[:1]:
        x.enter(q)
    ml = S.pick("ml", [None, 0, 1])
    a = C.sim.Animate3dQueue(q, x=p0[0], y=p0[1], z=(lambda t: p0[2] + t), direction=d, reverse=rev, max_length=ml)
    t = 0
    vis = True
    j = "xyz".index(d[0])
    for step in range(5):
        env.animation_pre_tick_sys(t)
        order = list(q)
        if rev:
            order.reverse()
        shown = [] if not vis else order if ml is None else order[:ml]
        pos = [p0[0], p0[1], p0[2] + t]
        for x in shown:
            r = made[x]
            S.check(r in env.an_objects3d, "shown")
            for g, w, nm in zip((r.x_offset, r.y_offset, r.z_offset), pos, "xyz"):
                S.close(g, w, nm + " position")
            pos[j] = pos[j] + (1 if d[1] == "+" else -1) * dim[x.i][j]
        S.check(len(env.an_objects3d - base) == len(shown), "nothing else is shown")
        if step == 0:
            xs[S.choice("out", n)].leave(q)
            t = S.real("t", 0, 3)
        elif step == 1:
            a.visible = vis = False
            a.show()  # is already shown
        elif step == 2:
            a.visible = vis = True
            a.max_length = ml = None
        elif step == 3:
            a.remove()
            S.check(a.is_removed() and env.an_objects3d == base, "all removed")
            a.show()
    S.reach(d)


def graph(S, level, n=2, reset=False, labels=False):
    """the graph of a monitor passes through the recorded values"""
    env = C.make_env(True)
    d = [S.real(f"d{i}", 0, 4) for i in range(n + 1)]
    v = [S.real(f"v{i}", 0, 9) for i in range(n + 1)]
    if level:
        S.assume(S.And(*[x > 0 for x in d]))  # values that last no time may or may not be drawn
    r0 = 0
    start = S.real("start", 0, 2)
    env.run(till=start)
    m = C.sim.Monitor("m", level=level, initial_tally=v[n] if level else None, env=env)
    other = C.make_env(True)
    base, base2 = set(env.an_objects), set(other.an_objects)
    hs, vs, vo = S.pick("hs", [1, 4]), S.pick("vs", [1, 2]), S.real("vo", 0, 4)
    width, height = 8, 12
    a = C.sim.AnimateMonitor(m, horizontal_scale=hs, vertical_scale=vs, vertical_offset=vo, width=width, height=height, vertical_map=lambda x: x, x=3, y=(lambda t: 4), labels=[1, 5] if labels else [])
    S.check(not a.is_removed(), "shown")
    now = start
    pts = [(start, v[n])] if level else []
    for i in range(n):
        now = now + d[i]
        env.run(till=now)
        m.tally(v[i])
        pts.append((now, v[i]))
    now = now + d[n]
    env.run(till=now)
    off = 0
    if reset:
        off = S.real("off", -3, 3)
        env.reset_now(env.now() + off)
    t = env.t()
    env.animation_pre_tick_sys(t)
    line = a.ao_line.spec(t)
    S.check(len(line) % 2 == 0, "pairs")
    got = list(zip(line[::2], line[1::2]))
    # the window: start..start+width/hs, or the last width/hs
    span = width / hs
    left = start if now - start <= span else now - span

    def X(t):
        return (t - left) * hs

    def Y(v):
        y = v * vs + vo
        return height if y > height else y

    want = []
    if level:
        for i, (t0, val) in enumerate(pts):
            t1 = pts[i + 1][0] if i + 1 < len(pts) else now
            if t1 >= left:
                want.append((X(t0) if t0 >= left else 0, Y(val)))
                want.append((X(t1), Y(val)))
    else:
        want = [(X(t0), Y(val)) for t0, val in pts if t0 >= left]

    def dedup(ps):
        out = []
        for p in ps:
            if not out or not (p[0] == out[-1][0] and p[1] == out[-1][1]):
                out.append(p)
        return out

    got = dedup(got[::-1]) if level else got[::-1]
    if level:
        want = dedup(want)
        # a step that ends exactly where the window starts may or may not be drawn
        while len(want) > len(got) and want[0][0] == 0 and want[1][0] == 0:
            want = want[1:]
    S.check(len(got) == len(want), "as many points")
    for (x, y), (u, w) in zip(got, want):
        S.close(x, u, "x of the graph")
        S.close(y, w, "y of the graph")
        S.check(S.And(0 <= x, x <= width, 0 <= y, y <= height), "within the frame")
    nl = a.ao_now_line.spec(t)
    S.close(nl[0], min(X(now), width), "line of now")
    S.check(nl[1] == 0 and nl[3] == height and nl[0] == nl[2], "vertical line")
    S.close(a.ao_line.x(t), 3, "x")
    S.close(a.ao_line.y(t), 4, "y")
    S.close(a.ao_frame_line.spec(t)[2], width, "frame")
    ys = [y * vs + vo for y in ([1, 5] if labels else [])]
    ys = [y for y in ys if y <= height]
    S.check(len(a.ao_label_texts) == len(ys), "labels within the frame")
    for o, y in zip(a.ao_label_lines, ys):
        S.close(o.offsety(t), y, "label at its value")
    S.check(other.an_objects == base2, "nothing in the other environment")
    S.check(not a.is_removed(), "shown")
    a.remove()
    S.check(a.is_removed() and env.an_objects == base, "all removed")
    S.reach("level" if level else "nonlevel")


def screen(S):
    """user and screen coordinates"""
    env = C.make_env(True)
    x0, y0, dx = S.real("x0", -5, 5), S.real("y0", -5, 5), S.real("dx", 1, 50)
    w, h = S.pick("w", [200, 1024]), S.pick("h", [100, 768])
    env.animation_parameters(animate=None, x0=x0, y0=y0, x1=x0 + dx, width=w, height=h)
    x, y = S.real("x", -50, 50), S.real("y", -50, 50)
    for f, g, v in ((env.user_to_screen_coordinates_x, env.screen_to_user_coordinates_x, x), (env.user_to_screen_coordinates_y, env.screen_to_user_coordinates_y, y), (env.user_to_screen_coordinates_size, env.screen_to_user_coordinates_size, x)):
        S.close(g(f(v)), v, "there and back")
        S.close(f(g(v)), v, "back and there")
    S.close(env.user_to_screen_coordinates_x(x0), 0, "lower left x")
    S.close(env.user_to_screen_coordinates_y(y0), 0, "lower left y")
    S.close(env.user_to_screen_coordinates_x(x0 + dx), w, "upper right x")
    S.close(env.user_to_screen_coordinates_y(env.y1()), h, "upper right y")
    S.close(env.user_to_screen_coordinates_size(x), env.user_to_screen_coordinates_x(x0 + x), "size")
    S.close((env.y1() - y0) * w, dx * h, "the same scale in both directions")
    fx, fy = dict(w=0, c=0.5, e=1), dict(s=0, c=0.5, n=1)
    for a in ("sw", "s", "se", "w", "c", "e", "nw", "n", "ne"):
        ax = 0.5 if a in ("s", "c", "n") else fx[a[-1]]
        ay = 0.5 if a in ("w", "c", "e") else fy[a[0]]
        S.close(env.xy_anchor_to_x(a, screen_coordinates=True), ax * w, "anchor x")
        S.close(env.xy_anchor_to_y(a, screen_coordinates=True), ay * h, "anchor y")
    r = C.sim.centered_rectangle(dx, x)
    S.close(r[2] - r[0], dx, "centered rectangle")
    S.close(r[0] + r[2], 0, "centered rectangle")
    S.close(r[1] + r[3], 0, "centered rectangle")
    S.reach("screen")


HARNESSES = [
    H(screen, [{}], expect=["screen"]),
    H(animate, grid(attr=NUM, upd=[0]) + grid(attr=["x", "angle", "linewidth"], upd=[1]), grid(attr=NUM, upd=[0, 1]) + grid(attr=["x"], upd=[2]), expect=NUM),
    H(shape, grid(name=["circle"], how=["scalar", "tuple"]) + grid(name=["line", "polygon", "rectangle"], how=["tuple"]), expect=list(SHAPES)),
    H(color, grid(attr=["linecolor", "fillcolor", "textcolor"]), expect=["linecolor"]),
    H(dynamic, grid(cls=CLS, form=FORMS), expect=FORMS),
    H(over3d, grid(cls=CLS), expect=CLS),
    H(combined, [{}], expect=["combined"]),
    H(queue, grid(d=["w", "e", "n", "s"], rev=[False, True], n=[2]), grid(d=["w", "e", "n", "s"], rev=[False, True], n=[2, 3]), expect=["w", "e", "n", "s"]),
    H(dynamic3d, grid(cls=list(CLS3), form=FORMS[:5]), expect=FORMS[:5]),
    H(queue3d, grid(d=["x+", "x-", "y+", "y-", "z+", "z-"], rev=[False, True]), expect=["x+", "z-"]),
    H(graph, grid(level=[True, False], reset=[False, True]) + grid(level=[True], n=[1], labels=[True]), grid(level=[True, False], reset=[False, True], n=[2, 3], labels=[True]), expect=["level", "nonlevel"]),
]
