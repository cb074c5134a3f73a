"""C35: printed reports against the methods that give the same numbers"""
from .common import *
from . import common as C

BOUNDS = "monitors (level, non level, weighted) with up to 3 tallies, symbolic values, weights or durations; statistics with all columns; value histograms of everything or of given values with and without the rest, sorted in all ways; reports of queues, resources and states after a small model with symbolic durations; information of components, queues, resources and states; with the clock reset"
OUTSIDE = "layout; bars of a histogram; rounding to the printed number of digits (taken into account as a tolerance); the distribution information; trace lines"

KEYS = ["mean", "std.deviation", "minimum", "median", "90% percentile", "95% percentile", "maximum"]


def stats_rows(S, lines, legend):
    """the rows of one block of statistics"""
    out = {}
    for line in lines:
        for key in [legend] + KEYS:
            if key in line:
                a, b = line.split(key, 1)
                if key not in out:
                    out[key] = S.numbers(b)
                break
    return out


def num(S, got, want, msg):
    if want != want:
        S.check(got is None, msg + ": nothing printed")
    else:
        S.check(got is not None, msg + ": printed")
        S.near(got, want, msg, 0.0006)


def check_stats(S, lines, m, legend):
    rows = stats_rows(S, lines, legend)
    if legend == "duration":
        total = [m.duration(), m.duration(ex0=True), m.duration_zero()]
    elif legend == "weight":
        total = [m.weight(), m.weight(ex0=True), m.weight_zero()]
    else:
        total = [m.number_of_entries(), m.number_of_entries(ex0=True), m.number_of_entries_zero()]
    want = {legend: total}
    for key, f in (("mean", lambda e: m.mean(ex0=e)), ("std.deviation", lambda e: m.std(ex0=e)), ("minimum", lambda e: m.minimum(ex0=e)), ("median", lambda e: m.percentile(50, ex0=e)), ("90% percentile", lambda e: m.percentile(90, ex0=e)), ("95% percentile", lambda e: m.percentile(95, ex0=e)), ("maximum", lambda e: m.maximum(ex0=e))):
        want[key] = [f(False), f(True)]
    S.check(set(rows) == set(want), "the lines of the statistics")
    for key in want:
        w = [x for x in want[key] if x == x]
        S.check(len(rows[key]) == len(w), f"{key}: the columns")
        for g, x in zip(rows[key], w):
            num(S, g, x, f"{m.name()} {key}")


def make(S, kind, n, conc=()):
    env = C.make_env(True)
    level = kind == "level"
    kw = dict(level=True, initial_tally=S.pick("init", [0, 2])) if level else {}
    m = C.sim.Monitor("m", env=env, **kw)
    for i in range(n):
        v = S.pick(f"v{i}", conc) if conc else S.real(f"v{i}", 0, 3)
        if level:
            env.run(till=env.now() + (S.pick(f"d{i}", [1, 2]) if not conc else S.real(f"d{i}", 0, 3)))
            m.tally(v)
        elif kind == "weight":
            w = S.pick(f"w{i}", [2, 3]) if not conc else S.real(f"w{i}", 0, 3)
            S.assume(S.Not(w == 1))  # with weights of 1 only, it is not a weighted monitor
            m.tally(v, w)
        else:
            m.tally(v)
    if level:
        env.run(till=env.now() + 1)
    return env, m


def statistics(S, kind, n, reset=False, vals=()):
    env, m = make(S, kind, n, vals)
    if reset:
        env.run(till=env.now() + 1)
        env.reset_now(S.real("new", 0, 5))
    text = m.print_statistics(as_str=True).split("\n")
    S.check(text[0].startswith("Statistics of m at"), "header")
    S.near(S.numbers(text[0].split(" at ")[1])[0], env.now(), "the moment", 0.0006)
    legend = dict(level="duration", weight="weight").get(kind, "entries")
    check_stats(S, text[1:], m, legend)
    class Sink:
        s = ""

        def write(self, x):
            self.s += x

    for kw, drop in ((dict(show_header=False), 1), (dict(show_header=False, show_legend=False), 3)):
        S.check(m.print_statistics(as_str=True, **kw).count("\n") == len(text) - 1 - drop, "lines left out")
    f = Sink()
    S.check(m.print_statistics(file=f) is None, "printed to a file")
    S.check(f.s.count("\n") == len(text), "the same in a file")
    S.reach(kind)


def values(S, kind, n, given, sort):
    """value histograms"""
    env, m = make(S, kind, n, (0, 1, 3))
    kw = {}
    if sort == "weight":
        kw["sort_on_duration" if kind == "level" else "sort_on_weight"] = True
    elif sort == "value":
        kw["sort_on_value"] = True
    ex0 = S.flag("ex0")
    text = m.print_histogram(values=True if given is None else given, as_str=True, ex0=ex0, graph_scale=2, **kw).split("\n")
    S.check(text[0] == "Histogram of m" + ("[ex0]" if ex0 else ""), "header")
    rows, seen = [], False
    for line in text:
        if line.startswith("value "):
            seen = True
        elif seen and line.strip():
            rows.append((line[:20].strip(), S.numbers(line[20:])))
    f = dict(level=m.value_duration, weight=m.value_weight).get(kind, m.value_number_of_entries)
    tot = dict(level=m.duration, weight=m.weight).get(kind, m.number_of_entries)(ex0=ex0)
    all_ = m.values(ex0=ex0)
    order = m.values(ex0=ex0, **{k: v for k, v in kw.items() if k != "sort_on_value"})
    if given is None:
        want = [[v] for v in order]
    elif sort is None:
        want = [[v] for v in given]
    else:
        want = [[v] for v in order if v in given] + [[v] for v in sorted(given) if v not in order]
    rest = [v for v in all_ if given is not None and v not in given]
    S.check([r[0] for r in rows] == [str(w[0]) for w in want] + (["<rest>"] if rest else []), "the values that are listed")
    if sort == "weight":
        S.check(S.And(*[f(a) >= f(b) for a, b in zip(order, order[1:])]), "sorted on weight or duration")
    cum = 0
    for (lab, nums), vs in zip(rows, want + [rest]):
        vs = [v for v in vs if not (ex0 and v == 0)]
        cnt = f(vs)
        num(S, nums[0], cnt, f"count of {lab}")
        S.near(nums[1], 100 * cnt / tot if tot else 0, f"percentage of {lab}", 0.06) if tot else None
        if kind == "weight":
            S.near(nums[2], m.value_number_of_entries(vs), "entries", 0)
        cum = cum + nums[0]
    S.near(cum, tot, "everything is listed", 0.01)
    S.reach(str(sort))


def model(S, reset=False):
    env = C.make_env(True)
    a, b, c_ = S.real("a", 0, 3), S.real("b", 0, 3), S.pick("c", [1, 2])
    r = C.sim.Resource("r", capacity=2, env=env)
    s = C.sim.State("s", value=0, env=env)
    q = C.sim.Queue("q", env=env)

    def p(c, d):
        c.enter(q, ) if d == 1 else c.enter_sorted(q, 5)
        yield c.request((r, d))
        yield c.hold(a)
        c.release()
        c.leave(q)
        yield c.wait((s, 2), (s, 3), mode="w8")

    def w(c):
        yield c.hold(b)
        s.set(c_)

    cs = [C.actor(env, p, 1 + i % 2, name=f"p{i}") for i in range(3)] + [C.actor(env, w, name="w")]
    env.run(till=2)
    if reset:
        env.reset_now(S.real("new", 0, 5))
    return env, r, s, q, cs


def blocks(S, text, monitors):
    """every block of a report belongs to one monitor"""
    lines = text.split("\n")
    starts = []
    for m, legend in monitors:
        i = [k for k, l in enumerate(lines) if l.startswith(m.name()) and legend in l]
        S.check(len(i) == 1, f"one block for {m.name()}")
        starts.append(i[0])
    S.check(starts == sorted(starts), "in order")
    for (m, legend), i, j in zip(monitors, starts, starts[1:] + [len(lines)]):
        blk = [lines[i][len(m.name()):]] + lines[i + 1 : j]
        check_stats(S, blk, m, legend)


def objects(S, what, reset=False):
    env, r, s, q, cs = model(S, reset)
    ql = lambda q: [(q.length, "duration"), (q.length_of_stay, "entries")]
    if what == "queue":
        o, ms = q, ql(q)
    elif what == "state":
        o, ms = s, ql(s.waiters()) + [(s.value, "duration")]
    else:
        o, ms = r, ql(r.requesters()) + ql(r.claimers()) + [(r.capacity, "duration"), (r.available_quantity, "duration"), (r.claimed_quantity, "duration"), (r.occupancy, "duration")]
    text = o.print_statistics(as_str=True)
    S.check(text.startswith(f"Statistics of {o.name()} at"), "header")
    S.near(S.numbers(text.split("\n")[0].split(" at ")[1])[0], env.now(), "the moment", 0.0006)
    blocks(S, text, ms)
    S.reach(what)


def info(S, reset=False):
    env, r, s, q, cs = model(S, reset)

    def after(line, key):
        return S.numbers(line.split(key, 1)[1])[0]

    lines = q.print_info(as_str=True).split("\n")
    S.check("  name=q" in lines, "name")
    rows = [l for l in lines if "enter_time" in l]
    S.check([l.split()[0] for l in rows] == [c.name() for c in q], "members in order")
    for c, l in zip(q, rows):
        S.near(after(l.split("priority")[0], "enter_time"), c.enter_time(q), "enter time", 0.0006)
        S.check(float(l.split("priority=")[1]) == c.priority(q), "priority")
    if not rows:
        S.check("  no components" in lines, "empty")
        S.reach("empty")
    lines = r.print_info(as_str=True).split("\n")
    S.check("  capacity=2" in lines and f"  claimed_quantity={r.claimed_quantity()}" in lines, "quantities")
    i = [k for k, l in enumerate(lines) if "claimed by" in l or "claimed_quantity" in l][0]
    req = [l.split() for l in lines[:i] if " quantity=" in l]
    cla = [l.split() for l in lines[i:] if " quantity=" in l]
    S.check(req == [[c.name(), f"quantity={c.requested_quantity(r)}"] for c in r.requesters()], "requesters")
    S.check(cla == [[c.name(), f"quantity={c.claimed_quantity(r)}"] for c in r.claimers()], "claimers")
    lines = s.print_info(as_str=True).split("\n")
    S.check(f"  value={s()}" in lines, "value")
    wt = [l.split() for l in lines if "value(s):" in l]
    S.check(wt == [[c.name(), "value(s):", "2,", "3"] for c in s.waiters()], "waiters")
    if wt:
        S.reach("waiting")
    lines = env.print_info(as_str=True).split("\n")
    d = {l.strip().split("=", 1)[0]: l.split("=", 1)[1] for l in lines if "=" in l}
    S.near(S.numbers(d["now"])[0], env.now(), "now", 0.0006)
    S.check(d["current_component"] == env.current_component().name() and d["trace"] == str(env.trace()), "environment")
    for c in cs:
        lines = c.print_info(as_str=True).split("\n")
        d = {l.strip().split("=", 1)[0]: l.split("=", 1)[1] for l in lines if "=" in l and not l.startswith("    ")}
        S.check(d["name"] == c.name() and d["status"] == c.status() and d["mode"] == c.mode(), "name, status and mode")
        for key in ("mode_time", "creation_time", "scheduled_time"):
            t = getattr(c, key)()
            if t == inf or t == -inf:
                S.check(d[key].strip() == "inf", key)
            else:
                S.near(S.numbers(d[key])[0], t, key, 0.0006)
        subl = [l for l in lines if l.startswith("    ")]
        sub = [l[4:24].strip() for l in subl]
        want = sorted(x.name() for x in c.queues()) + sorted(x.name() for x in c.requested_resources()) + sorted(x.name() for x in c.claimed_resources())
        if c.iswaiting():
            want += ["s", "s"]
        S.check(sub == want, f"{sub} {want} queues, resources and states")
        k = 0
        for x in sorted(c.queues(), key=lambda x: x.name()):
            l = subl[k]
            k += 1
            S.near(after(l.split("priority")[0], "enter_time="), c.enter_time(x), "enter time", 0.0006)
            S.check(float(l.split("priority=")[1]) == c.priority(x), "priority in queue")
        for x in sorted(c.requested_resources(), key=lambda x: x.name()):
            S.check(float(subl[k].split("quantity=")[1]) == c.requested_quantity(x), "requested quantity")
            k += 1
        for x in sorted(c.claimed_resources(), key=lambda x: x.name()):
            S.check(float(subl[k].split("quantity=")[1]) == c.claimed_quantity(x), "claimed quantity")
            k += 1
        if c.iswaiting():
            S.check([l.split("value=")[1].strip() for l in subl[k:]] == ["2", "3"], "values waited for")
    S.reach("info")


G = [None, (1, 7), [3, 0, 1]]
HARNESSES = [
    H(statistics, grid(kind=["level", "weight", "entries"], n=[1]) + grid(kind=["entries"], n=[2]) + grid(kind=["level", "weight", "entries"], n=[2], vals=[(0, 1, 3)]) + grid(kind=["level"], n=[1], reset=[True]),
      grid(kind=["level", "weight", "entries"], n=[1, 2]) + grid(kind=["level", "weight", "entries"], n=[3], vals=[(0, 1, 3)]), expect=["level", "weight", "entries"]),
    H(values, grid(kind=["level", "weight", "entries"], n=[2], given=G, sort=[None, "weight", "value"]), grid(kind=["level", "weight", "entries"], n=[3], given=G, sort=[None, "weight", "value"]), expect=["None", "weight", "value"]),
    H(objects, grid(what=["queue", "state", "resource"], reset=[False, True]), expect=["queue", "state", "resource"]),
    H(info, grid(reset=[False, True]), expect=["info", "waiting", "empty"]),
]
