"""C16: non level monitors against a multiset of weighted values; histograms"""
import itertools
from .common import *
from . import common as C
from .level import *

BOUNDS = "3-5 tallies with symbolic values (and unit, concrete or symbolic weights), monitoring off/on and reset in between; all statistics, percentiles with a symbolic percentage (5 interpolations), bins and values with symbolic bounds, autoscaled and given histograms as printed"
OUTSIDE = "floating point rounding; infinite values; more tallies"


def fill(S, n, weights, ops, type="any", symval=True, small=False):
    """a monitor and its reference"""
    sim = C.sim
    env = C.make_env(True)
    mon = sim.Monitor("m", type=type, env=env)
    B = Bag()
    on = True
    for i in range(n):
        op = ops[S.choice(f"op{i}", len(ops))] if len(ops) > 1 else ops[0]
        if op == "off":
            on = False
            mon.monitor(False)
        elif op == "on":
            on = True
            mon.monitor(True)
        elif op == "reset":
            B.items = []
            mon.reset()
        if not symval:
            v = S.pick(f"v{i}", [0, 1, 3])
        else:
            v = S.int(f"v{i}", 0, 4) if type not in ("any", "float") or small else S.real(f"v{i}", -5, 5)
        S.reach(op)
        if weights == "none":
            mon.tally(v)
            w = 1
        elif weights == "sym":
            w = S.real(f"w{i}", 0, 4)
            S.assume(w > 0)
            mon.tally(v, w)
        else:
            w = weights[i]
            mon.tally(v, weight=w)
        if on:
            B.items.append((w, v, env.now()))
        S.check(mon.monitor() == on, "monitor() tells whether monitoring is on")
    return env, mon, B


def numbers(S, n, weights, ops, type="any", symval=True):
    env, m, B = fill(S, n, weights, ops, type, symval)
    for ex0 in (False, True):
        parts = B.parts(ex0=ex0)
        txt = "excluding zeroes" if ex0 else "of the tallies"
        kw = dict(ex0=ex0)
        same(S, m, parts, txt, ex0=ex0, sd=weights != "sym" or not symval)
        S.check(m.number_of_entries(**kw) == len(parts), f"number of entries {txt}")
        S.close(m.weight(**kw), total(parts), f"weight {txt}")
        xs = list(m.x(**kw))
        S.check(len(xs) == len(parts), f"x {txt}")
        for a, (_, b) in zip(xs, parts):
            S.close(a, b, f"x {txt}")
        xs, ws = m.xweight(**kw)
        for a, b in zip(ws, parts):
            S.close(a, b[0], f"xweight {txt}")
    z = [p for p in B.parts() if p[1] == 0]
    S.check(m.number_of_entries_zero() == len(z), "number of zero entries")
    S.close(m.weight_zero(), total(z), "weight of zero entries")
    S.log(len(B.items))
    S.reach("end")


def percentiles(S, n, weights, mode, ex0=False):
    env, m, B = fill(S, n, weights, ["tally"], symval=weights != "sym")
    parts = B.parts(ex0=ex0)
    kw = dict(ex0=ex0)
    if not parts or not (total(parts) > 0):
        return
    q = S.real("q", 0, 100) if weights == "none" or (weights != "sym" and not ex0) else S.pick("q", [0, 50, 100])
    if q == 0:
        S.close(m.percentile(q, **kw), m.minimum(**kw), "percentile 0")
    elif q == 100:
        S.close(m.percentile(q, **kw), m.maximum(**kw), "percentile 100")
    elif weights != "none":
        lo, hi = percentile_weighted(parts, q)
        if mode == "linear":
            S.close(m.percentile(q, **kw), (lo + hi) / 2, "weighted percentile")
        S.close(m.percentile(q, interpolation=mode, **kw), {"linear": (lo + hi) / 2, "midpoint": (lo + hi) / 2, "lower": lo, "higher": hi}[mode], f"weighted percentile ({mode})")
        S.reach("between" if hi > lo else "at a value")
    else:
        xs = sorted([v for _, v in parts])
        k = len(xs)
        got = m.percentile(q, interpolation=mode, **kw)
        if mode == "linear":
            S.close(m.percentile(q, **kw), got, "default interpolation")
        if k == 1:
            S.close(got, xs[0], "percentile of one value")
        else:
            i = 0
            while i < k - 2 and q * (k - 1) >= 100 * (i + 1):
                i += 1
            f = q * (k - 1) / 100 - i  # 0 <= f < 1
            want = {"linear": xs[i] + f * (xs[i + 1] - xs[i]), "midpoint": (xs[i] + xs[i + 1]) / 2, "lower": xs[i], "higher": xs[i + 1], "nearest": None}[mode]
            if mode == "nearest":
                S.assume(f != 0.5)
                want = xs[i] if f < 0.5 else xs[i + 1]
            S.close(got, want, f"percentile ({mode})")
            S.check(S.And(got >= xs[0], got <= xs[-1]), "percentile between minimum and maximum")
            S.reach("between" if f > 0 else "at a value")
        if mode == "linear":
            med = xs[k // 2] if k % 2 else (xs[k // 2 - 1] + xs[k // 2]) / 2
            S.close(m.median(**kw), med, "median")
    S.reach("end")


def bins(S, n, weights):
    env, m, B = fill(S, n, weights, ["tally"])
    parts = B.parts()
    b0, b1 = S.real("b0", -6, 6), S.real("b1", -6, 6)
    S.assume(b0 < b1)
    edges = [-inf, b0, b1, inf]
    cnt, wt = 0, 0
    for lb, ub in zip(edges, edges[1:]):
        ps = [p for p in parts if lb < p[1] and p[1] <= ub]
        c = m.bin_number_of_entries(lb, ub)
        w = m.bin_weight(lb, ub)
        S.check(c == len(ps), "entries in a bin")
        S.close(w, total(ps), "weight in a bin")
        cnt, wt = cnt + c, wt + w
        S.check(m.bin_number_of_entries(lb, ub, ex0=True) == len([p for p in ps if p[1] != 0]), "entries in a bin, excluding zeroes")
    S.check(cnt == m.number_of_entries(), "every value is in exactly one bin")
    S.close(wt, m.weight(), "every weight is in exactly one bin")
    v = S.real("v", -5, 5)
    S.check(m.value_number_of_entries(v) == sum(1 for p in parts if p[1] == v), "entries with a certain value")
    S.close(m.value_weight(v), total([p for p in parts if p[1] == v]), "weight with a certain value")
    uniq = []
    for _, x in parts:
        if not any(x == y for y in uniq):
            uniq.append(x)
    got = m.values()
    S.check(len(got) == len(uniq) and all(S.And(a < b) for a, b in zip(got, got[1:])), "values are the different values, sorted")
    S.reach("end")


def histogram(S, n, weights, ex0, given, level=False):
    """the printed histogram: every value in exactly one bin; counts, percentages and totals as of the data"""
    sim = C.sim
    if level:
        env = C.make_env(True)
        mon = {}
        parts = []

        def controller(c):
            v = S.int("v", 0, 4)
            mon[0] = sim.Monitor("m", level=True, initial_tally=v, env=env)
            for i in range(n):
                g = S.pick(f"g{i}", [1, 2])
                yield c.hold(g)
                parts.append((g, v))
                v = S.int(f"v{i}", 0, 4)
                mon[0].tally(v)
            parts.append((0, v))

        C.actor(env, controller, name="controller")
        env.run()
        m = mon[0]
        parts = [p for p in parts if not (ex0 and p[1] == 0)]
    else:
        env, m, B = fill(S, n, weights, ["tally"], small=True)
        parts = B.parts(ex0=ex0)
    T = total(parts)
    if given:
        lo, width, nb = S.pick("lo", [0, 1]), 2, 2
        text = m.print_histogram(nb, lo, width, ex0=ex0, as_str=True)
    else:
        text = m.print_histogram(ex0=ex0, as_str=True)
        width, lo, nb = m.histogram_autoscale(ex0=ex0)
        if T:
            S.check(S.And(lo <= m.minimum(ex0=ex0), m.maximum(ex0=ex0) <= lo + nb * width, nb <= 30), "the autoscaled histogram covers all values")
    rows = []
    seen = False
    for line in text.split("\n"):
        if "cum%" in line:
            seen = True
        elif seen and line.strip():
            rows.append(S.numbers(line)[:4])
    edges = [-inf] + [lo + i * width for i in range(nb + 1)] + [inf]
    S.check(len(rows) == len(edges) - 1, "number of bins")
    cum = 0
    tot = 0
    for (ub, count, perc, cumperc), a, b in zip(rows, edges, edges[1:]):
        S.check(ub == b, "upper bound of a bin")
        want = total([p for p in parts if a < p[1] and p[1] <= b])
        S.near(count, want, "number of entries or weight in a bin of the histogram", 0.0006)
        S.near(perc, 100 * want / T if T else 0, "percentage of a bin of the histogram", 0.06)
        cum = cum + want
        tot = tot + count
        S.near(cumperc, 100 * cum / T if T else 0, "cumulative percentage of a bin of the histogram", 0.06)
    S.near(tot, T, "every value is in exactly one bin of the histogram", 0.01)
    S.reach("end")


def value_histogram(S, n, weights):
    env, m, B = fill(S, n, weights, ["tally"], symval=False)
    parts = B.parts()
    text = m.print_histogram(values=True, as_str=True)
    rows, seen = [], False
    for line in text.split("\n"):
        if line.startswith("value "):
            seen = True
        elif seen and line.strip():
            rows.append(S.numbers(line)[:2])
    uniq = sorted({v for _, v in parts})
    S.check([r[0] for r in rows] == uniq, "values of the histogram")
    for v, c in rows:
        S.near(c, total([p for p in parts if p[1] == v]), "entries or weight of a value of the histogram", 0.0006)
    S.reach("end")


_W = (1, 2, 1, 4)
_W2 = (1, 0, 3, 4)
_m5 = ["linear", "lower", "higher", "midpoint", "nearest"]
_m4 = _m5[:4]
HARNESSES = [
    H(numbers, grid(n=[3], weights=["none", _W2], ops=[["tally", "off", "on", "reset"]]) + grid(n=[4], weights=["none"], ops=[["tally"]], type=["float", "uint8"]) + grid(n=[3], weights=["sym"], ops=[["tally"]], symval=[True, False]),
      grid(n=[4], weights=["none", _W, _W2], ops=[["tally", "off", "on", "reset"]], type=["any", "float"]) + grid(n=[5], weights=["none"], ops=[["tally"]], type=["float", "uint8"]) + grid(n=[4], weights=["sym"], ops=[["tally", "off"]], symval=[True, False]),
      expect=["tally", "off", "on", "reset", "end"], bounds="n tallies"),
    H(percentiles, grid(n=[2, 3], weights=["none"], mode=_m5) + grid(n=[3], weights=[_W, _W2], mode=_m4, ex0=[True, False]) + grid(n=[3], weights=["sym"], mode=["linear"]) + grid(n=[5], weights=["none"], mode=["linear"]),
      grid(n=[2, 3, 5], weights=["none"], mode=_m5, ex0=[True, False]) + grid(n=[4], weights=[_W, _W2], mode=_m4, ex0=[True, False]) + grid(n=[3, 4], weights=["sym"], mode=_m4), expect=["between", "at a value", "end"], bounds="n tallies"),
    H(bins, grid(n=[3], weights=["none", _W]), grid(n=[4], weights=["none", _W, "sym"]), expect=["end"], bounds="2 symbolic bounds"),
    H(histogram, grid(n=[2], weights=["none", _W], ex0=[False, True], given=[True, False]) + grid(n=[2], weights=["none"], ex0=[False, True], given=[True], level=[True]),
      grid(n=[3], weights=["none", _W], ex0=[False, True], given=[True, False]) + grid(n=[2], weights=["none"], ex0=[False, True], given=[True, False], level=[True]), expect=["end"]),
    H(value_histogram, grid(n=[3], weights=["none", _W]), expect=["end"]),
]
