"""reference for recorded data, independent of the library: a piecewise constant function with off periods,
and a multiset of weighted values.  Shared by C15-C18, C23, C27."""
nan = float("nan")
inf = float("inf")


class Level:
    def __init__(self, t, v, on=True):
        self.t, self.v, self.on = t, v, on
        self.start = t
        self.done = []  # (t0, t1, value, on), t0 < t1

    def _close(self, t):
        if t > self.t:
            self.done.append((self.t, t, self.v, self.on))
        self.t = t

    def tally(self, t, v):
        self._close(t)
        self.v = v

    def monitor(self, t, on):
        self._close(t)
        self.on = on

    def reset(self, t, on=None):
        self.done, self.t, self.start = [], t, t
        if on is not None:
            self.on = on

    def segments(self, now):
        """all segments up to now, the last one may be empty"""
        return self.done + [(self.t, now, self.v, self.on)]

    def parts(self, now, ex0=False):
        """(weight, value) of what was monitored"""
        return [(b - a, v) for a, b, v, on in self.segments(now) if on and not (ex0 and v == 0)]

    def at(self, t, now, off):
        if t < self.start:
            return off
        for a, b, v, on in self.done:
            if a <= t and t < b:
                return v if on else off
        return self.v if self.on else off


class Bag:
    """non level: weighted values"""

    def __init__(self):
        self.items = []  # (weight, value, t)

    def parts(self, now=None, ex0=False):
        return [(w, v) for w, v, _ in self.items if not (ex0 and v == 0)]


# statistics of a list of (weight, value)
def total(parts):
    return sum((w for w, _ in parts), 0)


def mean(parts):
    T = total(parts)
    return sum((w * v for w, v in parts), 0) / T


def variance(parts):
    T = total(parts)
    m = mean(parts)
    return sum((w * (v - m) ** 2 for w, v in parts), 0) / T


def percentile_weighted(parts, q):
    """(lower, upper): smallest value with cumulative weight at least q %; two values if it is exactly q %"""
    ps = sorted([(v, w) for w, v in parts if w > 0], key=lambda x: x[0])
    T = sum((w for _, w in ps), 0)
    cum = 0
    for i, (v, w) in enumerate(ps):
        cum = cum + w
        if 100 * cum > q * T:
            return v, v
        if 100 * cum == q * T:
            return v, ps[i + 1][0]


def same(S, m, parts, msg, ex0=False, sd=True, minmax=True, now_counts=True):
    """mean, std, minimum, maximum of monitor m against the reference"""
    kw = dict(ex0=True) if ex0 else {}
    T = total(parts)
    if T > 0:
        S.close(m.mean(**kw), mean(parts), f"mean {msg}")
        if sd:
            x = m.std(**kw)
            S.check(x >= 0, f"standard deviation is not negative {msg}")
            S.close(x * x, variance(parts), f"standard deviation {msg}")
    else:
        x = m.mean(**kw)
        S.check(x != x, f"mean is nan without data {msg}")
        x = m.std(**kw)
        S.check(x != x, f"standard deviation is nan without data {msg}")
    if minmax:
        if parts:
            lo, hi = parts[0][1], parts[0][1]
            for _, v in parts[1:]:
                if v < lo:
                    lo = v
                if v > hi:
                    hi = v
            S.close(m.minimum(**kw), lo, f"minimum {msg}")
            S.close(m.maximum(**kw), hi, f"maximum {msg}")
        else:
            x, y = m.minimum(**kw), m.maximum(**kw)
            S.check(x != x and y != y, f"minimum and maximum are nan without data {msg}")
