"""the harness interface on ordinary numbers: replays of solver models on the unmodified code"""
from fractions import Fraction

inf = float("inf")


class ViolationFound(Exception):
    pass


class Skip(BaseException):
    pass


class Concrete:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.names = {}
        self.loglist = []
        self.reached = {}
        self.nchecks = 0

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _get(self, name, lo, hi):
        name = self._name(name)
        v = self.values.get(name)
        if v is None:
            x = Fraction(0)
            if lo is not None and x < lo:
                x = Fraction(lo)
            if hi is not None and x > hi:
                x = Fraction(hi)
            return x
        return Fraction(v[0])

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo, hi))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo, hi))

    def choice(self, name, n):
        v = int(self._get(name, 0, n - 1))
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, b):
        if not b:
            raise Skip("assumption")

    def check(self, b, msg):
        self.nchecks += 1
        if not b:
            raise ViolationFound(msg)

    def close(self, a, b, msg, tol=1e-6):
        num = (int, float, Fraction)
        if not isinstance(a, num) or not isinstance(b, num):
            return self.check(a == b, msg)
        if a != a or b != b:
            return self.check(a != a and b != b, f"{msg}: {a!r} != {b!r}")
        if abs(a) == inf or abs(b) == inf:
            return self.check(a == b, f"{msg}: {a!r} != {b!r}")
        t = min(float(tol), 1e-7) * max(1, abs(a), abs(b))
        self.check(abs(a - b) <= t, f"{msg}: {a!r} != {b!r}")

    def le(self, a, b, msg, tol=1e-6):
        if abs(a) == inf or abs(b) == inf:
            return self.check(a <= b, f"{msg}: {a!r} > {b!r}")
        t = min(float(tol), 1e-7) * max(1, abs(a), abs(b))
        self.check(a <= b + t, f"{msg}: {a!r} > {b!r}")

    @staticmethod
    def And(*xs):
        return all(xs)

    @staticmethod
    def Or(*xs):
        return any(xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or b

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def numbers(self, line):
        out = []
        for w in line.replace("|", " ").replace("*", " ").split():
            try:
                out.append(float(w))
            except ValueError:
                pass
        return out

    def near(self, a, b, msg, tol):
        self.check((a != a and b != b) or abs(a - b) <= tol * (1 + 1e-6), f"{msg}: {a!r} != {b!r}")

    def log(self, *xs):
        self.loglist.append(xs)

    def eval_log(self):
        def ev(x):
            if isinstance(x, bool) or x is None or isinstance(x, str):
                return x
            if isinstance(x, (int, float, Fraction)):
                return float(x)
            if isinstance(x, (list, tuple)):
                return [ev(y) for y in x]
            return str(x)

        return [ev(x) for x in self.loglist]
