"""a random stream whose every draw is a symbolic value (C19, C20)

What it may deliver is what the library functions may deliver: random() anything in [0,1), an exponential
draw anything >= 0, and so on.  In a replay the values come from the counterexample and the functions that need
just one random() are those of the standard library.
"""
import random
import types

from . import common as C


class Stream(random.Random):
    """draws: list of (kind, arguments, value); memo: values shared by streams of the same name"""

    def __new__(cls, *a, **kw):
        return random.Random.__new__(cls, 0)

    def __init__(self, S, name="r", memo=None, rmax=None):
        random.Random.__init__(self, 0)
        self.S, self.name_, self.rmax = S, name, rmax
        self.memo = memo if memo is not None else {}
        self.draws, self.n, self.seeds = [], 0, []

    def seed(self, *a, **kw):
        if hasattr(self, "seeds"):
            self.seeds.append(a)

    def _var(self, lo, hi, strict=False):
        k = (self.name_, self.n, lo, hi)
        self.n += 1
        if k not in self.memo:
            v = self.S.real(f"{self.name_}{k[1]}" + ("" if (lo, hi) == (0, 1) else f"_{lo}_{hi}"), lo, hi)
            if strict:
                self.S.assume(v < hi)
            self.memo[k] = v
        return self.memo[k]

    def _int(self, lo, hi):
        k = (self.name_, self.n, "i", int(hi) - int(lo))
        self.n += 1
        if k not in self.memo:
            self.memo[k] = self.S.choice(f"{self.name_}{k[1]}i{k[3]}", int(hi) - int(lo) + 1)
        return int(lo) + self.memo[k]

    def _note(self, kind, args, v):
        self.draws.append((kind, args, v))
        return v

    @property
    def kinds(self):
        return [d[0] for d in self.draws]

    def random(self):
        if self.rmax is not None:
            v = self._var(0, self.rmax)
        else:
            v = self._var(0, 1, strict=True)
        return self._note("random", (), v)

    def uniform(self, a, b):
        v = self._var(0, 1, strict=True)
        self._note("random", (), v)
        return a + (b - a) * v

    def triangular(self, low=0.0, high=1.0, mode=None):
        u = self.random()
        if low == high:
            return low
        c = 0.5 if mode is None else (mode - low) / (high - low)
        if u > c:
            u, c = 1 - u, 1 - c
            low, high = high, low
        return low + (high - low) * C.mod.math.sqrt(u * c)

    def randint(self, a, b):
        return self._note("randint", (a, b), self._int(a, b))

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        xs = range(int(start), int(stop), int(step))
        return self._note("randint", (xs[0], xs[-1]), xs[self._int(0, len(xs) - 1)])

    def choice(self, seq):
        return self._note("choice", (len(seq),), seq[self._int(0, len(seq) - 1)])

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        raise NotImplementedError

    def sample(self, population, k, **kw):
        rest, out = list(population), []
        if k > len(rest):
            raise ValueError("Sample larger than population or is negative")
        for _ in range(k):
            out.append(rest.pop(self._int(0, len(rest) - 1)))
        self._note("choice", (len(population), k), tuple(out))
        return out

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def expovariate(self, lambd=1.0):
        z = self._var(0, 8)
        self._note("expovariate", (lambd,), z)
        return z / lambd

    def normalvariate(self, mu=0.0, sigma=1.0):
        z = self._var(-8, 8)
        self._note("normal", (mu, sigma), z)
        return mu + sigma * z

    def gauss(self, mu=0.0, sigma=1.0):
        return self.normalvariate(mu, sigma)

    def gammavariate(self, alpha, beta):
        z = self._var(0, 8)
        self._note("gamma", (alpha,), z)
        return z * beta

    def weibullvariate(self, alpha, beta):
        z = self._var(0, 8)
        self._note("weibull", (beta,), z)
        return alpha * z

    def betavariate(self, alpha, beta):
        z = self._var(0, 1)
        self._note("beta", (alpha, beta), z)
        return z


class world:
    """with world(S): salabim's global random functions are symbolic too; .glob is that stream"""

    def __init__(self, S, name="g", memo=None):
        self.glob = Stream(S, name, memo)

    def __enter__(self):
        self.save = C.mod.random
        m = types.ModuleType("random")
        m.__dict__.update({k: v for k, v in vars(random).items() if not k.startswith("__")})
        for f in ("random", "uniform", "triangular", "randint", "randrange", "choice", "choices", "sample", "shuffle", "expovariate",
                  "normalvariate", "gauss", "gammavariate", "weibullvariate", "betavariate", "seed"):
            setattr(m, f, getattr(self.glob, f))
        C.mod.random = m
        return self

    def __exit__(self, *a):
        C.mod.random = self.save
