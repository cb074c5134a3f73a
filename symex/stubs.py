"""What is replaced inside the salabim module while it is executed symbolically.

Nothing of salabim itself is replaced: only the C level library functions that
cannot operate on a symbolic number.  Replays run with none of this.
"""
import builtins
import math
import types

from . import core
from .core import SymNum, SymBool

LISTED = [
    "array.array -> list (no element type, no overflow)",
    "float()/int()/isinstance(.., float/int) inside salabim: identity/truncation on symbolic numbers",
    "math.sqrt -> r with r>=0 and r*r==x; math.floor/ceil -> integer with the defining inequalities",
    "math.exp/log/sin/cos/atan2/... on symbolic arguments -> uninterpreted function (any functional value)",
    "numpy reported as not installed (has_numpy() is False)",
]


class SymArray(list):
    def __init__(self, typecode="d", it=()):
        super().__init__(it)
        self.typecode = typecode

    def __add__(self, o):
        return SymArray(self.typecode, list.__add__(self, list(o)))

    def tolist(self):
        return list(self)

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        if isinstance(k, slice):
            return SymArray(self.typecode, r)
        return r

    def buffer_info(self):
        return (0, len(self))

    @property
    def itemsize(self):
        return 8


class _FM(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return not x.intlike
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class FloatStub(builtins.float, metaclass=_FM):
    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return SymNum(x.terms, x.c, False)
        if isinstance(x, SymBool):
            return builtins.float(bool(x))
        return builtins.float(x)


class _IM(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            return x.intlike
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class IntStub(builtins.int, metaclass=_IM):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return x.__trunc__()
        return builtins.int(x, *a)


class MathStub(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n in dir(math):
            if n.startswith("__"):
                continue
            v = getattr(math, n)
            if n in ("floor", "ceil", "trunc", "gcd", "inf", "nan", "pi", "e", "tau", "comb", "perm", "lcm", "factorial", "isqrt") or not callable(v):
                setattr(self, n, v)
            else:
                setattr(self, n, self._wrap(n, v))
        self.sqrt = lambda x: core.ENG.sqrt(x) if isinstance(x, SymNum) else math.sqrt(x)
        self.fabs = lambda x: abs(x)
        self.radians = lambda x: x * (math.pi / 180) if isinstance(x, SymNum) else math.radians(x)
        self.degrees = lambda x: x * (180 / math.pi) if isinstance(x, SymNum) else math.degrees(x)
        self.isnan = lambda x: False if isinstance(x, SymNum) else math.isnan(x)
        self.isinf = lambda x: False if isinstance(x, SymNum) else math.isinf(x)
        self.isfinite = lambda x: True if isinstance(x, SymNum) else math.isfinite(x)
        self.pow = lambda x, y: x**y if isinstance(x, SymNum) or isinstance(y, SymNum) else math.pow(x, y)
        self.hypot = lambda *a: self.sqrt(sum(x * x for x in a)) if any(isinstance(x, SymNum) for x in a) else math.hypot(*a)
        self.fsum = lambda it: self._sum(it)
        self.isclose = self._isclose
        self.fmod = lambda a, b: self._fmod(a, b)
        self.copysign = lambda a, b: (abs(a) if b >= 0 else -abs(a))

    @staticmethod
    def _sum(it):
        it = list(it)
        return sum(it) if any(isinstance(x, SymNum) for x in it) else math.fsum(it)

    @staticmethod
    def _fmod(a, b):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            q = a / b
            q = q.__trunc__() if isinstance(q, SymNum) else int(q)
            return a - q * b
        return math.fmod(a, b)

    @staticmethod
    def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def _wrap(n, v):
        def f(*a):
            if any(isinstance(x, SymNum) and x.terms for x in a):
                return core.ENG.uninterpreted(n, *a)
            return v(*[builtins.float(x) if isinstance(x, SymNum) else x for x in a])

        f.__name__ = n
        return f


class InspectStub(types.ModuleType):
    """inspect with a memoised signature() and a cheap getframeinfo() (filename and line only): speed, same results"""

    def __init__(self):
        super().__init__("inspect")
        import inspect

        self._real = inspect
        self._sig = {}

    def __getattr__(self, n):
        return getattr(self._real, n)

    def signature(self, f, **kw):
        k = (getattr(f, "__func__", f), hasattr(f, "__self__"))
        if kw or not hasattr(k[0], "__code__"):
            return self._real.signature(f, **kw)
        r = self._sig.get(k)
        if r is None:
            r = self._sig[k] = self._real.signature(f)
        return r

    def getframeinfo(self, frame, context=1):
        if not hasattr(frame, "f_code"):
            return self._real.getframeinfo(frame, context)
        return self._real.Traceback(frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name, None, None)

    def stack(self, context=1):
        import sys

        f = sys._getframe(1)
        out = []
        while f is not None:
            out.append(self._real.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
            f = f.f_back
        return out


def install(mod):
    mod.inspect = InspectStub()
    am = types.ModuleType("array")
    am.array = SymArray
    am.typecodes = "bBuhHiIlLqQfd"
    mod.array = am
    mod.math = MathStub()
    mod.float = FloatStub
    mod.int = IntStub
    if hasattr(mod, "fn"):
        # printing a symbolic number: opaque text that stands for it
        real_fn = mod.fn
        mod.fn = lambda x, length, d: core.ENG.token(x) if isinstance(x, SymNum) and x.terms else real_fn(builtins.float(x) if isinstance(x, SymNum) else x, length, d)
    mod.has_numpy = lambda: False
