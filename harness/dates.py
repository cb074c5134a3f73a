"""datetime and timedelta over symbolic seconds (symbolic runs only; replays use the real ones)"""
import datetime as real
import types

from . import common as C

EPOCH = real.datetime(1970, 1, 1)


class TD:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.s = seconds + days * 86400 + microseconds / 1000000 + milliseconds / 1000 + minutes * 60 + hours * 3600 + weeks * 604800

    def total_seconds(self):
        return self.s

    @staticmethod
    def of(x):
        return x.s if isinstance(x, TD) else x.total_seconds() if isinstance(x, real.timedelta) else None

    def __add__(self, o):
        if isinstance(o, (DT, real.datetime)):
            return DT.at(DT.of(o) + self.s)
        o = TD.of(o)
        return NotImplemented if o is None else TD(seconds=self.s + o)

    __radd__ = __add__

    def __sub__(self, o):
        o = TD.of(o)
        return NotImplemented if o is None else TD(seconds=self.s - o)

    def __rsub__(self, o):
        if isinstance(o, (DT, real.datetime)):
            return DT.at(DT.of(o) - self.s)
        o = TD.of(o)
        return NotImplemented if o is None else TD(seconds=o - self.s)

    def __neg__(self):
        return TD(seconds=-self.s)

    def __mul__(self, k):
        return TD(seconds=self.s * k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        x = TD.of(o)
        return self.s / x if x is not None else TD(seconds=self.s / o)

    def __eq__(self, o):
        return self.s == TD.of(o)

    def __lt__(self, o):
        return self.s < TD.of(o)

    def __le__(self, o):
        return self.s <= TD.of(o)

    def __gt__(self, o):
        return self.s > TD.of(o)

    def __ge__(self, o):
        return self.s >= TD.of(o)

    def __bool__(self):
        return bool(self.s != 0)

    __hash__ = None


class _M(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or (cls is DT and isinstance(x, real.datetime))


class DT(metaclass=_M):
    def __init__(self, *a, **kw):
        self.s = (real.datetime(*a, **kw) - EPOCH).total_seconds()

    @classmethod
    def at(cls, s):
        self = object.__new__(cls)
        self.s = s
        return self

    @staticmethod
    def of(x):
        return (x - EPOCH).total_seconds() if isinstance(x, real.datetime) else x.s if type.__instancecheck__(DT, x) else None

    def __add__(self, o):
        o = TD.of(o)
        return NotImplemented if o is None else DT.at(self.s + o)

    __radd__ = __add__

    def __sub__(self, o):
        x = DT.of(o)
        if x is not None:
            return TD(seconds=self.s - x)
        x = TD.of(o)
        return NotImplemented if x is None else DT.at(self.s - x)

    def __rsub__(self, o):
        x = DT.of(o)
        return NotImplemented if x is None else TD(seconds=x - self.s)

    def __eq__(self, o):
        return self.s == DT.of(o)

    def __lt__(self, o):
        return self.s < DT.of(o)

    def __le__(self, o):
        return self.s <= DT.of(o)

    def __gt__(self, o):
        return self.s > DT.of(o)

    def __ge__(self, o):
        return self.s >= DT.of(o)

    __hash__ = None

    def weekday(self):
        return 0

    def strftime(self, f):
        return "?"

    def isoformat(self, *a):
        return "?"


class dates:
    """with dates(S) as D: D.td(seconds), D.dt(seconds since 1970)"""

    def __init__(self, S):
        self.S = S

    def __enter__(self):
        self.save = C.mod.datetime
        if self.S.symbolic:
            m = types.ModuleType("datetime")
            m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
            m.datetime, m.timedelta = DT, TD
            C.mod.datetime = m
        return self

    def __exit__(self, *a):
        C.mod.datetime = self.save

    def td(self, seconds):
        return TD(seconds=seconds) if self.S.symbolic else real.timedelta(seconds=seconds)

    def dt(self, seconds):
        return DT.at(seconds) if self.S.symbolic else EPOCH + real.timedelta(seconds=seconds)

    def secs(self, d):
        """seconds since 1970"""
        return DT.of(d)

    def dsecs(self, d):
        return TD.of(d)
