"""Proxy based symbolic execution of ordinary Python code.

The real salabim functions are run by the ordinary interpreter on symbolic
numbers.  A SymNum is a linear polynomial with rational coefficients over
solver variables; whenever the code under test needs the truth value of a
comparison that the path condition does not determine, the engine asks z3 which
outcomes are feasible, follows one and schedules the other.  Assertions are
queries  path-condition AND NOT assertion;  unsat discharges the assertion for
every value that takes this path.
"""
import math as _math
import zlib
import time as _time
import numbers
from fractions import Fraction

import z3

inf = float("inf")
CLOSE = Fraction(1, 10**6)


class EngineSignal(BaseException):
    """never caught by code under test (which catches Exception)"""


class PathAbort(EngineSignal):
    """the current path is infeasible or ended by an assumption"""


class PathTimeout(EngineSignal):
    pass


class Divergence(EngineSignal):
    """re-execution did not follow the recorded decisions"""


class Unsupported(EngineSignal):
    pass


class Inexact(Exception):
    """a term has no exact rational value in this model (or none yet)"""


def frac(x):
    if type(x) is Fraction:
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x)
    return Fraction(x)


ENG = None  # the active engine (one per process)


# --------------------------------------------------------------------------
# atoms
class Atom:
    __slots__ = ("idx", "name", "is_int", "z", "defs", "deps", "calc")

    def __init__(self, idx, name, is_int, z):
        self.idx = idx
        self.name = name
        self.is_int = is_int
        self.z = z
        self.defs = None  # defining constraints of an opaque term
        self.deps = ()
        self.calc = None


class AtomTable:
    def __init__(self):
        self.by_name = {}
        self.list = []

    def get(self, name, is_int):
        a = self.by_name.get(name)
        if a is None:
            z = z3.Int(name) if is_int else z3.Real(name)
            a = Atom(len(self.list), name, is_int, z)
            self.by_name[name] = a
            self.list.append(a)
        return a


ATOMS = AtomTable()
FACTORS = {}  # monomial -> its factors
RADICAND = {}  # sqrt atom -> its argument


# --------------------------------------------------------------------------
def _is_plain(x):
    return isinstance(x, (int, float, Fraction))


class SymNum:
    """const + sum(coef * atom); terms: tuple of (atom idx, Fraction) sorted by idx"""

    __slots__ = ("terms", "c", "intlike")
    __array_priority__ = 1000

    def __init__(self, terms, c, intlike):
        self.terms = terms
        self.c = c
        self.intlike = intlike

    # -- construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, SymNum):
            return x
        return SymNum((), frac(x), isinstance(x, int))

    def _combine(self, other, f):
        """self + f*other"""
        if f == 0:
            return self
        d = dict(self.terms)
        for i, k in other.terms:
            v = d.get(i)
            v = k * f if v is None else v + k * f
            if v == 0:
                del d[i]
            else:
                d[i] = v
        return mk(d, self.c + f * other.c, self.intlike and other.intlike)

    def _coerce(self, o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, (int, Fraction)):
            return SymNum((), Fraction(o), not isinstance(o, Fraction))
        if isinstance(o, float):
            if o != o or o in (inf, -inf):
                return o
            return SymNum((), Fraction(o), False)
        if isinstance(o, SymBool):
            return SymNum((), Fraction(int(bool(o))), True)
        return None

    # -- arithmetic
    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return self._combine(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return -o
        return self._combine(o, -1)

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return o._combine(self, -1)

    def __neg__(self):
        return mk({i: -k for i, k in self.terms}, -self.c, self.intlike)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if o != o:
                return o
            if self == 0:
                return float("nan")
            return o if self > 0 else -o
        if not o.terms:
            return scale(self, o.c, o.intlike)
        if not self.terms:
            return scale(o, self.c, self.intlike)
        return ENG.product(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o if o != o else 0.0
        if not o.terms:
            if o.c == 0:
                raise ZeroDivisionError("division by zero")
            return scale(self, 1 / o.c, False)
        if o == 0:
            raise ZeroDivisionError("division by zero")
        return ENG.quotient(self, o)

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("division by zero")
        if type(o) is float:
            return o if o != o else (o if self > 0 else -o)
        if not self.terms:
            return scale(o, 1 / self.c, False)
        return ENG.quotient(o, self)

    def __floordiv__(self, o):
        if self._coerce(o) is None:
            return NotImplemented
        q = (self / o)
        return _floor(q)

    def __rfloordiv__(self, o):
        if self._coerce(o) is None:
            return NotImplemented
        return _floor(o / self)

    def __mod__(self, o):
        if self._coerce(o) is None:
            return NotImplemented
        if isinstance(o, float) and o == inf:
            return self
        r = self - (self // o) * o
        return r

    def __rmod__(self, o):
        return o - (o // self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, n):
        if self._coerce(n) is None:
            return NotImplemented
        if isinstance(n, SymNum) and not n.terms and n.c.denominator == 1:
            n = int(n.c)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n == 0:
                return 1
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else 1 / r
        if n == 0.5:
            return ENG.sqrt(self)
        return ENG.uninterpreted("pow", self, SymNum.of(n))

    def __rpow__(self, o):
        return ENG.uninterpreted("pow", SymNum.of(o), self)

    def __abs__(self):
        return self if self >= 0 else -self

    def __floor__(self):
        return _floor(self)

    def __ceil__(self):
        return -_floor(-self)

    def __trunc__(self):
        if self.intlike:
            return self
        return _floor(self) if self >= 0 else -_floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            return _floor(self + Fraction(1, 2))
        return self

    # -- comparison
    def _cmp(self, o, rel):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if o != o:
                return rel == "!="
            if o > 0:
                return rel in ("<", "<=", "!=")
            return rel in (">", ">=", "!=")
        return compare(self, o, rel)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        if not self.terms:
            return hash(self.c)
        ENG.stats["symbolic_hash"] = ENG.stats.get("symbolic_hash", 0) + 1
        return 7919

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __index__(self):
        if not self.intlike:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ENG.concretize_int(self)

    def __int__(self):
        return ENG.concretize_int(self.__trunc__()) if isinstance(self.__trunc__(), SymNum) else int(self.__trunc__())

    def __float__(self):
        if not self.terms:
            return float(self.c)
        return ENG.pin(self)

    def is_integer(self):
        if self.intlike:
            return True
        return bool(_floor(self) == self)

    def __repr__(self):
        if not self.terms:
            return str(float(self.c)) if not self.intlike else str(int(self.c))
        return "<" + "+".join(f"{k}*{i}" for i, k in self.terms) + f"+{self.c}>"

    __str__ = __repr__

    def __format__(self, spec):
        if not self.terms and not self.intlike:
            return format(float(self.c), spec)
        return ENG.token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


numbers.Number.register(SymNum)


def mk(d, c, intlike):
    if not d:
        return SymNum((), c, intlike)
    return SymNum(tuple(sorted(d.items())), c, intlike)


def scale(p, f, f_int):
    if f == 0:
        return SymNum((), Fraction(0), p.intlike and f_int)
    if f == 1:
        return p if (f_int or not p.intlike) else SymNum(p.terms, p.c, False)
    return SymNum(tuple((i, k * f) for i, k in p.terms), p.c * f, p.intlike and f_int)


def names(p):
    return [i for i, _ in p.terms]


def self_value(i, m):
    x = m.get(i)
    return ENG.value(i, m) if x is None else x


def _inv(x):
    if x == 0:
        raise Inexact
    return 1 / x


def _exact_sqrt(x):
    if x < 0:
        raise Inexact
    n, d = x.numerator, x.denominator
    a, b = _math.isqrt(n), _math.isqrt(d)
    if a * a != n or b * b != d:
        raise Inexact
    return Fraction(a, b)


def _floor(p):
    if not isinstance(p, SymNum):
        return _math.floor(p)
    if p.intlike:
        return p
    if not p.terms:
        return _math.floor(p.c)
    return ENG.floor(p)


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
_SIGNS = {"<": 1, "==": 2, ">": 4, "<=": 3, ">=": 6, "!=": 5}
_CONST = {
    "<": lambda c: c < 0,
    "<=": lambda c: c <= 0,
    ">": lambda c: c > 0,
    ">=": lambda c: c >= 0,
    "==": lambda c: c == 0,
    "!=": lambda c: c != 0,
}


def compare(a, b, rel):
    d = dict(a.terms)
    for i, k in b.terms:
        v = d.get(i)
        v = -k if v is None else v - k
        if v == 0:
            del d[i]
        else:
            d[i] = v
    c = a.c - b.c
    if not d:
        return _CONST[rel](c)
    items = sorted(d.items())
    lead = items[0][1]
    if lead < 0:
        rel = _FLIP[rel]
    if lead != 1:
        items = [(i, k / lead) for i, k in items]
        c = c / lead
    return SymBool((tuple(items), c), rel)


def poly_z3(key):
    """z3 term for a canonical polynomial key, scaled to integer coefficients"""
    z = ENG.zcache.get(key)
    if z is not None:
        return z
    items, c = key
    den = c.denominator
    for _, k in items:
        den = den * k.denominator // _math.gcd(den, k.denominator)
    atoms = [ATOMS.by_name[i] for i, _ in items]
    allint = all(a.is_int for a in atoms)
    parts = []
    for (i, k), a in zip(items, atoms):
        n = int(k * den)
        t = a.z if (allint or not a.is_int) else z3.ToReal(a.z)
        parts.append(t if n == 1 else n * t)
    if c != 0:
        n = int(c * den)
        parts.append(z3.IntVal(n) if allint else z3.RealVal(n))
    z = z3.Sum(parts) if len(parts) > 1 else parts[0]
    ENG.zcache[key] = z
    return z


class SymBool:
    """(canonical polynomial) rel 0"""

    __slots__ = ("key", "rel")

    def __init__(self, key, rel):
        self.key = key
        self.rel = rel

    def __bool__(self):
        return ENG.decide(self)

    def z3(self):
        k = (self.key, self.rel)
        z = ENG.zcache.get(k)
        if z is None:
            z = ENG.zcache[k] = self._z3()
        return z

    def _z3(self):
        p = poly_z3(self.key)
        r = self.rel
        if r == "<":
            return p < 0
        if r == "<=":
            return p <= 0
        if r == ">":
            return p > 0
        if r == ">=":
            return p >= 0
        if r == "==":
            return p == 0
        return p != 0

    def neg(self):
        return SymBool(self.key, _NEG[self.rel])

    def evaluate(self, model):
        v = self.key[1]
        for i, k in self.key[0]:
            x = model.get(i)
            if x is None:
                x = ENG.value(i, model)
            v += k * x
        return _CONST[self.rel](v)

    def atoms(self):
        return [i for i, _ in self.key[0]]

    # composite operators (for harness formulas)
    def __and__(self, o):
        return Formula("and", [self, o])

    __rand__ = __and__

    def __or__(self, o):
        return Formula("or", [self, o])

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return f"<{SymNum(self.key[0], self.key[1], False)!r} {self.rel} 0>"


class Formula:
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def z3(self):
        zs = [as_z3(a) for a in self.args]
        return z3.And(*zs) if self.op == "and" else z3.Or(*zs)

    def neg(self):
        return Formula("or" if self.op == "and" else "and", [fneg(a) for a in self.args])

    def atoms(self):
        out = []
        for a in self.args:
            if isinstance(a, (SymBool, Formula)):
                out.extend(a.atoms())
        return out

    def evaluate(self, model):
        if self.op == "and":
            return all(feval(a, model) for a in self.args)
        return any(feval(a, model) for a in self.args)

    def __bool__(self):
        if self.op == "and":
            for a in self.args:
                if not a:
                    return False
            return True
        for a in self.args:
            if a:
                return True
        return False

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def __and__(self, o):
        return Formula("and", [self, o])

    __rand__ = __and__

    def __or__(self, o):
        return Formula("or", [self, o])

    __ror__ = __or__

    def __invert__(self):
        return self.neg()


def as_z3(x):
    if isinstance(x, (SymBool, Formula)):
        return x.z3()
    return z3.BoolVal(bool(x))


def fneg(x):
    if isinstance(x, (SymBool, Formula)):
        return x.neg()
    return not x


def feval(x, model):
    if isinstance(x, (SymBool, Formula)):
        return x.evaluate(model)
    return bool(x)


def mtest(x, model):
    """truth of x in the model; None if it cannot be computed exactly"""
    try:
        return feval(x, model)
    except Inexact:
        return None


def is_sym(x):
    return isinstance(x, (SymBool, Formula))


def And(*xs):
    xs = [x for x in xs]
    if any((not is_sym(x)) and (not x) for x in xs):
        return False
    xs = [x for x in xs if is_sym(x)]
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else Formula("and", xs)


def Or(*xs):
    xs = [x for x in xs]
    if any((not is_sym(x)) and x for x in xs):
        return True
    xs = [x for x in xs if is_sym(x)]
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else Formula("or", xs)


def Not(x):
    return fneg(x)


def Implies(a, b):
    return Or(Not(a), b)


# --------------------------------------------------------------------------
class Violation:
    def __init__(self, kind, msg, values, detail=""):
        self.kind = kind
        self.msg = msg
        self.values = values
        self.detail = detail


class Engine:
    """explores one harness; symbolic mode of the harness interface S"""

    symbolic = True

    def __init__(self, query_timeout_ms=20000, max_decisions=20000):
        self.solver = z3.SolverFor("QF_LIRA") if False else z3.Solver()
        self.query_timeout_ms = query_timeout_ms
        self.solver.set("timeout", query_timeout_ms)
        self.stack = []  # z3 exprs currently pushed on the solver
        self.zcache = {}
        self.max_decisions = max_decisions
        self.stats = dict(paths=0, infeasible=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, checks_solver=0,
                          checks_path=0, forks=0, decisions=0, pins=0, timeouts=0, aborted=0)
        self.reached = {}
        self.violations = []
        self.samples = []
        self.defs = {}
        self.dump_unsat = None  # list for second solver
        self.dump_limit = 0
        self.deadline = None

    # ---- path life cycle
    def begin(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.constraints = []
        self.facts = {}
        self.model = dict(model) if model is not None else None
        self.model_ok = model is not None
        self.names = {}
        self.inputs = []
        self.alts = []
        self.chosen = {}
        self.loglist = []
        self.tokens = []
        self.path_defs = set()
        self.path_labels = set()
        if not prefix and model is None:
            self.model = {}
            self.model_ok = True

    def value(self, i, model):
        """value of an atom that the model does not mention: a definition determines opaque terms, others are free"""
        a = ATOMS.by_name[i]
        if a.defs is None:
            return Fraction(0)
        if not model.get("exact", True) or a.calc is None:
            raise Inexact
        v = a.calc(model)
        model[i] = v
        return v

    def pval(self, p, model):
        v = p.c
        for i, k in p.terms:
            x = model.get(i)
            if x is None:
                x = self.value(i, model)
            v += k * x
        return v

    def _pending(self, names, out=None, seen=None):
        """definitions (not yet part of the path condition) of the opaque terms in names"""
        if out is None:
            out, seen = [], set()
        for i in names:
            if i in seen or i in self.path_defs:
                continue
            a = ATOMS.by_name[i]
            if a.defs is None:
                continue
            seen.add(i)
            self._pending(a.deps, out, seen)
            out.append(a)
        return out

    def _require(self, b):
        """the definitions of the terms in b become part of the path condition"""
        if isinstance(b, (SymBool, Formula)):
            for a in self._pending(b.atoms()):
                self.path_defs.add(a.name)
                self.constraints.extend(a.defs)

    @property
    def in_prefix(self):
        return self.pos < len(self.prefix)

    # ---- solver access
    def _sync(self):
        st, cs = self.stack, self.constraints
        n = 0
        m = min(len(st), len(cs))
        while n < m and st[n] is cs[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in cs[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def _full(self, b):
        """z3 terms for b, with the definitions it depends on"""
        out = []
        for a in self._pending(b.atoms()):
            out.extend(a.defs)
        out.append(b.z3())
        return out

    def query(self, extra):
        """satisfiable(path condition and extra) -> ('sat', model) / ('unsat', None) / ('unknown', None)"""
        self._sync()
        t0 = _time.perf_counter()
        self.solver.push()
        if extra is not None:
            extra = self._full(extra)
            self.solver.add(*extra)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.extract(self.solver.model())
        self.solver.pop()
        dt = _time.perf_counter() - t0
        st = self.stats
        st["queries"] += 1
        st["solver_s"] += dt
        if r == z3.sat:
            st["sat"] += 1
            return "sat", m
        if r == z3.unsat:
            st["unsat"] += 1
            return "unsat", None
        # second attempt with a fresh solver (other tactic choice)
        t0 = _time.perf_counter()
        s = z3.Solver()
        s.set("timeout", self.query_timeout_ms)
        s.add(*self.constraints)
        if extra is not None:
            s.add(*extra)
        r = s.check()
        m = self.extract(s.model()) if r == z3.sat else None
        st["solver_s"] += _time.perf_counter() - t0
        if r == z3.sat:
            st["sat"] += 1
            return "sat", m
        if r == z3.unsat:
            st["unsat"] += 1
            return "unsat", None
        st["unknown"] += 1
        return "unknown", None

    def extract(self, zm):
        out = {}
        exact = True
        for d in zm.decls():
            a = ATOMS.by_name.get(d.name())
            if a is None:
                continue
            v = zm[d]
            if z3.is_int_value(v):
                out[a.name] = Fraction(v.as_long())
            elif z3.is_rational_value(v):
                out[a.name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                ap = v.approx(30)
                out[a.name] = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
                exact = False
            else:
                exact = False
        out["exact"] = exact
        return out

    # ---- decisions
    def _add_fact(self, b):
        m = self.facts.get(b.key, 7)
        self.facts[b.key] = m & _SIGNS[b.rel]

    def _known(self, b):
        m = self.facts.get(b.key)
        if m is None:
            return None
        s = _SIGNS[b.rel]
        if m & s == m:
            return True
        if m & s == 0:
            return False
        return None

    def decide(self, b):
        k = self._known(b)
        if k is not None:
            return k
        self.stats["decisions"] += 1
        if self.pos < len(self.prefix):
            rec = self.prefix[self.pos]
            self.pos += 1
            h = hash_key(b)
            if rec[1] != h:
                raise Divergence(f"decision {self.pos}: expected {rec[1]} got {h} for {b!r}")
            v = rec[0]
            self.trail.append(rec)
            self._commit(b if v else b.neg(), implied=rec[2])
            return v
        if len(self.trail) > self.max_decisions:
            raise PathTimeout("too many decisions")
        h = hash_key(b)
        first = None
        if self.model_ok and self.model.get("exact", True):
            first = mtest(b, self.model)
        if first is None:
            r, m = self.query(b)
            if r == "unsat":
                return self._take(b, False, h, implied=True)
            if r == "sat":
                self.model, self.model_ok = m, True
            else:
                self.model_ok = False
            r2, m2 = self.query(b.neg())
            if r2 == "unsat":
                return self._take(b, True, h, implied=True)
            if r == "unknown" and r2 == "sat":
                pass
            self._fork(b, False, h, m2 if r2 == "sat" else None)
            return self._take(b, True, h, implied=False)
        other = b.neg() if first else b
        r, m = self.query(other)
        if r == "unsat":
            return self._take(b, first, h, implied=True)
        self._fork(b, not first, h, m)
        return self._take(b, first, h, implied=False)

    def _fork(self, b, v, h, model):
        self.stats["forks"] += 1
        self.alts.append((self.trail + [(v, h, False)], model))

    def _take(self, b, v, h, implied):
        rec = (v, h, implied)
        self.trail.append(rec)
        self.prefix = self.trail
        self.pos = len(self.trail)
        self._commit(b if v else b.neg(), implied)
        return v

    def _commit(self, b, implied):
        self._add_fact(b)
        if not implied:
            self._require(b)
            self.constraints.append(b.z3())

    # ---- opaque terms
    def _define(self, name, is_int, make_defs, deps, calc=None):
        a = ATOMS.get(name, is_int)
        if a.defs is None:
            a.deps = tuple(deps)
            a.calc = calc
            a.defs = make_defs(a)
        return SymNum(((a.name, Fraction(1)),), Fraction(0), is_int)

    def zterm(self, p, real=True):
        parts = []
        for i, k in p.terms:
            a = ATOMS.by_name[i]
            t = z3.ToReal(a.z) if a.is_int else a.z
            parts.append(t if k == 1 else z3.RealVal(str(k)) * t)
        parts.append(z3.RealVal(str(p.c)))
        return z3.Sum(parts) if len(parts) > 1 else parts[0]

    def pname(self, p):
        return "+".join(f"{k}*{i}" for i, k in p.terms) + f"+{p.c}"

    def product(self, a, b):
        na, nb = self.pname(a), self.pname(b)
        if nb < na:
            a, b, na, nb = b, a, nb, na
        # distribute over a sum with few terms keeps products canonical
        if len(a.terms) * len(b.terms) > 1 or a.c != 0 or b.c != 0:
            res = SymNum((), a.c * b.c, a.intlike and b.intlike)
            for i, k in a.terms:
                res = res + scale(SymNum(((i, k),), Fraction(0), False), b.c, False)
                for j, l in b.terms:
                    res = res + scale(self._prod_atoms(i, j), k * l, False)
            for j, l in b.terms:
                res = res + scale(SymNum(((j, l),), Fraction(0), False), a.c, False)
            return SymNum(res.terms, res.c, a.intlike and b.intlike)
        (i, k), (j, l) = a.terms[0], b.terms[0]
        r = scale(self._prod_atoms(i, j), k * l, False)
        return SymNum(r.terms, r.c, a.intlike and b.intlike)

    def _prod_atoms(self, i, j):
        """product of two atoms: a monomial, identified by the multiset of its factors"""
        fs = sorted(FACTORS.get(i, (i,)) + FACTORS.get(j, (j,)))
        for k in range(len(fs) - 1):
            if fs[k] == fs[k + 1] and fs[k] in RADICAND:
                # sqrt(p) * sqrt(p)
                res = RADICAND[fs[k]]
                for f in fs[:k] + fs[k + 2:]:
                    res = res * SymNum(((f, Fraction(1)),), Fraction(0), False)
                return res
        self.stats["nonlinear"] = self.stats.get("nonlinear", 0) + 1
        atoms = [ATOMS.by_name[f] for f in fs]
        isint = all(a.is_int for a in atoms)

        def defs(a):
            z = None
            for f in atoms:
                fz = z3.ToReal(f.z) if f.is_int and not isint else f.z
                z = fz if z is None else z * fz
            return [a.z == z]

        def calc(m):
            v = Fraction(1)
            for f in fs:
                v = v * self_value(f, m)
            return v

        name = "(" + "*".join(fs) + ")"
        FACTORS[name] = tuple(fs)
        return self._define(name, isint, defs, tuple(fs), calc)

    def quotient(self, a, b):
        self.stats["nonlinear"] = self.stats.get("nonlinear", 0) + 1
        # normalise: (k*a')/b ; pull out scalar of the numerator's lead and of the denominator's lead
        lead = b.terms[0][1]
        b2 = scale(b, 1 / lead, False)
        if a.terms and scale(a, 1 / a.terms[0][1], False).terms == b2.terms and scale(a, 1 / a.terms[0][1], False).c == b2.c:
            return SymNum((), a.terms[0][1] / lead, False)
        if len(b.terms) == 1 and b.c == 0 and a.c == 0 and a.terms:
            # a common factor of all terms cancels (b is not 0 here)
            bf = FACTORS.get(b.terms[0][0], (b.terms[0][0],))
            res = SymNum((), Fraction(0), False)
            for i, k in a.terms:
                fs = list(FACTORS.get(i, (i,)))
                for f in bf:
                    if f not in fs:
                        res = None
                        break
                    fs.remove(f)
                if res is None:
                    break
                m = SymNum((), k / lead, False)
                for f in fs:
                    m = m * SymNum(((f, Fraction(1)),), Fraction(0), False)
                res = res + m
            if res is not None:
                return SymNum(res.terms, res.c, False)
        if not a.terms:
            inv = self._define(f"inv({self.pname(b2)})", False, lambda q: [q.z * self.zterm(b2) == 1], names(b2), lambda m: _inv(ENG.pval(b2, m)))
            return scale(inv, a.c / lead, False)
        # keep a single quotient atom for a/b: easier for the solver than a product with inv
        l2 = a.terms[0][1]
        a2 = scale(a, 1 / l2, False)
        q = self._define(f"quo({self.pname(a2)};{self.pname(b2)})", False, lambda q: [q.z * self.zterm(b2) == self.zterm(a2)], names(a2) + names(b2), lambda m: ENG.pval(a2, m) * _inv(ENG.pval(b2, m)))
        return scale(q, l2 / lead, False)

    def floor(self, p):
        return self._define(f"floor({self.pname(p)})", True, lambda a: [z3.ToReal(a.z) <= self.zterm(p), self.zterm(p) < z3.ToReal(a.z) + 1], names(p), lambda m: Fraction(_math.floor(ENG.pval(p, m))))

    def sqrt(self, p):
        if not isinstance(p, SymNum):
            return _math.sqrt(p)
        if not p.terms:
            n, d = p.c.numerator, p.c.denominator
            if n < 0:
                raise ValueError("math domain error")
            if _math.isqrt(n) ** 2 == n and _math.isqrt(d) ** 2 == d:
                return SymNum((), Fraction(_math.isqrt(n), _math.isqrt(d)), False)
            return SymNum((), Fraction(_math.sqrt(p.c)), False)
        q = self._root(p)
        if q is not None:
            return abs(q)
        if p < 0:
            raise ValueError("math domain error")
        RADICAND[f"sqrt({self.pname(p)})"] = p
        return self._define(f"sqrt({self.pname(p)})", False, lambda a: [a.z >= 0, a.z * a.z == self.zterm(p)], names(p), lambda m: _exact_sqrt(ENG.pval(p, m)))

    def _root(self, p):
        """q, linear, such that q*q is p, if any"""
        co = {}
        for i, k in p.terms:
            fs = FACTORS.get(i, (i,))
            if len(fs) > 2:
                return None
            co[tuple(fs)] = k
        try:
            lead = None
            q = SymNum((), _exact_sqrt(p.c), False)
            for fs, k in co.items():
                if len(fs) == 2 and fs[0] == fs[1]:
                    r = _exact_sqrt(k)
                    if lead is None:
                        lead = fs[0]
                        if q.c != 0 and co.get((lead,), 0) < 0:
                            q = SymNum((), -q.c, False)
                    elif co.get(tuple(sorted((lead, fs[0]))), 0) < 0:
                        r = -r
                    q = q + SymNum(((fs[0], r),), Fraction(0), False)
        except Inexact:
            return None
        if lead is None:
            return None
        d = q * q - p
        return q if not SymNum.of(d).terms and SymNum.of(d).c == 0 else None

    def uninterpreted(self, fname, *ps):
        """an arbitrary (but functional) real value: over-approximates the library function"""
        ps = [SymNum.of(p) for p in ps]
        n = fname + "(" + ";".join(self.pname(p) for p in ps) + ")"
        self.stats["uninterpreted"] = self.stats.get("uninterpreted", 0) + 1
        f = z3.Function("uf_" + fname, *([z3.RealSort()] * (len(ps) + 1)))
        return self._define(n, False, lambda a: [a.z == f(*[self.zterm(p) for p in ps])], [i for p in ps for i in names(p)])

    # ---- concretisation
    def concretize_int(self, p):
        if not p.terms:
            return int(p.c)
        guard = 0
        while True:
            guard += 1
            if guard > 4000:
                raise Unsupported("unbounded concretisation")
            if self.in_prefix:
                # the recorded decision tells the value: replay by hash
                v = self.prefix[self.pos][3] if len(self.prefix[self.pos]) > 3 else None
                if v is None:
                    v = self._model_value(p)
            else:
                v = self._model_value(p)
            if self._decide_value(p, v):
                return int(v)

    def _decide_value(self, p, v):
        b = compare(p, SymNum((), v, True), "==")
        if not isinstance(b, SymBool):
            return b
        k = self._known(b)
        if k is not None:
            return k
        n = len(self.trail)
        na = len(self.alts)
        r = self.decide(b)
        # remember the value tried, so that a re-execution asks the same question
        if len(self.trail) > n and len(self.trail[-1]) == 3:
            self.trail[-1] = self.trail[-1] + (v,)
            if self.alts and len(self.alts) > na:
                t, m = self.alts[-1]
                t[-1] = t[-1] + (v,)
        return r

    def _model_value(self, p):
        if self.model_ok and self.model.get("exact", True):
            try:
                return self.pval(p, self.model)
            except Inexact:
                pass
        for a in self._pending(names(p)):
            self.path_defs.add(a.name)
            self.constraints.extend(a.defs)
        r, m = self.query(None)
        if r != "sat":
            raise Unsupported("no model for concretisation")
        self.model, self.model_ok = m, True
        v = p.c
        for i, k in p.terms:
            v += k * m.get(i, Fraction(0))
        return v

    def pin(self, p):
        """float(symbolic) in C code: follow one value only (reported, makes the run incomplete)"""
        self.stats["pins"] += 1
        if self.in_prefix:
            # pins are re-derived from the recorded decision
            rec = self.prefix[self.pos]
            v = rec[3] if len(rec) > 3 else self._model_value(p)
        else:
            v = self._model_value(p)
            v = Fraction(float(v))
        b = compare(p, SymNum((), v, False), "==")
        if isinstance(b, SymBool):
            if self._known(b) is None:
                if self.in_prefix:
                    rec = self.prefix[self.pos]
                    self.pos += 1
                    self.trail.append(rec)
                    self._commit(b, False)
                else:
                    self.trail.append((True, hash_key(b), False, v))
                    self.prefix = self.trail
                    self.pos = len(self.trail)
                    self._commit(b, False)
                    self.model_ok = False
        return float(v)

    # ---- harness interface -------------------------------------------------
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _var(self, name, is_int, lo, hi):
        # the kind is part of the name: another harness may use the same name for another kind
        name = self._name(name) + ("~" if is_int else "")
        a = ATOMS.get(name, is_int)
        assert a.is_int == is_int
        self.inputs.append(name)
        v = SymNum(((a.name, Fraction(1)),), Fraction(0), is_int)
        if not isinstance(lo, SymNum) and not isinstance(hi, SymNum):
            if self.model_ok and a.name not in self.model:
                x = Fraction(0)
                if lo is not None and x < lo:
                    x = frac(lo)
                if hi is not None and x > hi:
                    x = frac(hi)
                self.model[a.name] = x
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None):
        return self._var(name, False, lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._var(name, True, lo, hi)

    def choice(self, name, n):
        """a symbolic selector, resolved by forking to a concrete 0..n-1"""
        name = self._name(name)
        h = (zlib.crc32(name.encode()), n)
        if n == 1:
            v = 0
        elif self.pos < len(self.prefix):
            rec = self.prefix[self.pos]
            self.pos += 1
            if rec[1] != h:
                raise Divergence(f"choice {name}")
            v = rec[0]
            self.trail.append(rec)
        else:
            # a fresh selector variable: every value is feasible by construction
            self.stats["forks"] += n - 1
            for k in range(n - 1, 0, -1):
                self.alts.append((self.trail + [(k, h, True)], dict(self.model) if self.model_ok else None))
            v = 0
            self.trail.append((v, h, True))
            self.prefix = self.trail
            self.pos = len(self.trail)
        self.chosen[name] = v
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, b):
        if not is_sym(b):
            if not b:
                raise PathAbort("assumption")
            return
        if isinstance(b, SymBool):
            k = self._known(b)
            if k is True:
                return
            if k is False:
                raise PathAbort("assumption")
        replay = self.in_prefix
        self._require(b)
        z = b.z3()
        if not replay:
            if self.model_ok and self.model.get("exact", True) and mtest(b, self.model):
                pass
            else:
                r, m = self.query(b)
                if r == "unsat":
                    raise PathAbort("assumption infeasible")
                if r == "sat":
                    self.model, self.model_ok = m, True
                else:
                    self.model_ok = False
        elif self.model_ok and not mtest(b, self.model):
            self.model_ok = False
        self.constraints.append(z)
        if isinstance(b, SymBool):
            self._add_fact(b)
        elif isinstance(b, Formula) and b.op == "and":
            for x in b.args:
                if isinstance(x, SymBool):
                    self._add_fact(x)

    def check(self, b, msg):
        if self.in_prefix:
            return
        st = self.stats
        st["checks"] += 1
        if not is_sym(b):
            if b:
                st["checks_path"] += 1
                return
            r, m = self.query(None)
            if r == "sat":
                self._violate("check", msg, m)
            else:
                st["check_unknown"] = st.get("check_unknown", 0) + 1
            return
        if isinstance(b, SymBool):
            k = self._known(b)
            if k is True:
                st["checks_path"] += 1
                return
        n = b.neg()
        if self.model_ok and self.model.get("exact", True) and mtest(n, self.model):
            self._violate("check", msg, self.model, n)
            return
        r, m = self.query(n)
        if r == "unsat":
            st["checks_solver"] += 1
            if self.dump_limit and len(self.dump_unsat) < self.dump_limit:
                s = z3.Solver()
                s.add(*self.constraints)
                s.add(*self._full(n))
                self.dump_unsat.append(s.to_smt2())
        elif r == "sat":
            self._violate("check", msg, m, n)
        else:
            st["check_unknown"] = st.get("check_unknown", 0) + 1

    def close(self, a, b, msg, tol=CLOSE):
        """a and b are the same number (reals: exact arithmetic; a difference of at most tol is not reported)"""
        if a is b:
            return self.check(True, msg)
        if not isinstance(a, (SymNum, int, float, Fraction)) or not isinstance(b, (SymNum, int, float, Fraction)):
            return self.check(a == b, msg)
        if _nonfinite(a) or _nonfinite(b):
            if isinstance(a, SymNum) or isinstance(b, SymNum):
                return self.check(False, msg)
            return self.check((a != a and b != b) or a == b, msg)
        d = SymNum.of(a) - b
        if not isinstance(d, SymNum):
            return self.check(d == 0, msg)
        self.check(And(d <= tol, d >= -tol), msg)

    def le(self, a, b, msg, tol=CLOSE):
        if _nonfinite(a) or _nonfinite(b):
            return self.check(a <= b, msg)
        d = SymNum.of(a) - b
        self.check(d <= tol, msg)

    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)

    def reach(self, label):
        if label in self.path_labels:
            return
        self.path_labels.add(label)
        self.reached[label] = self.reached.get(label, 0) + 1

    def token(self, x):
        """text that stands for a symbolic number in a report"""
        if not hasattr(self, "tokens"):
            self.tokens = []
        self.tokens.append(x)
        return f" \u00ab{len(self.tokens) - 1}\u00bb"

    def numbers(self, line):
        """the numbers in a line of a report"""
        out = []
        for w in line.replace("|", " ").replace("*", " ").replace("\u00ab", " \u00ab").replace("\u00bb", "\u00bb ").split():
            if w.startswith("\u00ab") and w.endswith("\u00bb"):
                out.append(self.tokens[int(w[1:-1])])
            else:
                try:
                    out.append(float(w))
                except ValueError:
                    pass
        return out

    def near(self, a, b, msg, tol):
        """a is b as printed: tol is the rounding in the printed text"""
        if not is_sym(a) and not is_sym(b):
            return self.check((a != a and b != b) or abs(a - b) <= tol, msg)
        self.close(a, b, msg, max(CLOSE, Fraction(tol)))

    def log(self, *xs):
        self.loglist.append(xs)

    def witness(self):
        """model of the complete current path, or None"""
        if self.model_ok and self.model.get("exact", True):
            return self.model
        r, m = self.query(None)
        return m if r == "sat" else None

    def nice_model(self, extra=None, grid=8):
        """prefer inputs on a dyadic grid, so that the replay in floating point is exact"""
        self._sync()
        self.solver.push()
        try:
            if extra is not None:
                self.solver.add(*self._full(extra))
            self.solver.set("timeout", 3000)
            for g in (1, grid, 64):
                self.solver.push()
                for k, nm in enumerate(self.inputs):
                    a = ATOMS.by_name[nm]
                    if not a.is_int:
                        self.solver.add(a.z * g == z3.ToReal(z3.Int(f"grid!{k}")))
                r = self.solver.check()
                m = self.extract(self.solver.model()) if r == z3.sat else None
                self.solver.pop()
                if m is not None:
                    return m
        finally:
            self.solver.set("timeout", self.query_timeout_ms)
            self.solver.pop()
        return None

    def values_of(self, m):
        out = {}
        for nm in self.inputs:
            a = ATOMS.by_name[nm]
            v = m.get(a.name, Fraction(0))
            out[nm.rstrip("~")] = [str(v), "i" if a.is_int else "r"]
        for nm, v in self.chosen.items():
            out[nm] = [str(v), "c"]
        return out

    def eval_log(self, m):
        def ev(x):
            if isinstance(x, SymNum):
                try:
                    return float(self.pval(x, m))
                except Inexact:
                    return "?"
            if isinstance(x, (SymBool, Formula)):
                r = mtest(x, m)
                return "?" if r is None else r
            if isinstance(x, bool) or x is None or isinstance(x, str):
                return x
            if isinstance(x, (int, float, Fraction)):
                return float(x)
            if isinstance(x, (list, tuple)):
                return [ev(y) for y in x]
            return str(x)

        return [ev(x) for x in self.loglist]

    def _violate(self, kind, msg, m, extra=None, detail=""):
        cands = []
        try:
            nm = self.nice_model(extra)
            if nm is not None:
                cands.append(self.values_of(nm))
        except z3.Z3Exception:
            pass
        if m is not None:
            v = self.values_of(m)
            if v not in cands:
                cands.append(v)
        self.violations.append(Violation(kind, msg, cands, detail))


def _nonfinite(x):
    return isinstance(x, float) and (x != x or x in (inf, -inf))


def hash_key(b):
    return zlib.crc32(repr((b.rel, b.key)).encode())
