"""Symbolic text: a string in which every symbolic character is a private use character that stands for an unknown code point.

Concatenation, slicing, splitting in lines and iteration work on such strings as they are; what looks at the characters
(comparisons, `in`, methods like strip, lower and replace, int(), float()) is replaced, in a copy of the functions that
is made from the present source, by functions that build conditions on the code points and let the solver decide.
"""
import ast
import builtins
import copy
import inspect
import textwrap

from . import core

BASE = 0xE000


class Text:
    def __init__(self, S):
        self.S = S
        self.codes = []

    def char(self, code):
        """the character with this (symbolic) code point"""
        if not isinstance(code, core.SymNum):
            return chr(code)
        if not code.terms:
            return chr(builtins.int(code.c))
        self.codes.append(code)
        return chr(BASE + len(self.codes) - 1)

    def code(self, ch):
        k = ord(ch) - BASE
        return self.codes[k] if 0 <= k < len(self.codes) else ord(ch)

    def sym(self, s):
        return isinstance(s, str) and any(BASE <= ord(c) < BASE + len(self.codes) for c in s)

    # ---- what the transformed code calls

    def eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (self.sym(a) or self.sym(b)):
            if len(a) != len(b):
                return False
            return self.S.And(*[self.code(x) == self.code(y) for x, y in zip(a, b)]) if a else True
        return a == b

    def ne(self, a, b):
        if isinstance(a, str) and isinstance(b, str) and (self.sym(a) or self.sym(b)):
            return self.S.Not(self.eq(a, b))
        return a != b

    def isin(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            if self.sym(a) or self.sym(b):
                return self.S.Or(*[self.eq(a, b[i : i + len(a)]) for i in range(len(b) - len(a) + 1)], False)
        elif isinstance(a, str) and isinstance(b, (tuple, list, set, frozenset, dict)):
            if self.sym(a) or any(self.sym(x) for x in b):
                return self.S.Or(*[self.eq(a, x) for x in sorted(b, key=str)], False)
        return a in b

    def notin(self, a, b):
        r = self.isin(a, b)
        return self.S.Not(r) if core.is_sym(r) else not r

    def call(self, obj, name, *a, **kw):
        if isinstance(obj, str) and (self.sym(obj) or any(self.sym(x) for x in a)):
            f = getattr(self, "m_" + name, None)
            if f is None or kw:
                # no encoding of this method: go on with one value of the characters (reported as pins, makes the run incomplete)
                obj, *a = [self.pinned(x) for x in (obj, *a)]
                return getattr(obj, name)(*a, **kw)
            return f(obj, *a)
        if isinstance(obj, dict) and a and isinstance(a[0], str):
            a = (self.key(obj, a[0]),) + a[1:]
        return getattr(obj, name)(*a, **kw)

    def key(self, obj, k):
        """the key of the dictionary that equals k, if there is one"""
        if isinstance(obj, dict) and isinstance(k, str) and k not in obj and (self.sym(k) or any(self.sym(x) for x in obj)):
            for x in list(obj):
                if isinstance(x, str) and self.eq(x, k):
                    return x
        return k

    def get(self, obj, k):
        return obj[self.key(obj, k)]

    def pinned(self, s):
        if not self.sym(s):
            return s
        out = ""
        for ch in s:
            c = self.code(ch)
            out += chr(builtins.int(core.ENG.pin(c))) if isinstance(c, core.SymNum) and c.terms else ch
        return out

    def number(self, s, real):
        """int(s) or float(s)"""
        if not self.sym(s):
            return builtins.float(s) if real else builtins.int(s)
        s = self.m_strip(s)
        i, sign = 0, 1
        if i < len(s) and self.eq(s[i], "-"):
            i, sign = i + 1, -1
        elif i < len(s) and self.eq(s[i], "+"):
            i += 1
        val, nd, point, scale = 0, 0, False, 1
        while i < len(s):
            c = self.code(s[i])
            if self.S.And(48 <= c, c <= 57):
                val, nd = val * 10 + (c - 48), nd + 1
                if point:
                    scale *= 10
            elif real and not point and c == 46:
                point = True
            elif real and nd and self.isin(s[i], "eE") and i + 1 < len(s):
                e = self.number(s[i + 1 :], False)
                e = e if isinstance(e, builtins.int) else core.ENG.concretize_int(e)
                val = val * 10**e if e >= 0 else val / 10**-e
                break
            elif nd and self.eq(s[i], "_") and i + 1 < len(s) and self.S.And(48 <= self.code(s[i + 1]), self.code(s[i + 1]) <= 57):
                pass
            else:
                raise ValueError("not a number")
            i += 1
        if nd == 0:
            raise ValueError("not a number")
        return sign * val / scale if real else sign * val

    # ---- methods of str

    def m_strip(self, s, chars=" \t\n\r\x0b\x0c"):
        return self.m_lstrip(self.m_rstrip(s, chars), chars)

    def m_lstrip(self, s, chars=" \t\n\r\x0b\x0c"):
        while s and self.isin(s[0], chars):
            s = s[1:]
        return s

    def m_rstrip(self, s, chars=" \t\n\r\x0b\x0c"):
        while s and self.isin(s[-1], chars):
            s = s[:-1]
        return s

    def m_lower(self, s):
        out = ""
        for ch in s:
            c = self.code(ch)
            out += self.char(c + 32) if self.S.And(65 <= c, c <= 90) else ch
        return out

    def m_upper(self, s):
        out = ""
        for ch in s:
            c = self.code(ch)
            out += self.char(c - 32) if self.S.And(97 <= c, c <= 122) else ch
        return out

    m_casefold = m_lower

    def m_replace(self, s, a, b, n=-1):
        out, i = "", 0
        while i < len(s):
            if a and n != 0 and i + len(a) <= len(s) and self.eq(s[i : i + len(a)], a):
                out, i, n = out + b, i + len(a), n - 1
            else:
                out, i = out + s[i], i + 1
        return out

    def m_find(self, s, a, start=0):
        for i in range(start, len(s) - len(a) + 1):
            if self.eq(s[i : i + len(a)], a):
                return i
        return -1

    def m_index(self, s, a, start=0):
        r = self.m_find(s, a, start)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def m_startswith(self, s, a):
        return any(bool(self.eq(s[: len(x)], x)) for x in (a if isinstance(a, tuple) else (a,)))

    def m_endswith(self, s, a):
        return any(bool(self.eq(s[len(s) - len(x) :], x)) for x in (a if isinstance(a, tuple) else (a,)) if len(x) <= len(s))

    def m_count(self, s, a):
        return sum(1 for i in range(len(s)) if self.eq(s[i : i + len(a)], a))

    def m_isspace(self, s):
        return bool(s) and all(bool(self.isin(c, " \t\n\r\x0b\x0c")) for c in s)

    def m_split(self, s, sep=None, n=-1):
        out, cur = [], ""
        for ch in s:
            if n != 0 and (self.isin(ch, " \t\n\r\x0b\x0c") if sep is None else self.eq(ch, sep)):
                if sep is not None or cur:
                    out.append(cur)
                    n -= 1
                cur = ""
            else:
                cur += ch
        return out + [cur] if sep is not None or cur else out

    def m_partition(self, s, sep):
        i = self.m_find(s, sep)
        return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep) :])

    def m_join(self, s, it):
        return s.join(it)

    def m_splitlines(self, s, keepends=False):
        return s.splitlines(keepends)

    def m_append(self, s, *a):
        raise AttributeError("append")


class _T(ast.NodeTransformer):
    OPS = {ast.Eq: "_eq", ast.NotEq: "_ne", ast.In: "_in", ast.NotIn: "_notin"}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS:
            return ast.copy_location(ast.Call(ast.Name(self.OPS[type(n.ops[0])], ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            return n
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("_get", ast.Load()), [n.value, n.slice], []), n)
        if isinstance(n.value, (ast.Name, ast.Attribute)):
            k = ast.Call(ast.Name("_key", ast.Load()), [copy.deepcopy(n.value), n.slice], [])
            k.args[0].ctx = ast.Load()
            n.slice = ast.copy_location(k, n.slice)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return n
            return ast.copy_location(ast.Call(ast.Name("_call", ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n


def transformed(mod, name, text):
    """the class or function of this name, from the present source of mod, and the functions of mod it uses, for symbolic text"""
    ns = dict(mod.__dict__)
    ns.update(_eq=text.eq, _ne=text.ne, _in=text.isin, _notin=text.notin, _call=text.call, _key=text.key, _get=text.get)
    ns["int"] = lambda x=0, *a: text.number(x, False) if isinstance(x, str) else mod.int(x, *a)
    ns["float"] = lambda x=0.0: text.number(x, True) if isinstance(x, str) else mod.float(x)
    done = set()

    def load(name):
        done.add(name)
        obj = mod.__dict__[name]
        code = _code(obj)
        tree, bc, used = code
        for u in used:
            o = mod.__dict__.get(u)
            if u not in done and (inspect.isfunction(o) or inspect.isclass(o)) and getattr(o, "__module__", None) == mod.__name__ and u not in ("int", "float"):
                load(u)
        exec(bc, ns)

    load(name)
    return ns[name]


_cache = {}


def _code(obj):
    if obj not in _cache:
        tree = ast.parse(textwrap.dedent(inspect.getsource(obj)))
        used = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
        tree = ast.fix_missing_locations(_T().visit(tree))
        _cache[obj] = (tree, compile(tree, inspect.getsourcefile(obj), "exec"), used)
    return _cache[obj]
