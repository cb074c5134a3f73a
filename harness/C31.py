"""C31: text input: the items of a text with symbolic characters, against a scanner written from the documentation"""
from .common import *
from . import common as C

BOUNDS = "texts of one line of 6 (thorough: 7) or up to three lines of together 5 (thorough: 6) characters, every character symbolic (any code point below 0xD800 but the end of line characters), with LF or CRLF line ends, from a string or from a file, last line with or without line end; numbers of up to 4 characters, each symbolic out of digits, sign, point and comma; boolean items of up to 3 arbitrary printable ASCII characters, and 5 letters for the word false in any case"
OUTSIDE = "quotes and braces that are not closed on the same line; carriage returns within a line; numbers with an exponent, underscores, or not ASCII; longer texts"
QUOTES = (34, 39)


def items(S, lines):
    """the items, as lists of codes, of lines (lists of codes); the path is dropped if quotes or braces are not closed"""
    out = []
    for codes in lines:
        i, n = 0, len(codes)
        item = None
        while i < n:
            c = codes[i]
            if S.Or(c == 34, c == 39):
                if item is not None:
                    out.append(item)
                    item = None
                q = 34 if c == 34 else 39
                j = i + 1
                while j < n and codes[j] != q:
                    j += 1
                S.assume(j < n)
                out.append(codes[i + 1 : j])
                i = j + 1
                S.reach("quoted")
            elif c == 123:
                if item is not None:
                    out.append(item)
                    item = None
                j = i + 1
                while j < n and codes[j] != 125:
                    j += 1
                S.assume(j < n)
                i = j + 1
                S.reach("braces")
            elif c == 35:
                S.reach("comment")
                break
            elif S.Or(c == 32, c == 9):
                if item is not None:
                    out.append(item)
                    item = None
                i += 1
            else:
                item = (item or []) + [c]
                i += 1
        if item is not None:
            out.append(item)
    return out


class Reader:
    """an ItemFile on a text of (symbolic) codes"""

    def __init__(self, S, lines, eol=0, last=True, file=False):
        self.S = S
        nl = ("\n", "\r\n")[eol]
        if S.symbolic:
            from symex import text

            self.text = text.Text(S)
            cls = text.transformed(C.mod, "ItemFile", self.text)
            ch = self.text.char
            self.code = self.text.code
        else:
            cls = C.sim.ItemFile
            ch, self.code = chr, ord
        s = nl.join("".join(ch(c) for c in line) for line in lines) + (nl if last else "")
        self.tmp = None
        if file:
            import tempfile, os

            fd, self.tmp = tempfile.mkstemp(suffix=".txt")
            with open(fd, "w", encoding="utf-8", newline="") as f:
                f.write(s)
            import builtins

            C.mod.open = lambda f, m="r", *a, **k: builtins.open(f, m, *a, **dict(k, encoding="utf-8"))
            if S.symbolic:
                self.text_open = cls._nextread.__globals__ if hasattr(cls, "_nextread") else cls.__init__.__globals__
                self.text_open["open"] = C.mod.open
            try:
                self.f = cls(self.tmp)
            finally:
                del C.mod.open
        else:
            self.f = cls(s)

    def close(self):
        if self.tmp:
            import os

            self.f.close()
            os.unlink(self.tmp)

    def all(self):
        out = []
        for _ in range(50):
            try:
                out.append([self.code(c) for c in self.f.read_item()])
            except EOFError:
                return out
        return out


def free(S, n, k=""):
    cs = [S.int(f"c{k}{i}", 9, 0xD7FF) for i in range(n)]
    for c in cs:
        S.assume(S.Or(c == 9, c >= 32))
    return cs


def same(S, got, want, msg):
    S.check(len(got) == len(want), f"{msg}: number of items")
    for g, w in zip(got, want):
        S.check(len(g) == len(w), f"{msg}: length of an item")
        for a, b in zip(g, w):
            S.check(a == b, f"{msg}: characters of an item")


def read(S, sizes, eol=0, last=True, file=False):
    lines = [free(S, n, f"{i}_") for i, n in enumerate(sizes)]
    want = items(S, lines)
    r = Reader(S, lines, eol, last or (len(lines) == 1 and not file), file)
    try:
        got = r.all()
        for _ in range(2):
            try:
                r.f.read_item()
                S.check(False, "at the end: EOFError, and again")
            except EOFError:
                pass
    finally:
        r.close()
    same(S, got, want, "read_item")
    S.log(len(want))
    if len(want) > 1:
        S.reach("items")


def number(S, n, kind):
    """one number between other items"""
    cs = []
    for i in range(n):
        c = S.int(f"d{i}", 43, 57)
        S.assume(c != 47)
        cs.append(c)
    r = Reader(S, [[97, 32] + cs + [9, 98]])
    S.check([r.code(c) for c in r.f.read_item()] == [97], "the item before")
    val, nd, frac, sign, bad = 0, 0, None, 1, False
    for i, c in enumerate(cs):
        if c >= 48:
            val, nd = val * 10 + (c - 48), nd + 1
            if frac is not None:
                frac *= 10
        elif S.And(i == 0, S.Or(c == 43, c == 45)):
            sign = 1 if c == 43 else -1
        elif S.And(frac is None, kind == "float", S.Or(c == 44, c == 46)):
            frac = 1
        else:
            bad = True
            break
    if bad or nd == 0:
        try:
            (r.f.read_item_float if kind == "float" else r.f.read_item_int)()
            S.check(False, "not a number: ValueError")
        except ValueError:
            S.reach("not a number")
    else:
        got = (r.f.read_item_float if kind == "float" else r.f.read_item_int)()
        S.close(got * (frac or 1), sign * val, "the value of the number")
        S.reach("number")
    S.check([r.code(c) for c in r.f.read_item()] == [98], "the item after")


def boolean(S, n, quoted=False, letters=False):
    cs = [S.int(f"d{i}", 65 if letters else 32 if quoted else 33, 122 if letters else 126) for i in range(n)]
    for c in cs:
        for x in (34,) if quoted else (34, 39, 35, 123, 125):
            S.assume(c != x)
        S.assume(c != 95)
    r = Reader(S, [[49, 32] + ([34] + cs + [34] if quoted else cs) + [32, 48]])
    S.check(r.f.read_item_bool() is True, "1 is true")
    got = r.f.read_item_bool()
    word = list(cs)
    while word and word[0] == 32:
        word = word[1:]
    while word and word[-1] == 32:
        word = word[:-1]
    if not word:
        S.check(got is False, "the null string is false")
        S.reach("null")
    elif len(word) == 5 and all(bool(S.Or(c == ord(u), c == ord(u) - 32)) for c, u in zip(word, "false")):
        S.check(got is False, "false (in any case) is false")
        S.reach("false")
    elif zero(S, word):
        S.check(got is False, "zero is false")
        S.reach("zero")
    else:
        S.check(got is True, "anything else is true")
        S.reach("true")
    S.check(r.f.read_item_bool() is False, "0 is false")


def zero(S, w):
    """a number with value 0"""
    i = 0
    if S.Or(w[0] == 43, w[0] == 45):
        i = 1
    nd, point = 0, False
    while i < len(w):
        if w[i] == 48:
            nd += 1
        elif not point and w[i] == 46:
            point = True
        elif nd and S.Or(w[i] == 101, w[i] == 69):
            e = w[i + 1 :]
            if e and S.Or(e[0] == 43, e[0] == 45):
                e = e[1:]
            return bool(e) and all(bool(S.And(48 <= c, c <= 57)) for c in e)
        else:
            return False
        i += 1
    return nd > 0


def mixed(S):
    """items read in several ways follow each other; context manager"""
    v = S.int("v", 0, 9)
    w = S.int("w", 0, 9)
    r = Reader(S, [[48 + v, 32, 123, 120, 125, 48 + w, 35, 120], [], [34, 32, 34, 39, 39, 102]])
    with r.f as f:
        S.check(f.read_item_int() == v, "int")
        S.check(f.read_item_bool() is (True if w != 0 else False), "bool")
        S.check([r.code(c) for c in f.read_item()] == [32], "quoted blank")
        S.check(f.read_item_bool() is False, "null string")
        S.check([r.code(c) for c in f.read_item()] == [102], "after a quoted item")
        for m in ("read_item", "read_item_int", "read_item_float", "read_item_bool"):
            try:
                getattr(f, m)()
                S.check(False, "EOFError at the end")
            except EOFError:
                pass
    S.reach("mixed")


HARNESSES = [
    H(read, [dict(sizes=[6]), dict(sizes=[3, 2]), dict(sizes=[1, 0, 2], eol=1), dict(sizes=[1, 2], last=False), dict(sizes=[2, 1], file=True), dict(sizes=[1, 2], file=True, last=False, eol=1)],
      [dict(sizes=[7]), dict(sizes=[3, 3]), dict(sizes=[1, 2, 3], eol=1), dict(sizes=[1, 3], last=False), dict(sizes=[2, 2], file=True), dict(sizes=[1, 2], file=True, last=False, eol=1)], expect=["quoted", "comment", "items"]),
    H(number, grid(n=[1, 2, 3], kind=["int", "float"]), grid(n=[1, 2, 3, 4], kind=["int", "float"]), expect=["number", "not a number"]),
    H(boolean, [dict(n=0, quoted=True), dict(n=1), dict(n=2, quoted=True), dict(n=3), dict(n=5, letters=True)], None, expect=[]),
    H(mixed, [{}], None, expect=["mixed"]),
]
