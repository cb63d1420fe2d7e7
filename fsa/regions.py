"""Sizes as linear forms: decide comparisons of batch sizes, offsets and lengths within a region of orderings.

A region gives every size as a sum of positive unknowns (a linear form with non-negative coefficients), so that the order of all cut points is fixed; a comparison of
two linear forms is decided when all coefficients of their difference have one sign."""
from .values import *


class Lin:
    __slots__ = ("c", "t")

    def __init__(self, t=None, c=0):
        self.t = {k: x for k, x in (t or {}).items() if x}
        self.c = c

    def __add__(self, o):
        t = dict(self.t)
        for k, x in o.t.items():
            t[k] = t.get(k, 0) + x
        return Lin(t, self.c + o.c)

    def __neg__(self):
        return Lin({k: -x for k, x in self.t.items()}, -self.c)

    def __sub__(self, o):
        return self + (-o)

    def __eq__(self, o):
        return self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((frozenset(self.t.items()), self.c))

    def sign(self):
        """'+', '-', '0', '+0', '-0' or None, with every unknown a positive integer."""
        lo = self.c + sum(x for x in self.t.values() if x > 0) if all(x > 0 for x in self.t.values()) else None
        hi = self.c + sum(x for x in self.t.values() if x < 0) if all(x < 0 for x in self.t.values()) else None
        if not self.t:
            return "0" if self.c == 0 else "+" if self.c > 0 else "-"
        if lo is not None:
            return "+" if lo > 0 else "+0" if lo == 0 else None
        if hi is not None:
            return "-" if hi < 0 else "-0" if hi == 0 else None
        return None

    def __repr__(self):
        return " + ".join([f"{x if x != 1 else ''}{k}" for k, x in sorted(self.t.items())] + ([str(self.c)] if self.c or not self.t else []))


def num(n):
    return Lin({}, n)


def var(n):
    return Lin({n: 1})


OPS = {"Lt": lambda s: True if s == "-" else False if s in ("0", "+", "+0") else None,
       "LtE": lambda s: True if s in ("-", "0", "-0") else False if s == "+" else None,
       "Gt": lambda s: True if s == "+" else False if s in ("0", "-", "-0") else None,
       "GtE": lambda s: True if s in ("+", "0", "+0") else False if s == "-" else None,
       "Eq": lambda s: True if s == "0" else False if s in ("+", "-") else None,
       "NotEq": lambda s: False if s == "0" else True if s in ("+", "-") else None}


class Region:
    """values: symbol -> Lin; arrays: symbol -> (stream, start, stop); mods: (Lin, Lin) -> (quotient, remainder)."""

    def __init__(self, values, arrays, mods=None):
        self.values, self.arrays, self.mods = values, arrays, mods or {}

    def lin(self, v):
        if v in self.values:
            return self.values[v]
        if v.k == "const" and isinstance(v.a[0], (int, bool)):
            return num(int(v.a[0]))
        if v.k == "phi":
            ls = {self.lin(m) for m in v.a[0]}
            return ls.pop() if len(ls) == 1 else None
        if v.k == "item" and v.a[0].k == "attr" and v.a[0].a[1] == "shape" and v.a[1].k == "const" and v.a[1].a[0] == 0:
            a = self.arr(v.a[0].a[0])
            return a[2] - a[1] if a else None
        if v.k == "attr" and v.a[1] == "size":
            return None
        if v.k != "app":
            return None
        op, a = v.a[0], v.a[1]
        if op in ("len",) and a:
            x = self.arr(a[0])
            return x[2] - x[1] if x else None
        if op in ("Add", "Sub") and len(a) == 2:
            x, y = self.lin(a[0]), self.lin(a[1])
            if x is None or y is None:
                return None
            return x + y if op == "Add" else x - y
        if op in ("neg", "USub") and len(a) == 1:
            x = self.lin(a[0])
            return -x if x is not None else None
        if op == "int" and len(a) == 1:
            return self.lin(a[0])
        if op in ("Mod", "FloorDiv", "Mult") and len(a) == 2:
            x, y = self.lin(a[0]), self.lin(a[1])
            if x is None or y is None:
                return None
            if op == "Mult":
                for p, q in ((x, y), (y, x)):
                    if not p.t:
                        return Lin({k: c * p.c for k, c in q.t.items()}, q.c * p.c)
                    m = self.mods.get(("*", p, q))
                    if m is not None:
                        return m
                return None
            m = self.mods.get((x, y))
            return None if m is None else m[1] if op == "Mod" else m[0]
        if op in ("min", "max", "numpy.minimum", "numpy.maximum") and len(a) == 2:
            x, y = self.lin(a[0]), self.lin(a[1])
            if x is None or y is None:
                return None
            s = (x - y).sign()
            if s is None:
                return None
            lower = s in ("-", "0", "-0")
            return (x if lower else y) if op.endswith(("min", "minimum")) else (y if lower else x)
        return None

    def arr(self, v):
        if v in self.arrays:
            return self.arrays[v]
        if v.k == "phi":
            xs = {self.arr(m) for m in v.a[0]}
            return xs.pop() if len(xs) == 1 else None
        if v.k == "item":
            b = self.arr(v.a[0])
            i = v.a[1]
            if b is None or i.k != "app" or i.a[0] != "slice":
                return None
            lo, hi, step = i.a[1]
            if step is not NONE and not (step.k == "const" and step.a[0] == 1):
                return None
            n = b[2] - b[1]
            out = []
            for e, d in ((lo, num(0)), (hi, n)):
                if e is NONE:
                    out.append(d)
                    continue
                x = self.lin(e)
                if x is None:
                    return None
                s = x.sign()
                if s in ("-", "-0") and s == "-":
                    x = n + x
                    s = x.sign()
                    if s in ("-", "-0"):
                        x = num(0)
                        s = "0"
                if s not in ("+", "0", "+0"):
                    return None
                t = (x - n).sign()
                if t in ("+", "+0"):
                    x = n
                elif t not in ("-", "0", "-0"):
                    return None
                out.append(x)
            t = (out[1] - out[0]).sign()
            if t in ("-", "-0"):
                out[1] = out[0]
            elif t is None:
                return None
            return (b[0], b[1] + out[0], b[1] + out[1])
        return None

    def decide(self, v):
        if v.k == "app" and v.a[0] in OPS and len(v.a[1]) == 2:
            x, y = self.lin(v.a[1][0]), self.lin(v.a[1][1])
            if x is None or y is None:
                return None
            return OPS[v.a[0]]((x - y).sign())
        x = self.lin(v) if v.k in ("item", "app", "sym") else None
        if x is not None:
            s = x.sign()
            return False if s == "0" else True if s in ("+", "-") else None
        return None
