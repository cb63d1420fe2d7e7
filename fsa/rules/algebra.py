"""Normal forms of arithmetic terms: sums of monomials over atoms with rational coefficients and exponents.

Two expressions that differ only by the usual laws of arithmetic, exp/log/sqrt identities and linearity of sums get the same normal form."""
import cmath
import hashlib
import math
from fractions import Fraction
from itertools import product

from ..values import *

LIM = 400


class Unknown(Exception):
    pass


def num(x):
    try:
        return Fraction(str(x))
    except Exception:
        return None


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        r[m] = r.get(m, 0) + c * k
        if r[m] == 0:
            del r[m]
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=repr))


def pmul(p, q):
    if len(p) * len(q) > LIM:
        raise Unknown("expression too large")
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + a * b
            if r[k] == 0:
                del r[k]
    return r


def key(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def const_p(c):
    return {(): Fraction(c)} if c else {}


def atom(a, e=1):
    return {((a, Fraction(e)),): Fraction(1)}


def is_const(p):
    return not p or list(p) == [()]


def cval(p):
    return p.get((), Fraction(0))


def ppow(p, e):
    e = Fraction(e)
    if is_const(p):
        c = cval(p)
        if e.denominator == 1 and (c != 0 or e > 0):
            return const_p(c ** int(e))
        if c == 1:
            return const_p(1)
        if c > 0:
            r = root(c, e)
            return r if r is not None else atom(("num", c), e)
    if e == 1:
        return p
    if e.denominator == 1 and 0 < e <= 6:
        r = const_p(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        r = {tuple((a, x * e) for a, x in m): Fraction(1)}
        return pmul(r, ppow(const_p(c), e)) if c != 1 else r
    # factor out a common leading coefficient so that -(a+b) and (a+b) agree up to sign
    ms = sorted(p.items(), key=repr)
    c = abs(ms[0][1])
    q = {m: x / c for m, x in p.items()}
    r = atom(("poly", key(q)), e)
    return pmul(r, ppow(const_p(c), e)) if c != 1 else r


def root(c, e):
    return None


def pexp(p):
    r = const_p(1)
    for m, c in p.items():
        if m == ():
            r = pmul(r, atom(("E", ()), c))
        elif len(m) == 1 and m[0][0][0] == "log" and m[0][1] == 1:
            r = pmul(r, ppow(dict(m[0][0][1]), c))
        else:
            r = pmul(r, atom(("E", m), c))
    return r


def plog(p):
    if is_const(p) and cval(p) == 1:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = {} if c == 1 else logc(c)
            for a, e in m:
                if a[0] == "E":
                    r = padd(r, {a[1]: Fraction(1)}, e)
                else:
                    r = padd(r, atom(("log", key(atom(a)))), e)
            return r
    return atom(("log", key(p)))


def logc(c):
    r = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while n > 1:
            while n % d == 0:
                r = padd(r, atom(("log", key(const_p(d)))), s)
                n //= d
            d += 1 if d == 2 else 2
            if d * d > n and n > 1:
                r = padd(r, atom(("log", key(const_p(n)))), s)
                break
    return r


BIN = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "^"}
EXT_BIN = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "^", "float_power": "^"}
LIBS = ("jax.numpy.", "numpy.", "jax.lax.", "math.")
TRANSPARENT = {"asarray", "array", "float32", "float64", "float", "nan_to_num_", "stop_gradient_", "copy"}


class Norm:
    """vec: predicate on values telling which atoms range over the summed axis (others are constants of a sum);
    leaf: optional hook value -> atom or None, tried first."""

    def __init__(self, I=None, st=None, vec=None, leaf=None, size=None, full_sums=True):
        self.I, self.st, self.vec, self.leaf, self.size, self.full_sums = I, st, vec or (lambda a: True), leaf, size, full_sums
        self.unknown = set()
        self.cache = {}
        self.vals = {}

    def atom(self, v):
        k = ("v", v.id) if hasattr(v, "id") else ("v", repr(v))
        self.vals[k] = v
        return k

    def norm(self, v):
        if v in self.cache:
            return self.cache[v]
        r = self._norm(v)
        self.cache[v] = r
        return r

    def fn(self, v):
        h = v.a[0]
        if isinstance(h, str):
            return h
        if isinstance(h, V) and h.k == "ext":
            return h.a[0]
        if isinstance(h, V) and h.k == "attr":
            return "." + str(h.a[1])
        return None

    def _norm(self, v):
        if self.leaf is not None:
            x = self.leaf(v, self)
            if x is not None:
                return x if isinstance(x, dict) else atom(x)
        k = v.k
        if k == "const":
            if isinstance(v.a[0], bool) or v.a[0] is None or isinstance(v.a[0], str):
                raise Unknown(f"constant {v.a[0]!r} in arithmetic")
            c = num(v.a[0])
            if c is None:
                raise Unknown(f"constant {v.a[0]!r}")
            return const_p(c)
        if k == "phi":
            raise Unknown("alternative values")
        if k == "ext":
            n = v.a[0].rsplit(".", 1)[-1]
            if n in ("pi", "e"):
                return atom(("const", n))
            return atom(self.atom(v))
        if k != "app":
            return atom(self.atom(v))
        n = self.fn(v)
        args, kw = list(v.a[1]), dict(v.a[2]) if len(v.a) > 2 else {}
        if n in BIN:
            return self.binop(BIN[n], args[0], args[1])
        if n in ("neg", "USub", "negative"):
            return padd({}, self.norm(args[0]), -1)
        if n is None:
            return atom(self.atom(v))
        short = n.rsplit(".", 1)[-1]
        lib = n.startswith(LIBS)
        if n.startswith("."):
            args = args if not isinstance(v.a[0], V) else [v.a[0].a[0]] + args
            lib = True
            if short not in ("sum", "mean", "dot", "reshape", "astype", "squeeze", "ravel", "flatten"):
                return atom(self.atom(v))
        if lib:
            if short in EXT_BIN and len(args) == 2:
                return self.binop(EXT_BIN[short], args[0], args[1])
            if short == "negative":
                return padd({}, self.norm(args[0]), -1)
            if short == "exp":
                return pexp(self.norm(args[0]))
            if short == "log":
                return plog(self.norm(args[0]))
            if short == "log1p":
                return plog(padd(self.norm(args[0]), const_p(1)))
            if short == "expm1":
                return padd(pexp(self.norm(args[0])), const_p(-1))
            if short == "sqrt":
                return ppow(self.norm(args[0]), Fraction(1, 2))
            if short == "rsqrt":
                return ppow(self.norm(args[0]), Fraction(-1, 2))
            if short == "square":
                return ppow(self.norm(args[0]), 2)
            if short == "reciprocal":
                return ppow(self.norm(args[0]), -1)
            if short in ("dot", "vdot", "inner") and len(args) == 2 and self.full_sums:
                return self.sum(pmul(self.norm(args[0]), self.norm(args[1])))
            if short in TRANSPARENT and args:
                return self.norm(args[0])
            if short in ("sum", "mean") and args and self.full_sums and not kw and len(args) == 1:
                p = self.norm(args[0])
                s = self.sum(p)
                return s if short == "sum" else pmul(s, atom(("N",), -1))
        if n in ("builtins.float", "builtins.sum"):
            return self.norm(args[0])
        if n == "MatMult" and self.full_sums:
            return self.sum(pmul(self.norm(args[0]), self.norm(args[1])))
        if n == "builtins.len" or short == "size":
            return atom(("N",)) if self.size is None or self.size(args[0]) else atom(self.atom(v))
        return atom(self.atom(v))

    def binop(self, op, a, b):
        if op == "^":
            e = self.norm(b)
            if is_const(e):
                return ppow(self.norm(a), cval(e))
            return atom(("pow", key(self.norm(a)), key(e)))
        p, q = self.norm(a), self.norm(b)
        if op == "+":
            return padd(p, q)
        if op == "-":
            return padd(p, q, -1)
        if op == "*":
            return pmul(p, q)
        return pmul(p, ppow(q, -1))

    def is_vec(self, a):
        """does the atom vary along the summed axis?"""
        if a[0] == "v":
            return self.vec(self.vals[a])
        if a[0] in ("const", "N", "S", "num"):
            return False
        if a[0] == "E":
            return any(self.is_vec(x) for x, _ in a[1])
        if a[0] in ("log", "poly"):
            return any(self.is_vec(x) for m, _ in a[1] for x, _ in m)
        if a[0] == "pow":
            return any(self.is_vec(x) for q in a[1:] for m, _ in q for x, _ in m)
        return self.vec(a)

    def sum(self, p):
        r = {}
        for m, c in p.items():
            vec = tuple((a, e) for a, e in m if self.is_vec(a))
            sc = {tuple((a, e) for a, e in m if not self.is_vec(a)): c}
            r = padd(r, pmul(sc, atom(("S", vec)) if vec else atom(("N",))))
        return r


def equal(p, q):
    """same normal form, or the same function of the atoms (identity test of the two terms at several points)."""
    if key(p) == key(q):
        return True
    try:
        for seed in ("a", "b", "c", "d"):
            x, y = value(p, seed), value(q, seed)
            if abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
                return False
        return True
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        return False


def value(p, seed):
    return sum(complex(c) * _mono(m, seed) for m, c in p.items())


def _mono(m, seed):
    r = complex(1)
    for a, e in m:
        r *= _val(a, seed) ** float(e)
    return r


def _point(a, seed):
    h = int(hashlib.sha256((seed + repr(a)).encode()).hexdigest()[:12], 16) / 16.0**12
    return 0.25 + 0.7 * h


def _val(a, seed):
    if a[0] == "num":
        return complex(a[1])
    if a == ("const", "pi"):
        return complex(math.pi)
    if a == ("const", "e"):
        return complex(math.e)
    if a[0] == "E":
        return cmath.exp(_mono(a[1], seed))
    if a[0] == "log":
        return cmath.log(value(dict(a[1]), seed))
    if a[0] == "poly":
        return value(dict(a[1]), seed)
    if a[0] == "pow":
        return value(dict(a[1]), seed) ** value(dict(a[2]), seed)
    return complex(_point(a, seed))


def show(p, N=None):
    def sa(a):
        if a[0] == "v":
            return str(N.vals[a])[:60] if N is not None and a in N.vals else "?"
        if a[0] == "S":
            return "sum(" + "*".join(f"{sa(x)}^{e}" for x, e in a[1]) + ")"
        if a[0] == "E":
            return "exp(" + "*".join(sa(x) for x, e in a[1]) + ")"
        if a[0] in ("log", "poly"):
            return a[0] + "(" + show(dict(a[1]), N) + ")"
        return "_".join(str(x)[:40] for x in a)

    return " + ".join(f"{c}" + "".join(f"*{sa(a)}" + (f"^{e}" if e != 1 else "") for a, e in m) for m, c in sorted(p.items(), key=repr))[:400] or "0"


DECIDED = set("maximum minimum abs absolute clip tanh where sign floor ceil round sum mean var std prod max min amax amin logsumexp softmax log_softmax sigmoid square sin cos argmax argmin cumsum".split())


def atoms_of(p, acc=None):
    acc = set() if acc is None else acc

    def walk(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == "v":
                acc.add(x)
            for y in x:
                walk(y)

    for m in p:
        walk(m)
    return acc


def opaque(p, exps, N):
    """names of library computations in the term whose arithmetic meaning is not modelled (and which the expected term does not contain)."""
    known = set()
    for q in exps:
        known |= atoms_of(q)
    r = []
    for a in atoms_of(p) - known:
        v = dict.get(N.vals, a)
        if v is None or v.k != "app":
            continue
        todo = [v]
        while todo:
            y = todo.pop()
            if y.k != "app":
                continue
            h = str(y.a[0] if isinstance(y.a[0], str) else N.fn(y))
            if h[:1].isupper() and "." in h or h.isupper():
                continue  # a named placeholder
            if h.startswith(("jax.", "numpy.", "scipy.", "optax.", "flax.", ".")) and h.rsplit(".", 1)[-1] not in DECIDED:
                r.append(h)
            todo += [x for x in y.a[1]]
    return r


def judge(ctx, k, where, p, exps, N, what):
    if any(equal(p, q) for q in exps):
        ctx.ob(k, True, where, "")
        return
    o = opaque(p, exps, N)
    if o:
        ctx.undec(k, f"the term contains {o[0]}, whose meaning is not modelled")
        return
    ctx.ob(k, False, where, f"{what}: found {show(p, N)}, expected {show(exps[0], N)}")
