"""Shared queries used by the property rules."""
from __future__ import annotations

from ..harness import *  # noqa
from ..values import *  # noqa
from ..program import AnchorError, ClassInfo, FuncInfo
from ..interp import Dead

WRAP = {"int", "float", "bool", "str", "builtins.int", "deepcopy", "copy", "fspath", "os.fspath", "pathlib.Path", "jax.numpy.asarray", "numpy.asarray", "jax.numpy.array", "numpy.array", "list", "tuple", "os.path.abspath"}


def strip(v):
    """remove value-preserving wrappers."""
    while True:
        if v.k == "app" and isinstance(v.a[0], str) and v.a[0] in WRAP and len(v.a[1]) >= 1:
            v = v.a[1][0]
            continue
        return v


def leaves(v):
    out = []
    for m in members(v):
        m = strip(m)
        if m.k == "phi":
            out.extend(leaves(m))
        elif m.k == "app" and m.a[0] in ("or", "oneof"):
            out.extend(leaves(m.a[1][0]))
        else:
            out.append(m)
    return out


def is_sym(v, label):
    v = strip(v)
    return v.k == "sym" and v.a[0] == label


def passes(v, label):
    """every alternative of v is the symbol (possibly re-wrapped)."""
    ls = [l for l in leaves(v) if l is not UNDEF]
    return bool(ls) and all(is_sym(l, label) for l in ls)


def carries(v, label):
    """every alternative of v depends on the symbol."""
    ls = [l for l in leaves(v) if l is not UNDEF]
    return bool(ls) and all(label in syms(l) for l in ls)


def calls(s, qual_suffix, kind="call"):
    return [e for e in s.I.events if e.kind == kind and (e.name == qual_suffix or e.name.endswith("." + qual_suffix))]


def ext_calls(s, name):
    return [e for e in s.I.events if e.kind == "ext" and (e.name == name or e.name.endswith("." + name))]


def methods(s, name):
    return [e for e in s.I.events if e.kind == "method" and e.name == name]


def arg(e, name, pos=None):
    if e.bound is not None and name in e.bound:
        return e.bound[name]
    d = dict(e.kw)
    if name in d:
        return d[name]
    if pos is not None and pos < len(e.args):
        return e.args[pos]
    return None


def where(e):
    return f"{e.site[0]}:{e.site[2]} ({e.site[1]}) via {e.chain()}"


def sub_of(P, cls, base):
    return P.cls(base) in cls.mro


class Watch:
    """records (event, extra) for calls whose callee satisfies pred, with
    argument snapshots taken at call time."""

    def __init__(self, s, pred, depth=6, kinds=("call",)):
        self.hits = []
        self.s = s
        self.pred = pred
        self.depth = depth
        self.kinds = kinds
        s.I.hooks.append(self)

    def __call__(self, e, st):
        if e.kind in self.kinds and self.pred(e):
            from ..models import reify

            I = self.s.I
            snap = {}
            if e.bound is not None:
                snap = {k: reify(I, v, st, self.depth) for k, v in e.bound.items()}
            pos = [reify(I, v, st, self.depth) for v in e.args]
            kw = {k: reify(I, v, st, self.depth) for k, v in e.kw}
            tgt = reify(I, e.target, st, self.depth) if isinstance(e.target, V) else None
            self.hits.append(Hit(e, snap, pos, kw, tgt))


class Hit:
    def __init__(self, e, bound, pos, kw, target):
        self.e, self.bound, self.pos, self.kw, self.target = e, bound, pos, kw, target

    def __repr__(self):
        return repr(self.e)


def rec_field(v, name):
    """field of a reified record (phi of records -> phi of fields)."""
    out = []
    for m in members(v):
        if m.k == "rec":
            d = dict(m.a[1])
            out.append(d.get(name, UNDEF))
        elif m.k == "rmap":
            d = {k.a[0]: x for k, x in m.a[0] if k.k == "const"}
            out.append(d.get(name, UNDEF))
        else:
            out.append(mk("attr", m, name))
    out = [o for o in out if o is not UNDEF] or [UNDEF]
    return phi(out)


def rec_class(v):
    return {m.a[0] for m in members(v) if m.k == "rec"}


def rlist_elems(v):
    out = []
    for m in members(v):
        if m.k in ("rlist", "tuple"):
            out.extend(m.a[0])
        elif m.k == "rsum":
            out.extend(members(m.a[0]))
        else:
            out.append(m)
    return out


def deep_syms(s, v, limit=400):
    """symbols a value depends on, looking through objects, bound methods and variables captured by closures."""
    import ast as _ast
    from ..models import reify

    I, st = s.I, s.st
    out, seen = set(), set()
    work = [v]
    while work and len(seen) < limit:
        x = reify(I, work.pop(), st, 6)
        if x in seen:
            continue
        seen.add(x)
        for y in sub(x):
            if y.k == "sym":
                out.add(y.a[0])
            elif y.k == "obj" and y not in seen:
                work.append(y)
            elif y.k == "func" and y not in seen:
                seen.add(y)
                f, fr, _ = I.funcs.get(y, (None, None, None))
                if f is None:
                    continue
                names = {n.id for n in _ast.walk(f.node) if isinstance(n, _ast.Name)}
                while fr is not None:
                    for n in sorted(names):
                        w = st.get(("v", fr.fid, n))
                        if w is not None and w is not UNDEF:
                            work.append(w)
                    fr = fr.parent
    return out
