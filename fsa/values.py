"""Abstract values: hash-consed terms of a value-flow graph."""
from __future__ import annotations

_intern: dict = {}
_count = 0


class V:
    """One abstract value.  ``k`` is the kind, ``a`` the operands."""

    __slots__ = ("k", "a", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # identity equality (terms are interned)


def mk(k, *a) -> V:
    global _count
    key = (k,) + tuple((type(x).__name__, x) if not isinstance(x, V) else x for x in a)
    v = _intern.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        _count += 1
        v.id = _count
        v._h = v.id * 2654435761 & 0xFFFFFFFF
        _intern[key] = v
    return v


def const(x) -> V:
    return mk("const", x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def sym(label) -> V:
    return mk("sym", label)


def tup(xs) -> V:
    return mk("tuple", tuple(xs))


def app(op, args=(), kw=()) -> V:
    return mk("app", op, tuple(args), tuple(kw))


def ext(d) -> V:
    return mk("ext", d)


PHI_CAP = 32


def phi(vs) -> V:
    out = []
    seen = set()
    wide = False

    def add(v):
        if v.k == "phi":
            for m in v.a[0]:
                add(m)
        elif v not in seen:
            seen.add(v)
            out.append(v)

    for v in vs:
        add(v)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda v: v.id)
    return mk("phi", tuple(out))


def members(v: V):
    return v.a[0] if v.k == "phi" else (v,)


def children(v: V):
    """Operand values of a term (not heap contents)."""
    for x in v.a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V):
                            yield z


def show(v, d=5) -> str:
    if not isinstance(v, V):
        return repr(v)
    if d <= 0:
        return ".."
    k = v.k
    if k == "const":
        return repr(v.a[0])
    if k == "sym":
        return f"${v.a[0]}"
    if k == "tuple":
        return "(" + ", ".join(show(x, d - 1) for x in v.a[0]) + ")"
    if k == "app":
        op = v.a[0]
        ops = show(op, d - 1) if isinstance(op, V) else str(op)
        s = [show(x, d - 1) for x in v.a[1]]
        s += [f"{n}={show(x, d-1)}" for n, x in v.a[2]]
        return f"{ops}({', '.join(s)})"
    if k == "ext":
        return v.a[0]
    if k == "attr":
        return f"{show(v.a[0], d-1)}.{v.a[1]}"
    if k == "item":
        return f"{show(v.a[0], d-1)}[{show(v.a[1], d-1)}]"
    if k == "elem":
        return f"each({show(v.a[0], d-1)})"
    if k == "phi":
        return "{" + " | ".join(show(x, d - 1) for x in v.a[0][:6]) + ("|.." if len(v.a[0]) > 6 else "") + "}"
    if k == "obj":
        return f"<{v.a[1]}#{v.a[0]}>"
    if k in ("func", "class"):
        return f"{k}:{v.a[0]}"
    return f"{k}({', '.join(show(x, d-1) for x in v.a)})"
