"""P03: nothing the caller owns is modified."""
from .sweep import *

EXPLANATION = (
    "Effect analysis: every public operation of every class, and whole training and calibration runs, are interpreted abstractly with "
    "distinct symbols for everything the caller passes in. Every write (item or attribute assignment, deletion, in-place operator, mutating "
    "container or array method, mutating library function) is attributed to the object it reaches; a write that reaches an argument, "
    "something inside an argument (through attributes, items, views), a configuration object, or an object created for a parameter default, "
    "is a violation."
)
ASSUMPTIONS = [
    "the objects a component is composed of (its own sub-objects, tokenizer, repository) may be updated by it; attaching a model's random number generator to its components (default or given) is part of building the model",
    "values memoised by a loader about itself (a private attribute written only while it is unset) are not observable",
    "third-party calls do not modify their arguments unless listed (shuffle, put, copyto, place, fill_diagonal, ufunc.at, out=)",
]
MUT = {"append", "extend", "update", "pop", "sort", "setdefault", "clear", "insert", "remove", "reverse", "fill", "popitem", "add", "discard", "partition", "resize", "put", "itemset", "setflags", "appendleft", "popleft"}
EXT_MUT = {"numpy.random.shuffle", "random.shuffle", "numpy.put", "numpy.copyto", "numpy.place", "numpy.fill_diagonal", "numpy.putmask", "numpy.put_along_axis", "heapq.heapify", "heapq.heappush", "heapq.heappop", "bisect.insort"}
VIEW_FN = {"numpy." + n for n in ("asarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "ravel", "reshape", "transpose", "swapaxes", "expand_dims", "asanyarray", "moveaxis", "ascontiguousarray", "broadcast_to", "diagonal", "rollaxis")}
VIEW_M = {".reshape", ".ravel", ".squeeze", ".transpose", ".swapaxes", ".view", ".get", ".items", ".values", ".setdefault", ".diagonal"}
STEP = ("attr", "item", "elem", "leaf", "lane")


def roots(v, st=None, depth=0):
    """the objects whose storage v is (a part or a view of)."""
    if depth > 12:
        return
    if v.k == "phi":
        for m in v.a[0]:
            yield from roots(m, st, depth + 1)
    elif v.k in STEP and isinstance(v.a[0], V):
        yield from roots(v.a[0], st, depth + 1)
    elif v.k == "app":
        h = v.a[0]
        if isinstance(h, str) and (h in VIEW_FN or h in VIEW_M) and v.a[1]:
            yield from roots(v.a[1][0], st, depth + 1)
        elif isinstance(h, V) and h.k == "attr" and "." + str(h.a[1]) in VIEW_M:
            yield from roots(h.a[0], st, depth + 1)
        elif h in ("oneof",):
            for x in v.a[1]:
                yield from roots(x, st, depth + 1)
    else:
        yield v


def writes(ev):
    """(event, target value, what) for every in-place write."""
    for e in ev:
        t = e.target
        if e.kind in ("setattr", "setitem", "delitem", "augassign", "mutcall"):
            if isinstance(t, V):
                yield e, t, e.kind
        elif e.kind == "method" and e.name in MUT and isinstance(t, V):
            yield e, t, "method"
        elif e.kind == "ext":
            n = str(e.name)
            if (n in EXT_MUT or n.startswith("numpy.") and n.endswith(".at")) and e.args:
                yield e, e.args[0], "ext"
            for k, v in e.kw:
                if k == "out" and isinstance(v, V):
                    yield e, v, "ext"


ARRAYISH = ("rray", "List", "Dict", "list", "dict", "Sequence", "Batch", "Tuple[", "Params", "Mutable", "Set")


def inplace_aug(e, v, anns):
    """an augmented assignment writes through only for arrays and containers."""
    ts = [anns.get(r.a[0] if isinstance(r.a[0], str) else str(r.a[0]), "") for r in roots(v) if r.k == "sym"]
    ts = [t[9:] if t.startswith("Optional[") else t for t in ts]
    return any(any(x in t for x in ARRAYISH) for t in ts if not t.startswith(("Tuple", "tuple", "int", "float", "str", "bool")))


def memo(e, P):
    """`if self._x is None: self._x = ...` of an object's own private attribute."""
    if e.kind != "setattr" or not str(e.name).startswith("_"):
        return False
    f = P.functions.get(e.site[1])
    if f is None or f.cls is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Attribute) and x.attr == e.name for x in ast.walk(n.test)) and any(isinstance(x, ast.Constant) and x.value is None for x in ast.walk(n.test)):
            return True
    return False


def constructing(P, s, o, e):
    """the write is the object's own construction."""
    f = P.functions.get(e.site[1])
    c = s.I.cls_of(o)
    return f is not None and f.name in ("__init__", "__post_init__") and isinstance(c, ClassInfo) and f.cls is not None and f.cls in c.mro


COMPONENTS = ("RandomNumberGenerator",)


def component(P, v, e):
    """objects that are part of the machinery (not data the caller expects back unchanged)."""
    f = P.functions.get(e.site[1])
    if f is not None and f.cls is not None and f.cls.name in COMPONENTS and isinstance(e.target, V) and e.target is v:
        return True
    return False


def is_tool(label):
    return any(x in label.lower() for x in ("tokenizer", "repository", "rng_of_model"))


def run_receiver(ctx, r):
    P = ctx.P
    last = [None]
    n_w = [0]

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        anns = {}
        if f is not None:
            for pn, _, ann, _ in params_of(f, drop_self=False):
                anns["arg." + pn] = ast.unparse(ann) if ann is not None else ""
        elif r.cls is not None:
            for pn, _, ann, _ in a.ctor_params(r.cls):
                anns["init." + pn] = ast.unparse(ann) if ann is not None else ""
        bad = []
        shared = shared_closure(a.s, end)
        for e, t, w in writes(ev):
            n_w[0] += 1
            for o in roots(t):
                if o.k == "sym":
                    lab = str(o.a[0])
                    if not lab.startswith(("arg.", "init.", "train", "val", "cfg")) or is_tool(lab):
                        continue
                    if w == "augassign" and not inplace_aug(e, t, anns):
                        continue
                    if w == "setattr" and (memo(e, P) or component(P, o, e) or e.name in ("rng", "_rng")):
                        continue
                    if w == "method" and a.s.I.cls_of(t) is not None:
                        continue
                    bad.append((e, o, w))
                elif o in shared and not (w == "setattr" and (memo(e, P) or e.name in ("rng", "_rng"))) and not constructing(P, a.s, o, e):
                    bad.append((e, o, w))
        key = f"{r.label}.{n}[{v}]"
        if not bad:
            ctx.ob(key, True, f.qual if f is not None else r.label)
        for e, o, w in bad:
            ctx.ob(f"{e.site[1]}:{w}:{e.name}:{o.a[0] if o.k == 'sym' else 'default'}", False, where(e), f"{r.label}.{n} ({v}) modifies {'the default value of a parameter' if o.k == 'obj' else 'the caller-owned ' + str(o.a[0])}: {w} {e.name}; path {e.chain()}")

    sweep_one(P, r, on_call, modes=("full", "min") if r.cls else ("full",), pick=lambda f: [v for v in variants(f) if v[0] in ("all", "required-only")])
    if last[0] is not None:
        ctx.absorb(last[0].s)
    ctx.notes.append(("writes", n_w[0]))


def shared_closure(s, end):
    out = set(s.I.shared)
    todo = list(out)
    st = end or s.st
    while todo:
        x = todo.pop()
        for v in s.I.models.obj_fields(s.I, x, s.I.root).values():
            for m in members(v):
                if m.k == "obj" and m not in out:
                    out.add(m)
                    todo.append(m)
    return out


def run_flow(ctx, it):
    kind, kw = it
    r = FitRun(ctx.P, **kw) if kind == "fit" else CalRun(ctx.P, **kw)
    s = r.s
    ctx.absorb(s)
    P = ctx.P
    lab = f"{kind}({','.join(f'{k}={v}' for k, v in kw.items())})"
    owned = set()
    for cfg in (r.cfg, getattr(r, "mapcfg", None)):
        if cfg is not None:
            todo = list(members(cfg))
            while todo:
                x = todo.pop()
                if x.k != "obj" or x in owned:
                    continue
                owned.add(x)
                for v in s.I.models.obj_fields(s.I, x, s.st).values():
                    todo += members(v)
    shared = shared_closure(s, None)
    bad = []
    n = 0
    for e, t, w in writes(s.I.events[r.ev0:]):
        n += 1
        for o in roots(t):
            if o.k == "sym":
                l = str(o.a[0])
                if l.split(".")[0] not in ("cfg", "mcfg", "train", "val", "cb", "mcb", "traint", "valt") or w == "augassign":
                    continue
                if w == "setattr" and memo(e, P):
                    continue
                if w == "method" and s.I.cls_of(t) is not None:
                    continue
                bad.append((e, o, w))
            elif (o in owned or o in shared) and not constructing(P, s, o, e):
                bad.append((e, o, w))
    if not bad:
        ctx.ob(lab, True, lab)
    ctx.notes.append(("writes", n))
    for e, o, w in bad:
        ctx.ob(f"{e.site[1]}:{w}:{e.name}", False, where(e), f"{lab} modifies {'the configuration given by the caller' if o in owned else 'a default object' if o in shared else o.a[0]}: {w} {e.name}; path {e.chain()}")


def run(ctx):
    P = ctx.P
    R = receivers(P) + functions(P)
    R.sort(key=lambda x: -("ensemble" in x.label) * 3 - ("[" in x.label))
    ctx.pmap(run_receiver, R)
    items = [("fit", dict(approx=a)) for a in APPROX] + [("fit", dict(approx=a, devices=-1, val=False)) for a in APPROX]
    items += [("fit", dict(approx=a, restore=True)) for a in APPROX]
    items += [("cal", dict(api=a, kind=k)) for a in ("prob", "calib", "output") for k in ("classifier", "regressor")]
    ctx.pmap(run_flow, items)
    n = sum(x[1] for x in ctx.notes if isinstance(x, tuple))
    ctx.notes[:] = [x for x in ctx.notes if not isinstance(x, tuple)] + [f"in-place writes examined: {n}"]
    ctx.need("in-place writes", n, 1000)
    ctx.need("abstract runs", ctx.runs, 200)
