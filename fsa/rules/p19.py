"""P19: data loaders: inputs stay with their targets, all data is yielded, iteration can be repeated, splits partition."""
import ast

from ..harness import Scn, sub
from ..interp import *
from ..program import ClassInfo, FuncInfo
from ..regions import Region, Lin, num, var
from ..values import *
from .apiscn import Api, params_of
from .p07 import deco_names
from .p26 import reified

EXPLANATION = (
    "Loaders over a symbolic sequence of batches are iterated symbolically after every conversion. The yielded terms show which batch, rows and field each component comes from: inputs and targets of a yielded pair come from the "
    "same batch, go through the same row selection, and are not filtered except where the method says so. Splits and chops are decided for every placement of the cut in the sequence of batches: batch sizes and the cut are "
    "sums of positive unknowns (linear forms), every comparison on the path is decided by the sign of the difference, and the yielded slices, as intervals of the stream, must partition it. Iterating must create its state "
    "anew: nothing a loader captures may be a one-shot iterator, and iteration may not write to anything that outlives it."
)
ASSUMPTIONS = ["the iterables and callables given by the user are themselves re-iterable", "numpy.split cuts an array into consecutive parts that together are the array"]

ONESHOT = ("map", "filter", "zip", "iter", "enumerate", "reversed", "itertools.zip_longest", "zip_longest", "chain", "itertools.chain", "islice", "itertools.islice", "cycle")


def members(v):
    return list(v.a[0]) if v.k == "phi" else [v]


def subst(v, m, memo=None):
    memo = {} if memo is None else memo
    if v in m:
        return m[v]
    if v in memo:
        return memo[v]

    def go(x):
        if isinstance(x, V):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in v.a)
    r = v if a == v.a else phi(a[0]) if v.k == "phi" else mk(v.k, *a)
    memo[v] = r
    return r


def loader_classes(P):
    out = {}
    for kind, root in (("data", "BaseDataLoaderABC"), ("inputs", "BaseInputsLoader"), ("targets", "BaseTargetsLoader")):
        b = P.cls(root)
        out[kind] = [c for c in P.classes.values() if b in c.mro and not any(isinstance(f, FuncInfo) and any("abstract" in d for d in deco_names(f)) and c.lookup(n)[1] is f for k in c.mro if isinstance(k, ClassInfo) for n, f in k.methods.items())]
    return out


def kind_of(P, c):
    for kind, root in (("data", "BaseDataLoaderABC"), ("inputs", "BaseInputsLoader"), ("targets", "BaseTargetsLoader")):
        if P.cls(root) in c.mro:
            return kind


def advance(I, recv, args, kw, st, fr, node):
    if recv.k == "gen":
        return recv.a[0]
    r = I.models.reify(I, recv, st, 4) if recv.k == "obj" else recv
    return r.a[0] if r.k == "rsum" else None


class World:
    def __init__(self, P, c, source):
        self.P, self.c = P, c
        self.a = Api(P)
        self.s, self.I = self.a.s, self.a.s.I
        self.I.exact_gens = True
        self.I.rec_limit = 3
        self.I.ext_stubs = {"itertools.zip_longest": self.zip_longest}
        self.I.method_stubs = {"__next__": advance}
        self.source = source
        I, s = self.I, self.s
        self.recv = I.new_obj(c, s.st, fields={})
        for n in ("_iterable", "_num_unique_labels", "_num_inputs"):
            I.store_attr(self.recv, n, source if n == "_iterable" else NONE, s.st, s.fr, None)

    def zip_longest(self, I, args, kw, st, fr, node):
        exs = [I.exact(I.listing(x, st, fr, node), st) for x in args]
        if any(e is None for e in exs) or not exs:
            return app("itertools.zip_longest", args)
        n = max(len(e) for e in exs)
        return I.new_list([tup([e[i] if i < len(e) else NONE for e in exs]) for i in range(n)], st)

    def call(self, meth, f, static=False, **ov):
        recv = self.I.class_val(self.c) if "classmethod" in deco_names(f) else self.recv
        ps = {p for p, *_ in params_of(f)}
        return self.a.call(meth, f, [], override={k: v for k, v in ov.items() if k in ps}, recv=recv)

    def iterate(self, v, end):
        """(element, exact sequence or None, events, state) of iterating over a loader."""
        I = self.I
        n0 = len(I.events)
        st = end.fork()
        try:
            g = I.listing(v, st, self.s.fr, None)
            seq = I.exact(g, st) if g.k != "phi" else None
            e = I.elem(g, st, self.s.fr, None) if seq != [] else UNDEF
        except Dead:
            return None, None, I.events[n0:], st
        return e, seq, I.events[n0:], st

    def re(self, v, st):
        return reified(self.a, v, st, 14)


def component(v, i):
    """one of the components of the yielded pairs."""
    if v.k == "phi":
        return phi([component(m, i) for m in v.a[0]])
    if v.k == "tuple" and len(v.a[0]) == 2:
        return v.a[0][i]
    return mk("item", v, const(i))


def parts(v):
    return [(component(m, 0), component(m, 1)) for m in members(v)]


def same_rows(x, y, X, Y):
    """y is x with the targets in place of the inputs."""
    shp = {mk("attr", Y, "shape"): mk("attr", X, "shape"), app("len", (Y,)): app("len", (X,))}
    return subst(subst(x, shp), {X: Y}) == subst(subst(y, shp), {X: Y}) and mention(x, X) and not mention(drop_shape(x, Y), Y) and not mention(drop_shape(y, X), X)


def drop_shape(v, X):
    return subst(v, {mk("attr", X, "shape"): sym_("shape"), app("len", (X,)): sym_("shape")})


def sym_(n):
    return mk("sym", n)


def mention(v, x):
    return any(y is x or y == x for y in sub(v))


def pairs_ok(v, X, Y):
    """every alternative of the yielded pair keeps inputs with targets. True / False / None"""
    for x, y in parts(v):
        if not mention(drop_shape(x, X), X) and not mention(x, X):
            return None
        if same_rows(x, y, X, Y):
            continue
        # alternatives inside the components: the set of all inputs alternatives must be that of the targets
        return False
    return True


def loaders(ctx, it):
    kind, qual = it
    P = ctx.P
    c = P.classes[qual]
    B = mk("sym", "BATCHES")
    E = mk("elem", B)
    X = mk("item", E, const(0)) if kind == "data" else E
    Y = mk("item", E, const(1)) if kind == "data" else None
    n = 0
    names = sorted({m for k in c.mro if isinstance(k, ClassInfo) for m in k.methods})
    for meth in names:
        d, f = c.lookup(meth)
        if not isinstance(f, FuncInfo) or meth.startswith("_") and meth != "__iter__" or any("abstract" in q for q in deco_names(f)):
            continue
        w = World(P, c, mk("sym", "BATCHES"))
        I = w.I
        k = f"{c.name}.{meth}"
        if meth == "__iter__":
            e, seq, ev, st = w.iterate(w.recv, w.s.st)
            ctx.ob(f"{k}:batches", e is not None and w.re(e, st) == E, f.qual, f"iterating yields {show(w.re(e, st), 3)[:80] if e is not None else 'nothing'} instead of the batches")
            ctx.absorb(w.s)
            continue
        if any(q.startswith("property") for q in deco_names(f)):
            v, ev, end = w.a.run(lambda: w.s.attr(w.recv, meth))
            if v is None:
                continue
            v = w.re(v, end)
            if meth == "size":
                if "super().size" in show(v, 3) and all(m.k in ("const", "sym", "attr") or "super()" in show(m, 3) for m in members(v)):
                    continue
                inc = [y for y in sub(v) if y.k == "app" and y.a[0] == "Add"]
                good = inc and all(any(isinstance(q, V) and q.k in ("item", "phi") and all(m.k == "item" and m.a[1] == const(0) and m.a[0].k == "attr" and m.a[0].a[1] == "shape" and mention(m, E) for m in members(q)) for q in y.a[1]) for y in inc) or any(y.k == "app" and y.a[0] in ("sum", "len") for y in sub(v))
                ctx.ob(f"{k}:counts rows", bool(good), f.qual, f"the size is not the number of rows over all batches: {show(v, 4)[:100]}")
                n += 1
            elif meth == "input_shape":
                good = all(any(y.k == "item" and y.a[1].k == "app" and y.a[1].a[0] == "slice" and y.a[1].a[1][0] == const(1) and y.a[1].a[1][1] is NONE for y in sub(m)) for m in members(v))
                ctx.ob(f"{k}:row shape", good, f.qual, f"the input shape is {show(v, 4)[:100]}")
                n += 1
            ctx.absorb(w.s)
            continue
        ov = {}
        if meth.startswith("from_") and "data" in [p for p, *_ in params_of(f)]:
            ov["data"] = tup([mk("sym", "DX"), mk("sym", "DY")])
        for bs in ((None, "given") if "batch_size" in [p for p, *_ in params_of(f)] else (0,)):
            for sh in ((True, False) if bs != 0 else (0,)):
                w = World(P, c, mk("sym", "BATCHES"))
                for q in ("DX", "DY", "BATCHES"):
                    w.s.sym(q, None, "not")
                o = dict(ov)
                if bs is None:
                    o["batch_size"] = NONE
                if bs != 0:
                    o["shuffle"] = TRUE if sh else FALSE
                v, ev, end = w.call(meth, f, **o)
                kk = k + (f"[{'batches' if bs else 'one batch'}{', shuffled' if sh else ''}]" if bs != 0 else "")
                if v is None:
                    continue
                for i, x in enumerate(v.a[0] if v.k == "tuple" else [v]):
                    cx = w.I.cls_of(x)
                    if cx is None or kind_of(P, cx) is None:
                        if meth.startswith("to_array"):
                            arrays(ctx, k, f, w.re(x, end), i, kind, meth, X, Y)
                            n += 1
                        continue
                    n += 1
                    converted(ctx, kk, f, w, x, end, kind, c, cx, meth, X, Y, i)
                ctx.absorb(w.s)
    ctx.need(f"conversions of {c.name}", n, 4)


def arrays(ctx, k, f, v, i, kind, meth, X, Y):
    want = Y if kind == "data" and ("targets" in meth or i == 1) else X
    good = False
    for m in members(v):
        good = m.k == "app" and str(m.a[0]).endswith("concatenate") and m.a[1][0].k == "rsum" and m.a[1][0].a[0] == want
        if not good and m.k == "app" and str(m.a[0]).endswith("concatenate") and m.a[1]:
            # `zip(*loader)` transposes the pairs
            t = m.a[1][0]
            z = t.a[0] if t.k == "item" else None
            good = z is not None and z.k == "app" and str(z.a[0]).endswith("zip") and len(z.a[1]) == 1 and t.a[1] == const(0 if want == X else 1) and kind == "data"
        if good:
            ax = m.a[1][1] if len(m.a[1]) > 1 else dict(m.a[2]).get("axis", const(0))
            good = ax == const(0)
        if not good:
            break
    ctx.ob(f"{k}:all batches{i}", good, f.qual, f"the array is {show(v, 4)[:100]} instead of all batches joined")


def converted(ctx, k, f, w, x, end, kind, c, cx, meth, X, Y, i):
    P, I = w.P, w.I
    to = kind_of(P, cx)
    want = {"to_inputs_loader": "inputs", "to_targets_loader": "targets"}.get(meth, kind)
    ctx.ob(f"{k}:kind{i}", to == want, f.qual, f"the result is a {cx.name}")
    if want == kind:
        ctx.ob(f"{k}:class{i}", cx is c, f.qual, f"the result is a {cx.name} instead of a {c.name}")
    # re-iteration
    cap = one_shots(w, x, end)
    ctx.ob(f"{k}:can be iterated again{i}", not cap, f.qual, f"the loader holds {', '.join(cap)}: it can be iterated only once")
    nobj = I.nobj
    e, seq, ev, st = w.iterate(x, end)
    if e is None:
        ctx.ob(f"{k}:yields{i}", False, f.qual, "iterating never yields")
        return
    old = [y for y in ev if y.kind in ("setattr", "setitem", "augassign", "delitem") and y.target is not None and y.target.k == "obj" and y.target.a[0] <= nobj]
    ctx.ob(f"{k}:iteration leaves no trace{i}", not old, f.qual, f"iterating writes to {', '.join(show(y.target, 1) for y in old[:2])}")
    e = w.re(e, st)
    if meth in ("to_inputs_loader", "to_targets_loader", "from_data_loader"):
        src = E_ = None
        good = all(m.k == "item" and m.a[1] == const(0 if to == "inputs" else 1) and m.a[0].k == "elem" and (m.a[0].a[0].k == "sym" or mention(m.a[0].a[0], mk("sym", "arg.data_loader"))) for m in members(e))
        ctx.ob(f"{k}:batches{i}", good, f.qual, f"the loader yields {show(e, 3)[:100]}")
        skip(ctx, k, f, ev, i)
        return
    if meth in ("from_iterable", "from_callable_iterable"):
        src = mk("sym", "arg." + [p for p, *_ in params_of(f)][0])
        good = all(m.k == "elem" and (m.a[0] is src or m.a[0].k not in ("item", "elem") and not any(y.k == "item" for y in sub(m.a[0])) and mention(m.a[0], src)) for m in members(e))
        ctx.ob(f"{k}:batches{i}", good, f.qual, f"the loader yields {show(e, 3)[:100]}")
        skip(ctx, k, f, ev, i)
        return
    if "transformed" in meth:
        transformed(ctx, k, f, w, e, ev + w.I.events, kind, X, Y, i)
        return
    if "array" in meth and meth.startswith("from_"):
        srcs = [mk("sym", "DX"), mk("sym", "DY")] if to == "data" else [mk("sym", "arg." + [p for p, *_ in params_of(f)][0])]
        whole(ctx, k, f, e, srcs, i)
        if to == "data":
            pairs(ctx, k, f, e, srcs[0], srcs[1], i)
        skip(ctx, k, f, ev, i)
        return
    if meth.startswith("from_") and to == "data":
        roots(ctx, k, f, e, i)
        if "inputs_loaders" not in meth:
            skip(ctx, k, f, ev, i)
        return
    if to == "data" and kind == "data":
        pairs(ctx, k, f, e, X, Y, i)


def pairs(ctx, k, f, e, X, Y, i):
    r = True
    for x, y in parts(e):
        xs, ys = members(x), members(y)
        if len(xs) == len(ys) > 1:
            shp = {mk("attr", Y, "shape"): mk("attr", X, "shape")}
            r = {subst(subst(m, shp), {X: Y}) for m in xs} == {subst(subst(m, shp), {X: Y}) for m in ys}
        else:
            r = same_rows(x, y, X, Y)
        if not r:
            break
    ctx.ob(f"{k}:pairs{i}", bool(r), f.qual, f"inputs and targets of a batch are selected differently: {show(e, 4)[:140]}")


def roots(ctx, k, f, e, i):
    """first components come from first fields, second from second fields."""
    if "inputs_loaders" in k:
        return
    for x, y in parts(e):
        def fields(v):
            return {z.a[1].a[0] for z in sub(v) if z.k == "item" and z.a[0].k == "elem" and z.a[0].a[0].k == "sym" and z.a[1].k == "const" and z.a[1].a[0] in (0, 1)}
        ctx.ob(f"{k}:fields{i}", fields(x) == {0} and fields(y) == {1}, f.qual, f"a pair is built from the fields {sorted(fields(x))} and {sorted(fields(y))} of a batch: {show(e, 3)[:80]}")


def transformed(ctx, k, f, w, e, ev, kind, X, Y, i):
    T = mk("sym", "arg.transform")
    ms = parts(e) if kind == "data" else [(m,) for m in members(e)]
    for m in ms:
        calls = set()
        good = True
        for j, x in enumerate(m):
            good &= x.k == "item" and x.a[1] == const(j)
            if good:
                calls.add(x.a[0])
        good = good and len(calls) == 1
        if good:
            t = calls.pop()
            args = [y for y in t.a[1]] if t.k == "app" else []
            good = mention(t, T) and [a for a in args if a in (X, Y)] == ([X, Y] if kind == "data" else [X])
        ctx.ob(f"{k}:transformed{i}", bool(good), f.qual, f"what is yielded is not the transformed batch: {show(e, 3)[:100]}")
    S = mk("sym", "arg.status")
    for y in ev:
        if y.kind == "call" and y.target is T or y.kind == "call" and y.target == T:
            ctx.ob(f"{k}:status is not shared{i}", not any(a is S or a.k == "phi" and S in a.a[0] for a in y.args), y.site[1], "the status given by the user is passed to the transformation without a copy: a second iteration starts from what the first one left")


def whole(ctx, k, f, e, srcs, i):
    comps = [[m for x, _ in parts(e) for m in members(x)], [m for _, y in parts(e) for m in members(y)]] if len(srcs) == 2 else [members(e)]
    for X, ms in zip(srcs, comps):
        for m in ms:
            r = complete(m, X, srcs)
            if r is None:
                ctx.undec(f"{k}:complete{i}", f"unknown form {show(m, 4)[:80]}")
            else:
                ctx.ob(f"{k}:complete{i}", r == "", f.qual, r)


def complete(m, X, srcs):
    if m is X or m == X:
        return ""
    if m.k == "elem":
        z = m.a[0]
        if z.k == "app" and str(z.a[0]).rsplit(".", 1)[-1] in ("split", "array_split") and z.a[1]:
            ax = dict(z.a[2]).get("axis", z.a[1][2] if len(z.a[1]) > 2 else const(0))
            if ax != const(0):
                return "batches are cut along another axis"
            rs = [complete(q, X, srcs) for q in members(z.a[1][0])]
            return None if None in rs else next((r for r in rs if r), "")
        return None
    if m.k == "item":
        b, idx = m.a
        if b is X or b == X:
            rs = [permuted(q, srcs) for q in members(idx) if q is not UNDEF]
            return None if None in rs or not rs else next((r for r in rs if r), "")
    return None


def permuted(p, srcs):
    def is_n(v):
        return v.k == "item" and v.a[1] == const(0) and v.a[0].k == "attr" and v.a[0].a[1] == "shape" and v.a[0].a[0] in srcs or v.k == "app" and v.a[0] == "len" and v.a[1][0] in srcs
    if p.k == "app" and str(p.a[0]).rsplit(".", 1)[-1] == "choice":
        a = [x for x in p.a[1]]
        kw = dict(p.a[2])
        a = a[1:] if a and not is_n(a[0]) and str(p.a[0]).startswith(".") else a
        full = a and is_n(a[0]) and len(a) + ("size" in kw) > 1 and is_n(kw.get("size", a[1] if len(a) > 1 else NONE))
        rep = kw.get("replace", a[2] if len(a) > 2 else TRUE)
        return "" if full and rep is FALSE or full and rep == FALSE else "the shuffled rows are not a permutation of all rows"
    if p.k == "app" and str(p.a[0]).rsplit(".", 1)[-1] == "permutation":
        return "" if any(is_n(x) for x in p.a[1]) else "the shuffled rows are not a permutation of all rows"
    return None


def skip(ctx, k, f, ev, i):
    """a batch is not left out on some condition on the data."""
    ys = [y for y in ev if y.kind == "yield" and y.name == "yield"]
    bad = []
    for y in ys:
        for cnd, pol in y.conds:
            if cnd.k == "app" and cnd.a[0] in ("loop", "uloop"):
                continue
            if any(z.k in ("elem", "carry", "loopidx") or z.k == "app" and z.a[0] == "loopidx" for z in sub(cnd)):
                if not any((cnd, not pol) in z.conds for z in ys):
                    bad.append(cnd)
    for y in ev:
        if y.kind == "next" and any(isinstance(q, V) and q.k in ("sym", "gen", "elem") for q in [y.target]):
            ctx.ob(f"{k}:consumed{i}", False, y.site[1], "a batch is taken out of the data before it is iterated over")
    ctx.ob(f"{k}:every batch{i}", not bad, f.qual, f"a batch is yielded only if {show(bad[0], 3)[:80] if bad else ''}")


def scope(node):
    """statements of a function, without nested functions."""
    out, todo = [], list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        out.append(x)
        todo += [y for y in ast.iter_child_nodes(x) if isinstance(y, ast.stmt)]
    return out


def everything(st):
    out = {}
    while st is not None:
        for k, v in st.w.items():
            out.setdefault(k, v)
        st = st.parent
    return out


def one_shots(w, x, end):
    """one-shot iterators reachable from what a loader holds."""
    I = w.I
    out, seen, todo = [], set(), [x]
    while todo:
        v = todo.pop()
        if v in seen or not isinstance(v, V):
            continue
        seen.add(v)
        if v.k == "gen" or v.k == "app" and str(v.a[0]) in ONESHOT:
            out.append("a generator" if v.k == "gen" else f"the result of {v.a[0]}")
            continue
        if v.k == "phi":
            todo += list(v.a[0])
        if v.k == "bound":
            todo += [y for y in v.a if isinstance(y, V)]
        if v.k == "tuple":
            todo += list(v.a[0])
        if v.k == "obj":
            c = I.objcls.get(v)
            if isinstance(c, ClassInfo):
                if isinstance(c.lookup("__next__")[1], FuncInfo):
                    out.append(f"a {c.name}")
                for key, y in everything(end).items():
                    if key[0] == "f" and key[1] is v:
                        todo.append(y)
        if v.k == "func" and v in I.funcs:
            f, fr, _ = I.funcs[v]
            names = {z.id for z in ast.walk(f.node) if isinstance(z, ast.Name)}
            q = fr
            own = local_names(f.node)[0] if isinstance(local_names(f.node), tuple) else local_names(f.node)
            if fr is not None and fr.f is not None and not isinstance(fr.f.node, ast.Lambda):
                for st_ in scope(fr.f.node):
                    if isinstance(st_, ast.Assign) and len(st_.targets) == 1 and isinstance(st_.targets[0], ast.Name) and st_.targets[0].id in names - set(own):
                        r = st_.value
                        if isinstance(r, ast.GeneratorExp) or isinstance(r, ast.Call) and ast.unparse(r.func) in ONESHOT:
                            out.append(f"the iterator {st_.targets[0].id} made before")
            while q is not None:
                for z in names:
                    y = end.get(("v", q.fid, z))
                    if y is not None:
                        todo.append(y)
                q = q.parent
    return out


# ------------------------------------------------------------------ splits

def cuts(nb):
    """placements of a cut n in a stream of nb batches: (label, sizes, n)."""
    base = [var(f"s{i}") for i in range(nb)]
    out = []
    for i in range(nb + 1):
        n = num(0)
        for b in base[:i]:
            n = n + b
        out.append((f"before batch {i}" if i < nb else "at the end", list(base), n))
        if i < nb:
            sz = list(base)
            sz[i] = var("u") + var("w")
            out.append((f"inside batch {i}", sz, n + var("u")))
        else:
            out.append(("beyond the end", list(base), n + var("d")))
    return out


def region_run(P, c, kind, meth, sizes, values, mods, param, val):
    """the streams yielded by what a method returns: list of lists of intervals, or a string."""
    n = len(sizes)
    xs = [mk("sym", f"X{i}") for i in range(n)]
    ys = [mk("sym", f"Y{i}") for i in range(n)]
    src = tup([tup([x, y]) if kind == "data" else x for x, y in zip(xs, ys)])
    w = World(P, c, src)
    for q in xs + ys:
        w.s.sym(q.a[0], None, "not")
    w.s.sym(val.a[0], None, "not")
    pos, arrs = num(0), {}
    for i, sz in enumerate(sizes):
        arrs[xs[i]] = ("X", pos, pos + sz)
        arrs[ys[i]] = ("Y", pos, pos + sz)
        pos = pos + sz
    R = Region(values, arrs, mods)
    orig = w.I.truth

    def truth(v, st):
        r = R.decide(v)
        return r if r is not None else orig(v, st)
    w.I.truth = truth
    d, f = c.lookup(meth)
    v, ev, end = w.call(meth, f, **{param: val})
    if v is None:
        return w, f, "never returns"
    out = []
    for x in (v.a[0] if v.k == "tuple" else [v]):
        e, seq, ev, st = w.iterate(x, end)
        if e is None and seq is None:
            out.append(None)
            continue
        if seq is None:
            out.append(None)
            continue
        ivs = []
        for z in seq:
            z = w.re(z, st)
            pr = [z] if kind != "data" else [component(z, 0), component(z, 1)]
            ivs.append([R.arr(q) for q in pr])
        out.append(ivs)
    return w, f, out


def stream(ivs, lo, hi):
    """the intervals, in order, cover [lo, hi) exactly."""
    pos = lo
    for iv in ivs:
        a = iv[0]
        if a is None:
            return None
        for b in iv[1:]:
            if b is None:
                return None
            if (a[1], a[2]) != (b[1], b[2]):
                return f"inputs {a[1]}..{a[2]} are paired with targets {b[1]}..{b[2]}"
        if [x[0] for x in iv] not in (["X"], ["Y"], ["X", "Y"]):
            return "inputs and targets are exchanged"
        if a[1] == a[2]:
            continue
        if a[1] != pos:
            return f"rows {pos}.. are expected but {a[1]}..{a[2]} are yielded"
        pos = a[2]
    return "" if pos == hi else f"rows up to {pos} are yielded instead of up to {hi}"


def split(ctx, it):
    kind, qual, nb = it
    P = ctx.P
    c = P.classes[qual]
    N = mk("sym", "CUT")
    d, f = c.lookup("split")
    p = [x for x, *_ in params_of(f)][0]
    for label, sizes, n in cuts(nb):
        k = f"{c.name}.split:cut {label}"
        w, f, out = region_run(P, c, kind, "split", sizes, {N: n}, {}, p, N)
        total = num(0)
        for z in sizes:
            total = total + z
        n_ = total if label == "beyond the end" else n
        if isinstance(out, str) or len(out) != 2:
            ctx.ob(k, False, f.qual, out if isinstance(out, str) else f"{len(out)} parts are returned")
            continue
        for nm, ivs, lo, hi in (("first", out[0], num(0), n_), ("second", out[1], n_, total)):
            if ivs is None:
                ctx.undec(f"{k}:{nm}", "what is yielded cannot be listed")
                continue
            r = stream(ivs, lo, hi)
            if r is None:
                ctx.undec(f"{k}:{nm}", "yielded arrays are not slices of the batches")
            else:
                ctx.ob(f"{k}:{nm}", r == "", f.qual, f"the {nm} part is wrong: {r}")
        ctx.absorb(w.s)


def chop(ctx, it):
    kind, qual, _ = it
    P = ctx.P
    c = P.classes[qual]
    D = mk("sym", "DIVISOR")
    d, f = c.lookup("chop")
    p = [x for x, *_ in params_of(f)][0]
    r, e, m, q = var("r"), var("e"), var("m"), var("q")
    cases = [
        ("no remainder, one multiple", m, m, m, num(1), num(0)),
        ("no remainder", m + e, m + e, m, q, num(0)),
        ("remainder after one multiple", r + e, r + e + r, r + e, num(1), r),
        ("remainder", r + e, r + e + m + r, r + e + m, q, r),
        ("smaller than the divisor", r + e, r, num(0), num(0), r),
    ]
    cases[1] = ("no remainder", m, m + e, m + e, q, num(0))
    for label, dv, size, keep, quo, rem in cases:
        k = f"{c.name}.chop:{label}"
        mods = {(size, dv): (quo, rem), ("*", quo, dv): keep, (dv, dv): (num(1), num(0)), ("*", num(1), dv): dv}
        w, f, out = region_run(P, c, kind, "chop", [size, dv], {D: dv}, mods, p, D)
        if isinstance(out, str) or len(out) != 1 or out[0] is None:
            ctx.undec(k, out if isinstance(out, str) else "what is yielded cannot be listed")
            continue
        ivs = [iv for iv in out[0] if iv[0] is None or iv[0][1] != iv[0][2]]
        r1 = [iv for iv in ivs if iv[0] is not None and (iv[0][1] - size).sign() not in ("+", "+0", "0")]
        r2 = [iv for iv in ivs if iv not in r1]
        msgs = [stream(r1, num(0), keep), stream(r2, size, size + dv)]
        if None in msgs:
            ctx.undec(k, "yielded arrays are not slices of the batches")
        else:
            ctx.ob(k, msgs == ["", ""], f.qual, f"the batches are chopped wrongly: {msgs[0] or msgs[1]}")
        ctx.absorb(w.s)


def merged(ctx, it):
    """batches of several inputs loaders, each with its own target."""
    how, qual, counts = it
    P = ctx.P
    c = P.classes[qual]
    d, f = c.lookup("from_inputs_loaders")
    w = World(P, c, NONE)
    ci = P.cls("BaseInputsLoader")
    s, I = w.s, w.I
    ls, ts, batches = [], [], []
    for i, nb in enumerate(counts):
        o = I.new_obj(ci, s.st, fields={})
        bs = [s.sym(f"L{i}B{j}", None, "not") for j in range(nb)]
        I.store_attr(o, "_iterable", tup(bs), s.st, s.fr, None)
        ls.append(o)
        batches.append(bs)
        ts.append(s.sym(f"T{i}", None, "not"))
    v, ev, end = w.call("from_inputs_loaders", f, inputs_loaders=tup(ls), targets=tup(ts), how=const(how))
    k = f"{c.name}.from_inputs_loaders[{how}]{counts}"
    if v is None:
        ctx.ob(k, False, f.qual, "never returns")
        return
    e, seq, ev, st = w.iterate(v, end)
    ctx.absorb(w.s)
    if seq is None:
        ctx.undec(k, "what is yielded cannot be listed")
        return
    got = []
    for z in seq:
        z = w.re(z, st)
        x, y = component(z, 0), component(z, 1)
        xs = [q for q in flat(x)]
        tsx = [target_of(q) for q in flat(y)]
        got.append((xs, tsx))
    if how == "interpose":
        want = [[(batches[i][j], ts[i]) for i in range(len(counts)) if j < counts[i]] for j in range(max(counts))]
    else:
        want = [[(b, ts[i])] for i in range(len(counts)) for b in batches[i]]
    have = [list(zip(a, [t for t, _ in b])) if len(a) == len(b) else None for a, b in got]
    rows = all(len(a) == len(b) and all(r is not None and r == x for x, (_, r) in zip(a, b)) for a, b in got)
    ctx.ob(k, have == want, f.qual, f"the batches and targets yielded are {[[(show(a, 1), show(b, 1)) for a, b in h] if h else h for h in have]}"[:200])
    ctx.ob(f"{k}:rows", rows, f.qual, "the number of targets is not the number of inputs of the same loader")


def joined(ctx, it):
    """a concatenated loader and a loader with a device axis yield everything, in order."""
    P = ctx.P
    c = P.cls("ConcatenatedLoader")
    a = Api(P)
    I, s = a.s.I, a.s
    I.exact_gens, I.rec_limit = True, 3
    bs = [s.sym(f"b{i}", None, "not") for i in range(4)]
    o = a.build(c, override={"loaders": tup([tup(bs[:2]), tup(()), tup(bs[2:3]), tup(bs[3:])])})
    d, f = c.lookup("__iter__")
    g = I.listing(o, s.st, s.fr, None)
    seq = I.exact(g, s.st)
    if seq is None:
        ctx.undec("ConcatenatedLoader", "what is yielded cannot be listed")
    else:
        ctx.ob("ConcatenatedLoader:all loaders in order", seq == bs, f.qual, f"iterating yields {[show(x, 1) for x in seq]} for the loaders (b0, b1), (), (b2), (b3)")
    c = P.cls("DeviceDimensionAugmentedLoader")
    d, f = c.lookup("__iter__")
    B = s.sym("BATCHES", None, "not")
    o = a.build(c, override={"loader": B})
    st = s.st.fork()
    v = reified(a, I.elem(I.listing(o, st, s.fr, None), st, s.fr, None), st, 12)
    k = "DeviceDimensionAugmentedLoader"
    ctx.ob(f"{k}:batches", any(y == mk("elem", B) for y in sub(v)), f.qual, f"the batches yielded are {show(v, 4)[:80]}")
    rs = [y for y in sub(v) if y.k == "app" and str(y.a[0]).endswith("reshape")]
    ctx.need("reshapes to devices", len(rs), 1)
    for y in rs:
        sh = y.a[1][1] if len(y.a[1]) == 2 else tup(list(y.a[1][1:]))
        head = sh.a[1][0] if sh.k == "app" and sh.a[0] == "Add" else sh
        good = head.k == "tuple" and len(head.a[0]) >= 2 and "device_count" in show(head.a[0][0], 4) and not "device_count" in show(head.a[0][1], 4)
        if good and sh.k == "app":
            t = sh.a[1][1]
            good = t.k == "item" and t.a[0].k == "attr" and t.a[0].a[0] == y.a[1][0] and t.a[1].k == "app" and t.a[1].a[1][0] == const(1)
        ctx.ob(f"{k}:device axis first", bool(good), f.qual, f"a batch is reshaped to {show(sh, 4)[:100]}")
    ctx.absorb(s)


def datasets(ctx, qual):
    """tokenised datasets: every row in exactly one batch."""
    P = ctx.P
    c = P.classes[qual]
    a = Api(P)
    I, s = a.s.I, a.s
    o = s.given("DATASET", c.qual)
    n, bs = mk("sym", "arg.dataset_size"), mk("sym", "arg.batch_size")
    d, f = c.lookup("_get_batches_idxs")
    for sh in (True, False):
        for drop in (True, False):
            k = f"{c.name}:batches of rows{', shuffled' if sh else ''}{', last dropped' if drop else ''}"
            v, ev, end = a.call("_get_batches_idxs", f, [], override={"shuffle": const(sh), "drop_last": const(drop)}, recv=o)
            e = reified(a, I.elem(v, end, s.fr, None), end, 12) if v is not None else None
            if e is None or e.k != "item" or e.a[1].k != "app" or e.a[1].a[0] != "slice":
                ctx.undec(k, f"unknown form {show(e, 3)[:80] if e is not None else ''}")
                continue
            z, (lo, hi, step) = e.a[0], e.a[1].a[1]
            r = lo.a[0] if lo.k == "elem" else None
            ok = r is not None and r.k == "app" and r.a[0] == "range" and len(r.a[1]) == 3 and r.a[1][0] == const(0) and r.a[1][2] == bs and r.a[1][1].k == "app" and r.a[1][1].a[0] == "len" and r.a[1][1].a[1][0] == z
            ok = ok and hi.k == "app" and hi.a[0] == "Add" and set(hi.a[1]) == {lo, bs} and step is NONE
            ctx.ob(f"{k}:consecutive", bool(ok), f.qual, f"the rows of a batch are {show(e, 4)[:120]}")
            if drop:
                ok = z.k == "item" and z.a[1].k == "app" and z.a[1].a[0] == "slice" and z.a[1].a[1][0] is NONE and z.a[1].a[1][1] == app("Mult", (app("FloorDiv", (n, bs)), bs))
                ctx.ob(f"{k}:whole batches", bool(ok), f.qual, f"the rows kept are {show(z, 4)[:100]}")
                z = z.a[0] if z.k == "item" else z
            name = str(z.a[0]).rsplit(".", 1)[-1] if z.k == "app" else "?"
            ok = name == ("permutation" if sh else "arange") and n in z.a[1]
            ctx.ob(f"{k}:all rows", bool(ok), f.qual, f"the rows are {show(z, 3)[:80]}")
    d, f = c.lookup("get_data_loader")
    for drop in (True, False):
        k = f"{c.name}.get_data_loader{', last dropped' if drop else ''}"
        v, ev, end = a.call("get_data_loader", f, [], override={"drop_last": const(drop)}, recv=o)
        if v is None:
            ctx.ob(k, False, f.qual, "never returns")
            continue
        D = mk("sym", "arg.dataset")
        size = end.get(("f", v, "_num_inputs"))
        st = end.fork()
        e = I.elem(v, st, s.fr, None)
        reads = [y for y in sub(reified(a, e, st, 14)) if y.k == "item" and y.a[0] == D]
        ctx.ob(f"{k}:rows of the dataset", bool(reads) and all(any(z.k == "elem" for z in sub(y.a[1])) for y in reads), f.qual, f"the rows read are {[show(y, 3) for y in reads][:2]}")
        if size is not None and size is not NONE:
            if drop:
                ok = any(y.k == "app" and y.a[0] in ("FloorDiv", "Mod") for y in sub(size))
                ctx.ob(f"{k}:size", ok, f.qual, f"the size of the loader is {show(size, 3)[:80]}, although the last incomplete batch is never yielded")
            else:
                ctx.ob(f"{k}:size", all(m.k == "app" and m.a[0] == "len" and m.a[1][0] == D for m in members(size)), f.qual, f"the size of the loader is {show(size, 3)[:80]}")
    ctx.absorb(s)


def flat(v):
    if v.k == "app" and str(v.a[0]).endswith("concatenate"):
        l = v.a[1][0]
        return [y for x in l.a[0] for y in flat(x)] if l.k in ("rlist", "tuple") else [v]
    return [v]


def target_of(q):
    """(target, array whose rows it is repeated for)"""
    t = [z for z in sub(q) if z.k == "sym" and str(z.a[0]).startswith("T")]
    r = [z for z in sub(q) if z.k == "sym" and str(z.a[0]).startswith("L")]
    return (t[0] if len(set(t)) == 1 else None), (r[0] if len(set(r)) == 1 else None)


def prefetched(ctx, it):
    """an iterator wrapped around a generator hands out every element once, in order."""
    P = ctx.P
    for c in P.classes.values():
        if not (isinstance(c.lookup("__next__")[1], FuncInfo) and isinstance(c.lookup("__init__")[1], FuncInfo)):
            continue
        ps = params_of(c.lookup("__init__")[1])
        if len(ps) != 1:
            continue
        a = Api(P)
        I, s = a.s.I, a.s
        n = 4
        bs = [s.sym(f"b{i}", None, "not") for i in range(n)]
        given = [0]
        g = s.sym("GEN", None, "not")

        def nxt(I, recv, args, kw, st, fr, node):
            if recv is not g:
                return None
            if given[0] >= n:
                raise Dead()
            given[0] += 1
            return bs[given[0] - 1]

        I.method_stubs = {"__next__": nxt}
        I.ext_stubs = {"builtins.next": lambda I, args, kw, st, fr, node: nxt(I, args[0], args, kw, st, fr, node) if args else None}
        o = s.new(c, **{ps[0][0]: g})
        f = c.lookup("__next__")[1]
        got, end = [], False
        for i in range(n + 1):
            try:
                got.append(s.call(o, "__next__"))
            except Dead:
                end = True
                break
        ctx.absorb(s)
        if any(x is not None and x.k != "sym" for x in got):
            ctx.undec(f"{c.name}:elements", "the elements handed out depend on undecided state")
            continue
        ctx.ob(f"{c.name}:elements", got == bs and end, f.qual, f"of b0..b{n - 1} it hands out {[show(x, 1) if x is not None else None for x in got]}" + ("" if end else " and goes on"))


def run(ctx):
    P = ctx.P
    ls = loader_classes(P)
    items = [(k, c.qual) for k in ls for c in ls[k]]
    ctx.need("loader classes", len(items), 6)
    nb = 3 if ctx.tier == "quick" else 4
    jobs = [(loaders, i) for i in items]
    for fn, m in ((split, "split"), (chop, "chop")):
        cs = [(k, c.qual, nb) for k in ls for c in ls[k] if isinstance(c.lookup(m)[1], FuncInfo)]
        ctx.need(f"classes with {m}", len(cs), 3)
        jobs += [(fn, i) for i in cs]
    for c in ls["data"]:
        if isinstance(c.lookup("from_inputs_loaders")[1], FuncInfo):
            jobs += [(merged, (h, c.qual, n)) for h in ("interpose", "concatenate") for n in ((2, 1), (1, 2), (2, 0, 1))]
    jobs.append((joined, None))
    jobs.append((prefetched, None))
    base = P.cls("HuggingFaceClassificationDatasetABC")
    ds = [c.qual for c in P.classes.values() if base in c.mro and c is not base]
    ctx.need("tokenised datasets", len(ds), 3)
    jobs += [(datasets, q) for q in ds]
    ctx.pmap(one, jobs)


def one(ctx, job):
    fn, it = job
    fn(ctx, it)
