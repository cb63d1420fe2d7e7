"""Models of builtins and of the few library combinators that call back into the
repository (jax transformations, functools.partial, tree_map, TrainState ...)."""
from __future__ import annotations

from .program import ClassInfo, FuncInfo
from .values import *  # noqa

JIT = {"jax.jit", "jax.api.jit"}
MAPS = {"jax.vmap", "jax.pmap", "jax.jit", "jax.checkpoint", "jax.remat"}
GRADS = {"jax.value_and_grad", "jax.grad", "jax.jacfwd", "jax.jacrev", "jax.hessian"}
TREE_MAPS = {"jax.tree_util.tree_map", "jax.tree_map", "jax.tree.map", "flax.traverse_util.path_aware_map", "jax.tree_util.tree_multimap", "jax.tree_util.tree_map_with_path"}
ALIASING = {
    # results may share memory with (or be) their first operand
    "numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.expand_dims", "numpy.swapaxes", "numpy.moveaxis", "numpy.asanyarray", "numpy.ascontiguousarray",
    ".reshape", ".ravel", ".squeeze", ".transpose", ".view", ".swapaxes",
}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "popitem", "fill", "put", "itemset", "resize", "setflags"}


def is_callable_val(v):
    return v.k in ("func", "bound", "partial", "xform")


def escape_callables(I, args, kw, st, fr, node):
    """analyse repository callables handed to opaque code."""
    from .interp import Dead

    res = []
    for v in list(args) + [x for _, x in kw]:
        for m in members(v):
            if m.k in ("func", "bound", "partial", "xform"):
                r = invoke_opaque(I, m, st, fr, node)
                if r is not None:
                    res.append(r)
    return res


def arity(I, m):
    """number of required positional params of a callable (excluding bound)."""
    skip = 0
    kwset = set()
    while True:
        if m.k == "bound":
            skip += 1
            m = m.a[0]
        elif m.k == "partial":
            skip += len(m.a[1])
            kwset |= {k for k, _ in m.a[2]}
            m = m.a[0]
        elif m.k == "xform":
            m = m.a[1]
        else:
            break
        if m.k == "phi":
            return None
    if m.k != "func":
        return None
    f, frame, dfl = I.funcs[m]
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd] if nd else pos
    return [p for p in req[skip:] if p not in kwset], f


def invoke_opaque(I, m, st, fr, node):
    from .interp import Dead

    r = arity(I, m)
    if r is None:
        return None
    ps, f = r
    if any(s[3] is f for s in fr.stack):
        return None
    s = st.fork()
    try:
        v = I.call(m, [app("cbarg:" + f.qual + ":" + p) for p in ps], [], s, fr, node)
    except Dead:
        return None
    w = {k: x for k, x in s.flat(st).items() if k[0] not in ("t", "n", "done")}
    I.merge_into(st, [w, {}], drop_undef_vars=True)
    return v


def map_elem(I, v, st, depth=0):
    """per-lane view of a mapped argument."""
    if v.k == "tuple":
        return tup([map_elem(I, x, st) for x in v.a[0]])
    if v.k == "const":
        return v
    if v.k == "obj" and not I.is_container(v):
        return v
    if I.is_container(v):
        ct = I.content(v, st)
        if ct is None or depth > 3:
            return mk("elem", v)
        if ct.k == "seq":
            return I.new_list([map_elem(I, x, st, depth + 1) for x in ct.a[0]], st)
        if ct.k == "map":
            return I.new_dict([(k, map_elem(I, x, st, depth + 1)) for k, x in ct.a[0] if x is not UNDEF], st, ct.a[1])
        return v
    if v.k == "phi":
        return phi([map_elem(I, x, st) if x is not UNDEF else x for x in v.a[0]])
    if v.k in ("func", "class", "bound", "partial"):
        return v
    return mk("lane", v)


def batched(I, v, st, src=()):
    if v.k == "tuple":
        return tup([batched(I, x, st, src) for x in v.a[0]])
    if v.k == "const":
        return v
    if v.k == "obj":
        if getattr(I, "batch_dicts", False) and I.is_container(v):
            ct = I.content(v, st)
            if ct is not None and ct.k == "map":
                return I.new_dict([(k, batched(I, x, st, src)) for k, x in ct.a[0] if x is not UNDEF], st, ct.a[1])
        return v
    if v.k == "phi":
        return phi([batched(I, x, st, src) for x in v.a[0]])
    if v.k == "lane":
        return v.a[0]
    r = app("batched", (v,))
    t = getattr(I, "batch_src", None)
    if t is not None and src:
        t.setdefault(r, set()).add(tuple(I.models.reify(I, x, st, 6) for x in src))
    return r


def call_xform(I, fv, args, kw, st, fr, node):
    kind, f, xa, xk = fv.a
    xk = dict(xk)
    if kind in ("jit", "checkpoint", "remat", "named_call", "wraps"):
        return I.call(f, args, kw, st, fr, node)
    if kind == "pmap" and getattr(I, "one_device", False):
        return I.call(f, args, kw, st, fr, node)  # the point of view of one of the devices
    if kind in ("vmap", "pmap"):
        in_axes = xk.get("in_axes") or (xa[0] if xa else None)
        I.emit("xcall", kind, st, fr, node, target=f, args=args, kw=kw, extra=xk)
        spec = None
        if in_axes is not None and in_axes.k == "tuple":
            spec = list(in_axes.a[0])
        static = xk.get("static_broadcasted_argnums")
        sidx = set()
        if static is not None:
            if static.k == "const":
                sidx = {static.a[0]}
            elif static.k == "tuple":
                sidx = {x.a[0] for x in static.a[0] if x.k == "const"}
        a2, src = [], [x for _, x in kw]
        for i, x in enumerate(args):
            if (spec is not None and i < len(spec) and spec[i] is NONE) or i in sidx:
                a2.append(x)
            else:
                src.append(x)
                a2.append(map_elem(I, x, st))
        k2 = [(n, map_elem(I, x, st)) for n, x in kw]
        r = I.call(f, a2, k2, st, fr, node)
        return batched(I, r, st, src)
    if kind in ("value_and_grad", "grad"):
        has_aux = xk.get("has_aux")
        I.emit("xcall", kind, st, fr, node, target=f, args=args, kw=kw, extra=xk)
        r = I.call(f, args, kw, st, fr, node)
        if has_aux is not None and I.truth(has_aux, st) is True:
            loss = I.unpack(r, 0, 2, st, fr, node)
        else:
            loss = r
        g = app("grad", (loss,) + tuple(args[:1]))
        if kind == "value_and_grad":
            return tup((r, g))
        if has_aux is not None and I.truth(has_aux, st) is True:
            return tup((g, I.unpack(r, 1, 2, st, fr, node)))
        return g
    if kind == "dyn_value_and_grad":
        recv = xa[0]
        has_aux = xk.get("has_aux")
        I.emit("xcall", kind, st, fr, node, target=f, args=args, kw=kw, extra=xk)
        r = I.call(f, args, kw, st, fr, node)
        loss = r
        if has_aux is not None and I.truth(has_aux, st) is True:
            loss = I.unpack(r, 0, 2, st, fr, node)
        g = app("grad", (loss,) + tuple(args[:1]))
        ax = xk.get("axis_name")
        if ax is not None and ax is not NONE:
            g = app("jax.lax.pmean", (g,), (("axis_name", ax),))
        return tup((app("dyn_scale", (recv,)), app("is_finite", (recv, loss)), r, g))
    if kind in ("jacfwd", "jacrev", "hessian"):
        r = I.call(f, args, kw, st, fr, node)
        return app(kind, (r,) + tuple(args[:1]))
    return app("xform:" + kind, (f,) + tuple(args), kw)


def const_str(v):
    return v.a[0] if v.k == "const" and isinstance(v.a[0], str) else None


NUMERIC = ("jax.random.", "jax.numpy.", "jax.scipy.", "numpy.", "jax.nn.", "optax.")
NONE_OK = {"numpy.array", "numpy.asarray", "jax.numpy.array", "jax.numpy.asarray", "numpy.isscalar", "numpy.ndim", "numpy.random.seed", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.object_", "numpy.savez", "numpy.iterable"}


def call_ext(I, name, args, kw, st, fr, node):
    hook = getattr(I, "ext_stubs", None)
    if hook and name in hook:
        r = hook[name](I, args, kw, st, fr, node)
        if r is not None:
            return r
    from .interp import Dead

    kwd = dict((k, v) for k, v in kw if k != "**")
    short = name.split(".")[-1]
    if name == "builtins.object.__init__":
        return NONE
    if name == "importlib.import_module" and args and const_str(args[0]):
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        return I.entity_val(("mod", const_str(args[0])))
    if name.startswith("builtins."):
        return call_builtin(I, short, args, kw, st, fr, node)
    if name.startswith(NUMERIC) and name not in NONE_OK:
        # a missing value as the operand of a numerical function
        x = args[0] if args else next((kwd[k] for k in ("key", "a", "x") if k in kwd), None)
        if x is not None and x.k != "phi" and x.k != "app" and I.nullness(x, st) == "none":
            I.emit("null_deref", "<argument of " + name + ">", st, fr, node, target=x)
            raise Dead()
    if name in ("functools.partial",):
        ev = I.emit("ext", name, st, fr, node, args=args, kw=kw)
        f = args[0]
        if f.k == "ext" and f.a[0] in MAPS | GRADS:
            return mk("partial", f, tuple(args[1:]), tuple(kw))
        if f.k == "phi":
            return phi([mk("partial", m, tuple(args[1:]), tuple(kw)) for m in f.a[0]])
        return mk("partial", f, tuple(args[1:]), tuple(kw))
    if name in MAPS or name in GRADS:
        kind = short
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        if not args:
            f = kwd.get("fun") or kwd.get("f")
            if f is None:
                return mk("partial", ext(name), (), tuple(kw))
            rest = []
        else:
            f, rest = args[0], args[1:]
        if f.k == "func" and kind == "jit":
            I.jitted = getattr(I, "jitted", {})
            I.jitted[f] = (tuple(rest), tuple(kw))
        if f.k == "phi":
            return phi([mk("xform", kind, m, tuple(rest), tuple(kw)) for m in f.a[0]])
        return mk("xform", kind, f, tuple(rest), tuple(kw))
    if name in ("functools.wraps", "transformers.utils.add_start_docstrings"):
        return mk("xform", "wraps_deco", ext(name), (), ())
    if name in TREE_MAPS:
        ev = I.emit("ext", name, st, fr, node, args=args, kw=kw)
        f = args[0]
        if is_callable_val(f):
            leaf = [leaf_of(I, x, st) for x in args[1:]]
            if name.endswith(("path_aware_map", "with_path")):
                leaf = [app("treepath", (args[1],))] + leaf
            s = st.fork()
            try:
                r = I.call(f, leaf, [], s, fr, node)
                I.merge_into(st, [s.flat(st)])
                return app("tree", (r,) + tuple(args[1:2]))
            except Dead:
                return app("tree", tuple(args[1:]))
        return app(name, args, kw)
    if name == "jax.lax.scan":
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        f = args[0] if args else kwd["f"]
        init = args[1] if len(args) > 1 else kwd.get("init", NONE)
        xs = args[2] if len(args) > 2 else kwd.get("xs", NONE)
        if getattr(I, "folds", False) and xs is not NONE and xs.k not in ("tuple", "ref", "phi"):
            I.folds += 1
            n = I.folds
            hi = app("builtins.len", [xs])
            i = app("loopidx", (const(0), hi))
            inits = list(init.a[0]) if init.k == "tuple" else [init]
            cs = [I.sym(f"<carry{n}.{j}>", None, "not") for j in range(len(inits))]
            r = I.call(f, [tup(cs) if init.k == "tuple" else cs[0], mk("item", xs, i)], [], st, fr, node)
            c, y = I.unpack(r, 0, 2, st, fr, node), I.unpack(r, 1, 2, st, fr, node)
            rs = list(c.a[0]) if c.k == "tuple" else [c]
            if len(rs) == len(cs):
                out = [app("fold", (const(0), hi, a, i, cc, b)) for a, cc, b in zip(inits, cs, rs)]
                return tup((tup(out) if init.k == "tuple" else out[0], batched(I, y, st, (xs,))))
        x = map_elem(I, xs, st) if xs is not NONE else NONE
        r = I.call(f, [init, x], [], st, fr, node)
        c, y = I.unpack(r, 0, 2, st, fr, node), I.unpack(r, 1, 2, st, fr, node)
        r2 = I.call(f, [phi((init, c)), x], [], st, fr, node)
        c2, y2 = I.unpack(r2, 0, 2, st, fr, node), I.unpack(r2, 1, 2, st, fr, node)
        return tup((phi((c, c2)), batched(I, phi((y, y2)), st)))
    if name == "jax.lax.fori_loop":
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        lo, hi, f, init = (args + [NONE] * 4)[:4]
        i = app("loopidx", (lo, hi))
        if getattr(I, "folds", False):
            # running quantities as explicit folds: fold(lo, hi, init, index, carry, next)
            I.folds += 1
            n = I.folds
            inits = list(init.a[0]) if init.k == "tuple" else [init]
            cs = [I.sym(f"<carry{n}.{j}>", None, "not") for j in range(len(inits))]
            r = I.call(f, [i, tup(cs) if init.k == "tuple" else cs[0]], [], st, fr, node)
            rs = list(r.a[0]) if r.k == "tuple" else [r]
            if len(rs) == len(cs):
                out = [app("fold", (lo, hi, a, i, c, b)) for a, c, b in zip(inits, cs, rs)]
                return tup(out) if init.k == "tuple" else out[0]
        r = I.call(f, [i, init], [], st, fr, node)
        return I.call(f, [i, phi((init, r))], [], st, fr, node)
    if name == "jax.lax.while_loop":
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        c, f, init = args[0], args[1], args[2]
        I.call(c, [init], [], st, fr, node)
        r = I.call(f, [init], [], st, fr, node)
        I.call(c, [phi((init, r))], [], st, fr, node)
        return phi((init, r, I.call(f, [phi((init, r))], [], st, fr, node)))
    if name == "jax.lax.cond":
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        p, a, b = args[:3]
        ops = args[3:]
        vals, outs = [], []
        for pol, g in ((True, a), (False, b)):
            s = st.fork()
            s.conds = st.conds + ((p, pol),)
            try:
                vals.append(I.call(g, list(ops), [], s, fr, node))
                outs.append({k: x for k, x in s.flat(st).items() if k[0] not in ("t", "n")})
            except Dead:
                pass
        if not outs:
            raise Dead()
        I.merge_into(st, outs)
        return phi(vals)
    if name == "jax.lax.map":
        r = I.call(args[0], [map_elem(I, args[1], st)], [], st, fr, node)
        return batched(I, r, st, (args[1],))
    if name in ("copy.deepcopy", "copy.copy"):
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        return deep_copy(I, args[0], st, deep=name.endswith("deepcopy"))
    if name in ("functools.reduce",) and is_callable_val(args[0]):
        e = I.elem(args[1], st, fr, node)
        try:
            return phi([e, I.call(args[0], [e, e], [], st, fr, node)])
        except Dead:
            return e
    if short in ("freeze", "unfreeze", "FrozenDict") and name.startswith("flax.") and args:
        # keep the mapping structure visible; always a new container
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        a = args[0]
        if I.is_container(a) or a.k == "phi":
            outs = []
            for m in members(a):
                if I.is_container(m) and I.content(m, st) is not None:
                    outs.append(I.new_obj(I.objcls[m], st, content=I.content(m, st)))
                else:
                    outs.append(app(name, (m,)))
            return phi(outs)
        return app(name, args, kw)
    if name == "flax.struct.dataclass" and args:
        return args[0]
    if name == "flax.training.train_state.TrainState.create" or (short == "create" and "TrainState" in name):
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        return app(name, args, kw)
    if name == "itertools.chain" or name.startswith("itertools."):
        I.emit("ext", name, st, fr, node, args=args, kw=kw)
        if short == "chain":
            es = [I.elem(a, st, fr, node) for a in args]
            return I.new_list_sum(phi([e for e in es if e is not UNDEF] or [UNDEF]), st)
        if short == "chain.from_iterable":
            return I.new_list_sum(I.elem(I.elem(args[0], st, fr, node), st, fr, node), st)
        return app(name, args, kw)
    ev = I.emit("ext", name, st, fr, node, args=args, kw=kw)
    res = escape_callables(I, args, kw, st, fr, node)
    r = app(name, args, kw)
    if res:
        r = app(name, list(args) + [app("cbres", res)], kw)
    ev.result = r
    st.set(("done", name), TRUE)
    return r


def leaf_of(I, v, st):
    if v.k == "obj" and not I.is_container(v):
        return v
    if I.is_container(v):
        return mk("leaf", reify(I, v, st, 4))
    if v.k == "phi":
        return phi([leaf_of(I, x, st) for x in v.a[0] if x is not UNDEF])
    return mk("leaf", v)


def deep_copy(I, v, st, deep=True, depth=0):
    if v.k == "phi":
        return phi([deep_copy(I, m, st, deep, depth) for m in v.a[0]])
    if v.k in ("const", "func", "class", "ext", "mod", "enum"):
        return v
    if v.k == "tuple":
        return tup([deep_copy(I, x, st, deep, depth + 1) for x in v.a[0]]) if deep else v
    if v.k == "obj" and depth < 4:
        c = I.objcls[v]
        if isinstance(c, str):
            ct = I.content(v, st)
            nv = I.new_obj(c, st)
            if ct is not None:
                cp = (lambda x: deep_copy(I, x, st, True, depth + 1)) if deep else (lambda x: x)
                if ct.k == "seq":
                    ct = mk("seq", tuple(cp(x) for x in ct.a[0]))
                elif ct.k == "seqsum":
                    ct = mk("seqsum", cp(ct.a[0]))
                elif ct.k == "map":
                    ct = mk("map", tuple((k, cp(x)) for k, x in ct.a[0]), ct.a[1])
                st.set(("c", nv), ct)
            return nv
        nv = I.new_obj(c, st)
        for k, x in obj_fields(I, v, st).items():
            st.set(("f", nv, k), deep_copy(I, x, st, True, depth + 1) if deep else x)
        return nv
    r = app("deepcopy" if deep else "copy", (v,))
    if v in I.types:
        I.types[r] = I.types[v]
    if v in I.null:
        I.null[r] = I.null[v]
    return r


def obj_fields(I, v, st):
    out = {}
    for n in I.FIELDS.get(v, ()):
        x = st.get(("f", v, n))
        if x is not None:
            out[n] = x
    return out


def reify(I, v, st, depth=5, _seen=()):
    """replace heap objects by their current contents, for provenance queries."""
    if depth <= 0:
        return v
    k = v.k
    if k == "obj":
        if v in _seen:
            return v
        c = I.objcls[v]
        s2 = _seen + (v,)
        if isinstance(c, str):
            ct = I.content(v, st)
            if ct is None:
                return v
            if ct.k == "seq":
                return mk("rlist", tuple(reify(I, x, st, depth - 1, s2) for x in ct.a[0]))
            if ct.k == "seqsum":
                return mk("rsum", reify(I, ct.a[0], st, depth - 1, s2))
            return mk("rmap", tuple((kk, reify(I, x, st, depth - 1, s2)) for kk, x in ct.a[0]), reify(I, ct.a[1], st, depth - 1, s2))
        fs = obj_fields(I, v, st)
        return mk("rec", c.qual, tuple(sorted(((n, reify(I, x, st, depth - 1, s2)) for n, x in fs.items()), key=lambda p: p[0])))
    if k == "tuple":
        return tup([reify(I, x, st, depth - 1, _seen) for x in v.a[0]])
    if k == "phi":
        return phi([reify(I, x, st, depth - 1, _seen) for x in v.a[0]])
    if k == "app":
        return mk("app", v.a[0] if not isinstance(v.a[0], V) else reify(I, v.a[0], st, depth - 1, _seen), tuple(reify(I, x, st, depth - 1, _seen) for x in v.a[1]), tuple((n, reify(I, x, st, depth - 1, _seen)) for n, x in v.a[2]))
    if k == "bound":
        return mk("bound", v.a[0], reify(I, v.a[1], st, depth - 2, _seen))
    if k == "partial":
        return mk("partial", reify(I, v.a[0], st, depth - 1, _seen), tuple(reify(I, x, st, depth - 1, _seen) for x in v.a[1]), tuple((n, reify(I, x, st, depth - 1, _seen)) for n, x in v.a[2]))
    if k in ("item", "elem", "leaf", "lane"):
        return mk(k, *[reify(I, x, st, depth - 1, _seen) if isinstance(x, V) else x for x in v.a])
    if k == "attr":
        return mk("attr", reify(I, v.a[0], st, depth - 1, _seen), v.a[1])
    return v


def call_builtin(I, n, args, kw, st, fr, node):
    from .interp import Dead

    kwd = dict(kw)
    a0 = args[0] if args else None
    if n == "isinstance":
        return do_isinstance(I, args[0], args[1], st)
    if n == "issubclass":
        if args[0].k == "class" and args[1].k == "class":
            return const(I.P.classes[args[1].a[0]] in I.P.classes[args[0].a[0]].mro)
        return app("issubclass", args)
    if n == "hasattr":
        if a0.k == "phi":
            rs = {call_builtin(I, n, [m] + args[1:], kw, st, fr, node) for m in a0.a[0] if m is not UNDEF}
            if len(rs) == 1:
                return rs.pop()
            return app("hasattr", args)
        nm = const_str(args[1])
        c = I.cls_of(a0)
        if nm and c is not None and a0.k == "obj":
            f = st.get(("f", a0, nm))
            if f is not None and f is not UNDEF and not (f.k == "phi" and UNDEF in f.a[0]):
                return TRUE
            if c.lookup(nm)[1] is not None:
                return TRUE
            if not c.ext_bases() and (f is None or f is UNDEF):
                return FALSE
        if a0 is NONE:
            return FALSE
        return app("hasattr", args)
    if n == "getattr":
        nm = const_str(args[1]) if len(args) > 1 else None
        if nm is not None:
            if len(args) > 2:
                c = I.cls_of(a0)
                f = st.get(("f", a0, nm))
                if f is not None and f is not UNDEF:
                    return f
                if c is not None and a0.k == "obj" and c.lookup(nm)[1] is None and not c.ext_bases():
                    return args[2]
                return phi([I.attr(a0, nm, st, fr, node, quiet=True), args[2]])
            return I.attr(a0, nm, st, fr, node)
        return app("getattr", args)
    if n == "setattr":
        nm = const_str(args[1])
        if nm is not None:
            I.store_attr(a0, nm, args[2], st, fr, node)
        else:
            I.emit("setattr", "?", st, fr, node, target=a0, args=(args[2],))
        return NONE
    if n == "type":
        if len(args) == 1:
            if a0.k == "phi":
                return phi([call_builtin(I, n, [m], kw, st, fr, node) for m in a0.a[0] if m is not UNDEF])
            c = I.cls_of(a0)
            if c is not None and a0.k == "obj":
                return I.class_val(c)
            if I.is_container(a0):
                return ext("builtins." + I.objcls[a0])
            if a0.k == "const":
                return ext("builtins." + type(a0.a[0]).__name__)
        return app("type", args)
    if n == "len":
        if a0 is not None:
            if I.nullness(a0, st) == "none":
                I.emit("null_deref", "<len>", st, fr, node, target=a0)
                raise Dead()
            if a0.k == "phi" and any(m is NONE for m in a0.a[0]):
                I.emit("null_deref_maybe", "<len>", st, fr, node, target=a0)
            ex = I.exact(a0, st) if a0.k != "phi" else None
            if ex is not None:
                return const(len(ex))
            c = I.cls_of(a0)
            if c is not None:
                d, r = c.lookup("__len__")
                if isinstance(r, FuncInfo):
                    return I.call_func(r, None, [a0], [], st, fr, node, selfv=a0)
        return app("len", args)
    if n == "range":
        for a in args:
            if I.nullness(a, st) == "none":
                I.emit("null_deref", "<range>", st, fr, node, target=a)
                raise Dead()
        return app("range", args)
    if n in ("list", "tuple", "set", "sorted", "reversed", "iter", "frozenset"):
        if a0 is None:
            return tup(()) if n == "tuple" else I.new_list((), st, "set" if n in ("set", "frozenset") else "list")
        if n == "iter":
            c = I.cls_of(a0)
            if c is not None and isinstance(c.lookup("__iter__")[1], FuncInfo):
                return I.call(I.attr(a0, "__iter__", st, fr, node), [], [], st, fr, node)
            return a0
        if "key" in kwd and is_callable_val(kwd["key"]):
            try:
                I.call(kwd["key"], [I.elem(a0, st, fr, node)], [], st.fork(), fr, node)
            except Dead:
                pass
        ex = I.exact(a0, st) if a0.k != "phi" else None
        if ex is not None:
            if n == "reversed":
                ex = list(reversed(ex))
            if n == "tuple":
                return tup(ex)
            if n == "sorted" and not all(x.k == "const" for x in ex):
                return I.new_list_sum(phi(ex) if ex else UNDEF, st)
            if n == "sorted":
                try:
                    ex = sorted(ex, key=lambda x: x.a[0])
                except TypeError:
                    pass
            return I.new_list(ex, st, "set" if n in ("set", "frozenset") else "list")
        e = I.elem(a0, st, fr, node)
        return I.new_list_sum(e, st, "set" if n in ("set", "frozenset") else "list")
    if n == "dict":
        pairs = {}
        rest = UNDEF
        if a0 is not None:
            outs = []
            if I.is_container(a0) and I.content(a0, st) is not None and I.content(a0, st).k == "map":
                ct = I.content(a0, st)
                pairs.update(dict(ct.a[0]))
                rest = ct.a[1]
            else:
                rest = app("dictcopy", (a0,))
        for k, v in kw:
            if k == "**":
                rest = v if rest is UNDEF else phi((rest, v))
            else:
                pairs[const(k)] = v
        return I.new_dict(pairs.items(), st, rest)
    if n == "zip":
        exs = [I.exact(a, st) if a.k != "phi" else None for a in args]
        if args and all(e is not None for e in exs):
            return I.new_list([tup(t) for t in zip(*exs)], st)
        if I.equal_zip and any(e is not None for e in exs) and not any(a.k == "star" for a in args):
            # iterables known to have the same length
            n0 = min(len(e) for e in exs if e is not None)
            el = [None if e is not None else I.elem(a, st, fr, node) for a, e in zip(args, exs)]
            if not any(e is UNDEF for e in el):
                return I.new_list([tup([e[i] if e is not None else x for e, x in zip(exs, el)]) for i in range(n0)], st)
        es = []
        for a in args:
            if a.k == "star":
                return app("zip", args)
            es.append(I.elem(a, st, fr, node))
        if any(e is UNDEF for e in es):
            return I.new_list((), st)
        return I.new_list_sum(tup(es), st)
    if n == "enumerate":
        ex = I.exact(a0, st) if a0.k != "phi" else None
        if ex is not None:
            start = args[1] if len(args) > 1 else kwd.get("start", const(0))
            if start.k == "const":
                return I.new_list([tup((const(i + start.a[0]), x)) for i, x in enumerate(ex)], st)
        e = I.elem(a0, st, fr, node)
        if e is UNDEF:
            return I.new_list((), st)
        return I.new_list_sum(tup((app("idx", (a0,)), e)), st)
    if n == "map":
        es = [I.elem(a, st, fr, node) for a in args[1:]]
        if any(e is UNDEF for e in es):
            return I.new_list((), st)
        return I.new_list_sum(I.call(args[0], es, [], st, fr, node), st)
    if n == "filter":
        e = I.elem(args[1], st, fr, node)
        if is_callable_val(args[0]) and e is not UNDEF:
            I.call(args[0], [e], [], st.fork(), fr, node)
        return I.new_list_sum(e, st)
    if n == "next":
        I.emit("next", "next", st, fr, node, target=a0)
        c = I.cls_of(a0)
        if c is not None:
            d, r = c.lookup("__next__")
            if isinstance(r, FuncInfo):
                return I.call_func(r, None, [a0], [], st, fr, node, selfv=a0)
        e = I.elem(a0, st, fr, node)
        if len(args) > 1:
            return phi([e, args[1]])
        if e is UNDEF:
            return app("next", args)
        return e
    if n == "callable":
        if is_callable_val(a0) or a0.k in ("class",):
            return TRUE
        if a0.k == "const":
            return FALSE
        return app("callable", args)
    if n == "bool":
        t = I.truth(a0, st)
        return const(t) if t is not None else app("not", (app("not", (a0,)),)) if False else app("bool", args)
    if n in ("str", "repr") and a0 is not None:
        if a0.k == "phi":
            return phi([call_builtin(I, n, [m], kw, st, fr, node) for m in a0.a[0] if m is not UNDEF])
        c = I.cls_of(a0)
        if c is not None and isinstance(c.lookup("__str__")[1], FuncInfo):
            return I.call_func(c.lookup("__str__")[1], None, [a0], [], st, fr, node, selfv=a0)
    if n in ("str", "int", "float") and a0 is not None and a0.k == "const":
        try:
            return const({"str": str, "int": int, "float": float}[n](a0.a[0]))
        except Exception:
            pass
    if n in ("sum", "min", "max", "any", "all"):
        for a in args[:1]:
            if I.nullness(a, st) == "none":
                I.emit("null_deref", "<" + n + ">", st, fr, node, target=a)
                raise Dead()
        I.emit("ext", "builtins." + n, st, fr, node, args=args, kw=kw)
        if n in ("any", "all") and a0 is not None:
            ex = I.exact(a0, st) if a0.k != "phi" else None
            if ex is not None:
                ts = [I.truth(x, st) for x in ex]
                if n == "any":
                    return TRUE if any(t is True for t in ts) else (FALSE if all(t is False for t in ts) else app("or", ex) if ex else FALSE)
                return FALSE if any(t is False for t in ts) else (TRUE if all(t is True for t in ts) else app("and", ex))
        if n == "sum" and len(args) == 1 and not kw and a0.k != "phi":
            ex = I.exact(a0, st)
            if ex is not None and all(x.k == "const" and isinstance(x.a[0], (int, float)) for x in ex):
                return const(sum(x.a[0] for x in ex))
        return app(n, [reify(I, a, st, 4) for a in args], kw)
    if n == "super":
        return app("super")
    if n == "vars" and a0 is not None:
        fs = obj_fields(I, a0, st) if a0.k == "obj" else None
        if fs is not None:
            return I.new_dict([(const(k), v) for k, v in fs.items()], st)
    I.emit("ext", "builtins." + n, st, fr, node, args=args, kw=kw)
    if n in ("print", "id", "repr", "hash"):
        return app(n, args) if n != "print" else NONE
    escape_callables(I, args, kw, st, fr, node)
    return app(n if n[0].islower() else "builtins." + n, args, kw)


_TYPES = {"list": "list", "dict": "dict", "set": "set"}


def do_isinstance(I, v, t, st):
    if v.k == "phi":
        rs = {do_isinstance(I, m, t, st) for m in v.a[0] if m is not UNDEF}
        return rs.pop() if len(rs) == 1 else app("isinstance", (v, t))
    ts = t.a[0] if t.k == "tuple" else (t,)
    if t.k == "obj":
        return app("isinstance", (v, t))
    f = st.get(("t", app("isinstance", (v, t))))
    if f is not None:
        return f
    c = I.cls_of(v)
    res = []
    for x in ts:
        r = None
        if x.k == "class":
            tc = I.P.classes[x.a[0]]
            if c is not None:
                if tc in c.mro:
                    r = True
                elif v.k == "obj":
                    r = False
            elif v.k in ("const", "tuple", "func", "class") or I.is_container(v):
                r = False
        elif x.k == "ext":
            nm = x.a[0]
            if v.k == "const":
                py = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool, "builtins.list": list, "builtins.tuple": tuple, "builtins.dict": dict}.get(nm)
                if py is not None:
                    r = isinstance(v.a[0], py)
                elif v.a[0] is None:
                    r = False
            elif v.k == "tuple":
                r = nm == "builtins.tuple" if nm.startswith("builtins.") else None
            elif I.is_container(v):
                if nm.startswith("builtins."):
                    r = nm == "builtins." + I.objcls[v]
            elif v.k == "obj" and c is not None:
                tail = nm.split(".")[-1]
                ebs = [b for b in c.mro if isinstance(b, str)]
                if any(b == nm or b.split(".")[-1] == tail for b in ebs):
                    r = True
                elif not any("?" in b for b in ebs):
                    r = False
            elif v in I.exttypes if hasattr(I, "exttypes") else False:
                et = I.exttypes[v]
                r = True if et == nm else None
        res.append(r)
    if any(r is True for r in res):
        return TRUE
    if all(r is False for r in res):
        return FALSE
    return app("isinstance", (v, t))


def ground(k):
    """a constant key, or a tuple of them."""
    return k.k == "const" or (k.k == "tuple" and all(ground(x) for x in k.a[0]))


def call_bmeth(I, recv, name, args, kw, st, fr, node):
    hook = getattr(I, "method_stubs", None)
    if hook and name in hook:
        r = hook[name](I, recv, args, kw, st, fr, node)
        if r is not None:
            return r
    """method of a builtin container / constant / tuple."""
    from .interp import Dead

    kwd = dict(kw)
    if recv.k == "const" and isinstance(recv.a[0], str):
        I.emit("strmeth", name, st, fr, node, target=recv, args=args, kw=kw)
        if name == "format":
            return app("fstr", [recv] + list(args) + [v for _, v in kw])
        if all(a.k == "const" for a in args) and not kw and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split"):
            try:
                r = getattr(recv.a[0], name)(*[a.a[0] for a in args])
                return const(r) if not isinstance(r, list) else I.new_list([const(x) for x in r], st)
            except Exception:
                pass
        if name == "join":
            return app("fstr", [recv] + list(args))
        return app("." + name, [recv] + list(args), kw)
    if not I.is_container(recv):
        return app("." + name, [recv] + list(args), kw)
    ct = I.content(recv, st)
    kind = I.objcls[recv]
    if name in MUTATORS:
        I.emit("mutcall", name, st, fr, node, target=recv, args=args, kw=kw)
    if ct is None:
        return app("." + name, [recv] + list(args), kw)
    if ct.k in ("seq", "seqsum"):
        if name in ("append", "add"):
            if ct.k == "seq":
                st.set(("c", recv), mk("seq", ct.a[0] + (args[0],)) if len(ct.a[0]) < 40 else mk("seqsum", phi(ct.a[0] + (args[0],))))
            else:
                st.set(("c", recv), mk("seqsum", args[0] if ct.a[0] is UNDEF else phi((ct.a[0], args[0]))))
            return NONE
        if name == "extend":
            ex = I.exact(args[0], st) if args[0].k != "phi" else None
            if ex is not None and ct.k == "seq":
                st.set(("c", recv), mk("seq", ct.a[0] + tuple(ex)))
            else:
                e = I.elem(args[0], st, fr, node)
                allv = list(ct.a[0] if ct.k == "seq" else [ct.a[0]]) + [e]
                allv = [x for x in allv if x is not UNDEF]
                st.set(("c", recv), mk("seqsum", phi(allv) if allv else UNDEF))
            return NONE
        if name == "insert":
            if ct.k == "seq" and args[0].k == "const" and isinstance(args[0].a[0], int):
                l = list(ct.a[0])
                l.insert(args[0].a[0], args[1])
                st.set(("c", recv), mk("seq", tuple(l)))
            else:
                allv = [x for x in (list(ct.a[0]) if ct.k == "seq" else [ct.a[0]]) + [args[1]] if x is not UNDEF]
                st.set(("c", recv), mk("seqsum", phi(allv)))
            return NONE
        if name == "pop":
            if ct.k == "seq" and ct.a[0] and (not args or args[0].k == "const"):
                l = list(ct.a[0])
                try:
                    v = l.pop(*[a.a[0] for a in args])
                    st.set(("c", recv), mk("seq", tuple(l)))
                    return v
                except Exception:
                    pass
            return I.elem(recv, st, fr, node)
        if name == "copy":
            return I.new_obj(kind, st, content=ct)
        if name in ("index", "count"):
            return app("." + name, [recv] + list(args))
        if name == "clear":
            st.set(("c", recv), mk("seq", ()))
            return NONE
        return app("." + name, [reify(I, recv, st, 3)] + list(args), kw) if name not in ("sort", "reverse", "remove") else NONE
    # maps
    d = dict(ct.a[0])
    rest = ct.a[1]
    if name == "get":
        key = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        if key in d:
            x = d[key]
            if x.k == "phi" and UNDEF in x.a[0]:
                return phi([m for m in x.a[0] if m is not UNDEF] + [dflt])
            return x
        if rest is UNDEF and key.k == "const" and all(ground(k) for k in d):
            return dflt
        vals = [x for k, x in d.items() if k.k != "const" or key.k != "const"]
        if rest is not UNDEF:
            vals.append(mk("item", rest, key))
        vals = [phi([m for m in members(x) if m is not UNDEF]) for x in vals if x is not UNDEF]
        return phi(vals + [dflt])
    if name == "items":
        if rest is UNDEF and not any(x.k == "phi" and UNDEF in x.a[0] for x in d.values()) and all(ground(k) for k in d):
            return I.new_list([tup((k, x)) for k, x in d.items()], st)
        es = [tup((k, phi([m for m in members(x) if m is not UNDEF]))) for k, x in d.items() if x is not UNDEF]
        if rest is not UNDEF:
            es.append(tup((mk("key", rest), mk("elem", rest))))
        return I.new_list_sum(phi(es) if es else UNDEF, st)
    if name == "keys":
        if rest is UNDEF and all(ground(k) for k in d) and not any(x.k == "phi" and UNDEF in x.a[0] for x in d.values()):
            return I.new_list(list(d), st)
        es = list(d) + ([mk("key", rest)] if rest is not UNDEF else [])
        return I.new_list_sum(phi(es) if es else UNDEF, st)
    if name == "values":
        if rest is UNDEF and all(ground(k) for k in d) and not any(x.k == "phi" and UNDEF in x.a[0] for x in d.values()):
            return I.new_list(list(d.values()), st)
        es = [phi([m for m in members(x) if m is not UNDEF]) for x in d.values() if x is not UNDEF] + ([mk("elem", rest)] if rest is not UNDEF else [])
        return I.new_list_sum(phi(es) if es else UNDEF, st)
    if name == "pop":
        key = args[0]
        v = call_bmeth(I, recv, "get", args, [], st, fr, node) if len(args) > 1 or key in d else I.item(recv, key, st, fr, node)
        if key in d:
            d.pop(key)
            st.set(("c", recv), mk("map", tuple(d.items()), rest))
        return v
    if name == "setdefault":
        key = args[0]
        if key not in d:
            d[key] = args[1] if len(args) > 1 else NONE
            st.set(("c", recv), mk("map", tuple(d.items()), rest))
        return d[key]
    if name == "update":
        for a in args:
            for m in members(a):
                if I.is_container(m) and I.content(m, st) is not None and I.content(m, st).k == "map":
                    c2 = I.content(m, st)
                    for k, x in c2.a[0]:
                        d[k] = x if len(members(a)) == 1 else phi((d.get(k, UNDEF), x))
                    if c2.a[1] is not UNDEF:
                        rest = c2.a[1] if rest is UNDEF else phi((rest, c2.a[1]))
                else:
                    rest = m if rest is UNDEF else phi((rest, m))
        for k, x in kw:
            if k == "**":
                rest = x if rest is UNDEF else phi((rest, x))
            else:
                d[const(k)] = x
        st.set(("c", recv), mk("map", tuple(d.items()), rest))
        return NONE
    if name == "copy":
        # ``copy(add_or_replace)`` of frozen mappings is accepted as well
        for a in args:
            for m in members(a):
                if I.is_container(m) and I.content(m, st) is not None and I.content(m, st).k == "map":
                    c2 = I.content(m, st)
                    d.update(dict(c2.a[0]))
                    if c2.a[1] is not UNDEF:
                        rest = c2.a[1] if rest is UNDEF else phi((rest, c2.a[1]))
        return I.new_obj("dict", st, content=mk("map", tuple(d.items()), rest))
    if name == "unfreeze":
        return I.new_obj("dict", st, content=ct)
    if name == "clear":
        st.set(("c", recv), mk("map", (), UNDEF))
        return NONE
    return app("." + name, [recv] + list(args), kw)


def call_attr(I, recv, name, args, kw, st, fr, node):
    """method call on an opaque receiver (or an external base-class method)."""
    from .interp import Dead

    c = I.cls_of(recv)
    sup = name.startswith("super.")
    nm = name[6:] if sup else name
    kwd = dict(kw)
    if nm in ("init", "update") and recv.k == "app" and recv.a[0] == "optax.GradientTransformation":
        parts = dict(zip(("init", "update"), recv.a[1]))
        parts.update((k, x) for k, x in recv.a[2])
        if nm in parts:
            return I.call(parts[nm], list(args), list(kw), st, fr, node)
    # external TrainState protocol on repository subclasses
    if recv.k == "class":
        rc = I.P.classes[recv.a[0]]
        if nm == "create" and any("TrainState" in b for b in rc.ext_bases()):
            I.emit("ext", "TrainState.create", st, fr, node, target=recv, args=args, kw=kw)
            return make_train_state(I, rc, args, kw, st, fr, node)
        ev = I.emit("ext", f"{rc.name}.{nm}", st, fr, node, target=recv, args=args, kw=kw)
        return app(f"{rc.qual}.{nm}", [recv] + list(args), kw)
    if c is not None:
        if nm == "replace" and c.dataclass_like():
            I.emit("ext", "replace", st, fr, node, target=recv, args=args, kw=kw)
            nv = I.new_obj(c, st)
            src = obj_fields(I, recv, st)
            if recv.k != "obj":
                for n2, ann, dflt, dc in c.all_fields():
                    src.setdefault(n2, mk("attr", recv, n2))
                for n2 in ("params", "opt_state", "step", "tx", "apply_fn"):
                    src.setdefault(n2, mk("attr", recv, n2))
            for k, x in src.items():
                st.set(("f", nv, k), x)
            openr = None
            for k, x in kw:
                if k == "**":
                    openr = x
                else:
                    st.set(("f", nv, k), x)
            if openr is not None:
                st.set(("f", nv, "**"), openr)
            return nv
        if nm == "apply_gradients" and any("TrainState" in b for b in c.ext_bases()):
            ev = I.emit("ext", "apply_gradients", st, fr, node, target=recv, args=args, kw=kw)
            nv = I.new_obj(c, st)
            src = obj_fields(I, recv, st)
            if recv.k != "obj":
                for n2, ann, dflt, dc in c.all_fields():
                    src.setdefault(n2, mk("attr", recv, n2))
            for k, x in src.items():
                st.set(("f", nv, k), x)
            g = kwd.get("grads") or (args[0] if args else NONE)

            def fld(n2):
                return src.get(n2, mk("attr", recv, n2))

            step = getattr(I, "gradient_step", None)
            new = step(I, fld("params"), g, fld("opt_state"), fld("tx"), st, fr, node) if step else None
            st.set(("f", nv, "params"), new if new is not None else app("apply_gradients", (fld("params"), g, fld("opt_state"), fld("tx"))))
            st.set(("f", nv, "opt_state"), app("opt_update", (fld("opt_state"), g, fld("tx"))))
            st.set(("f", nv, "step"), app("Add", (fld("step"), const(1))))
            for k, x in kw:
                if k not in ("grads", "**"):
                    st.set(("f", nv, k), x)
            ev.result = nv
            return nv
        if nm == "__init__" and sup:
            I.emit("ext", "super().__init__", st, fr, node, target=recv, args=args, kw=kw)
            return NONE
    ev = I.emit("method", nm, st, fr, node, target=recv, args=args, kw=kw)
    hook = getattr(I, "method_stubs", None)
    if hook and nm in hook:
        r = hook[nm](I, recv, args, kw, st, fr, node)
        if r is not None:
            ev.result = r
            return r
    if nm == "value_and_grad" and args and is_callable_val(args[0]):
        # flax DynamicScale
        f = args[0]
        return mk("xform", "dyn_value_and_grad", f, tuple([recv] + args[1:]), tuple(kw))
    if nm in ("copy",) and not args and not kw:
        r = app("copy", (recv,))
        return r
    res = escape_callables(I, args, kw, st, fr, node)
    r = app("." + name, [recv] + list(args) + res, kw)
    ev.result = r
    return r


def make_train_state(I, c, args, kw, st, fr, node):
    v = I.new_obj(c, st)
    vals = {}
    for n, x in zip(("apply_fn", "params", "tx"), args):
        vals[n] = x
    openr = None
    for k, x in kw:
        if k == "**":
            openr = x
        else:
            vals[k] = x
    for n2, ann, dflt, dc in c.all_fields():
        if n2 not in vals and dflt is not None:
            vals[n2] = I.eval(dflt, I.root, I.module_frame(dc.mod))
        elif n2 not in vals and openr is not None:
            vals[n2] = mk("item", openr, const(n2))
        elif n2 not in vals:
            vals[n2] = app("missing_field:" + n2)
    if openr is not None:
        for n2 in ("params", "tx", "apply_fn"):
            vals.setdefault(n2, mk("item", openr, const(n2)))
    vals.setdefault("step", const(0))
    vals.setdefault("opt_state", app("tx.init", (vals.get("tx", NONE), vals.get("params", NONE))))
    for k, x in vals.items():
        st.set(("f", v, k), x)
    I.emit("call", c.qual + ".create", st, fr, node, target=c, args=args, kw=kw, bound=dict(vals), result=v)
    return v
