"""P21: iterative multivalid calibration replays its patches."""
import ast
from fractions import Fraction
from .p20 import *

EXPLANATION = (
    "calibrate is evaluated for every concrete iterative multivalid method with the bucket selection, the update and the loss left as recorded calls, in loops of unknown length; the calls made for the validation part of the calibration data and those made when the stored patches are applied to test data must receive the same bucket, group, class, bucket type, patch, rate, update rule and number of buckets, and the two parts of the calibration data must be complementary slices; with the losses fixed to an improving, a converging and a stationary round the patch must be stored on every path; patches stored earlier must not survive; the update, the bucket selection, the error and the patch themselves are compared in normal form with their definitions; the public wrappers must hand every argument to the shared implementation in its role."
)
ASSUMPTIONS = [
    "library functions (select, where, clip, indexed update) have their documented meaning",
    "a round whose update made a loss worse is rolled back: whether its patch is kept is not judged",
]

B = "fortuna.conformal.multivalid."
ROLES = {"targets": "scores", "probs": "values", "thresholds": "values", "test_probs": "test_values", "test_thresholds": "test_values"}


class MvNorm(ConfNorm):
    def leaf(self, v, N):
        if v.k == "phi":
            ps = [N.norm(x) for x in v.a[0]]
            if all(equal(ps[0], p) for p in ps[1:]):
                return ps[0]
        if v.k == "item" and v.a[0].k == "sym" and v.a[0].a[0] == "arg.values":
            i = v.a[1]
            if i.k == "sym" or (i.k == "tuple" and len(i.a[0]) == 2 and all(x.k == "sym" for x in i.a[0])):
                return A("cur")
        if v.k == "item" and v.a[1].k == "tuple" and len(v.a[1].a[0]) == 2:
            r, cc = v.a[1].a[0]
            if str(r).startswith("slice(None, None") and cc.k != "const":
                if cc.k == "sym" and v.a[0].k == "sym" and cc.a[0] == "arg.c" and v.a[0].a[0] == "arg.values":
                    return A("values")
                return at("column", key(N.norm(v.a[0])), key(N.norm(cc)))
            if str(r).startswith("slice(None, None") and cc.k == "const" and cc.a[0] == 0 and v.a[0].k == "sym":
                return N.norm(v.a[0])
        if v.k == "app":
            h = v.a[0] if isinstance(v.a[0], str) else N.fn(v)
            n = str(h).rsplit(".", 1)[-1]
            args = list(v.a[1])
            if n in ("select", "where") and len(args) == 3:
                if args[0].k == "const":
                    return N.norm(args[1] if args[0].a[0] else args[2])
                return at("where", *(key(N.norm(x)) for x in args))
            if n == "clip" and len(args) == 3:
                return at("clip", *(key(N.norm(x)) for x in args))
            if n == "argmax":
                return at("argmax", key(N.norm(v.a[0].a[0] if isinstance(v.a[0], V) and v.a[0].k == "attr" else args[0])))
            if n == "sum" and len(args) == 1 and v.a[2] and v.a[2][0][1].k == "const" and v.a[2][0][1].a[0] in (-1, 0, 1) and args[0].k == "app":
                return at("mixedsum", key(N.norm(args[0])))
        return super().leaf(v, N)


def say(ctx, k, w, v, want, what):
    decide_with(ctx, MvNorm, k, w, v, want, what)


def decide_with(ctx, norm, k, w, v, wants, what):
    for x in flat_alts(v):
        N = norm().N
        try:
            p = N.norm(x)
        except Unknown as e:
            ctx.undec(k, str(e))
            continue
        except Mismatch as e:
            ctx.ob(k, False, w, str(e))
            continue
        judge(ctx, k, w, p, wants if isinstance(wants, list) else [wants], N, what)


def concrete(P):
    """the iterative methods a user can instantiate."""
    base = P.cls(B + "iterative.base.IterativeMultivalidMethod")
    out = []
    for c in P.classes.values():
        if base in c.mro and all(isinstance(c.lookup(m)[1], FuncInfo) and not abstract(c.lookup(m)[1]) for m in ("_calibration_error", "_get_patch", "_get_b", "_patch", "_loss_fn")):
            d, f = c.lookup("_loss_fn")
            if f.node.body and not all(isinstance(x, (ast.Pass, ast.Expr)) for x in f.node.body):
                out.append(c)
    return base, out


def abstract(f):
    return "abstractmethod" in " ".join(deco_names(f))


class Log(list):
    def __init__(self):
        self.args = {}
        self.made = {}


def made_by(y, m):
    return y.k == "sym" and str(y.a[0]).startswith(f"call{m}#")


def has(v, m):
    return any(made_by(z, m) for z in sub(v))


def record(a, c, names, log, values=None):
    I = a.s.I
    made = log.made
    for m in names:
        d, f = c.lookup(m)

        def st_(I, b, st, fr, n, m=m):
            args = {k: I.models.reify(I, x, st, 14) for k, x in b.items() if k != "self"}
            log.append((m, args, st.conds))
            if values is not None and m == "_loss_fn":
                x = next(values, None)
                return const(x) if x is not None else I.sym("L", None, "not")
            t = tuple(x for _, x in sorted(args.items()))
            i = made.setdefault((m, t), len(made))
            log.args[f"call{m}#{i}"] = args
            if m == "_calibration_error":
                # results indexed by everything they were computed for
                lanes = tuple(args.get(x, NONE) for x in ("tau", "g", "v", "c"))
                return tup([app("cal.error", lanes), app("cal.b", lanes)])
            return I.sym(f"call{m}#{i}", None, "not")

        for k in c.mro:
            if isinstance(k, ClassInfo) and m in k.methods:
                I.stubs[k.methods[m].qual] = st_


STUBS = ("_get_b", "_patch", "_get_patch", "_loss_fn", "_calibration_error")


def alts(v):
    return set(flat_alts(v))


def public(f):
    return [n for n, _, _, _ in params_of(f, drop_self="staticmethod" not in deco_names(f))]


def replay(ctx, c):
    P = ctx.P
    a = Api(P)
    a.build(c)
    s = a.s
    log = Log()
    record(a, c, STUBS, log)
    f = c.lookup("calibrate")[1]
    k = c.name
    # patches stored by an earlier calibration
    old = tup([s.sym(f"OLD{i}", None, "not") for i in range(5)])
    s.I.store_attr(a.recv, "_patches", s.I.new_list([old], s.st), s.st, s.fr, None)
    v, ev, end = a.call("calibrate", f, (), {"patch_type": const("additive")})
    ctx.absorb(s)
    if v is None or not log:
        ctx.undec(k + ".calibrate", "calibrate does not reach its loop")
        return
    tests = [x for x in public(f) if x.startswith("test_")]
    test_groups = "arg.test_groups"
    upd = [x for m, x, _ in log if m == "_patch"]
    sel = [x for m, x, _ in log if m == "_get_b"]
    gp = [x for m, x, _ in log if m == "_get_patch"]
    ce = [x for m, x, _ in log if m == "_calibration_error"]
    is_test = lambda x: any(mentions(y, "arg." + t) for y in x.values() for t in tests)
    tu, ts = [x for x in upd if is_test(x)], [x for x in sel if is_test(x)]
    cu, cs = [x for x in upd if not is_test(x)], [x for x in sel if not is_test(x)]
    w = f.qual
    ctx.ob(k + ":applied", len(tu) > 0 and len(ts) > 0, w, "the stored patches are not applied to the test data")
    ctx.ob(k + ":updates", len(cu) >= 2 and len(gp) > 0, w, "the calibration data is not updated")
    if not (tu and ts and cu and gp and ce):
        return
    # inside calibrate
    for name, pool in (("eta", cu + tu), ("patch_type", cu + tu)):
        want = s.sym("arg.eta", None, "not") if name == "eta" else const("additive")
        for x in pool:
            ctx.ob(f"{k}:update:{name}", all(str(y) == str(want) for y in alts(x[name])), w, f"the update uses {name} = {str(x[name])[:100]} instead of the given one")
    for x in sel:
        ctx.ob(f"{k}:bucket selection:n_buckets", str(x["n_buckets"]) == "$arg.n_buckets", w, f"buckets are selected with n_buckets = {str(x['n_buckets'])[:100]}")
    for x in ce + gp:
        ctx.ob(f"{k}:buckets", mentions(x["buckets"], "arg.n_buckets"), w, f"buckets {str(x['buckets'])[:100]} do not come from the given number")
    for n in ("v", "g", "c", "tau"):
        chosen = set().union(*(alts(x[n]) for x in gp))
        for x in cs:
            ctx.ob(f"{k}:validation:{n}", alts(x[n]) <= chosen, w, f"the validation data is selected with {n} = {str(x[n])[:160]}, not with the one the patch was computed for")
        for x in ts:
            ctx.ob(f"{k}:test:{n}", alts(x[n]) <= chosen, w, f"test data is selected with {n} = {str(x[n])[:160]}, not with the one the patch was computed for")
    cls = set().union(*(alts(x["c"]) for x in gp))
    pats = set().union(*(alts(x["patch"]) for x in cu))
    ctx.ob(f"{k}:update:patch", all(made_by(y, "_get_patch") for y in pats), w, "calibration data is not updated with the computed patch")
    for x in cu + tu:
        ctx.ob(f"{k}:update:c", alts(x["c"]) <= cls, w, f"an update uses class {str(x['c'])[:120]}")
    for x in tu:
        ctx.ob(f"{k}:test:patch", alts(x["patch"]) <= pats, w, f"test data is updated with {str(x['patch'])[:160]}, which is not the patch of the calibration data")
    # each update uses the selection made on the same values
    for x in tu + cu:
        for y in alts(x["b"]):
            if made_by(y, "_get_b"):
                vals = log.args[str(y.a[0])]
                ctx.ob(f"{k}:update:selection", str(vals["values"]) == str(x["values"]), w, "the bucket is selected on other values than those updated")
            else:
                ctx.ob(f"{k}:update:selection", x not in tu and bool([z for z in sub(y) if z.k == "app" and str(z.a[0]) == "cal.b"]), w, f"an update is restricted to {str(y)[:120]}")
    roles(ctx, k, w, gp, cu)
    # test values evolve
    evolved = any(has(x["values"], "_patch") for x in tu)
    ctx.ob(f"{k}:test:accumulates", evolved, w, "patches are not applied one after the other on test data")
    evolved = any(has(x["values"], "_patch") for x in cu)
    ctx.ob(f"{k}:calibration:accumulates", evolved, w, "the updates of one round are lost in the next")
    res = v.a[0][0] if v.k == "tuple" else v
    ctx.ob(f"{k}:test:returned", v.k == "tuple" and has(reified(a, res, end, 14), "_patch"), w, "the patched test values are not returned")
    for x in ts + tu:
        for n, y in x.items():
            ctx.ob(f"{k}:reset", not any(z.k == "sym" and str(z.a[0]).startswith("OLD") for z in sub(y)), w, "patches of an earlier calibration are applied")
    # the two parts of the calibration data
    parts = {}
    for x in gp + ce:
        for n in ("scores", "values", "groups"):
            parts.setdefault("calibration", {}).setdefault(n, set()).update(slices(x[n]))
    for x in cs:
        for n in ("values", "groups"):
            parts.setdefault("validation", {}).setdefault(n, set()).update(slices(x[n]))
    for part, d in parts.items():
        allof = set().union(*d.values())
        ctx.ob(f"{k}:{part} part", len(allof) <= 1, w, f"scores, values and groups of the {part} data are different subsets: {[str(z)[:80] for z in allof]}")
    both = [next(iter(set().union(*parts[p].values())), None) for p in ("calibration", "validation") if p in parts]
    if len(both) == 2 and None not in both:
        (p1, lo1, hi1), (p2, lo2, hi2) = both
        ctx.ob(f"{k}:parts", p1 == p2 and (hi1 == lo2 and lo1 in ("None", "0") and hi2 == "None" or hi2 == lo1 and lo2 in ("None", "0") and hi1 == "None"), w, "calibration and validation data overlap or leave points out")
    else:
        ctx.undec(k + ":parts", "no slices found")
    # the reported number of rounds
    st = v.a[0][1] if v.k == "tuple" and len(v.a[0]) == 2 else v
    st = reified(a, st, end, 14)
    d = dict(st.a[0]) if st.k == "rmap" else {}
    d = {(x.a[0] if isinstance(x, V) and x.k == "const" else x): y for x, y in d.items()}
    if "n_rounds" not in d:
        ctx.undec(k + ":rounds", "status not found")
    else:
        n = d["n_rounds"]
        pl = s.st.w
        ctx.ob(f"{k}:rounds", all(y.k == "app" and y.a[0] == "len" and not bad_len(y) or y.k == "const" and y.a[0] == 0 for y in alts(n)), w, f"the reported number of rounds is {str(n)[:120]}, not the number of stored patches")


def index_of(v):
    """(array indexed or None, position in the chosen multi-index) of a selected quantity."""
    arr = None
    if v.k == "item" and v.a[1].k == "item":
        arr, v = v.a[0], v.a[1]
    if v.k == "item" and v.a[1].k == "const" and v.a[0].k == "app" and "unravel_index" in str(v.a[0].a[0]):
        return arr, v.a[0], v.a[1].a[0]
    return arr, None, None


EXTENT = {"tau": ("arg.bucket_types",), "g": ("arg.groups",), "v": ("arg.n_buckets",), "c": ("arg.scores", "arg.targets")}


def roles(ctx, k, w, gp, cu):
    """the chosen multi-index is taken apart in the order in which it was put together."""
    for x in gp:
        order = {}
        for n in ("tau", "g", "v", "c"):
            for y in alts(x[n]):
                arr, u, i = index_of(y)
                if u is None:
                    ctx.undec(f"{k}:index:{n}", "not chosen with unravel_index")
                    continue
                shape = u.a[1][1] if len(u.a[1]) > 1 else dict(u.a[2]).get("shape")
                if shape is None or shape.k != "tuple" or not (isinstance(i, int) and -len(shape.a[0]) <= i < len(shape.a[0])):
                    ctx.undec(f"{k}:index:{n}", "extents not found")
                    continue
                e = shape.a[0][i]
                order[n] = i % len(shape.a[0])
                m = {str(z.a[0]) for z in sub(e) if z.k == "sym"}
                ctx.ob(f"{k}:index:{n}", bool(m & set(EXTENT[n])), w, f"the chosen {n} is component {i} of an index whose extent there is {str(e)[:100]}")
                if n in ("v", "tau"):
                    ctx.ob(f"{k}:index:{n}:array", arr is not None and bool({str(z.a[0]) for z in sub(arr) if z.k == "sym"} & set(EXTENT[n]) or n == "tau"), w, f"{n} is not looked up among the buckets or bucket types")
                else:
                    ctx.ob(f"{k}:index:{n}:array", arr is None, w, f"{n} is not the chosen index itself")
        for b in alts(x["b"]):
            if b.k == "item" and b.a[1].k == "tuple":
                got = [index_of(y)[2] for y in b.a[1].a[0]]
                if None in got:
                    ctx.undec(f"{k}:index:b", "selection not found")
                else:
                    ctx.ob(f"{k}:index:b", got == sorted(got) and len(got) == 4 and len(set(got)) == 4, w, f"the selection of the chosen patch is taken at components {got}")
    bs = set().union(*(alts(x["b"]) for x in gp))
    for x in cu:
        for b in alts(x["b"]):
            if not made_by(b, "_get_b"):
                ctx.ob(f"{k}:update:same selection", b in bs, w, "calibration data is updated on points other than those the patch was computed on")


def bad_len(y):
    return not has(y, "_get_patch")


def slices(v):
    out = set()
    for y in sub(v):
        if y.k == "item" and y.a[1].k == "item" and y.a[1].a[1].k in ("app", "slice") and str(y.a[1].a[1]).startswith("slice("):
            sl = y.a[1].a[1]
            lo, hi = (sl.a[1][:2] if sl.k == "app" else sl.a[:2])
            out.add((str(y.a[1].a[0]), str(lo), str(hi)))
    return out


ROUNDS = {
    "improving round": [1.0, 1.0, 0.5, 0.5],
    "absolute tolerance reached": [1.0, 1.0, 0.5, 0.0],
    "relative tolerance reached": [1.0, 1.0, 0.9999999, 0.9999999],
}


def covers(paths):
    """do these condition lists exhaust all cases?"""
    if any(not p for p in paths):
        return True
    if not paths:
        return False
    c = paths[0][0][0]
    out = []
    for pol in (True, False):
        rest = []
        for p in paths:
            if any(x == c and q != pol for x, q in p):
                continue
            rest.append([(x, q) for x, q in p if x != c])
        out.append(covers(rest))
    return all(out)


def stored(ctx, c):
    P = ctx.P
    f = c.lookup("calibrate")[1]
    for name, losses in ROUNDS.items():
        a = Api(P)
        a.build(c)
        log = Log()
        record(a, c, STUBS, log, iter(losses))
        omit = tuple(x for x in public(f) if x.startswith("test_"))
        v, ev, end = a.call("calibrate", f, omit, {"patch_type": const("additive"), "n_rounds": const(1), "atol": const(1e-4), "rtol": const(1e-6), "eta": const(0.1), "split": const(0.8)})
        ctx.absorb(a.s)
        k = f"{c.name}:stored:{name}"
        upd = [cd for m, x, cd in log if m == "_patch"]
        if not upd or len([1 for m, _, _ in log if m == "_loss_fn"]) != 4:
            ctx.undec(k, "the round is not evaluated with these losses")
            continue
        base = set(upd[-1])
        paths = []
        for e in ev:
            if e.kind == "mutcall" and e.args:
                x = a.s.I.models.reify(a.s.I, e.args[0], end, 14)
                if has(x, "_get_patch"):
                    paths.append([y for y in e.conds if y not in base])
        ctx.ob(k, covers(paths), f.qual, f"the patch applied to the calibration data is not stored in a round ({name}), so test data does not receive it")


def shares(ctx, c):
    """a wrapper hands over its arguments in their roles."""
    P = ctx.P
    base = P.cls(B + "iterative.base.IterativeMultivalidMethod")
    one = P.cls(B + "one_shot.base.OneShotMultivalidMethod")
    root = base if base in c.mro else one
    for meth in ("calibrate", "apply_patches", "calibration_error"):
        target = root.methods.get(meth)
        f = c.lookup(meth)[1]
        if target is None or not isinstance(f, FuncInfo) or f is target:
            continue
        a = Api(P)
        a.build(c)
        got = []

        def st_(I, b, st, fr, n):
            got.append({k: I.models.reify(I, x, st, 10) for k, x in b.items() if k != "self"})
            return I.sym("RESULT", None, "not")

        a.s.I.stubs[target.qual] = st_
        v, ev, end = a.call(meth, f, ())
        ctx.absorb(a.s)
        k = f"{c.name}.{meth}"
        if not got:
            ctx.undec(k, "does not use the shared implementation")
            continue
        v = reified(a, v, end, 8) if v is not None else None
        ctx.ob(k + ":result", v is not None and "RESULT" in str(v), f.qual, "the result of the shared implementation is not returned")
        tn = public(target)
        for n in public(f):
            if n in ("kwargs", "coverage"):
                continue
            r = ROLES.get(n, n)
            if r not in tn:
                continue
            x = got[0].get(r)
            if x is None:
                ctx.ob(f"{k}:{n}", False, f.qual, f"`{n}` is not passed on")
                continue
            m = {z.a[0] for z in sub(x) if z.k == "sym" and str(z.a[0]).startswith("arg.")}
            ok = all(str(y) == f"$arg.{n}" for y in alts(x)) if n not in ("targets",) else m == {"arg.targets"}
            ctx.ob(f"{k}:{n}", ok, f.qual, f"`{r}` receives {str(x)[:120]} instead of `{n}`")


def forms(ctx, classes, base):
    v_, g_, n_ = g("v"), None, g("n_buckets")
    vals = g("values")
    half_ = pmul(const_p(Fraction(1, 2)), ppow(n_, -1))
    grp = at("column", key(g("groups")), key(g("g")))
    tests = {
        0: cmp("<", absp(padd(vals, v_, -1)), half_),
        1: cmp("<=", v_, padd(vals, half_)),
        2: cmp("<=", padd(vals, half_, -1), v_),
    }
    done = set()
    for c in classes:
        d, f = c.lookup("_get_b")
        if f.qual not in done:
            done.add(f.qual)
            for t, want in tests.items():
                a, _, v, _ = call_with(ctx, c, "_get_b", {"tau": const(t)})
                k = f"{c.name}._get_b[{t}]"
                if v is None:
                    ctx.ob(k, False, f.qual, "never returns")
                    continue
                w = pmul(want, grp)
                if uses_c(v):
                    w = pmul(w, cmp("==", g("c"), at("argmax", key(vals))))
                say(ctx, k, f.qual, v, w, f"bucket selection (bucket type {t})")
        d, f = c.lookup("_patch")
        if f.qual not in done:
            done.add(f.qual)
            cur, eta, p = A("cur"), g("eta"), g("patch")
            z, o = key(const_p(0)), key(ONE())
            for pt, new in (("additive", padd(cur, pmul(eta, p))), ("multiplicative", pmul(cur, padd(ONE(), pmul(eta, padd(ONE(), p, -1)), -1)))):
                a, _, v, _ = call_with(ctx, c, "_patch", {"patch_type": const(pt)})
                k = f"{c.name}._patch[{pt}]"
                if v is None:
                    ctx.ob(k, False, f.qual, "never returns")
                    continue
                for x in flat_alts(v):
                    t, val, op = at_update(x)
                    if t is None:
                        ctx.undec(k, "not an indexed update")
                        continue
                    i = t[1]
                    parts = i.a[0] if i.k == "tuple" else (i,)
                    ok = str(t[0]) == "$arg.values" and [str(y) for y in parts] in (["$arg.b"], ["$arg.b", "$arg.c"]) and op == "set"
                    ctx.ob(k + ":where", ok, f.qual, f"the update writes {str(t[0])[:60]} at {str(i)[:60]} ({op})")
                    say(ctx, k, f.qual, val, at("clip", key(new), z, o), "updated values")
        d, f = c.lookup("_get_bucket_type_indices")
        if isinstance(f, FuncInfo) and f.qual not in done:
            done.add(f.qual)
            for name, t in (("=", 0), (">=", 1), ("<=", 2)):
                a, _, v, _ = call_with(ctx, c, "_get_bucket_type_indices", {"bucket_types": tup([const(name)])})
                got = [y.a[0] for y in sub(v) if y.k == "const" and isinstance(y.a[0], int)] if v is not None else []
                ctx.ob(f"{c.name}.bucket type {name}", got == [t], f.qual, f"bucket type {name!r} is numbered {got} where {t} selects it")
        # error and patch for the squared-error methods
        loss = c.lookup("_loss_fn")[1]


def uses_c(v):
    return any(y.k == "app" and "argmax" in str(y.a[0]) for y in sub(v))


def at_update(x):
    if x.k == "app" and isinstance(x.a[0], V) and x.a[0].k == "attr" and x.a[0].a[1] in ("set", "add", "multiply", "mul", "min", "max"):
        t = x.a[0].a[0]
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "at":
            return (t.a[0].a[0], t.a[1]), x.a[1][0], x.a[0].a[1]
    if x.k == "app" and isinstance(x.a[0], str) and x.a[0].lstrip(".") in ("set", "add", "multiply", "mul", "min", "max") and len(x.a[1]) == 2:
        t = x.a[1][0]
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "at":
            return (t.a[0].a[0], t.a[1]), x.a[1][1], x.a[0].lstrip(".")
    return None, None, None


def call_with(ctx, c, meth, over):
    a = Api(ctx.P)
    a.build(c)
    f = c.lookup(meth)[1]
    v, ev, end = a.call(meth, f, (), over)
    ctx.absorb(a.s)
    return a, f, (None if v is None else reified(a, v, end, 18)), ev


def queries(c):
    """public methods that only ask something of a calibrated method."""
    names = {}
    for d in c.mro:
        for n, f in getattr(d, "methods", {}).items():
            names.setdefault(n, f)
    out = []
    for n in sorted(names):
        d, f = c.lookup(n)
        if n.startswith("_") or n in ("calibrate", "apply_patches") or not isinstance(f, FuncInfo) or abstract(f):
            continue
        if f.kind != "method" or f.name != n or any("setter" in ast.dump(x) for x in f.decos):
            continue
        out.append((n, f))
    return out


def standalone(ctx, c, query=None):
    """apply_patches called on its own after calibrate uses what calibrate stored, also when something was asked in between."""
    P = ctx.P
    a = Api(P)
    a.build(c)
    log = Log()
    record(a, c, STUBS, log)
    f = c.lookup("calibrate")[1]
    omit = tuple(x for x in public(f) if x.startswith("test_"))
    base = a.s.st
    v, ev, end = a.call("calibrate", f, omit, {"patch_type": const("additive")})
    chosen = {n: set().union(*(alts(x[n]) for m, x, _ in log if m == "_get_patch")) for n in ("v", "g", "c", "tau")} if log else {}
    a.s.st = end
    if query is not None:
        qv, qe, qend = a.call(query[0], query[1], (), prefix="ask.")
        if qend is None:
            return
        a.s.st = qend
    n0 = len(log)
    g2 = c.lookup("apply_patches")[1]
    v, ev, end2 = a.call("apply_patches", g2, (), prefix="new.")
    ctx.absorb(a.s)
    k = c.name + ".apply_patches" + (f":after {query[0]}" if query else "")
    rest = log[n0:]
    if not rest:
        ctx.ob(k, False, g2.qual, "applies nothing after calibration")
        return
    for m, x, _ in rest:
        if m == "_get_b":
            for n, ok in chosen.items():
                ctx.ob(f"{k}:{n}", alts(x[n]) <= ok, g2.qual, f"data is selected with {n} = {str(x[n])[:160]}, not with the one the patch was computed for")
            ctx.ob(k + ":n_buckets", str(x["n_buckets"]) == "$arg.n_buckets", g2.qual, f"buckets are selected with n_buckets = {str(x['n_buckets'])[:100]}")
            ctx.ob(k + ":groups", not any(mentions(x["groups"], t) for t in ("arg.groups",)) and mentions(x["groups"], "new.groups"), g2.qual, "the given groups are not used")
        if m == "_patch":
            ctx.ob(k + ":eta", str(x["eta"]) == "$arg.eta", g2.qual, f"uses eta = {str(x['eta'])[:100]}")
            ctx.ob(k + ":patch_type", str(x["patch_type"]) == "'additive'", g2.qual, f"uses patch_type = {str(x['patch_type'])[:100]}")
            ctx.ob(k + ":patch", all(made_by(y, "_get_patch") for y in alts(x["patch"])), g2.qual, "not the stored patch")


def order(ctx, c):
    """three stored patches are applied once each, in the order in which they were stored."""
    P = ctx.P
    a = Api(P)
    a.build(c)
    s = a.s
    log = Log()
    record(a, c, STUBS, log)
    # which component of a stored entry plays which role is settled by `replay`
    rows = [tup([s.sym(f"T{j}.{i}", None, "not") for i in range(5)]) for j in range(3)]
    s.I.store_attr(a.recv, "_patches", tup(rows), s.st, s.fr, None)
    f = c.lookup("apply_patches")[1]
    v, ev, end = a.call("apply_patches", f, ())
    ctx.absorb(s)
    k = c.name + ".apply_patches:order"
    w = f.qual
    seq = [(m, x, cd) for m, x, cd in log if m in ("_get_b", "_patch")]
    loops = [z for _, _, cd in seq for z, _ in cd if z.k == "app" and z.a[0] == "loop"]
    for z in loops:
        if any(y.k == "obj" and y.a[1] == "set" for y in sub(z)) or any(y.k == "app" and str(y.a[0]) in ("set", "frozenset", "builtins.set", "sorted", "reversed", "builtins.sorted", "builtins.reversed") for y in sub(z)):
            ctx.ob(k, False, w, f"patches are applied in the order of {str(z)[:100]}, not in the order in which they were stored")
            return
    rowof = lambda y: {str(z.a[0]).split(".")[0] for z in sub(y) if z.k == "sym" and str(z.a[0])[0] == "T" and "." in str(z.a[0])}
    got = [sorted(rowof(x["patch"])) for m, x, _ in seq if m == "_patch"]
    if any(len(x) != 1 for x in got):
        # not unrolled: every entry, in the order of the list itself
        its = {str(z.a[1][0]) for z in loops}
        if its and all(x == str(tup(rows)) for x in its):
            return
        ctx.undec(k, f"patches visited in an unrecognised way: {[x[:80] for x in its]}")
        return
    got = [x[0] for x in got]
    ctx.ob(k, got == ["T0", "T1", "T2"], w, f"of three stored patches the test data receives {got}")
    n_conds = {len([1 for z, _ in cd if not (z.k == "app" and z.a[0] == "loop")]) for m, x, cd in seq if m == "_patch"}
    ctx.ob(k + ":always", len(n_conds) == 1, w, "a stored patch is applied only under a condition that depends on earlier patches")
    for m, x, _ in seq:
        if m == "_patch":
            r = rowof(x["patch"])
            for y in alts(x["b"]):
                b = log.args.get(str(y.a[0])) if made_by(y, "_get_b") else None
                ctx.ob(k + ":selection", b is not None and all(rowof(b[n]) == r for n in ("v", "g", "c", "tau")), w, "a patch is applied to the bucket of another patch")
    prev = None
    for m, x, _ in seq:
        if m == "_patch":
            me = next((n for n, z in log.args.items() if z == x and n.startswith("call_patch#")), None)
            if prev is not None:
                vs = {str(y) for y in alts(x["values"])}
                if "$" + prev in vs and len(vs) > 1:
                    ctx.undec(k + ":chain", "an update is skipped under a condition")
                    return
                ctx.ob(k + ":chain", vs == {"$" + prev}, w, f"a patch is applied to {str(x['values'])[:100]}, not to the values left by the one before")
            prev = me
    res = reified(a, v, end, 10) if v is not None else None
    if res is not None and prev is not None:
        ctx.ob(k + ":result", {str(y) for y in alts(res)} == {"$" + prev}, w, f"returns {str(res)[:120]} instead of the values left by the last patch")


def one_shot(ctx, c):
    P = ctx.P
    a = Api(P)
    a.build(c)
    I = a.s.I
    log = []
    for m in ("_get_buckets",):
        d, f = c.lookup(m)
        I.stubs[f.qual] = lambda I, b, st, fr, n: (log.append(I.models.reify(I, next(x for k, x in b.items() if k != "self"), st, 8)), I.sym("BUCKETS", None, "not"))[1]
    f = c.lookup("calibrate")[1]
    v, ev, end = a.call("calibrate", f, ())
    ctx.absorb(a.s)
    k = c.name + ":buckets"
    ctx.ob(k, len(log) >= 2 and all(str(x) == "$arg.n_buckets" for x in log), f.qual, f"buckets at calibration and test time differ: {[str(x)[:60] for x in log]}")


def job(ctx, c):
    base, _ = concrete(ctx.P)
    if base in c.mro:
        replay(ctx, c)
        stored(ctx, c)
        standalone(ctx, c)
        for q in queries(c):
            standalone(ctx, c, q)
        order(ctx, c)
    else:
        one_shot(ctx, c)
    shares(ctx, c)


def run(ctx):
    P = ctx.P
    base, its = concrete(P)
    one = P.cls(B + "one_shot.base.OneShotMultivalidMethod")
    shots = [c for c in P.classes.values() if one in c.mro and isinstance(c.lookup("_get_patch")[1], FuncInfo) and not abstract(c.lookup("_get_patch")[1])]
    ctx.need("iterative multivalid methods", len(its), 4)
    ctx.need("one-shot multivalid methods", len(shots), 2)
    forms(ctx, its, base)
    ctx.pmap(job, its + shots)
