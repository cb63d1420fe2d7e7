"""P20: conformal intervals, sets and membership."""
from .p24 import *

EXPLANATION = (
    "For every conformal regressor and classifier the values returned by its membership test, score functions, interval or set construction and error update are extracted as symbolic terms by abstract interpretation "
    "(the method found through the class's own resolution order) and compared, in normal form, with the definitions: membership is lower <= value <= upper for intervals and element-of for sets; "
    "the first component is the lower bound; quantiles are taken at the documented levels of the documented scores; a label enters a set when few calibration scores lie below its score; the adaptive error moves by gamma times the difference of target error and observed error."
)
ASSUMPTIONS = ["library functions (quantile, argsort, cumsum, where) have their documented meaning", "shape adjustments (squeeze, added axes) do not change which values are combined"]

R, C = "fortuna.conformal.regression.", "fortuna.conformal.classification."


def at(*x):
    return atom(tuple(x))


class ConfNorm(MetricNorm):
    def __init__(self):
        super().__init__(False, None)

    def leaf(self, v, N):
        if v.k in ("elem", "each", "lane", "rsum"):
            return N.norm(v.a[0])
        if v.k == "item":
            i, x = v.a[1], v.a[0]
            parts = i.a[0] if i.k == "tuple" else (i,)
            if all(p is NONE or str(p) == "None" or str(p).startswith("slice(None, None, None") for p in parts):
                return N.norm(x)
            if str(parts[-1]) == "slice(None, None, -1)":
                return at("rev", key(N.norm(x)))
            if len(parts) == 2 and parts[1].k == "const" and str(parts[0]).startswith("slice(None, None"):
                if parts[1].a[0] == 0 and not any(y.k == "sym" and "interval" in str(y.a[0]) for y in members(x)):
                    return N.norm(x)  # the only column of a scalar quantity
                return at("col", parts[1].a[0], key(N.norm(x)))
            if len(parts) == 1 and parts[0].k == "app" and parts[0].a[0] == "slice":
                lo, hi = parts[0].a[1][:2]
                if hi is NONE:
                    return at("from", key(N.norm(x)), key(N.norm(lo)))
            if len(parts) == 1 and parts[0].k not in ("const",) and not str(parts[0]).startswith("slice"):
                if x.k == "attr" and x.a[1] == "shape":
                    return None
                return at("pick", key(N.norm(x)), key(N.norm(parts[0])))
        if v.k == "app":
            h = v.a[0] if isinstance(v.a[0], str) else N.fn(v)
            if h is None and isinstance(v.a[0], V) and v.a[0].k == "sym":
                return at("agg" if "aggregation" in str(v.a[0].a[0]) else str(v.a[0].a[0]), *(key(N.norm(x)) for x in v.a[1]))
            n = str(h).rsplit(".", 1)[-1]
            args, kw = list(v.a[1]), dict(v.a[2]) if len(v.a) > 2 else {}
            if isinstance(v.a[0], V) and v.a[0].k == "attr":
                args = [v.a[0].a[0]] + args
            if n in ("squeeze", "batched", "reshape", "ravel", "flatten", "tolist", "expand_dims", "stack", "copy"):
                return N.norm(args[0])
            if n == "len" and args:
                return at("len", key(N.norm(args[0])))
            if n == "concatenate":
                x = args[0]
                if x.k == "tuple":
                    return at("cat", *(key(N.norm(y)) for y in x.a[0]))
                return N.norm(x)
            if n in ("maximum", "minimum"):
                return at(n, *sorted((key(N.norm(x)) for x in args), key=repr))
            if n in ("min", "max", "amin", "amax") and args and args[0].k == "app":
                y = args[0]
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                if str(y.a[0]).rsplit(".", 1)[-1] in ("stack", "array", "asarray") and y.a[1] and y.a[1][0].k == "tuple" and len(y.a[1][0].a[0]) == 2 and ax is not None and is_zero(ax) and not y.a[2]:
                    return at("maximum" if "max" in n else "minimum", *sorted((key(N.norm(z)) for z in y.a[1][0].a[0]), key=repr))
            if n in ("min", "max", "ceil", "cumsum"):
                return at(n, key(N.norm(args[0])))
            if n == "quantile":
                return at("quantile", key(N.norm(args[0])), key(N.norm(kw.get("q", args[1] if len(args) > 1 else NONE))))
            if n == "argsort":
                p = N.norm(args[0])
                neg = padd({}, p, -1)
                if repr(key(neg)) < repr(key(p)) and all(c < 0 for c in p.values()):
                    return at("rev", key(at("argsort", key(neg))))
                return at("argsort", key(p))
            if n in ("flip", "fliplr"):
                return at("rev", key(N.norm(args[0])))
            if n == "dot":
                return lin("r", pmul(N.norm(args[0]), N.norm(args[1])))
            if n == "arange":
                return at("labels")
            if n == "ones":
                return const_p(1)
            if n == "take" and len(args) == 2:
                return at("pick", key(N.norm(args[0])), key(N.norm(args[1])))
            if n == "zeros":
                m = {x for x in ("arg.bootstrap_test_preds", "arg.train_targets") if mentions(v, x)}
                if len(m) == 1:
                    return at("filled", m.pop())
            if n in ("In", "NotIn"):
                return at(n, key(N.norm(args[0])), key(N.norm(args[1])))
            if n in ("sum",) and args:
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                if ax is None or is_zero(ax):
                    return lin("r", N.norm(args[0]))
                if ax.k == "const" and ax.a[0] in (1, -1):
                    return at("labelsum", key(N.norm(args[0])))
            if n == "mean" and args and len(args) == 1 and not kw:
                return pmul(lin("r", N.norm(args[0])), atom(ROWS, -1))
        if v.k == "item" and v.a[0].k == "attr" and v.a[0].a[1] == "shape" and v.a[1].k == "const" and v.a[1].a[0] == 0:
            return at("len", key(N.norm(v.a[0].a[0])))
        if v.k == "lambda":
            raise Unknown("function value")
        return super().leaf(v, N)


def pair(v):
    """lower and upper component of an array of pairs."""
    while v.k == "app" or v.k == "rsum":
        if v.k == "rsum":
            v = v.a[0]
            continue
        h = str(v.a[0] if isinstance(v.a[0], str) else getattr(v.a[0], "a", ("",))[0]).rsplit(".", 1)[-1]
        if h in ("array", "asarray", "squeeze", "stack", "column_stack", "concatenate", "transpose", "hstack") and v.a[1]:
            v = v.a[1][0]
        else:
            return None
    if v.k == "tuple" and len(v.a[0]) == 2:
        return v.a[0]
    if v.k == "rlist" and len(v.a[0]) == 2:
        return v.a[0]
    return None


def g(n):
    return A(n)


def q_(x, q):
    return at("quantile", key(x), key(q))


ONE = lambda: const_p(1)
ERR = lambda: g("error")
CONF = lambda: padd(ONE(), ERR(), -1)


def level(scores):
    n = at("len", key(scores))
    return pmul(at("ceil", key(pmul(padd(n, ONE()), CONF()))), ppow(n, -1))


def cqr_score():
    y = g("val_targets")
    return at("maximum", *sorted((key(padd(g("val_lower_bounds"), y, -1)), key(padd(y, g("val_upper_bounds"), -1))), key=repr))


def unc_score():
    return pmul(absp(padd(g("val_targets"), g("val_preds"), -1)), ppow(g("val_uncertainties"), -1))


def res(a, b):
    return absp(padd(g(a), g(b), -1))


def _plus(mu, r):
    return q_(padd(mu, r, -1), ERR()), q_(padd(mu, r), CONF())


def cvp():
    return _plus(g("cross_test_outputs"), res("cross_val_targets", "cross_val_outputs"))


def jkp():
    return _plus(g("loo_test_outputs"), res("loo_val_targets", "loo_val_outputs"))


def jkm():
    q = q_(res("loo_val_targets", "loo_val_outputs"), CONF())
    m = key(g("loo_test_outputs"))
    return padd(at("min", m), q, -1), padd(at("max", m), q)


def sym_interval(c, w):
    return padd(c, w, -1), padd(c, w)


def enbpi():
    return sym_interval(q_(at("filled", "arg.bootstrap_test_preds"), CONF()), q_(at("filled", "arg.train_targets"), CONF()))


def enbpi_res():
    new = absp(padd(g("new_train_targets"), at("agg", key(g("bootstrap_new_train_preds"))), -1))
    cat = at("cat", key(g("train_residuals")), key(new))
    return at("from", key(cat), key(at("len", key(new))))


def enbpi2():
    return sym_interval(at("agg", key(g("bootstrap_new_test_preds"))), q_(enbpi_res(), CONF()))


INTERVALS = [
    (R + "quantile.QuantileConformalRegressor", "conformal_interval", (), lambda: (padd(g("test_lower_bounds"), g("quantile"), -1), padd(g("test_upper_bounds"), g("quantile")))),
    (R + "quantile.QuantileConformalRegressor", "conformal_interval", ("quantile",), lambda: (padd(g("test_lower_bounds"), q_(cqr_score(), level(cqr_score())), -1), padd(g("test_upper_bounds"), q_(cqr_score(), level(cqr_score()))))),
    (R + "onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor", "conformal_interval", (), lambda: sym_interval(g("test_preds"), pmul(g("test_uncertainties"), g("quantile")))),
    (R + "onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor", "conformal_interval", ("quantile",), lambda: sym_interval(g("test_preds"), pmul(g("test_uncertainties"), q_(unc_score(), level(unc_score()))))),
    (R + "cvplus.CVPlusConformalRegressor", "conformal_interval", (), cvp),
    (R + "jackknifeplus.JackknifePlusConformalRegressor", "conformal_interval", (), jkp),
    (R + "jackknife_minmax.JackknifeMinmaxConformalRegressor", "conformal_interval", (), jkm),
    (R + "enbpi.EnbPI", "conformal_interval", (), enbpi),
    (R + "enbpi.EnbPI", "conformal_interval_from_residuals", (), enbpi2),
]
SCORES = [
    (R + "quantile.QuantileConformalRegressor", "score", (), cqr_score),
    (R + "quantile.QuantileConformalRegressor", "quantile", ("scores",), lambda: q_(cqr_score(), level(cqr_score()))),
    (R + "quantile.QuantileConformalRegressor", "quantile", (), lambda: q_(g("scores"), level(g("scores")))),
    (R + "onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor", "score", (), unc_score),
    (R + "onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor", "quantile", ("scores",), lambda: q_(unc_score(), level(unc_score()))),
    (R + "onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor", "quantile", (), lambda: q_(g("scores"), level(g("scores")))),
]


def simple_score(p, y):
    return padd(ONE(), at("pick", key(p), key(y)), -1)


def adaptive_score(p, y):
    perm = at("rev", key(at("argsort", key(p))))
    inv = at("argsort", key(perm))
    return at("pick", key(at("cumsum", key(at("pick", key(p), key(perm))))), key(at("pick", key(inv), key(y))))


def alts_of(v):
    return [x for x in (v.a[0] if v.k == "phi" else [v])]


def decide(ctx, k, w, v, want, what, expand=flat_alts):
    for x in expand(v):
        N = ConfNorm().N
        try:
            p = N.norm(x)
        except Unknown as e:
            ctx.undec(k, str(e))
            continue
        except Mismatch as e:
            ctx.ob(k, False, w, str(e))
            continue
        judge(ctx, k, w, p, [want], N, what)


def call(ctx, q, meth, omit=(), recv=None):
    P = ctx.P
    c = P.cls(q)
    a = Api(P)
    a.recv = recv(a, c) if recv else a.build(c)
    d, f = c.lookup(meth)
    if not isinstance(f, FuncInfo):
        return a, None, None, []
    v, ev, end = a.call(meth, f, omit)
    ctx.absorb(a.s)
    return a, f, (None if v is None else reified(a, v, end, 18)), ev


def values(ctx):
    for q, meth, omit, form in SCORES:
        a, f, v, _ = call(ctx, q, meth, omit)
        k = f"{q.rsplit('.', 1)[-1]}.{meth}[{','.join(omit)}]"
        if v is None:
            ctx.ob(k, False, q, "never returns")
            continue
        decide(ctx, k, f.qual, v, form(), meth)
    n = 0
    for q, meth, omit, form in INTERVALS:
        a, f, v, ev = call(ctx, q, meth, omit)
        k = f"{q.rsplit('.', 1)[-1]}.{meth}[{','.join(omit)}]"
        n += 1
        if v is None:
            ctx.ob(k, False, q, "never returns")
            continue
        lo, hi = form()
        for x in alts_of(v):
            extra = None
            pr = pair(x)
            if x.k == "tuple" and len(x.a[0]) == 2 and pair(x.a[0][0]) is not None:
                pr, extra = pair(x.a[0][0]), x.a[0][1]
            if pr is None:
                ctx.undec(k, f"interval form {str(x)[:80]}")
                continue
            decide(ctx, k + ":lower", f.qual, pr[0], lo, "lower bound")
            decide(ctx, k + ":upper", f.qual, pr[1], hi, "upper bound")
            if extra is not None:
                want = at("filled", "arg.train_targets") if meth == "conformal_interval" else enbpi_res()
                decide(ctx, k + ":residuals", f.qual, extra, want, "returned residuals")
        if q.endswith("EnbPI") and meth == "conformal_interval":
            fills(ctx, k, f, a, ev)
    ctx.need("conformal interval methods", n, 9)


def fills(ctx, k, f, a, ev):
    """the arrays filled in the loop hold, per time, the aggregation over the bootstraps that do not contain it."""
    n = 0
    for e in ev:
        if e.kind != "setitem" or not e.args:
            continue
        t = str(a.s.I.models.reify(a.s.I, e.target, a.s.st, 6)) if e.target is not None else ""
        v = e.args[-1]
        n += 1
        agg = [y for y in sub(v) if y.k == "app" and isinstance(y.a[0], V) and "aggregation" in str(y.a[0])]
        for y in agg:
            x = y.a[1][0]
            bare = [z for z in sub(x) if z.k == "app" and str(z.a[0]).rsplit(".", 1)[-1] == "where"]
            ok = bool(bare) and any(z.k == "app" and z.a[0] in ("invert", "Invert", "logical_not", "Not", "jax.numpy.logical_not", "numpy.logical_not", "Eq", "NotEq") for b in bare for z in sub(b))
            ctx.ob(k + ":out-of-bag", ok, f.qual, f"predictions are aggregated over {str(x)[:120]} instead of the bootstraps without this time")
        if mentions(v, "arg.train_targets") and not mentions(v, "arg.bootstrap_test_preds"):
            N = ConfNorm()
            base = N.leaf

            def leaf(z, M, base=base):
                if z.k == "app" and isinstance(z.a[0], V) and "aggregation" in str(z.a[0]):
                    return at("agg")
                if z.k == "item" and mentions(z, "arg.train_targets"):
                    return A("train_targets")
                return base(z, M)

            N.N.leaf = leaf
            try:
                judge(ctx, k + ":residual", f.qual, N.N.norm(v), [absp(padd(A("train_targets"), at("agg"), -1)), absp(A("train_targets"))], N.N, "training residual")
            except (Unknown, Mismatch) as err:
                ctx.undec(k + ":residual", str(err))
    ctx.ob(k + ":filled", n >= 1, f.qual, "the residuals are never filled")


def membership(ctx):
    P = ctx.P
    nr = nc = 0
    for c in P.classes.values():
        base = {b.name for b in c.mro if isinstance(b, ClassInfo)}
        if c.name.startswith("Adaptive") and c.name in ("AdaptiveConformalRegressor",):
            continue
        if "ConformalRegressor" in base:
            nr += 1
            a, f, v, _ = call(ctx, c.qual, "is_in", (), lambda a, c: a.s.raw(c))
            k = f"{c.name}.is_in"
            if v is None:
                ctx.ob(k, False, c.qual, "never returns")
                continue
            ci = key(g("conformal_intervals"))
            want = pmul(cmp("<=", g("values"), at("col", 1, ci)), cmp("<=", at("col", 0, ci), g("values")))
            decide(ctx, k, f.qual, v, want, "membership")
        elif "ConformalClassifier" in base:
            nc += 1
            a, f, v, _ = call(ctx, c.qual, "is_in", (), lambda a, c: a.s.raw(c))
            k = f"{c.name}.is_in"
            if v is None:
                ctx.ob(k, False, c.qual, "never returns")
                continue
            decide(ctx, k, f.qual, v, at("In", key(g("values")), key(g("conformal_sets"))), "membership")
    ctx.need("conformal regressors", nr, 7)
    ctx.need("conformal classifiers", nc, 6)


def sets(ctx):
    P = ctx.P
    for q, meth, sc in (
        ("simple_prediction.SimplePredictionConformalClassifier", "split", simple_score),
        ("simple_prediction.CVPlusSimplePredictionConformalClassifier", "cv", simple_score),
        ("adaptive_prediction.AdaptivePredictionConformalClassifier", "split", adaptive_score),
        ("adaptive_prediction.CVPlusAdaptivePredictionConformalClassifier", "cv", adaptive_score),
    ):
        c = P.cls(C + q)
        a, f, v, _ = call(ctx, C + q, "score_fn")
        if v is None:
            ctx.ob(f"{c.name}.score_fn", False, c.qual, "never returns")
        else:
            decide(ctx, f"{c.name}.score_fn", f.qual, v, sc(g("probs"), g("targets")), "score")
        a, f, v, _ = call(ctx, C + q, "get_scores")
        k = f"{c.name}.get_scores"
        p = "" if meth == "split" else "cross_"
        for x in alts_of(v) if v is not None else ():
            if x.k != "tuple" or len(x.a[0]) != 2:
                ctx.undec(k, "not a pair")
                continue
            decide(ctx, k + ":validation", f.qual, x.a[0][0], sc(g(p + "val_probs"), g(p + "val_targets")), "validation scores")
            decide(ctx, k + ":test", f.qual, x.a[0][1], sc(g(p + "test_probs"), at("labels")), "test scores")
        if v is None:
            ctx.ob(k, False, c.qual, "never returns")
    # which labels enter a set
    q = C + "base.ConformalClassifier"
    c = P.cls(q)
    f = c.methods.get("_get_conformal_sets_from_scores")
    if f is None:
        ctx.undec("conformal sets", "no set construction found")
    else:
        a = Api(P)
        s = a.s
        kw = {n: s.sym("arg." + n, None, "not") for n in ("val_scores", "test_scores", "error")}
        v, ev, end = a.run(lambda: s.I.call(s.I.decorated(f), [], list(kw.items()), s.st, s.fr, None))
        ctx.absorb(s)
        conds = set()
        for e in ev:
            for x in tuple(e.args or ()) + tuple(dict(e.kw or {}).values()) + ((e.target,) if isinstance(e.target, V) else ()):
                if isinstance(x, V):
                    conds |= {y for y in sub(x) if y.k == "app" and y.a[0] in ("Lt", "LtE", "Gt", "GtE") and mentions(y, "arg.error")}
        k = "conformal sets:condition"
        if not conds:
            ctx.undec(k, "no condition on the error found")
        n = at("len", key(g("val_scores")))
        want = cmp("<", lin("r", cmp("<", g("val_scores"), g("test_scores"))), pmul(padd(n, ONE()), CONF()))
        for y in conds:
            decide(ctx, k, f.qual, y, want, "condition for a label to enter the set")
    for q in ("SplitConformalClassifier", "CVPlusConformalClassifier"):
        c = P.cls(C + "base." + q)
        # the scores handed over are the scores computed, in their roles
        for sub_c in P.classes.values():
            if c in sub_c.mro and sub_c is not c and "conformal_set" not in sub_c.methods:
                a = Api(P)
                seen = []
                a.s.I.stubs[f.qual] = lambda I, b, st, fr, nn, a=a: (seen.append({k: I.models.reify(I, b[k], st, 14) for k in b}), I.sym("SETS", None, "not"))[1]
                a.recv = a.build(sub_c)
                g_ = sub_c.lookup("get_scores")[1]
                a.s.I.stubs[g_.qual] = lambda I, b, st, fr, nn: (seen.append({k: I.models.reify(I, x, st, 6) for k, x in b.items()}), tup([I.sym("VS", None, "not"), I.sym("TS", None, "not")]))[1]
                fn = sub_c.lookup("conformal_set")[1]
                v, ev, end = a.call("conformal_set", fn, ())
                k = f"{sub_c.name}.conformal_set"
                for b in seen:
                    for n, x in b.items():
                        want = {"val_scores": "VS", "test_scores": "TS"}.get(n, "arg." + n)
                        if n != "self":
                            ctx.ob(f"{k}:{n}", x.k == "sym" and x.a[0] == want, fn.qual, f"{n} receives {str(x)[:80]}")
                ctx.ob(k, v is not None and len(seen) >= 2, fn.qual, "scores or sets are not computed")
                ctx.absorb(a.s)


def adaptive(ctx):
    P = ctx.P
    for q, arg in ((R + "adaptive_conformal_regressor.AdaptiveConformalRegressor", "conformal_interval"), (C + "adaptive_conformal_classifier.AdaptiveConformalClassifier", "conformal_set")):
        for omit in (("weights", "were_in"), ()):
            a, f, v, _ = call(ctx, q, "update_error", omit, lambda a, c: a.s.raw(c, is_in=a.s.sym("IS_IN", None, "not")))
            k = f"{q.rsplit('.', 1)[-1]}.update_error[{'' if omit else 'weights'}]"
            if v is None:
                ctx.ob(k, False, q, "never returns")
                continue
            isin = None
            for x in alts_of(v):
                ret = x.a[0][0] if x.k == "tuple" else x
                ret = ret.a[1][0] if ret.k == "app" and str(ret.a[0]).endswith("float") else ret
                for y in alts_of(ret):
                    if y.k == "const":
                        ctx.ob(k + ":clip", y.a[0] in (0, 1), f.qual, f"the error is set to {y.a[0]}")
                        continue
                    hits = [z for z in sub(y) if z.k == "app" and isinstance(z.a[0], V) and "IS_IN" in str(z.a[0])] + find_app(y, "In")
                    if not hits:
                        ctx.ob(k, False, f.qual, f"the update {str(y)[:120]} does not use the observed membership")
                        continue
                    N = ConfNorm()
                    base = N.leaf

                    def leaf(z, M, base=base, hits=hits):
                        if z in hits or z.k == "item" and z.a[0] in hits:
                            return at("isin")
                        return base(z, M)

                    N.N.leaf = leaf
                    obs = at("isin")
                    if omit:
                        want = padd(ERR(), pmul(g("gamma"), padd(padd(g("target_error"), ONE(), -1), obs)))
                    else:
                        want = padd(ERR(), pmul(g("gamma"), padd(g("target_error"), lin("r", pmul(g("weights"), padd(ONE(), at("cat", key(g("were_in")), key(obs)), -1))), -1)))
                    try:
                        p = N.N.norm(y)
                    except (Unknown, Mismatch) as e:
                        ctx.undec(k, str(e))
                        continue
                    judge(ctx, k, f.qual, p, [want], N.N, "updated error")


def run(ctx):
    values(ctx)
    membership(ctx)
    sets(ctx)
    adaptive(ctx)
