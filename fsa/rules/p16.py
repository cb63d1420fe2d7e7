"""P16: arguments outside the documented range are refused on every path."""
from .apiscn import *
from .calibscn import *
from .p01 import APPROX, FitRun

EXPLANATION = (
    "A table of the documented restrictions (names, ranges, shapes, dependencies between options) of the public entry points is evaluated "
    "abstractly: for each restriction the entry point is interpreted with every other argument unknown and the restricted one abstracted "
    "by a value or an array description (shape, element type, set of element values) that violates it; every path must end in a raise with "
    "a message before anything is returned, also when the entry point is reached through a subclass or wrapper. With boundary values that "
    "satisfy the restriction the entry point must still have a path that returns. Whole training and calibration runs of every approximation "
    "and calibration interface are evaluated with configurations that are refused (a state to be dumped nowhere, a SWAG rank that is too "
    "small or too large for the epochs, no preliminary MAP), which must raise before a trainer runs or a state is stored."
)
ASSUMPTIONS = [
    "shape, ndim, dtype, len, any, all, min and max of arrays have their documented meaning",
    "the element-wise conditions depend on one array at a time",
]

F = "fortuna."
BUILTIN = "builtins."


class Arrays:
    """symbols for arrays with a known shape, element type and set of element values."""

    def __init__(self, s):
        self.s = s
        self.d = {}
        self.n = 0
        s.I.truth_hook = self.truth
        s.I.ext_stubs = dict(getattr(s.I, "ext_stubs", None) or {})
        for q in ("copy", "asarray", "array"):
            for mod in ("jax.numpy.", "numpy."):
                s.I.ext_stubs[mod + q] = lambda I, args, kw, st, fr, node: args[0] if args and args[0] in self.d else None

    def new(self, shape, dtype="float32", elems=(0.5,), tag="arr"):
        self.n += 1
        v = self.s.given(f"{tag}{self.n}")
        I, st = self.s.I, self.s.st
        for n, x in (("shape", tup([const(k) for k in shape])), ("ndim", const(len(shape))), ("dtype", const(dtype))):
            st.set(("f", v, n), x)
        size = 1
        for k in shape:
            size *= k
        st.set(("f", v, "size"), const(size))
        self.d[v] = (shape, elems)
        return v

    def frees(self, v, out, depth=0):
        if v in self.d:
            out.add(v)
            return True
        if v.k == "const":
            return True
        if v.k == "app" and depth < 12 and isinstance(v.a[0], str):
            return all(self.frees(x, out, depth + 1) for x in v.a[1])
        return False

    def at(self, v, env):
        """the value of an element-wise term at one element."""
        if v in env:
            return env[v]
        if v.k == "const":
            return v.a[0]
        if v.k != "app":
            raise LookupError
        op, a = v.a[0], v.a[1]
        op = op.rsplit(".", 1)[-1] if isinstance(op, str) else ""
        x = [self.at(y, env) for y in a]
        try:
            return {
                "Lt": lambda: x[0] < x[1], "LtE": lambda: x[0] <= x[1], "Gt": lambda: x[0] > x[1], "GtE": lambda: x[0] >= x[1],
                "less": lambda: x[0] < x[1], "less_equal": lambda: x[0] <= x[1], "greater": lambda: x[0] > x[1], "greater_equal": lambda: x[0] >= x[1],
                "Eq": lambda: x[0] == x[1], "NotEq": lambda: x[0] != x[1], "not": lambda: not x[0], "logical_not": lambda: not x[0],
                "Mult": lambda: x[0] * x[1], "Add": lambda: x[0] + x[1], "Sub": lambda: x[0] - x[1],
                "BitOr": lambda: x[0] or x[1], "BitAnd": lambda: x[0] and x[1], "or": lambda: any(x), "and": lambda: all(x),
                "logical_or": lambda: x[0] or x[1], "logical_and": lambda: x[0] and x[1], "abs": lambda: abs(x[0]), "Invert": lambda: not x[0],
            }[op]()
        except (KeyError, IndexError, TypeError):
            raise LookupError

    def number(self, v):
        """a scalar derived from array descriptions, or LookupError."""
        if v.k == "const":
            return v.a[0]
        if v.k == "app" and isinstance(v.a[0], str):
            op = v.a[0].rsplit(".", 1)[-1]
            a = v.a[1]
            if op in ("any", "all", "min", "max", "amin", "amax") and a:
                fs = set()
                if not self.frees(a[0], fs) or len(fs) != 1:
                    raise LookupError
                (f,) = fs
                xs = [self.at(a[0], {f: e}) for e in self.d[f][1]]
                return {"any": any, "all": all, "min": min, "max": max, "amin": min, "amax": max}[op](xs)
            if op == "len" and a and a[0] in self.d:
                return self.d[a[0]][0][0]
            if op in ("bool", "float", "int", "item", "asarray", "array") and a:
                return self.number(a[0])
            x = [self.number(y) for y in a]
            return self.at(v, dict(zip(a, x)))
        raise LookupError

    def type_name(self, x):
        if x.k == "tuple":
            return "tuple"
        if x.k == "const":
            return type(x.a[0]).__name__
        if x in self.d:
            return "ndarray"
        c = self.s.I.objcls.get(x)
        return c if isinstance(c, str) else None

    def truth(self, v, st):
        if v.a[0] == "Eq":
            if all(x.k == "ext" and str(x.a[0]).startswith("builtins.") for x in v.a[1]):
                return v.a[1][0] is v.a[1][1]
            for t, c in (v.a[1], v.a[1][::-1]):
                if t.k == "app" and str(t.a[0]).rsplit(".", 1)[-1] == "type" and c.k in ("ext", "class", "builtin"):
                    n = self.type_name(t.a[1][0])
                    if n is not None:
                        return n.rsplit(".", 1)[-1] == str(c.a[0]).rsplit(".", 1)[-1]
        try:
            return bool(self.number(v))
        except LookupError:
            return None


def message(ev):
    v = ev.target
    return v is not None and v.k == "app" and len(v.a[1]) > 0


class Case:
    def __init__(self, key, quals, fn, good=False, words=()):
        self.key, self.quals, self.fn, self.good, self.words = key, quals, fn, good, words


def decide(ctx, a, k, w, out, good, altered=()):
    v, ev, end = out
    ctx.absorb(a.s)
    raises = [e for e in ev if e.kind == "raise"]
    if good:
        if v is None and any(e.kind in ERR for e in ev):
            return  # an internal failure: P06
        if v is None and raises:
            ctx.ob(k, False, w, "an admissible value is refused: " + "; ".join(sorted({f"{e.name} at {e.loc}" for e in raises[-2:]}))[:200])
        else:
            ctx.ob(k, v is not None or not raises, w, "no path returns")
        return
    if v is not None:
        # a guard whose condition is not understood may be the one that refuses
        unknown = [e for e in raises if e.conds and any(mentions(c, t) for c, _ in e.conds for t in altered)]
        if unknown:
            ctx.undec(k, "the guard's condition is not decided")
            return
        ctx.ob(k, False, w, "a value outside the documented range is accepted (a path returns)")
        return
    if not raises:
        ctx.ob(k, False, w, "fails without an error of its own: " + "; ".join(sorted({f"{e.kind} {e.name} at {e.loc}" for e in ev[-2:]}))[:200])
        return
    ctx.ob(k, True, w, "")
    last = raises[-1]
    ctx.ob(k + ":error", (last.name or "").rsplit(".", 1)[-1] in ("ValueError", "TypeError", "AttributeError", "NotImplementedError", "RuntimeError", "KeyError") and message(last), w, f"refused with {last.name} and no message")


def mentions(v, t):
    return any(x.k == "sym" and str(x.a[0]) == t for x in sub(v))


def sub(v, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, V) or v in seen:
        return
    seen.add(v)
    yield v
    for x in v.a:
        if isinstance(x, V):
            yield from sub(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield from sub(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, V):
                            yield from sub(z, seen)


class M:
    """cases for one method (or function): `bad`/`good` are {label: {param: value-maker}}."""

    def __init__(self, target, base=None, bad=None, good=None, init=None, omit=()):
        self.target, self.base, self.bad, self.good, self.init, self.omit = target, base or {}, bad or {}, good or {}, init or {}, omit


def A(*shape, dtype="float32", elems=(0.5,)):
    return lambda ar: ar.new(shape, dtype, elems)


def K(x):
    if isinstance(x, (tuple, list)):
        return lambda ar: tup([const(y) for y in x])
    return lambda ar: const(x)


def L(*mk):
    return lambda ar: ar.s.I.new_list([m(ar) for m in mk], ar.s.st) if hasattr(ar.s.I, "new_list") else ar.s.I.mk_list([m(ar) for m in mk], ar.s.st)


GIVEN = lambda ar: ar.s.given("given")
NO = lambda ar: OMIT


def one(ctx, m):
    target, label, over, good = m
    P = ctx.P
    a = Api(P)
    ar = Arrays(a.s)
    for q in [q for q in a.s.I.stubs if q.startswith(F + "utils.nested_dicts.")]:
        a.s.I.stubs.pop(q)
    if isinstance(target.target, tuple):
        cq, meth = target.target
        c = P.cls(cq) if isinstance(cq, str) else cq
    else:
        c, meth = None, target.target
    vals = {n: f(ar) for n, f in target.base.items() if n not in over}
    before = set(ar.d)
    vals.update({n: f(ar) for n, f in over.items()})
    altered = tuple(str(v.a[0]) for v in ar.d if v not in before)
    omit = tuple(n for n, x in vals.items() if x is OMIT) + tuple(target.omit)
    vals = {n: x for n, x in vals.items() if x is not OMIT}
    if c is None:
        f = P.func(meth)
        k = f"{f.name}:{label}"
        kw = dict(vals)
        for n, dflt, ann, _ in params_of(f, drop_self=False):
            if n not in kw and n not in omit and not dflt:
                kw[n] = a.sym_for(n, ann, f.mod, "arg." + n)
        out = a.run(lambda: a.s.callf(meth, **kw))
        w = f.qual
    elif meth == "__init__":
        k = f"{c.name}:{label}"
        kw = dict(vals)
        for n, dflt, ann, mod in a.ctor_params(c):
            if n not in kw and n not in omit and not dflt:
                kw[n] = a.sym_for(n, ann, mod, "init." + n)
        out = a.run(lambda: a.s.new(c, **kw))
        w = c.qual
    else:
        a.build(c, override={n: f(ar) for n, f in target.init.items()})
        f = c.lookup(meth)[1]
        k = f"{c.name}.{meth}:{label}"
        w = f.qual
        out = a.call(meth, f, omit, vals)
    decide(ctx, a, k + (":ok" if good else ""), w, out, good, altered)


def multivalid(P):
    base = P.cls(F + "conformal.multivalid.iterative.base.IterativeMultivalidMethod")
    shot = P.cls(F + "conformal.multivalid.one_shot.base.OneShotMultivalidMethod")
    out = []
    for c in sorted((c for c in P.classes.values() if base in c.mro and c is not base and not is_abstract(c)), key=lambda c: c.qual):
        f = c.lookup("calibrate")[1]
        names = {n for n, *_ in params_of(f)} | {n for n, *_ in params_of(base.methods["calibrate"])}
        mine = {n for n, *_ in params_of(f)}
        vn, tn = ("values", "test_values") if "values" in mine else ("probs", "test_probs")
        b = {n: NO for n in ("test_groups", tn) if n in mine}
        bad, good = {}, {}
        has_kw = f.node.args.kwarg is not None

        def put(d, label, over):
            over = {{"values": vn, "test_values": tn}.get(n, n): x for n, x in over.items()}
            if all(n in mine or has_kw for n in over):
                d[label] = over
        for x in (0, -1):
            put(bad, f"n_rounds={x}", {"n_rounds": K(x)})
        put(good, "n_rounds=1", {"n_rounds": K(1)})
        for x in (0, -0.1, 1.5):
            put(bad, f"eta={x}", {"eta": K(x)})
            put(bad, f"split={x}", {"split": K(x)})
        put(good, "eta=1", {"eta": K(1.0)})
        for x in (-0.1, 1.1):
            put(bad, f"min_prob_b={x}", {"min_prob_b": K(x)})
        for x in (0.0, 1.0, "auto"):
            put(good, f"min_prob_b={x}", {"min_prob_b": K(x)})
        put(bad, "patch_type", {"patch_type": K("other")})
        for x in ("additive", "multiplicative"):
            put(good, f"patch_type={x}", {"patch_type": K(x)})
        put(bad, "bucket_types", {"bucket_types": K(("<=", "other"))})
        put(good, "bucket_types", {"bucket_types": K(("<=", ">=", "="))})
        put(bad, "groups:2-dimensional", {"groups": A(10, dtype="bool", elems=(True,))})
        if tn in mine:
            put(bad, "test_values without values", {"test_values": GIVEN, "values": NO, "groups": NO, "test_groups": NO})
            put(bad, "test_groups without groups", {"test_groups": GIVEN, "groups": NO, "values": NO, "test_values": NO})
            put(bad, "test_groups and values without test_values", {"test_groups": GIVEN, "groups": GIVEN, "values": GIVEN, "test_values": NO})
            put(bad, "test_values and groups without test_groups", {"test_values": GIVEN, "values": GIVEN, "groups": GIVEN, "test_groups": NO})
            put(bad, "test_groups:2-dimensional", {"test_groups": A(10, dtype="bool", elems=(True,)), "groups": GIVEN, "values": NO, "test_values": NO})
            two = "TopLabel" in c.name
            shape = (10, 3) if two else (10,)
            for x in (-0.5, 1.5):
                put(bad, f"values:{x}", {"values": A(*shape, elems=(0.5, x))})
                put(bad, f"test_values:{x}", {"test_values": A(*shape, elems=(0.5, x)), "values": A(*shape), "groups": NO, "test_groups": NO})
            put(bad, "values:dimensions", {"values": A(*((10,) if two else (10, 3)))})
        if "coverage" in mine:
            for x in (-0.1, 1.1):
                put(bad, f"coverage={x}", {"coverage": K(x)})
            for x in (0.0, 1.0):
                put(good, f"coverage={x}", {"coverage": K(x)})
        if "scores" in mine and "Binary" not in c.name and "Top" not in c.name:
            put(bad, "scores:dimensions", {"scores": A(10, 3, 2)})
            for x in (-0.5, 1.5):
                put(bad, f"scores:{x}", {"scores": A(10, elems=(0.5, x))})
            put(good, "scores", {"scores": A(10, elems=(0.0, 1.0))})
        if "targets" in mine:
            put(bad, "targets:dimensions", {"targets": A(10, 3, dtype="int32", elems=(0, 1))})
            put(bad, "targets:type", {"targets": A(10, dtype="float32", elems=(0.0, 1.0))})
        out.append(M((c, "calibrate"), b, bad, good))
        g = c.lookup("apply_patches")[1]
        if {"groups", "values"} <= {n for n, *_ in params_of(g)}:
            out.append(M((c, "apply_patches"), {}, {"nothing given": {"groups": NO, "values": NO}}))
    for c in sorted((c for c in P.classes.values() if shot in c.mro and c is not shot and not is_abstract(c)), key=lambda c: c.qual):
        f = c.lookup("calibrate")[1]
        if "test_values" in {n for n, *_ in params_of(f)}:
            out.append(M((c, "calibrate"), {"test_values": NO}, {"test_values without values": {"test_values": GIVEN, "values": NO}, "min_prob_b=-0.1": {"min_prob_b": K(-0.1)}, "min_prob_b=1.1": {"min_prob_b": K(1.1)}}, {"min_prob_b=1": {"min_prob_b": K(1.0)}}))
    return out


def conformal():
    C = F + "conformal."
    out = []
    for q in (C + "classification.adaptive_conformal_classifier.AdaptiveConformalClassifier", C + "regression.adaptive_conformal_regressor.AdaptiveConformalRegressor"):
        w, wi = A(4, elems=(0.2, 0.8)), A(3, elems=(0, 1), dtype="int32")
        none = {"weights": NO, "were_in": NO}
        both = {"weights": w, "were_in": wi}
        out.append(M((q, "update_error"), none, {
            "gamma=0": {"gamma": K(0.0)}, "gamma<0": {"gamma": K(-0.1)},
            "weights without were_in": {"weights": w}, "were_in without weights": {"were_in": wi},
            "weights:dimensions": {**both, "weights": A(4, 2)}, "weights<0": {**both, "weights": A(4, elems=(-0.5, 0.5))}, "weights>1": {**both, "weights": A(4, elems=(0.5, 1.5))},
            "were_in:values": {**both, "were_in": A(3, elems=(0, 2))}, "were_in:dimensions": {**both, "were_in": A(3, 2, elems=(0, 1))}, "were_in:length": {**both, "were_in": A(4, elems=(0, 1))},
        }, {"gamma": {"gamma": K(0.005)}, "weights": both}))
    q = C + "regression.cvplus.CVPlusConformalRegressor"
    col = A(5, 1)
    ok = {n: L(col, col) for n in ("cross_val_outputs", "cross_val_targets", "cross_test_outputs")}
    out.append(M((q, "conformal_interval"), ok, {**{n + ":no list": {n: K((1, 2))} for n in ok}, **{n + ":two columns": {n: L(col, A(5, 2))} for n in ok},
                 "lengths": {"cross_val_targets": L(col, A(6, 1))}}, {"columns": {}, "vectors": {n: L(A(5), A(5)) for n in ok}}))
    for q in (C + "regression.jackknifeplus.JackknifePlusConformalRegressor", C + "regression.jackknife_minmax.JackknifeMinmaxConformalRegressor"):
        b = {"loo_val_outputs": A(5, 1), "loo_val_targets": A(5, 1), "loo_test_outputs": A(5, 7, 1)}
        out.append(M((q, "conformal_interval"), b, {"lengths": {"loo_val_targets": A(6, 1)}, "outputs:two columns": {"loo_val_outputs": A(5, 2)}, "targets:two columns": {"loo_val_targets": A(5, 2)},
                     "test:dimensions": {"loo_test_outputs": A(5)}, "test:two columns": {"loo_test_outputs": A(5, 7, 2)}}, {"columns": {}, "vectors": {"loo_val_outputs": A(5), "loo_val_targets": A(5), "loo_test_outputs": A(5, 7)}}))
    q = C + "regression.enbpi.EnbPI"
    b = {"bootstrap_indices": A(3, 8, dtype="int32", elems=(0, 7)), "bootstrap_train_preds": A(3, 8, 1), "bootstrap_test_preds": A(3, 4, 1), "train_targets": A(8, 1)}
    out.append(M((q, "conformal_interval"), b, {
        "indices<0": {"bootstrap_indices": A(3, 8, dtype="int32", elems=(-1, 7))}, "indices too large": {"bootstrap_indices": A(3, 8, dtype="int32", elems=(0, 8))},
        "train preds:bootstraps": {"bootstrap_train_preds": A(4, 8, 1)}, "train preds:times": {"bootstrap_train_preds": A(3, 9, 1)}, "test preds:bootstraps": {"bootstrap_test_preds": A(4, 4, 1)},
        "train preds:two columns": {"bootstrap_train_preds": A(3, 8, 2)}, "test preds:two columns": {"bootstrap_test_preds": A(3, 4, 2)}, "targets:length": {"bootstrap_train_preds": A(3, 8), "bootstrap_test_preds": A(3, 4), "train_targets": A(9)}, "targets:two columns": {"train_targets": A(8, 2)},
    }, {"columns": {}, "vectors": {"bootstrap_train_preds": A(3, 8), "bootstrap_test_preds": A(3, 4), "train_targets": A(8)}}))
    b = {"bootstrap_new_train_preds": A(3, 8, 1), "bootstrap_new_test_preds": A(3, 4, 1), "new_train_targets": A(8, 1)}
    out.append(M((q, "conformal_interval_from_residuals"), b, {
        "bootstraps": {"bootstrap_new_test_preds": A(4, 4, 1)}, "train preds:two columns": {"bootstrap_new_train_preds": A(3, 8, 2)}, "test preds:two columns": {"bootstrap_new_test_preds": A(3, 4, 2)},
        "targets:length": {"bootstrap_new_train_preds": A(3, 8), "bootstrap_new_test_preds": A(3, 4), "new_train_targets": A(9)}, "targets:two columns": {"new_train_targets": A(8, 2)}}, {"columns": {}}))
    q = C + "regression.onedim_uncertainty.OneDimensionalUncertaintyConformalRegressor"
    b = {"val_preds": A(5, 1), "val_uncertainties": A(5, 1), "val_targets": A(5, 1)}
    bad = {"preds:vector": {"val_preds": A(5)}, "preds:two columns": {"val_preds": A(5, 2)}, "uncertainties:vector": {"val_uncertainties": A(5)}, "uncertainties:two columns": {"val_uncertainties": A(5, 2)},
           "uncertainties=0": {"val_uncertainties": A(5, 1, elems=(0.0, 0.5))}, "targets:two columns": {"val_targets": A(5, 2)}}
    out.append(M((q, "score"), b, bad, {"columns": {}}))
    err = {"error<0": {"error": K(-0.1)}, "error>1": {"error": K(1.1)}}
    fine = {"error=0": {"error": K(0.0)}, "error=1": {"error": K(1.0)}}
    out.append(M((q, "quantile"), b, err, fine))
    tb = {**b, "test_preds": A(4, 1), "test_uncertainties": A(4, 1), "error": K(0.1), "quantile": NO}
    out.append(M((q, "conformal_interval"), tb, {"preds:vector": {"test_preds": A(4)}, "preds:two columns": {"test_preds": A(4, 2)}, "uncertainties:vector": {"test_uncertainties": A(4)},
                 "uncertainties=0": {"test_uncertainties": A(4, 1, elems=(0.0, 0.5))}, **err}, {"columns": {}}))
    q = C + "regression.quantile.QuantileConformalRegressor"
    b = {"val_lower_bounds": A(5), "val_upper_bounds": A(5), "val_targets": A(5)}
    out.append(M((q, "score"), b, {"shapes": {"val_upper_bounds": A(6)}, "two columns": {"val_lower_bounds": A(5, 2), "val_upper_bounds": A(5, 2)}}, {"vectors": {}}))
    out.append(M((q, "quantile"), b, err, fine))
    tb = {**b, "test_lower_bounds": A(4), "test_upper_bounds": A(4), "error": K(0.1), "quantile": NO}
    out.append(M((q, "conformal_interval"), tb, {"val:shapes": {"val_upper_bounds": A(6)}, "test:shapes": {"test_upper_bounds": A(6)}, "val:dimensions": {"val_lower_bounds": A(5, 1, 1), "val_upper_bounds": A(5, 1, 1)},
                 "test:dimensions": {"test_lower_bounds": A(4, 1, 1), "test_upper_bounds": A(4, 1, 1)}, "test:two columns": {"test_lower_bounds": A(4, 2), "test_upper_bounds": A(4, 2)}, **err}, {"vectors": {}}))
    q = C + "classification.maxcovfixprec_binary_classfication.MaxCoverageFixedPrecisionBinaryClassificationCalibrator"
    b = {"true_positive_precision_threshold": K(0.7), "true_negative_precision_threshold": K(0.7)}
    out.append(M((q, "calibrate"), b, {n + "=0.5": {n: K(0.5)} for n in b}, {"0.7": {}}))
    q = C + "multivalid.iterative.regression.batch_mvp.BatchMVPConformalClassifier"
    return out


def rest(P):
    S = F + "prob_model.posterior.sgmcmc."
    out = []
    z = {"0": K(0.0)}
    neg = K(-0.1)
    sch = S + "sgmcmc_step_schedule."
    out.append(M(sch + "constant_schedule", {}, {"step size<0": {"init_step_size": neg}}, {"0": {"init_step_size": K(0.0)}}))
    out.append(M(sch + "cosine_schedule", {"init_step_size": K(0.1), "total_steps": K(10)}, {"step size<0": {"init_step_size": neg}, "total_steps=0": {"total_steps": K(0)}}, {"1": {"total_steps": K(1)}}))
    out.append(M(sch + "polynomial_schedule", {"a": K(1.0), "b": K(1.0), "gamma": K(0.55)}, {"gamma=0.5": {"gamma": K(0.5)}, "gamma>1": {"gamma": K(1.1)}}, {"gamma=1": {"gamma": K(1.0)}}))
    b = {"init_step_size": K(0.1), "final_step_size": K(0.1), "burnin_steps": K(3)}
    out.append(M(sch + "constant_schedule_with_cosine_burnin", b, {n + "<0": {n: neg} for n in b}, {"0": {n: K(0) for n in b}}))
    b = {"init_step_size": K(0.1), "burnin_steps": K(3), "cycle_length": K(5)}
    out.append(M(sch + "cyclical_cosine_schedule_with_const_burnin", b, {n + "<0": {n: neg} for n in b}, {"0": {n: K(0) for n in b}}))
    out.append(M(S + "sgmcmc_diagnostic.kernel_stein_discrepancy_imq", {}, {"c=0": {"c": K(0.0)}, "beta=0": {"beta": K(0.0)}}, {"default": {"c": K(1.0), "beta": K(-0.5)}}))
    out.append(M((S + "sghmc.sghmc_approximator.SGHMCPosteriorApproximator", "__init__"), {}, {"step_schedule": {"step_schedule": K("other")}}, {"step_schedule": {"step_schedule": K(0.1)}}))
    b = {"n_epochs": K(2), "n_training_steps": K(5), "n_thinning": K(1), "burnin_length": K(4), "n_samples": K(6)}
    out.append(M((S + "sghmc.sghmc_callback.SGHMCSamplingCallback", "__init__"), b, {"too few steps": {"n_samples": K(7)}, "thinned": {"n_thinning": K(2)}}, {"just enough": {}}))
    b = {"n_epochs": K(2), "n_training_steps": K(10), "n_thinning": K(1), "cycle_length": K(10), "exploration_ratio": K(0.5), "n_samples": K(5)}
    out.append(M((S + "cyclical_sgld.cyclical_sgld_callback.CyclicalSGLDSamplingCallback", "__init__"), b, {"too few steps": {"n_samples": K(21)}}, {"enough": {}}))
    mc = F + "metric.classification."
    mr = F + "metric.regression."
    out.append(M(mc + "accuracy", {"preds": A(5), "targets": A(5)}, {"preds": {"preds": A(5, 2)}, "targets": {"targets": A(5, 2)}}, {"vectors": {}}))
    out.append(M(mc + "brier_score", {}, {"probs": {"probs": A(5, 2, 2)}}, {"probs": {"probs": A(5, 2)}}))
    b = {"lower_bounds": A(5, 1), "upper_bounds": A(5, 1), "targets": A(5, 1)}
    out.append(M(mr + "prediction_interval_coverage_probability", b, {n: {n: A(5, 2)} for n in b}, {"columns": {}}))
    for q in ("prob_model.fit_config.monitor.FitMonitor", "prob_model.calib_config.monitor.CalibMonitor", "calib_model.config.monitor.Monitor", "output_calib_model.config.monitor.Monitor"):
        c = P.cls(F + q)
        bad = {"metrics:no tuple": {"metrics": lambda ar: ar.s.given("m", None) if False else const("rmse")}, "metrics:not callable": {"metrics": K((1,))}}
        if "uncertainty_fn" in {n for n, *_ in Api(P).ctor_params(c)}:
            bad["uncertainty_fn"] = {"uncertainty_fn": K(1.0)}
        out.append(M((c, "__init__"), {}, bad, {"default": {}}))
    n = F + "utils.nested_dicts."
    two = K(("a", "b"))
    out.append(M(n + "nested_set", {}, {"paths": {"key_paths": L(GIVEN)}, "objs": {"objs": L(GIVEN), "key_paths": two}, "lengths": {"key_paths": two, "objs": K((1,))}}))
    out.append(M(n + "nested_pair", {}, {"paths": {"key_paths": L(GIVEN)}, "labels": {"labels": K(("a", "b", "c")), "key_paths": two, "objs": two}}))
    out.append(M(n + "nested_unpair", {}, {"paths": {"key_paths": L(GIVEN)}, "labels": {"labels": K(("a", "b", "c")), "key_paths": two}}))
    out.append(M(F + "kernel_regression.nadaraya_watson.NadarayaWatsonKernelRegressor", {}) if False else M((F + "kernel_regression.nadaraya_watson.NadarayaWatsonKernelRegressor", "__init__"), {"train_inputs": A(5), "train_targets": A(5)}, {"inputs": {"train_inputs": A(5, 2)}, "targets": {"train_targets": A(5, 2)}, "lengths": {"train_targets": A(6)}}, {"vectors": {}}))
    out.append(M((F + "kernel_regression.nadaraya_watson.NadarayaWatsonKernelRegressor", "predict"), {"inputs": A(5)}, {"inputs": {"inputs": A(5, 2)}}, {"vector": {}}, init={"train_inputs": A(5), "train_targets": A(5)}))
    t = F + "calibration."
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if not c.qual.startswith(t) or is_abstract(c) or not isinstance(c.lookup("fit")[1], FuncInfo):
            continue
        b = P.cls(t + "binary_classification.temp_scaling.base.BaseBinaryClassificationTemperatureScaling") in c.mro
        mine = {n for n, *_ in params_of(c.lookup("fit")[1])}
        if {"probs", "targets"} <= mine:
            out.append(M((c, "fit"), {"probs": A(5) if b else A(5, 3), "targets": A(5, dtype="int64", elems=(0, 1))}, {"probs:dimensions": {"probs": A(5, 3) if b else A(5)}, "targets:dimensions": {"targets": A(5, 2, dtype="int64", elems=(0, 1))}}))
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        f = c.methods.get("credible_interval")
        if f is not None and "interval_type" in {n for n, *_ in params_of(f)} and not is_abstract(c):
            out.append(M((c, "credible_interval"), {}, {"interval_type": {"interval_type": K("other")}}, {"interval_type=" + x: {"interval_type": K(x)} for x in ("two-tailed", "left-tailed", "right-tailed")} if "calib_model" not in c.qual else {}))
    q = F + "utils.probit.sequential_probit_scaling"
    out.append(M(F + "utils.optimizer.stepped_schedule", {}, {}))
    out.append(M((F + "training.mixin.InputValidatorMixin", "__init__"), {}, {"unknown": {"unknown": K(1)}}))
    return out


def refused(ctx, k, w, r, what):
    """a whole training or calibration run must end in a raise before anything is trained or stored."""
    ctx.absorb(r.s)
    ev = r.s.I.events[r.ev0:]
    raises = [e for e in ev if e.kind == "raise"]
    if r.result is not None:
        ctx.ob(k, False, w, f"{what} is accepted (a path returns)")
        return
    ctx.ob(k, bool(raises), w, f"{what} fails without an error of its own")
    for h in r.train_w.hits[:1]:
        ctx.ob(k + ":early", False, w, f"{what} is refused only after training started")
    for h in r.put_w.hits[:1]:
        ctx.ob(k + ":early", False, w, f"{what} is refused only after a state was stored")


def accepted(ctx, k, w, r, what):
    ctx.absorb(r.s)
    ev = r.s.I.events[r.ev0:]
    raises = [e for e in ev if e.kind == "raise"]
    if r.result is None and any(e.kind in ERR for e in ev):
        return
    if r.result is None and not raises:
        ctx.undec(k, "no path returns")
        return
    ctx.ob(k, r.result is not None, w, f"{what} is refused: " + "; ".join(sorted({e.loc for e in raises[-2:]}))[:200])


def models(ctx):
    P = ctx.P
    plain = dict(callbacks=False, freeze=False)
    for a in APPROX:
        w = APPROX[a] + ".fit"
        refused(ctx, f"train:{a}:dump without directory", w, FitRun(P, a, dump=True, save_dir=False, **plain), "asking to dump the state without a directory")
    for a in ("swag", "laplace"):
        refused(ctx, f"train:{a}:no preliminary MAP", APPROX[a] + ".fit", FitRun(P, a, mapcfg=False, dump=False, **plain), "training without a MAP configuration or state")

    def swag(rank, epochs):
        new = Scn.new

        def build(self, q, *args, **kw):
            if q == APPROX["swag"]:
                kw["rank"] = const(rank)
            return new(self, q, *args, **kw)

        Scn.new = build
        try:
            return FitRun(P, "swag", dump=False, over={"n_epochs": const(epochs)}, **plain)
        finally:
            Scn.new = new

    w = APPROX["swag"] + ".fit"
    for rank, ep, ok in ((1, 9, False), (0, 9, False), (5, 5, False), (5, 4, False), (2, 3, True), (5, 6, True)):
        r = swag(rank, ep)
        if ok:
            accepted(ctx, f"train:swag:rank {rank} of {ep}", w, r, f"rank {rank} with {ep} epochs")
        else:
            refused(ctx, f"train:swag:rank {rank} of {ep}", w, r, f"rank {rank} with {ep} epochs")
    for api in ("prob", "calib", "output"):
        for kind in ("classifier", "regressor"):
            r = CalRun(P, api, kind, dump=True, save_dir=False, **plain)
            refused(ctx, f"calibrate:{api}:{kind}:dump without directory", f"{api}.calibrate", r, "asking to dump the state without a directory")
            r = CalRun(P, api, kind, dump=False, **plain)
            accepted(ctx, f"calibrate:{api}:{kind}:plain", f"{api}.calibrate", r, "a configuration that dumps nothing")


def job(ctx, m):
    one(ctx, m)


def run(ctx):
    P = ctx.P
    ms = multivalid(P) + conformal() + rest(P)
    items = []
    for m in ms:
        for label, over in m.bad.items():
            items.append((m, label, over, False))
        for label, over in m.good.items():
            items.append((m, label, over, True))
    ctx.need("restrictions", len(items), 100)
    for i in items:
        one(ctx, i)
    models(ctx)
