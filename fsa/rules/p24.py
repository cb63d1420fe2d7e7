"""P24: metrics and losses compute what their names say."""
from .p26 import *
from .apiscn import params_of

EXPLANATION = (
    "The value each metric and loss function returns is extracted as a symbolic term by abstract interpretation (aliases are followed through the functions they call) and its normal form "
    "(real arithmetic, comparisons, one-hot encodings, reductions named by the axis they remove) is compared with the definition the function's name and documentation give. "
    "The confidence bins of the calibration errors must partition (0, 1] and counts, accuracies and confidences must be taken over the same bins."
)
ASSUMPTIONS = ["library functions have their documented meaning", "arrays have the number of dimensions the documentation states"]

CL, RG = "fortuna.metric.classification.", "fortuna.metric.regression."
LC, LR = "fortuna.loss.classification.", "fortuna.loss.regression."
ROWS = ("N",)


def A(n):
    return atom(("v", "arg." + n))


def cmp(op, p, q):
    """comparison atom: p op q, orientation normalised."""
    if op in (">", ">="):
        p, q, op = q, p, {">": "<", ">=": "<="}[op]
    d = padd(p, q, -1)
    if op in ("==", "!="):
        e = padd({}, d, -1)
        d = min(d, e, key=key)
    return atom(("cmp", op, key(d)))


def absp(p):
    e = padd({}, p, -1)
    return atom(("abs", key(min(p, e, key=key))))


def rowsum(p):
    c = {m: x for m, x in p.items() if m == ()}
    r = lin("r", {m: x for m, x in p.items() if m != ()}) if len(c) < len(p) else {}
    return padd(r, pmul(c, atom(ROWS))) if c else r


def rowmean(p):
    return pmul(rowsum(p), atom(ROWS, -1))


def col(p):
    return lin("c", p)


def onehot(n):
    return atom(("onehot", key(A(n))))


def lse(p):
    return plog(col(pexp(p)))


class MetricNorm:
    """two_d: the un-reduced arrays have a row and a column axis."""

    def __init__(self, two_d, extra=None):
        self.two_d, self.extra = two_d, extra
        self.N = Norm(leaf=self.leaf, full_sums=False)
        self.N.vals = AllVec()

    def reduced(self, p):
        """nothing in p still ranges over the column axis."""

        def free(x):
            if not isinstance(x, tuple):
                return False
            if x and x[0] == "L" and len(x) == 3:
                return False
            if x and x[0] in ("v", "onehot"):
                return True
            return any(free(y) for y in x)

        return not any(free(a) for m in p for a, _ in m)

    def leaf(self, v, N):
        if self.extra is not None:
            r = self.extra(v, N)
            if r is not None:
                return r
        if v.k == "phi":
            ms = {key(N.norm(m)) for m in v.a[0]}
            if len(ms) == 1:
                return dict(ms.pop())
            return None
        if v.k == "sym" and str(v.a[0]).startswith("arg."):
            return ("v", v.a[0])
        if v.k == "item":
            i = v.a[1]
            if i.k == "tuple" and all(str(x).startswith("slice(None, None") or str(x) == "None" or x is NONE for x in i.a[0]):
                return N.norm(v.a[0])
            x = v.a[0]
            if x.k == "attr" and x.a[1] == "shape" and i.k == "const" and i.a[0] == 0:
                return ROWS
        if v.k == "item" and v.a[0].k == "app" and N.fn(v.a[0]) in ("jax.numpy.split", "numpy.split") and v.a[1].k == "const":
            x = v.a[0]
            if len(x.a[1]) > 1 and x.a[1][1].k == "const" and x.a[1][1].a[0] == 2 and last_axis_kw(x):
                return ("v", "half", v.a[1].a[0], str(x.a[1][0]))
        if v.k == "item" and v.a[0].k == "sym" and v.a[0].a[0] == "arg.outputs":
            h = half_slice(v.a[1])
            if h is not None:
                return ("v", "half", h, "$arg.outputs")
        if v.k != "app":
            return None
        h = v.a[0] if isinstance(v.a[0], str) else N.fn(v)
        n = str(h).rsplit(".", 1)[-1]
        args, kw = list(v.a[1]), dict(v.a[2]) if len(v.a) > 2 else {}
        if n == "len" and args:
            return ROWS
        if n == "to_array_targets":
            return N.norm(args[0] if args else v.a[0].a[0])
        ops = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}
        if n in ops and len(args) == 2:
            r = cmp("==" if ops[n] == "!=" else ops[n], N.norm(args[0]), N.norm(args[1]))
            return padd({(): Fraction(1)}, r, -1) if ops[n] == "!=" else r
        if n in ("not", "Not", "Invert", "logical_not", "invert", "bitwise_not") and len(args) == 1:
            p = N.norm(args[0])
            if all(len(m) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "cmp" for m in p):
                return padd({(): Fraction(1)}, p, -1)
        if n in ("BitAnd", "logical_and", "bitwise_and") and len(args) == 2:
            return pmul(N.norm(args[0]), N.norm(args[1]))
        if n in ("abs", "absolute", "fabs"):
            return absp(N.norm(args[0]))
        if n == "one_hot" and args:
            return atom(("onehot", key(N.norm(args[0]))))
        if n == "softmax":
            self.last(v)
            p = N.norm(args[0])
            return pmul(pexp(p), ppow(col(pexp(p)), -1))
        if n == "log_softmax":
            self.last(v)
            p = N.norm(args[0])
            return padd(p, lse(p), -1)
        if n == "logsumexp":
            self.last(v)
            return lse(N.norm(args[0]))
        if n in ("asarray", "array", "astype", "copy"):
            return N.norm(args[0])
        if n in ("sum", "mean") and args:
            ax = kw.get("axis", args[1] if len(args) > 1 else None)
            p = N.norm(args[0])
            if ax is None:
                if self.two_d and not self.reduced(p):
                    p = col(p)
                    if n == "mean":
                        return pmul(pmul(rowsum(p), atom(ROWS, -1)), atom(("C",), -1))
                return rowmean(p) if n == "mean" else rowsum(p)
            if ax.k == "const" and ax.a[0] in (-1, 1) and self.two_d and not self.reduced(p):
                return col(p) if n == "sum" else pmul(col(p), atom(("C",), -1))
            if ax.k == "const" and ax.a[0] == 0 and self.two_d and not self.reduced(p):
                raise Mismatch("reduction over the data axis where the dimension axis is meant")
            if ax.k == "const" and ax.a[0] in (0, -1):
                return rowsum(p) if n == "sum" else rowmean(p)
            raise Unknown("reduction axis")
        return None

    def last(self, v):
        ax = dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
        if ax is None or ax.k != "const":
            raise Unknown("axis")
        if ax.a[0] not in (-1, 1):
            raise Mismatch("normalisation along another axis than the classes")


def sq(p):
    return pmul(p, p)


def half(p):
    return ppow(p, Fraction(1, 2))


def diff():
    return padd(A("preds"), A("targets"), -1)


def inside():
    return rowmean(pmul(cmp("<=", A("lower_bounds"), A("targets")), cmp("<=", A("targets"), A("upper_bounds"))))


def correct_logit(f):
    return col(pmul(onehot("targets"), f))


def softm(p):
    return pmul(pexp(p), ppow(col(pexp(p)), -1))


def ece_form():
    return pmul(rowsum(pmul(A("counts"), absp(padd(A("accs"), A("confs"), -1)))), atom(ROWS, -1))


def mce_form():
    return atom(("max", key(absp(padd(A("accs"), A("confs"), -1)))))


O0, O1 = lambda: atom(("v", "half", 0, "$arg.outputs")), lambda: atom(("v", "half", 1, "$arg.outputs"))

SPECS = [
    (CL + "accuracy", False, lambda: [rowmean(cmp("==", A("preds"), A("targets")))]),
    (CL + "brier_score", True, lambda: [rowmean(col(sq(padd(A("probs"), onehot("targets"), -1))))]),
    (CL + "brier_score", False, lambda: [rowmean(sq(padd(A("probs"), A("targets"), -1)))]),
    (CL + "expected_calibration_error", False, lambda: [ece_form()]),
    (CL + "ece", False, lambda: [ece_form()]),
    (CL + "maximum_calibration_error", False, lambda: [mce_form()]),
    (CL + "mce", False, lambda: [mce_form()]),
    (RG + "root_mean_squared_error", True, lambda: [half(rowmean(col(sq(diff()))))]),
    (RG + "rmse", True, lambda: [half(rowmean(col(sq(diff()))))]),
    (RG + "mean_squared_error", True, lambda: [rowmean(col(sq(diff())))]),
    (RG + "mse", True, lambda: [rowmean(col(sq(diff())))]),
    (RG + "root_mean_absolute_error", True, lambda: [half(rowmean(col(absp(diff()))))]),
    (RG + "rmae", True, lambda: [half(rowmean(col(absp(diff()))))]),
    (RG + "mean_absolute_error", True, lambda: [rowmean(col(absp(diff())))]),
    (RG + "mae", True, lambda: [rowmean(col(absp(diff())))]),
    (RG + "prediction_interval_coverage_probability", False, lambda: [inside()]),
    (RG + "picp", False, lambda: [inside()]),
    (LC + "cross_entropy.cross_entropy_loss_fn", True, lambda: [rowmean(padd(lse(A("outputs")), correct_logit(A("outputs")), -1))]),
    (LC + "focal_loss.focal_loss_fn", True, lambda: [padd({}, rowmean(pmul(sq(padd(const_p(1), correct_logit(softm(A("outputs"))), -1)), plog(correct_logit(softm(A("outputs")))))), -1)]),
    (LR + "scaled_mse.scaled_mse_fn", True, lambda: [rowmean(col(padd(pmul(pexp(padd({}, O1(), -1)), sq(padd(A("targets"), O0(), -1))), O1())))]),
]


def max_leaf(v, N):
    if v.k == "app":
        h = str(v.a[0] if isinstance(v.a[0], str) else N.fn(v)).rsplit(".", 1)[-1]
        if h in ("max", "amax") and len(v.a[1]) == 1:
            return atom(("max", key(N.norm(v.a[1][0]))))
    return None


def value_of(P, q, prep=None):
    f = P.func(q)
    a = Api(P)
    if prep:
        prep(a.s)
    s = a.s
    kw = {n: s.sym("arg." + n, None, "not") for n, d, *_ in params_of(f, drop_self=False) if not d}
    v, ev, end = a.run(lambda: s.I.call(s.I.decorated(f), [], list(kw.items()), s.st, s.fr, None))
    return a, f, (None if v is None else reified(a, v, end, 16))


def binned(s):
    f = s.I.P.func(CL + "compute_counts_confs_accs") if hasattr(s.I, "P") else s.P.func(CL + "compute_counts_confs_accs")
    seen = {}

    def stub(I, b, st, fr, n):
        seen.update({k: I.models.reify(I, b[k], st, 4) for k in ("preds", "probs", "targets") if k in b})
        return tup([I.sym("arg." + x, None, "not") for x in ("counts", "confs", "accs")])

    s.I.stubs[f.qual] = stub
    s.binned = seen


def flat_alts(v):
    """alternatives at the top; alternatives of a target conversion stay inside."""
    return list(v.a[0]) if v.k == "phi" else [v]


def formulas(ctx):
    P = ctx.P
    done = {}
    for q, two, form in SPECS:
        done.setdefault(q, []).append((two, form))
    n = 0
    for q, forms in done.items():
        if q not in P.functions:
            ctx.undec(q, "no such function")
            continue
        n += 1
        err = "calibration_error" in q or q.endswith((".ece", ".mce"))
        a, f, v = value_of(P, q, binned if err else None)
        ctx.absorb(a.s)
        if v is None:
            ctx.ob(q, False, q, "never returns")
            continue
        if err:
            for k, x in getattr(a.s, "binned", {}).items():
                ctx.ob(f"{q}:{k}", x.k == "sym" and x.a[0] == "arg." + k, q, f"the bins are computed from {x} in the role of {k}")
        alts = flat_alts(v)
        results = []
        for x in alts:
            best = None
            for two, form in forms:
                M = MetricNorm(two, max_leaf)
                try:
                    p = M.N.norm(x)
                    ok = any(equal(p, e) for e in form())
                except (Unknown, Mismatch) as e:
                    best = best or ("undec" if isinstance(e, Unknown) else "bad", str(e), None)
                    continue
                if ok:
                    best = ("ok", "", form)
                    break
                if best is None or best[0] != "ok":
                    best = ("undec" if opaque(p, form(), M.N) else "bad", f"computes {show(p, M.N)}, its definition is {show(form()[0], M.N)}", None)
            if best[0] == "undec":
                ctx.undec(q, best[1])
            else:
                ctx.ob(q, best[0] == "ok", q, best[1])
            results.append(best)
        if len(forms) > 1 and all(b[0] == "ok" for b in results):
            ctx.ob(q + ":cases", {id(b[2]) for b in results} == {id(f) for _, f in forms}, q, "one of the documented cases is never computed")
    ctx.need("metric and loss functions", n, 15)


def bins(ctx):
    P = ctx.P
    q = CL + "compute_counts_confs_accs"
    a, f, v = value_of(P, q)
    ctx.absorb(a.s)
    if v is None or v.k != "tuple" or len(v.a[0]) != 3:
        ctx.ob(q, False, q, "does not return counts, confidences and accuracies")
        return
    sets = set()

    def extra(x, N):
        if x.k == "app" and str(x.a[0]).rsplit(".", 1)[-1] == "nan_to_num":
            return N.norm(x.a[1][0])
        if x.k == "app" and str(x.a[0]).rsplit(".", 1)[-1] in ("array", "asarray") and x.a[1][0].k in ("rsum",):
            return N.norm(x.a[1][0].a[0])
        if x.k == "app" and str(x.a[0]).rsplit(".", 1)[-1] in ("max", "amax"):
            return A("probs")
        if x.k == "app" and x.a[0] in ("builtins.len", "len") and is_set(x.a[1][0]):
            note(x.a[1][0])
            return atom(("count",))
        if x.k == "app" and x.a[0] in (".size",):
            return atom(("count",))
        if x.k == "attr" and x.a[1] == "size" and is_set(x.a[0]):
            note(x.a[0])
            return atom(("count",))
        if x.k == "item" and is_set(x.a[1]):
            note(x.a[1])
            return N.norm(x.a[0])
        return None

    def is_set(x):
        return any(str(y.a[0]).rsplit(".", 1)[-1] in ("where", "nonzero", "flatnonzero", "argwhere") for y in sub(x) if y.k == "app")

    cur = [None]
    per = {}

    def note(x):
        per.setdefault(cur[0], set()).update(x.a[0] if x.k == "phi" else [x])

    want = {"counts": [atom(("count",))], "confs": [rowmean(A("probs"))], "accs": [rowmean(cmp("==", A("preds"), A("targets")))]}
    for name, x in zip(("counts", "confs", "accs"), v.a[0]):
        cur[0] = name
        M = MetricNorm(False, extra)
        try:
            p = M.N.norm(x)
        except (Unknown, Mismatch) as e:
            ctx.undec(f"{q}:{name}", str(e))
            continue
        judge(ctx, f"{q}:{name}", q, p, want[name], M.N, name)
    if len(per) == 3:
        ctx.ob(q + ":same bins", len({frozenset(x) for x in per.values()}) == 1, q, "counts, confidences and accuracies are taken over different bins")
    conds = []
    for x in set().union(*per.values()) if per else ():
        cs = [y for y in sub(x) if y.k == "app" and y.a[0] in ("Lt", "LtE", "Gt", "GtE")]
        conds.append([orient(y) for y in cs])
    if not conds or any(c is None for cs in conds for c in cs):
        ctx.undec(q + ":partition", "bin conditions not recognised")
        return
    upper = {op for cs in conds for op, _ in cs if op in ("<", "<=")}
    lower = {op for cs in conds for op, _ in cs if op in (">", ">=")}
    ctx.ob(q + ":partition", upper == {"<="} and lower == {">"}, q, f"the bins (conditions {sorted(upper | lower)}) lose or double-count values on their edges")
    ctx.ob(q + ":first bin", any(not [1 for op, _ in cs if op in (">", ">=")] for cs in conds) or len(conds) == 1, q, "no bin takes the smallest values")
    ls = {y for x in set().union(*per.values()) for y in sub(x) if y.k == "app" and str(y.a[0]).endswith("linspace")}
    for y in ls:
        hi = y.a[1][1] if len(y.a[1]) > 1 else dict(y.a[2]).get("stop")
        ctx.ob(q + ":last edge", hi is not None and hi.k == "const" and hi.a[0] == 1, q, f"the last bin edge is {hi}, not 1")


def orient(y):
    """comparison with the data on the left: operator and threshold."""
    l, r = y.a[1]
    op = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[y.a[0]]
    dl, dr = mentions(l, "arg.probs") and l.k != "item", mentions(r, "arg.probs") and r.k != "item"
    tl = any(str(z.a[0]).endswith("linspace") for z in sub(l) if z.k == "app")
    tr = any(str(z.a[0]).endswith("linspace") for z in sub(r) if z.k == "app")
    if tr and not tl:
        return op, r
    if tl and not tr:
        return {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], l
    return None


def run(ctx):
    formulas(ctx)
    bins(ctx)
