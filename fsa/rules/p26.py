"""P26: moments of likelihoods and predictive distributions."""
from .p25 import *

EXPLANATION = (
    "The value returned by every moment method (mean, mode, variance, standard deviation, log-probability) of every probabilistic output layer, likelihood and predictive class is computed as a symbolic term from the source, "
    "with the layer below replaced by a named placeholder; loops over posterior samples become sums over the sample index. The term's normal form must be the one that defines the quantity: "
    "average of per-sample means, average of per-sample variances, mean square minus squared mean, sum of the two variances, square root of the variance (computed or given), log of the averaged per-sample probability; "
    "every per-sample term uses the parameters and state of the posterior sample of its own index."
)
ASSUMPTIONS = ["library functions (softmax, logsumexp, concatenate, pmap, jit) have their documented meaning", "clipping a variance estimate at zero is allowed"]

LIK = "fortuna.likelihood.base.Likelihood"
LAYER = "fortuna.prob_output_layer.base.ProbOutputLayer"
LAYER_METHODS = ("log_prob", "predict", "sample", "mean", "mode", "variance", "entropy")
POST_FIELDS = ("params", "mutable", "calib_params", "calib_mutable")


def reified(a, v, end, depth=14):
    return a.s.I.models.reify(a.s.I, v, end, depth)


def unwrap(v, depth=20):
    """the per-batch value inside concatenate / per-device bookkeeping."""
    while depth:
        depth -= 1
        if v.k == "rsum":
            v = v.a[0]
        elif v.k == "rlist" and len(v.a[0]) == 1:
            v = v.a[0][0]
        elif v.k == "app" and v.a[0] in ("jax.numpy.concatenate", "jax.numpy.vstack", ".reshape", ".swapaxes", "batched", "tree", "jax.device_get") and v.a[1]:
            v = v.a[1][0]
        elif v.k == "phi":
            ms = {unwrap(m, depth) for m in v.a[0]}
            return phi(list(ms)) if len(ms) > 1 else ms.pop()
        else:
            return v
    return v


def deep_unwrap(v, cache=None):
    """unwrap at every arithmetic position (a sum of concatenations is a concatenation of sums)."""
    v = unwrap(v)
    if v.k == "app" and isinstance(v.a[0], str) and (v.a[0] in ("Add", "Sub", "Mult", "Div", "Pow", "neg") or v.a[0].rsplit(".", 1)[-1] in ("sqrt", "square", "maximum", "add", "subtract", "multiply", "divide", "power", "exp", "log", "clip")):
        return mk("app", v.a[0], tuple(deep_unwrap(x) for x in v.a[1]), v.a[2] if len(v.a) > 2 else ())
    if v.k == "phi":
        return phi([deep_unwrap(m) for m in v.a[0]])
    return v


class SampleNorm:
    """normal forms in which folds over the posterior-sample index are sums."""

    def __init__(self, n_label="arg.n_posterior_samples"):
        self.n_label = n_label
        self.idx = mk("sym", "<sample index>")
        self.N = Norm(leaf=self.leaf, vec=self.vec)
        self.names = {}

    def vec(self, x):
        if isinstance(x, V):
            return any(y is self.idx for y in sub(x))
        return False

    def leaf(self, v, N):
        if v.k in ("rsum", "rlist") or v.k == "app" and v.a[0] in ("jax.numpy.concatenate", ".reshape", ".swapaxes"):
            u = unwrap(v)
            if u is not v:
                return N.norm(u)
        if v.k == "app" and v.a[0] == "fold":
            return self.fold(v, N)
        n = N.fn(v) if v.k == "app" else None
        if n is None:
            return None
        short = n.rsplit(".", 1)[-1]
        if short in ("maximum", "clip", "relu") and len(v.a[1]) >= 1:
            xs = [x for x in v.a[1] if not is_zero(x) and x is not NONE]
            if len(xs) == 1:
                return N.norm(xs[0])
        if short in ("mean", "sum", "var", "std") and n.startswith(("jax.numpy.", "numpy.", ".")) and v.a[1]:
            x, ax = v.a[1][0], dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
            e = self.per_sample(x)
            if e is not None and ax is not None and is_zero(ax):
                p = N.norm(e)
                nn = self.size(N)
                m1 = pmul(N.sum(p), ppow(nn, -1))
                if short == "sum":
                    return N.sum(p)
                if short == "mean":
                    return m1
                m2 = pmul(N.sum(pmul(p, p)), ppow(nn, -1))
                var = padd(m2, pmul(m1, m1), -1)
                return var if short == "var" else ppow(var, Fraction(1, 2))
        return None

    def size(self, N):
        return N.norm(self.n_sym)

    def count(self, hi):
        """the number of keys of a split is the number asked for."""
        if hi.k == "app" and str(hi.a[0]).endswith("len") and hi.a[1]:
            n = split_count(hi.a[1][0])
            return n if n is not None else hi
        return hi

    def per_sample(self, x):
        """element of an array over posterior samples as a function of the sample index, or None."""
        if x.k == "app" and x.a[0] == "batched":
            for y in sub(x):
                if y.k in ("lane", "elem") and split_count(y.a[0]) is not None:
                    self.n_sym = split_count(y.a[0])
                    break
            else:
                return None
            return index_free(x.a[1][0], self.idx)
        return None

    def fold(self, v, N):
        lo, hi, init, idx, carry, r = v.a[1]
        hi = self.count(hi)
        self.n_sym = hi
        C = N.atom(carry)
        p = N.norm(r)
        t = padd(p, atom(C), -1)
        if any(a == C for m in t for a, _ in m):
            raise Unknown("loop is not a running sum")
        t_at = lambda i: N.norm(replace(deep_unwrap(r), {idx: i, carry: const(0)}))
        first = N.norm(init)
        if is_zero(lo):
            if first:
                return padd(N.sum(t_at(self.idx)), first)
        elif lo.k == "const" and lo.a[0] == 1:
            if not equal(first, t_at(const(0))):
                raise Mismatch("the running sum does not start from the first sample")
        else:
            raise Unknown("loop bounds")
        return N.sum(t_at(self.idx))


def split_count(v):
    if v.k == "app" and str(v.a[0]).endswith("split") and "random" in str(v.a[0]):
        return dict(v.a[2]).get("num", v.a[1][1] if len(v.a[1]) > 1 else None) if len(v.a) > 2 else (v.a[1][1] if len(v.a[1]) > 1 else None)
    if v.k == "phi":
        c = {split_count(m) for m in v.a[0]}
        return c.pop() if len(c) == 1 else None
    return None


class Mismatch(Exception):
    pass


def index_free(e, idx):
    """replace the lane of the mapped sample keys by the sample index."""
    m = {}
    for y in sub(e):
        if y.k in ("lane", "elem"):
            m[y] = mk("item", y.a[0], idx)
    return replace(e, m) if m else None


def replace(v, m, memo=None):
    memo = {} if memo is None else memo
    if v in m:
        return m[v]
    if v in memo:
        return memo[v]
    r = v
    if v.k == "app":
        r = mk("app", replace(v.a[0], m, memo) if isinstance(v.a[0], V) else v.a[0], tuple(replace(x, m, memo) for x in v.a[1]), tuple((n, replace(x, m, memo)) for n, x in v.a[2]) if len(v.a) > 2 else ())
    elif v.k in ("item", "attr", "elem", "lane", "leaf"):
        r = mk(v.k, *[replace(x, m, memo) if isinstance(x, V) else x for x in v.a])
    elif v.k == "phi":
        r = phi([replace(x, m, memo) for x in v.a[0]])
    elif v.k == "tuple":
        r = tup([replace(x, m, memo) for x in v.a[0]])
    memo[v] = r
    return r


def prepare(P, likelihood=True, posterior=True, layer=False):
    """placeholders for the layers below the one being analysed."""

    def prep(s):
        s.I.folds = 1
        R = s.I.models.reify
        if posterior:
            for c in P.classes.values():
                f = c.methods.get("sample")
                if f and P.cls("fortuna.prob_model.posterior.base.Posterior") in c.mro:
                    s.I.stubs[f.qual] = lambda I, b, st, fr, n: app("POST", [b.get("rng", NONE)])
        if likelihood:
            for q in (LIK,):
                for c in P.classes.values():
                    if P.cls(q) not in c.mro:
                        continue
                    for n in ("_batched_mean", "_batched_variance", "_batched_log_prob", "_batched_mode"):
                        f = c.methods.get(n)
                        if f:
                            s.I.stubs[f.qual] = lambda I, b, st, fr, nn, n=n: app(n.replace("_batched_", "LIK."), [R(I, b.get(k, NONE), st, 6) for k in ("params", "inputs" if "inputs" in b else "batch", "mutable", "calib_params", "calib_mutable")])
        if layer:
            for n in ("_get_batched_calibrated_outputs", "get_calibrated_outputs"):
                f = P.cls(LIK).lookup(n)[1]
                s.I.stubs[f.qual] = lambda I, b, st, fr, nn: I.sym("arg.outputs", None, "not")
            for c in P.classes.values():
                if P.cls(LAYER) in c.mro:
                    for n in LAYER_METHODS:
                        f = c.methods.get(n)
                        if f:
                            s.I.stubs[f.qual] = lambda I, b, st, fr, nn, n=n: app("LAYER." + n, [R(I, b.get(k, NONE), st, 8) for k in ("outputs", "targets") if k in b])

    return prep


def with_prep(prep, fn):
    Api.prep = prep
    try:
        return fn()
    finally:
        Api.prep = None


def lik_atom(name, idx, x):
    """is x the per-sample quantity `name` of the posterior sample at index idx?"""
    return x.k == "app" and x.a[0] == "LIK." + name


def per_sample_ok(x, idx):
    """every state argument of a per-sample term comes from one posterior sample, in its own role."""
    bad = []
    posts = {y for y in sub(x) if y.k == "app" and y.a[0] == "POST"}
    if len(posts) != 1:
        bad.append(f"{len(posts)} posterior samples in one term")
    for f, v in zip(("params", None, "mutable", "calib_params", "calib_mutable"), x.a[1]):
        if f is None:
            continue
        if v.k != "attr" or v.a[1] != f or v.a[0] not in posts:
            bad.append(f"{f} is {str(v)[:80]}")
    if not mentions(x.a[1][1], "arg.inputs_loader") and not mentions(x.a[1][1], "arg.data_loader"):
        bad.append(f"evaluated on {str(x.a[1][1])[:60]}")
    return bad


def predictive(ctx, it):
    label, dist = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]

    def go():
        a = Api(P)
        recv = r.build(a)
        r.fitted(a, recv)
        c = class_of(a.s, recv)
        for meth, opts in METHODS:
            f = c.lookup(meth)[1]
            if not isinstance(f, FuncInfo):
                ctx.undec(f"{label}.{meth}", "no such method")
                continue
            for given in opts:
                ps = [n for n, d, *_ in params_of(f)]
                omit = tuple(n for n in ps if n in EXTRA and n not in given)
                v, ev, end = a.call(meth, f, omit, override={"distribute": TRUE if dist else FALSE})
                k = f"{label}.{meth}[{','.join(given)}]:distribute={dist}"
                check_moment(ctx, k, f.qual, a, v, end, meth, given)
        ctx.absorb(a.s)

    with_prep(prepare(P), go)


EXTRA = ("aleatoric_variances", "epistemic_variances", "variances", "means")
METHODS = (
    ("mean", ((),)),
    ("mode", ((), ("means",))),
    ("aleatoric_variance", ((),)),
    ("epistemic_variance", ((),)),
    ("variance", ((), ("aleatoric_variances",), ("epistemic_variances",), ("aleatoric_variances", "epistemic_variances"))),
    ("std", ((), ("variances",))),
    ("log_prob", ((),)),
    ("ensemble_log_prob", ((),)),
)


def check_moment(ctx, k, w, a, v, end, meth, given):
    if v is None:
        ctx.ob(k, False, w, "never returns")
        return
    v = reified(a, v, end, 16)
    if meth in ("log_prob", "ensemble_log_prob"):
        return check_logprob(ctx, k, w, v, meth)
    if meth == "mode":
        return check_mode(ctx, k, w, v, given)
    v = deep_unwrap(v)
    for x in alternatives(v):
        S = SampleNorm()
        N = S.N

        def leaf(y, N, S=S):
            if y.k == "app" and isinstance(y.a[0], str) and y.a[0].startswith("LIK."):
                return ("v", ("lik", y.a[0], any(z is S.idx for z in sub(y))))
            if y.k == "sym" and y.a[0] in ("arg." + e for e in EXTRA):
                return ("v", y.a[0])
            return S.leaf(y, N)

        N.leaf = leaf
        N.vals = Vals(N.vals, S)
        try:
            p = N.norm(x)
            n = N.norm(S.n_sym) if hasattr(S, "n_sym") else None
        except Unknown as e:
            ctx.undec(k, str(e))
            continue
        except Mismatch as e:
            ctx.ob(k, False, w, str(e))
            continue
        exp = expected_form(meth, given, n)
        if exp is None:
            ctx.undec(k, "no sum over posterior samples found")
            continue
        judge(ctx, k, w, p, [exp], N, meth)
        for y in find_app(x, "LIK.mean") + find_app(x, "LIK.variance"):
            bad = per_sample_ok(y, S.idx)
            ctx.ob(k + ":arguments", not bad, w, "; ".join(bad))


class Vals(dict):
    def __init__(self, d, S):
        super().__init__(d)
        self.S = S

    def __missing__(self, a):
        if isinstance(a[1], tuple) and a[1][0] == "lik":
            return self.S.idx if a[1][2] else NONE
        return NONE


def lik_term(name):
    return atom(("v", ("lik", "LIK." + name, True)))


def sample_sum(p):
    ((m, c),) = p.items()
    return {((("S", m), Fraction(1)),): c}


def expected_form(meth, given, n):
    def avg(p):
        return pmul(sample_sum(p), ppow(n, -1))

    def g(name):
        return atom(("v", "arg." + name))

    if meth == "std":
        v = g("variances") if "variances" in given else expected_form("variance", given, n)
        return ppow(v, Fraction(1, 2)) if v is not None else None
    if meth == "variance":
        al = g("aleatoric_variances") if "aleatoric_variances" in given else (expected_form("aleatoric_variance", given, n))
        ep = g("epistemic_variances") if "epistemic_variances" in given else (expected_form("epistemic_variance", given, n))
        return padd(al, ep) if al is not None and ep is not None else None
    if n is None:
        return None
    if meth == "mean":
        return avg(lik_term("mean"))
    if meth == "aleatoric_variance":
        return avg(lik_term("variance"))
    if meth == "epistemic_variance":
        m = lik_term("mean")
        m1 = avg(m)
        return padd(avg(pmul(m, m)), pmul(m1, m1), -1)


def check_logprob(ctx, k, w, v, meth):
    for x in members(unwrap(v)):
        inner = unwrap(x)
        if meth == "log_prob":
            ok, e = False, None
            if inner.k == "app" and inner.a[0] == "Sub":
                l, r = inner.a[1]
                if l.k == "app" and str(l.a[0]).endswith("logsumexp") and r.k == "app" and str(r.a[0]).endswith(".log"):
                    ax = dict(l.a[2]).get("axis", l.a[1][1] if len(l.a[1]) > 1 else None)
                    e = l.a[1][0]
                    ok = ax is not None and is_zero(ax) and r.a[1][0].k == "sym" and r.a[1][0].a[0] == "arg.n_posterior_samples"
                    what = "log of the averaged per-sample probability"
            if e is None:
                found = find_app(inner, "LIK.log_prob")
                if any("logsumexp" in str(y.a[0]) for y in sub(inner) if y.k == "app") or not found:
                    ctx.undec(k, f"form not recognised: {str(inner)[:80]}")
                else:
                    ctx.ob(k, False, w, f"the log-probability is {str(inner)[:160]} instead of the log of the averaged per-sample probability")
                continue
            ctx.ob(k, ok, w, f"the log-probability is {str(inner)[:160]} instead of the log of the averaged per-sample probability")
        else:
            e = inner
        e = unwrap(e)
        es = [y for y in members(e)]
        for y in es:
            ok = y.k == "app" and y.a[0] == "LIK.log_prob"
            ctx.ob(k + ":per-sample", ok, w, f"the per-sample term is {str(y)[:140]} instead of the log-likelihood")
            if ok:
                bad = per_sample_ok(y, None)
                ctx.ob(k + ":arguments", not bad, w, "; ".join(bad))


def check_mode(ctx, k, w, v, given):
    v = unwrap(v)
    for x in members(v):
        cls = "Classifier" in k
        y = x
        if cls:
            ok = y.k == "app" and str(y.a[0]).endswith("argmax") and last_axis(y)
            ctx.ob(k + ":argmax", ok, w, f"the mode is {str(y)[:120]} instead of the most probable class")
            if not ok:
                continue
            y = unwrap(y.a[1][0])
        if "means" in given:
            ctx.ob(k, y.k == "sym" and y.a[0] == "arg.means", w, f"the mode of given means is computed from {str(y)[:120]}")
        else:
            ms = find_app(y, "LIK.mean")
            ctx.ob(k, bool(ms) and not find_app(y, "LIK.variance"), w, f"the mode is computed from {str(y)[:120]} instead of the predictive mean")


def last_axis(y):
    ax = dict(y.a[2]).get("axis", y.a[1][1] if len(y.a[1]) > 1 else None)
    return ax is not None and ax.k == "const" and ax.a[0] == -1


M_ATOM = ("v", "arg.n_posterior_samples")


def lin(name, p):
    """a sum over one axis, as a linear operator on monomials."""
    r = {}
    for m, c in p.items():
        sc = tuple((a, e) for a, e in m if a in (M_ATOM, ("N",)) or a[0] in ("const", "num"))
        rest = tuple((a, e) for a, e in m if (a, e) not in sc)
        r = padd(r, pmul({sc: c}, atom(("L", name, rest))))
    return r


def entropy_forms(cls):
    ll, minv = atom(("v", "LL")), atom(M_ATOM, -1)
    if cls:
        lp = plog(pmul(lin("s", pexp(ll)), minv))
        al = padd({}, lin("c", pmul(lin("s", pmul(pexp(ll), ll)), minv)), -1)
        en = padd({}, lin("c", pmul(pexp(lp), lp)), -1)
    else:
        lp = plog(pmul(lin("s", pexp(atom(("v", "LL*")))), minv))
        al = padd({}, pmul(lin("i", pmul(lin("t", ll), atom(("N",), -1))), minv), -1)
        en = padd({}, pmul(lin("i", pmul(lin("t", lp), atom(("N",), -1))), minv), -1)
    return {"aleatoric_entropy": al, "entropy": en, "epistemic_entropy": padd(en, al, -1)}


class EntropyNorm(SampleNorm):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls
        self.N.sum = lambda p: lin("i", p)

    def leaf(self, v, N):
        if v.k == "sym" and v.a[0] == "arg.n_posterior_samples":
            return M_ATOM
        if v.k != "app":
            return None
        h = v.a[0] if isinstance(v.a[0], str) else N.fn(v)
        if h == "LAYER.log_prob":
            o, t = v.a[1][:2]
            if o.k == "sym" and str(o.a[0]) == "ENS":
                return ("v", "LL*")
            if o.k == "item":
                if t.k == "item" and t.a[1] is not o.a[1]:
                    raise Mismatch("the outputs and the target samples of different posterior samples are combined")
            elif o.k not in ("lane", "elem"):
                raise Unknown(f"log-probability of {str(o)[:60]}")
            return ("v", "LL")
        if h == "batched":
            return N.norm(v.a[1][0])
        if h == "fold":
            return self.fold(v, N)
        short = str(h).rsplit(".", 1)[-1]
        if short in ("sum", "mean", "logsumexp") and v.a[1]:
            ax = dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
            if ax is None or not is_zero(ax):
                raise Mismatch(f"{short} along another axis than the first")
            p = N.norm(v.a[1][0])
            if short == "logsumexp":
                return plog(lin("s", pexp(p)))
            if short == "sum":
                return lin("c", p) if self.cls else lin("i", p)
            return pmul(lin("s", p), atom(M_ATOM, -1)) if self.cls else pmul(lin("t", p), atom(("N",), -1))
        return None


def entropies(ctx, it):
    """total, aleatoric and epistemic entropy are the documented functionals of one ensemble of log-likelihoods and decompose exactly."""
    label = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]
    cls = "Classifier" in label
    forms = entropy_forms(cls)

    def prep(s):
        prepare(P, layer=True)(s)
        f = P.cls("fortuna.prob_model.predictive.base.Predictive").lookup("sample_calibrated_outputs")[1]
        s.I.stubs[f.qual] = lambda I, b, st, fr, n: I.sym("ENS", None, "not")

    def go():
        a = Api(P)
        recv = r.build(a)
        r.fitted(a, recv)
        c = class_of(a.s, recv)
        for meth, exp in forms.items():
            f = c.lookup(meth)[1]
            k = f"{label}.{meth}"
            v, ev, end = a.call(meth, f, (), override={"distribute": FALSE})
            if v is None:
                ctx.ob(k, False, f.qual, "never returns")
                continue
            for x in alternatives(reified(a, v, end, 16)):
                E = EntropyNorm(cls)
                try:
                    p = E.N.norm(x)
                except Unknown as e:
                    ctx.undec(k, str(e))
                    continue
                except Mismatch as e:
                    ctx.ob(k, False, f.qual, str(e))
                    continue
                judge(ctx, k, f.qual, p, [exp], E.N, meth)
        ctx.absorb(a.s)

    with_prep(prep, go)


def likelihoods(ctx, it):
    """likelihood and calibrated predictive methods evaluate the layer's method of the same name."""
    label, stage = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]

    def go():
        a = Api(P)
        recv = r.build(a)
        if stage == "fitted":
            r.fitted(a, recv)
        c = class_of(a.s, recv)
        for meth in ("mean", "mode", "variance", "entropy", "log_prob", "std"):
            d, f = c.lookup(meth)
            if not isinstance(f, FuncInfo) or is_abstract_fn(f):
                continue
            ps = [n for n, *_ in params_of(f)]
            for given in ((), ("variance",), ("variances",)):
                if any(g not in ps for g in given):
                    continue
                omit = tuple(n for n in ("variance", "variances") if n in ps and n not in given)
                for dist in ((TRUE, FALSE) if "distribute" in ps else (None,)):
                    ov = {} if dist is None else {"distribute": dist}
                    v, ev, end = a.call(meth, f, omit, override=ov)
                    k = f"{label}.{meth}[{','.join(given)}]"
                    if v is None:
                        ctx.ob(k, False, f.qual, "never returns")
                        continue
                    v = reified(a, v, end, 12)
                    for x in members(unwrap(v)):
                        moment(ctx, k, f.qual, unwrap(x), meth, given, "Classifier" in label)
        ctx.absorb(a.s)

    with_prep(prepare(P, likelihood=False, posterior=False, layer=True), go)


def moment(ctx, k, w, x, meth, given, cls):
    """the value is the documented moment of the layer's distribution given the (calibrated) outputs."""
    if x.k == "app" and x.a[0] == "LAYER." + meth:
        ctx.ob(k, True, w, "")
        return
    forms = CLS if cls else REG
    if meth == "log_prob":
        ok = bool(find_app(x, "LAYER.log_prob"))
        ctx.ob(k, ok, w, f"{meth} returns {str(x)[:140]} instead of the layer's log-probability")
        return
    if meth == "mode" and cls:
        ok = x.k == "app" and str(x.a[0]).endswith("argmax") and last_axis(x)
        if ok:
            y = unwrap(x.a[1][0])
            ok = y.k == "sym" and y.a[0] == "arg.outputs" or y.k == "app" and (y.a[0] in ("LAYER.mean", "LAYER.mode") or str(y.a[0]).endswith("softmax") and y.a[1][0].k == "sym")
        ctx.ob(k, ok, w, f"the mode is {str(x)[:140]} instead of the most probable class")
        return
    N = Norm(leaf=moment_leaf(forms), vec=lambda y: True)
    N.vals = AllVec()
    if meth == "entropy":
        lp = ("v", "LAYER.log_prob")
        exp = padd({}, N.sum(pmul(pexp(atom(lp)), atom(lp))), -1) if cls else padd({}, pmul(N.sum(atom(lp)), atom(("N",), -1)), -1)
    else:
        g = tuple("variances" for _ in given)
        exp = [f() for m, gg, f in forms if m == meth and gg == g]
        if not exp:
            ctx.undec(k, "no reference formula")
            return
        exp = exp[0]
    for y in alternatives(deep_unwrap(x)):
        try:
            p = N.norm(y)
        except Unknown as e:
            ctx.undec(k, str(e))
            continue
        except Mismatch as e:
            ctx.ob(k, False, w, str(e))
            continue
        judge(ctx, k, w, p, [exp], N, meth)


def moment_leaf(forms):
    def leaf(v, N):
        if v.k == "sym" and v.a[0] in ("arg.variance", "arg.variances"):
            return ("v", "arg.variances")
        if v.k == "app" and isinstance(v.a[0], str) and v.a[0].startswith("LAYER."):
            n = v.a[0][6:]
            if n == "log_prob":
                return ("v", "LAYER.log_prob")
            for m, g, f in forms:
                if m == n and not g:
                    return f()
            raise Unknown(f"layer {n}")
        if v.k == "app" and v.a[0] == "batched":
            return N.norm(v.a[1][0])
        n = N.fn(v) if v.k == "app" else None
        short = n.rsplit(".", 1)[-1] if n else None
        if short in ("sum", "mean") and v.a[1]:
            ax = dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
            if ax is not None and is_zero(ax):
                p = N.sum(N.norm(v.a[1][0]))
                return p if short == "sum" else pmul(p, atom(("N",), -1))
        if v.k == "item" and v.a[0].k == "sym" and v.a[0].a[0] == "arg.outputs":
            h = half_slice(v.a[1])
            if h is not None:
                return ("v", "half", h, "$arg.outputs")
        return layer_leaf(v, N)

    return leaf


def half_slice(ix):
    """0 or 1 for a slice of the first or second half of the last axis."""
    if ix.k == "tuple" and ix.a[0]:
        ix = ix.a[0][-1]
    t = str(ix)
    t = t[6:-1].split(", ") if t.startswith("slice(") else ()
    if len(t) < 3 or t[-1] != "None":
        return None
    if t[0] in ("None", "0") and t[1].startswith("FloorDiv(") or t[0] in ("None", "0") and "FloorDiv" in t[1]:
        return 0
    if "FloorDiv" in t[0] and t[-2] == "None":
        return 1
    return None


def is_abstract_fn(f):
    return "abstractmethod" in deco_names(f)


def layers(ctx):
    P = ctx.P
    for q, forms in (("fortuna.prob_output_layer.classification.ClassificationProbOutputLayer", CLS), ("fortuna.prob_output_layer.regression.RegressionProbOutputLayer", REG)):
        c = P.cls(q)
        a = Api(P)
        recv = a.s.new(c)
        a.recv = recv
        need_rng(a, recv)
        for meth, given, form in forms:
            d, f = c.lookup(meth)
            ps = [n for n, *_ in params_of(f)]
            omit = tuple(n for n in ("variances",) if n in ps and n not in given)
            v, ev, end = a.call(meth, f, omit)
            k = f"{c.name}.{meth}[{','.join(given)}]"
            if v is None:
                ctx.ob(k, False, f.qual, "never returns")
                continue
            v = reified(a, v, end)
            N = Norm(leaf=layer_leaf, vec=lambda x: True)
            N.vals = AllVec()
            try:
                compare(ctx, k, f.qual, v, form(), N, meth)
            except Mismatch as e:
                ctx.ob(k, False, f.qual, str(e))
        ctx.absorb(a.s)


def layer_leaf(v, N):
    if v.k == "sym" and str(v.a[0]).startswith("arg."):
        return ("v", v.a[0])
    n = N.fn(v) if v.k == "app" else None
    short = n.rsplit(".", 1)[-1] if n else None
    if n and short in ("softmax", "log_softmax") and n.startswith(("jax.nn.", "jax.scipy.", "scipy.", ".")):
        ax = dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
        if ax is not None and not (ax.k == "const" and ax.a[0] == -1):
            raise Mismatch("softmax along another axis")
        p = {((("v", "softmax", key(N.norm(v.a[1][0]))), Fraction(1)),): Fraction(1)}
        return p if short == "softmax" else plog(p)
    if v.k == "item" and v.a[0].k == "app" and N.fn(v.a[0]) in ("jax.numpy.split", "numpy.split") and v.a[1].k == "const":
        x = v.a[0]
        if len(x.a[1]) > 1 and x.a[1][1].k == "const" and x.a[1][1].a[0] == 2 and last_axis_kw(x):
            return ("v", "half", v.a[1].a[0], str(x.a[1][0]))
    if n and short == "sum" and v.a[1]:
        ax = dict(v.a[2]).get("axis", v.a[1][1] if len(v.a[1]) > 1 else None)
        if ax is not None and ax.k == "const" and ax.a[0] == -1:
            return N.sum(N.norm(v.a[1][0]))
    if v.k == "attr" and v.a[1] == "log2pi":
        return plog(pmul(const_p(2), atom(("const", "pi"))))
    return None


def last_axis_kw(x):
    ax = dict(x.a[2]).get("axis", x.a[1][2] if len(x.a[1]) > 2 else None)
    return ax is not None and ax.k == "const" and ax.a[0] == -1


def H(i):
    return atom(("v", "half", i, "$arg.outputs"))


def SM():
    return {((("v", "softmax", key(atom(("v", "arg.outputs")))), Fraction(1)),): Fraction(1)}


def SV():
    return atom(("v", "arg.variances"))


def half(p):
    return ppow(p, Fraction(1, 2))


def gauss():
    d = padd(atom(("v", "arg.targets")), H(0), -1)
    el = padd(padd(pmul(pexp(padd({}, H(1), -1)), pmul(d, d)), H(1)), plog(pmul(const_p(2), atom(("const", "pi")))))
    N = Norm(vec=lambda x: True)
    N.vals = AllVec()
    return N.sum(pmul(const_p(Fraction(-1, 2)), el))


class AllVec(dict):
    def __missing__(self, k):
        return NONE


CLS = (
    ("mean", (), SM),
    ("variance", (), lambda: padd(SM(), pmul(SM(), SM()), -1)),
    ("std", (), lambda: half(padd(SM(), pmul(SM(), SM()), -1))),
    ("std", ("variances",), lambda: half(SV())),
)
REG = (
    ("mean", (), lambda: H(0)),
    ("mode", (), lambda: H(0)),
    ("predict", (), lambda: H(0)),
    ("variance", (), lambda: pexp(H(1))),
    ("std", (), lambda: half(pexp(H(1)))),
    ("std", ("variances",), lambda: half(SV())),
    ("log_prob", (), gauss),
)


def run(ctx):
    layers(ctx)
    P = ctx.P
    R = {r.label: r for r in receivers(P)}
    ap = ("map", "swag") if ctx.tier == "quick" else tuple(APPROX)
    items = [(f"{k}[{m}].predictive", d) for k in ("ProbClassifier", "ProbRegressor") for m in ap for d in (True, False) if f"{k}[{m}].predictive" in R]
    ctx.pmap(predictive, items)
    ctx.pmap(entropies, [f"{k}[map].predictive" for k in ("ProbClassifier", "ProbRegressor")])
    lik = [(f"{k}[map].likelihood", "new") for k in ("ProbClassifier", "ProbRegressor")]
    lik += [(f"{m}{k}.predictive", "fitted") for m in ("Calib", "OutputCalib") for k in ("Classifier", "Regressor")]
    ctx.need("likelihoods and calibrated predictive distributions", len([l for l, _ in lik if l in R]), 6)
    ctx.pmap(likelihoods, lik)
