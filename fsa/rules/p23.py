"""P23: hallucination scores are processed at prediction exactly as at fitting."""
import hashlib

from .apiscn import *

EXPLANATION = (
    "fit, predict_proba, predict, save and load of the hallucination multicalibrator are evaluated abstractly with three texts and contexts, an unknown "
    "language model, tokenizer, reduction model and clustering models; tokens, logits, scores, reduced embeddings, cluster probabilities and groups become "
    "terms over those. With the calibration texts exchanged for the prediction texts and `transform` for `fit_transform`, the scores and groups given to "
    "apply_patches must be the same terms as the scores and groups given to calibrate, and no statistic or fit inside them may involve a prediction text; "
    "contexts and texts stay paired and complete over batches; the label tokens are context then text and the scored tokens are those of the text; the "
    "clustering model with the smallest criterion is the one used; a loaded object computes the same terms as the saved one; and nothing passed by the "
    "caller is changed in place."
)
ASSUMPTIONS = [
    "pickle restores the attributes it was given",
    "the language model, tokenizer, reduction and clustering models are deterministic after fitting",
]

FITS = ("fit", "fit_transform", "fit_predict", "quantile", "nanquantile", "percentile", "std", "var", "median")
N = 3


def last(v):
    return v.a[0].rsplit(".", 1)[-1] if v.k == "app" and isinstance(v.a[0], str) else ""


class Pipe:
    def __init__(self, P, bic=None):
        self.a = Api(P)
        self.s = s = self.a.s
        self.I = I = s.I
        self.c = P.cls("HallucinationMulticalibrator")
        self.rec = []
        self.dumped = []
        bc = P.cls("BinaryClassificationMulticalibrator")
        for nm in ("calibrate", "apply_patches"):
            d, f = bc.lookup(nm)
            I.stubs[f.qual] = self.stub(nm)

        def dump(I, args, kw, st, fr, node):
            self.dumped.append(args[0])
            return NONE

        I.ext_stubs = {
            "tqdm.tqdm": lambda I, args, kw, st, fr, node: args[0] if args else None,
            "tqdm.auto.tqdm": lambda I, args, kw, st, fr, node: args[0] if args else None,
            "pickle.dump": dump,
            "pickle.load": lambda I, args, kw, st, fr, node: self.dumped[-1] if self.dumped else None,
        }
        self.cms = [s.given(f"CM{i}") for i in range(3 if bic else 1)]
        if bic:
            I.method_stubs = dict(getattr(I, "method_stubs", None) or {})

            def crit(I, recv, args, kw, st, fr, node):
                for m, b in zip(self.cms, bic):
                    if any(x is m for x in sub(recv)):
                        return const(b)
                return None

            I.method_stubs["bic"] = crit
            I.truth_hook = order
        self.h = self.make("EMB", self.cms)
        self.T = self.words("t")
        self.C = self.words("c")

    def stub(self, nm):
        def f(I, b, st, fr, n):
            self.rec.append((nm, {k: I.models.reify(I, v, st, 60) for k, v in b.items() if k != "self"}))
            return app(nm, ())

        return f

    def words(self, p):
        return tup([self.s.given(f"{p}{i}") for i in range(N)])

    def make(self, emb, cms):
        s = self.s
        h = s.new(
            self.c,
            generative_model=s.sym("GEN", None, "not"),
            tokenizer=s.sym("TOK", None, "not"),
            embedding_reduction_model=s.sym(emb, None, "not"),
            clustering_models=tup(cms),
            scoring_fn=s.sym("SF", None, "not"),
        )
        return h

    def do(self, h, name, **kw):
        i0, r0 = len(self.I.events), len(self.rec)
        v = self.s.call(h, name, **kw)
        return v, self.I.events[i0:], self.rec[r0:]

    def R(self, v):
        return self.I.models.reify(self.I, v, self.s.st, 60)


def number(v):
    if v.k == "const" and isinstance(v.a[0], (int, float)):
        return v.a[0]
    n = str(v.a[0]) if v.k == "ext" else ""
    if n.rsplit(".", 1)[-1] in ("inf", "Inf", "infty"):
        return float("inf")
    if v.k == "app" and last(v) in ("USub", "neg", "float") and len(v.a[1]) == 1:
        x = v.a[1][0]
        if last(v) == "float":
            return float(x.a[0]) if x.k == "const" and x.a[0] in ("inf", "-inf") else number(x)
        x = number(x)
        return None if x is None else -x
    return None


def order(v, st):
    """comparisons of known criteria, infinity included."""
    n = last(v)
    if n in ("Lt", "LtE", "Gt", "GtE") and len(v.a[1]) == 2:
        x, y = (number(t) for t in v.a[1])
        if x is not None and y is not None:
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]
    return None


def canon(v, ren, memo):
    """a digest of the term with symbols renamed and fit_transform read as transform."""
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ",".join(canon(x, ren, memo) for x in v) + ")"
        return ren.get(v, v) if isinstance(v, str) else repr(v)
    if v in memo:
        return memo[v]
    if v.k == "phi":
        r = "phi:" + ",".join(sorted({canon(x, ren, memo) for x in v.a[0]}))
    else:
        r = v.k + ":" + ",".join(canon(x, ren, memo) for x in v.a)
    r = r.replace(".fit_transform", ".transform")
    r = hashlib.sha1(r.encode()).hexdigest()
    memo[v] = r
    return r


def syms(v):
    return {x.a[0] for x in sub(v) if x.k == "sym"}


def of(names, p):
    return {n for n in names if n[:1] == p and n[1:].isdigit()}


def statistic(x):
    n = last(x)
    if n in FITS:
        return True
    if n in ("mean", "average", "min", "max", "amin", "amax", "sum"):
        ax = dict(x.a[2]).get("axis")
        if ax is None and len(x.a[1]) > 1:
            ax = x.a[1][1]
        return ax is None or ax.k == "const" and ax.a[0] in (0, None)
    return False


def partition(v):
    """the batches of words a term may stand for, or None."""
    out = []
    for x in v.a[0] if v.k == "phi" else (v,):
        if x.k == "tuple" and all(y.k == "sym" for y in x.a[0]):
            out.append(tuple(y.a[0] for y in x.a[0]))
        else:
            e = rlist_elems(x) if x.k == "rlist" else None
            if e is None or not all(isinstance(y, V) and y.k == "sym" for y in e):
                return None
            out.append(tuple(y.a[0] for y in e))
    return out


def batches(ctx, p, k, ev, w, tp, cp):
    got = {}
    for e in ev:
        if e.kind == "call" and e.name == "<opaque>" and e.target is not None and is_sym(e.target, "TOK"):
            x = e.args[0] if e.args else dict(e.kw or ()).get("text")
            if x is None:
                continue
            b = partition(p.R(x))
            if b is None:
                continue
            for g in b:
                for pre in (tp, cp):
                    if all(n[:1] == pre for n in g):
                        if g not in got.setdefault(pre, []):
                            got[pre].append(g)
                if len({n[:1] for n in g}) > 1:
                    ctx.ob(k + ":mixed", False, w, f"texts and contexts are tokenized together: {g}")
    for pre, what in ((tp, "texts"), (cp, "contexts")):
        b = got.get(pre)
        if not b:
            ctx.undec(f"{k}:batches:{what}", "the batches given to the tokenizer are not lists of the given strings")
            continue
        flat = [n for g in b for n in g]
        ctx.ob(f"{k}:batches:{what}", flat == [f"{pre}{i}" for i in range(N)], w, f"the batches of {what} must cover every one of them once, in order: {b}")
    if got.get(tp) and got.get(cp):
        ctx.ob(f"{k}:paired", [[n[1:] for n in g] for g in got[tp]] == [[n[1:] for n in g] for g in got[cp]], w, "a text must be scored with its own context")
    for e in ev:
        if e.kind == "yield":
            vs = [p.R(x) for x in ([e.target] if e.target is not None else []) + list(e.args)]
            for v in vs:
                if v.k == "tuple" and len(v.a[0]) == 2:
                    bs = [partition(x) for x in v.a[0]]
                    if all(b and len(b) == 1 for b in bs):
                        x, y = ([n[1:] for n in b[0]] for b in bs)
                        ctx.ob(f"{k}:pair:{'-'.join(x)}", x == y, where(e), f"a batch joins texts {x} with contexts {y}")


def tokens(ctx, p, k, ev, w, tp, cp):
    n = 0
    for e in ev:
        if e.kind != "call" or e.name != "<opaque>" or e.target is None or not is_sym(e.target, "SF"):
            continue
        kw = dict(e.kw or ())
        names = ("logits", "labels", "n_final_tokens")
        vs = [kw.get(nm, e.args[i] if i < len(e.args) else None) for i, nm in enumerate(names)]
        n += 1
        lo, la, nf = [p.R(x) if x is not None else None for x in vs]
        ctx.ob(f"{k}:logits", lo is not None and "GEN" in syms(lo) and last(lo) != "argmax", where(e), "the scoring function must receive the logits of the generative model")
        if nf is not None:
            s = syms(nf)
            ctx.ob(f"{k}:final", bool(of(s, tp)) and not of(s, cp), where(e), "the number of scored tokens must be that of the texts, without the contexts")
            cats = [x for x in sub(nf) if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "shape"]
            for x in cats:
                if x.a[1].k == "const":
                    ctx.ob(f"{k}:final:axis", x.a[1].a[0] in (1, -1), where(e), "the number of tokens is the size along the second axis")
        else:
            ctx.ob(f"{k}:final", False, where(e), "the scoring function must receive the number of scored tokens")
        cats = [x for x in (sub(la) if la is not None else ()) if last(x) in ("cat", "concatenate", "concat", "hstack")]
        cats = [x for x in cats if x.a[1] and x.a[1][0].k == "tuple" and len(x.a[1][0].a[0]) == 2]
        if not cats:
            ctx.undec(f"{k}:labels", "the label tokens are not a concatenation of two token arrays")
        for x in cats:
            l, r = x.a[1][0].a[0]
            sl, sr = syms(l), syms(r)
            ctx.ob(f"{k}:labels", bool(of(sl, cp)) and bool(of(sr, tp)) and not of(sr, cp), where(e), "the tokens scored must be those of the context followed by those of the text")
            ax = dict(x.a[2]).get("dim", dict(x.a[2]).get("axis", x.a[1][1] if len(x.a[1]) > 1 else const(0)))
            if last(x) != "hstack" and ax.k == "const":
                ctx.ob(f"{k}:labels:axis", ax.a[0] in (1, -1), where(e), "context and text tokens are joined along the sequence")
    if not n:
        ctx.undec(f"{k}:scoring", "no call of the scoring function found")


ARITH = ("Sub", "Div", "Add", "Mult")


def changed(ctx, p, k, ev, given):
    """no argument of a method is modified in place."""
    inplace = {}
    for e in ev:
        if e.kind == "augassign" and e.target is not None:
            v = e.target
            while v.k == "app" and v.a[1] and last(v) in ("asarray", "asanyarray", "ravel", "reshape", "view", "squeeze", "Sub", "Div", "Add", "Mult") and inplace.get(v, last(v) not in ARITH):
                v = v.a[1][0]
            ctx.ob(f"{k}:inplace:{e.loc.split(':')[0].rsplit('/', 1)[-1]}", v not in given, where(e), "an in-place operation changes the array the caller passed")


def run(ctx):
    P = ctx.P
    c = P.cls("HallucinationMulticalibrator")
    w = c.qual
    Q = "thr"
    p = Pipe(P)
    s = p.s
    q = s.given(Q)
    r, ev, rec = p.do(p.h, "fit", texts=p.T, contexts=p.C, targets=s.given("Y"), batch_size=const(2), quantile_group_scores_threshold=q)
    wf = w + ".fit"
    cal = [b for n, b in rec if n == "calibrate"]
    if not ctx.need("calibrations in fit", len(cal), 1) and not cal:
        ctx.absorb(s)
        return
    cal = cal[-1]
    batches(ctx, p, "fit", ev, wf, "t", "c")
    tokens(ctx, p, "fit", ev, wf, "t", "c")
    y = cal.get("targets")
    ctx.ob("fit:targets", y is not None and "Y" in syms(y), wf, "the multicalibrator must be fitted to the given targets")
    ctx.ob("fit:scores", "SF" in syms(cal["probs"]) and "fit_transform" not in str(cal["probs"]), wf, "the calibrated probabilities must be the scores")
    g = cal.get("groups")
    gs = list(sub(g)) if g is not None else []
    qs = [x for x in gs if last(x) in ("quantile", "nanquantile", "percentile")]
    ctx.ob("fit:threshold", any(Q in syms(x) for x in qs), wf, "the groups must be thresholded at the requested quantile")
    for x in qs:
        ax = dict(x.a[2]).get("axis", x.a[1][2] if len(x.a[1]) > 2 else const(None))
        ctx.ob("fit:threshold:axis", ax.k != "const" or ax.a[0] == 0, wf, "each cluster has its own threshold")
    ctx.ob("fit:membership", any(last(x) == "predict_proba" for x in gs), wf, "the groups must come from the cluster probabilities")
    fits = [e for e in ev if e.kind == "method" and e.name == "fit" and e.args]
    if fits:
        ctx.ob("fit:score in groups", any("SF" in syms(p.R(x)) for e in fits for x in e.args), wf, "the scores must be a feature of the clustering")
    else:
        ctx.undec("fit:score in groups", "no fit of a clustering model found")
    cmp = [x for x in gs if last(x) in ("GtE", "Gt", "Lt", "LtE", "greater", "greater_equal", "less", "less_equal")]
    for x in cmp:
        l, rr = x.a[1][:2]
        ql, qr = (any(last(z) in ("quantile", "percentile", "nanquantile") for z in sub(t)) and last(t) != "predict_proba" for t in (l, rr))
        up = last(x) in ("GtE", "Gt", "greater", "greater_equal")
        if ql != qr:
            ctx.ob("fit:direction", up == qr, wf, "a member of a group has a cluster probability above the threshold")
    ctx.ob("fit:everyone", any(last(x) in ("ones", "ones_like", "full") for x in gs), wf, "one group must contain every text")

    # prediction with other texts
    T2, C2 = p.words("u"), p.words("d")
    r2, ev2, rec2 = p.do(p.h, "predict_proba", texts=T2, contexts=C2, batch_size=const(2))
    wp = w + ".predict_proba"
    ap = [b for n, b in rec2 if n == "apply_patches"]
    if not ap:
        ctx.undec("predict", "no call of apply_patches found")
        ctx.absorb(s)
        return
    ap = ap[-1]
    batches(ctx, p, "predict", ev2, wp, "u", "d")
    tokens(ctx, p, "predict", ev2, wp, "u", "d")
    ctx.ob("predict:result", r2 is not None and last(r2) == "apply_patches", wp, "the calibrated probabilities must be returned")
    ren = {f"u{i}": f"t{i}" for i in range(N)} | {f"d{i}": f"c{i}" for i in range(N)}
    m1, m2 = {}, {}
    for nm, what in (("probs", "scores"), ("groups", "groups")):
        x, z = cal.get(nm), ap.get(nm)
        same = x is not None and z is not None and canon(x, {}, m1) == canon(z, ren, m2)
        ctx.ob(f"predict:{what}", same, wp, f"the {what} at prediction must be computed as at fitting")
        if z is None:
            continue
        for t in sub(z):
            if statistic(t):
                d = syms(t)
                n = last(t)
                if n == "predict_proba":
                    continue
                ctx.ob(f"predict:{what}:frozen:{n}", not (of(d, "u") or of(d, "d")), wp, f"`{n}` is computed again from the texts at prediction")
    for e in ev2:
        if e.kind == "method" and e.name in FITS[:3]:
            ctx.ob(f"predict:refit:{e.name}", False, where(e), "a model is fitted at prediction")
        if e.kind == "setattr" and e.target is p.h:
            ctx.ob(f"predict:state:{e.name}", False, where(e), "prediction changes the fitted state")

    # uncalibrated, and the predictions
    r3, ev3, rec3 = p.do(p.h, "predict_proba", texts=T2, contexts=C2, batch_size=const(2), calibrate=const(False))
    ctx.ob("raw", not rec3 and r3 is not None and canon(p.R(r3), {}, {}) == canon(ap["probs"], {}, {}), wp, "without calibration the scores are returned as they are")
    wq = w + ".predict"
    for cal_ in (True, False):
        r4, ev4, rec4 = p.do(p.h, "predict", texts=T2, contexts=C2, batch_size=const(2), calibrate=const(cal_))
        ctx.ob(f"label:{'calibrated' if cal_ else 'raw'}", bool(rec4) == cal_, wq, "`calibrate` must decide whether the labels are calibrated")
        for b in [b for n, b in rec4 if n == "apply_patches"]:
            ctx.ob("label:same", all(canon(b[n], {}, {}) == canon(ap[n], {}, {}) for n in ("probs", "groups")), wq, "the labels must come from the predicted probabilities")
        v4 = p.R(r4) if r4 is not None else None
        cs = [x for x in (sub(v4) if v4 is not None else ()) if last(x) in ("GtE", "Gt", "Lt", "LtE", "greater", "greater_equal", "less", "less_equal") and any(z.k == "const" and z.a[0] == 0.5 for z in x.a[1])]
        for x in cs:
            up = last(x) in ("GtE", "Gt", "greater", "greater_equal")
            right = x.a[1][1].k == "const"
            ctx.ob("label:direction", up == right, wq, "a text is positive when its probability is above one half")
        if not cs:
            ctx.undec("label:direction", "no comparison with one half found")
    r5, ev5, rec5 = p.do(p.h, "predict", texts=T2, contexts=C2, probs=s.given("PROBS"))
    ctx.ob("label:given", not rec5 and r5 is not None and "PROBS" in syms(p.R(r5)), wq, "given probabilities must be used")

    # save and load
    p.do(p.h, "save", path=s.given("path"))
    ctx.need("saved states", len(p.dumped), 1)
    h2 = p.make("EMB2", [s.given("OTHER")])
    r6, ev6, rec6 = p.do(h2, "load", path=s.given("path"))
    plain = any(e.kind == "setattr" and e.target is h2 for e in ev6)
    wl = w + ".load"
    try:
        r6, ev6, rec6 = p.do(h2, "predict_proba", texts=T2, contexts=C2, batch_size=const(2))
    except Dead:
        rec6 = []
    b6 = [b for n, b in rec6 if n == "apply_patches"]
    if plain:
        ctx.ob("load:fitted", bool(b6), wl, "a loaded object must predict")
    else:
        ctx.undec("load:fitted", "the restored attributes were not recognized")
    for b in b6[-1:]:
        for nm, what in (("probs", "scores"), ("groups", "groups")):
            ctx.ob(f"load:{what}", canon(b[nm], {}, {}) == canon(ap[nm], {}, {}), wl, f"after loading, the {what} must be computed as before saving")
        ctx.ob("load:multicalibrator", p.s.attr(h2, "multicalibrator") is p.s.attr(p.h, "multicalibrator"), wl, "the multicalibrator must be restored")
    ctx.absorb(s)

    # the best clustering model
    for bic in ((2.0, 3.0, 1.0), (1.0, 2.0, 3.0), (3.0, 1.0, 2.0), (-1.0, -3.0, -2.0)):
        p = Pipe(P, bic)
        s = p.s
        gm = s.new(P.cls("GroupingModel"))
        E = s.given("E")
        i0 = len(p.I.events)
        try:
            s.call(gm, "fit", embeddings=E, clustering_models=tup(p.cms))
            v = p.R(s.call(gm, "predict_proba", embeddings=E))
        except Dead:
            ctx.ob(f"best:{bic}", False, P.cls("GroupingModel").qual + ".fit", f"no clustering model can be kept with criteria {bic}")
            continue
        best = min(range(3), key=lambda i: bic[i])
        used = {n for n in syms(v) if n.startswith("CM")}
        if len(used) > 1:
            ctx.undec(f"best:{best}", "which clustering model is kept depends on more than the criterion")
        else:
            ctx.ob(f"best:{bic}", used == {f"CM{best}"}, P.cls("GroupingModel").qual + ".fit", f"with criteria {bic} the model kept must be the one with the smallest")
            fit = [x.a[1][1] for x in sub(v) if last(x) == "fit" and len(x.a[1]) == 2]
            use = [x.a[1][1] for x in sub(v) if last(x) == "predict_proba" and len(x.a[1]) == 2]
            if fit and use:
                ctx.ob(f"same features:{bic}", {canon(x, {}, {}) for x in fit} == {canon(x, {}, {}) for x in use}, P.cls("GroupingModel").qual + ".predict_proba", "the clustering model must see at prediction the features it was fitted to")
            else:
                ctx.undec(f"same features:{bic}", "features of the clustering model not found")
        E2 = s.given("E2")
        s.call(gm, "soft_predict", embeddings=E2)
        s.call(gm, "hard_predict", embeddings=E2)
        changed(ctx, p, "group", p.I.events[i0:], (E, E2))
        ctx.absorb(s)


    # balanced data
    for ys in ((1, 1, 0), (0, 1, 0), (0, 1, 1), (1, 0, 0)):
        p = Pipe(P)
        s = p.s
        minor = [i for i in range(N) if ys[i] == (0 if sum(ys) * 2 > N else 1)]
        picks = []

        def choice(I, recv, args, kw, st, fr, node):
            picks.append((args, dict(kw)))
            return tup([const(minor[0])] * abs(2 * sum(ys) - N)) if minor else None

        p.I.method_stubs = dict(getattr(p.I, "method_stubs", None) or {})
        p.I.method_stubs["choice"] = choice
        try:
            r, ev, rec = p.do(p.h, "fit", texts=p.T, contexts=p.C, targets=tup([const(y) for y in ys]), batch_size=const(9), balance=const(True))
        except Dead:
            rec, ev = [], []
        k, wb = f"balance:{ys}", wf
        cal = [b for n, b in rec if n == "calibrate"]
        if len(picks) != 1 or not cal:
            ctx.undec(k, "the balancing draw was not recognized")
            continue
        args, kw = picks[0]
        pool = p.R(args[0]) if args else None
        pool = [x.a[0] if isinstance(x, V) and x.k == "const" else x for x in rlist_elems(pool)] if pool is not None else None
        ctx.ob(k + ":pool", pool == minor, wb, f"with targets {ys} further examples must be drawn from {minor}, not {pool}")
        size = kw.get("size", args[1] if len(args) > 1 else None)
        nums = {abs(x.a[0]) for x in sub(size) if x.k == "const" and isinstance(x.a[0], int)} if size is not None else set()
        ctx.ob(k + ":size", abs(2 * sum(ys) - N) in nums, wb, "as many examples are added as the classes differ")
        ex = list(range(N)) + [minor[0]] * abs(2 * sum(ys) - N)
        seen = {}
        for e in ev:
            if e.kind == "call" and e.name == "<opaque>" and e.target is not None and is_sym(e.target, "TOK") and e.args:
                v = p.R(e.args[0])
                xs = [x.a[0] if isinstance(x, V) and x.k == "sym" else None for x in rlist_elems(v)]
                if xs and None not in xs:
                    seen[xs[0][:1]] = [int(x[1:]) for x in xs]
        for pre, what in (("t", "texts"), ("c", "contexts")):
            if pre in seen:
                ctx.ob(f"{k}:{what}", seen[pre] == ex, wb, f"the balanced {what} must be {ex}, not {seen[pre]}")
            else:
                ctx.undec(f"{k}:{what}", "the balanced data were not recognized")
        lists = [rlist_elems(x) for x in sub(cal[-1]["targets"]) if x.k in ("rlist", "tuple")]
        lists = [[y.a[0] for y in x] for x in lists if x and all(isinstance(y, V) and y.k == "const" and isinstance(y.a[0], int) for y in x) and len(x) >= N]
        if lists:
            ctx.ob(k + ":targets", lists[0] == [ys[i] for i in ex], wb, "every added example keeps its own target")
        else:
            ctx.undec(k + ":targets", "the balanced targets were not recognized")
        ctx.absorb(s)
