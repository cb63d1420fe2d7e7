"""P28: operations that need a fitted / calibrated state refuse to run without it and find it afterwards."""
from .sweep import *

EXPLANATION = (
    "Each complete probabilistic, calibrated and output-calibrated model (all posterior approximations), and each class with a fit method "
    "and prediction methods, is built abstractly; its operations are interpreted once on the never-fitted object and once after an abstract "
    "fit. Before fit: no path may dereference a missing state, reach a model application or return a prediction; it must end in a raise "
    "with a message. After fit: the same operation returns, and predictions reach the model."
)
ASSUMPTIONS = ["third-party calls are opaque and do not raise", "the data loader yields at least one batch for the predictions' model application to be counted"]
BAD = {"null_deref", "attr_error", "unbound", "maybe_attr_error"}
NEED = {"predict", "predict_proba", "hard_predict", "soft_predict", "score"}
FITTERS = ("fit", "calibrate")
STATE_OPS = {"posterior": {"sample", "save_state"}, None: {"save_state", "calibrate"}}
REFUSAL_TYPES = ("ValueError", "NotFittedError", "RuntimeError", "AttributeError", "TypeError", "NotImplementedError")


def applies(a, ev):
    """calls that evaluate the model."""
    return [e for e in ev if e.kind == "call" and e.name in ("apply", "self.model.apply") or e.kind == "call" and is_apply(e)]


def is_apply(e):
    t = e.target
    return getattr(t, "qual", "").rsplit(".", 1)[-1] == "apply" and "manager" in getattr(t, "qual", "").lower()


def raises(ev):
    return [e for e in ev if e.kind == "raise"]


def label_run(ctx, arg):
    r, stage = arg
    P = ctx.P
    part = r.label.split(".")[-1] if "." in r.label else None
    last = [None]

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        if n.startswith("<") or n == "__init__":
            ok = val is not None or n == "__init__"
            ctx.ob(f"{stage}:{r.label}.{n}", ok, r.label, f"{n} does not return")
            return
        key = f"{stage}:{r.label}.{n}"
        bad = [e for e in ev if e.kind in BAD]
        if stage == "new":
            for e in bad:
                ctx.ob(f"{key}:{esig(e)[2]}:{esig(e)[1]}", False, where(e), f"{r.label}.{n} before fitting: {e.kind} {e.name}; path {e.chain()}")
        if part == "predictive":
            if v != "required-only" and len(variants(f)) > 1:
                return
            ap = applies(a, ev)
            if stage == "new":
                if "OutputCalib" in r.label:
                    ctx.ob(key, val is None and bool(raises(ev)), f.qual, f"{r.label}.{n} returns although no calibration took place")
                else:
                    ctx.ob(key, not ap and bool(raises(ev)), where(ap[0]) if ap else f.qual, f"{r.label}.{n} evaluates the model although nothing was fitted" if ap else f"{r.label}.{n} does not refuse to run before fitting")
            else:
                ctx.ob(key, val is not None and (bool(ap) or "OutputCalib" in r.label), f.qual, f"{r.label}.{n} does not return a prediction of the fitted model after fitting")
        elif n in STATE_OPS.get(part, ()):
            if n == "calibrate" and not r.label.startswith("Prob"):
                return
            if stage == "new":
                ctx.ob(key, val is None and bool(raises(ev)), f.qual, f"{r.label}.{n} ({v}) does not refuse to run on a never-fitted object")
            else:
                ctx.ob(key, val is not None, f.qual, f"{r.label}.{n} ({v}) never returns after fitting")

    if stage == "fitted":
        part_names = STATE_OPS.get(part)
        only = None if part == "predictive" else {"save_state", "sample"}
    else:
        only = None if part == "predictive" else STATE_OPS.get(part)
    pick = (lambda f: [v for v in variants(f) if v[0] == "required-only"] or variants(f)[:1]) if part == "predictive" else None
    sweep_one(P, r, on_call, stage=stage, only=only, pick=pick)
    if last[0] is not None:
        ctx.absorb(last[0].s)


def fit_class(ctx, r):
    """classes with fit + predict/score."""
    P = ctx.P
    c = r.cls
    fitter = next(n for n in FITTERS if n in {m for m, _ in public_methods(c)})
    a = Api(P)
    dep = []
    try:
        recv = r.build(a, mode="full")
    except Dead:
        return
    # what the fit sets becomes a marker value
    ff = dict(public_methods(c))[fitter]
    v, ev, end = a.call(fitter, ff)
    unfit = a.s.st
    if end is None:
        ctx.ob(f"fit:{c.qual}", False, ff.qual, f"{c.name}.{fitter} never returns")
        return
    fitted = end.fork()
    marks = []
    for m in members(recv):
        for k, x in list(a.s.I.models.obj_fields(a.s.I, m, end).items()):
            if unfit.get(("f", m, k)) is not x:
                g = a.s.given("fitted." + k)
                marks.append(g)
                fitted.set(("f", m, k), g)
    for n, f in public_methods(c):
        if n not in NEED or is_prop(f):
            continue
        for vn, om in variants(f):
            a.s.st = fitted
            w, _, _ = a.call(n, f, om)
            key = f"{c.qual}.{n}[{vn}]"
            ctx.ob(f"after-fit:{key}", w is not None, f.qual, f"{c.name}.{n} refuses to run after {fitter}")
            if w is None or not any(mentions(w, g) for g in marks):
                continue
            dep.append(key)
            a.s.st = unfit
            v, ev, end = a.call(n, f, om)
            bad = [e for e in ev if e.kind in BAD]
            ctx.ob(f"unfit:{key}", v is None and bool(raises(ev)) and not bad, where(bad[0]) if bad else f.qual, f"{c.name}.{n} does not refuse to run before {fitter}" + (f": {bad[0].kind} {bad[0].name}" if bad else ""))
    ctx.ob(f"fit-used:{c.qual}", bool(dep), ff.qual, f"no prediction of {c.name} depends on what {fitter} computes")
    ctx.absorb(a.s)


def run(ctx):
    P = ctx.P
    R = receivers(P)
    items = []
    for r in R:
        if r.cls is None:
            part = r.label.split(".")[-1] if "." in r.label else None
            if part in (None, "predictive", "posterior"):
                items.append((r, "new"))
                if r.fitted is not None:
                    items.append((r, "fitted"))
    items.sort(key=lambda x: -(("ensemble" in x[0].label) * 3 + (x[1] == "fitted")))
    ctx.pmap(label_run, items)
    fc = [r for r in R if r.cls is not None and any(n in FITTERS for n, _ in public_methods(r.cls)) and any(n in NEED for n, _ in public_methods(r.cls))]
    ctx.need("classes with fit and predict", len(fc), 7)
    ctx.pmap(fit_class, fc)
    # bare posteriors
    ps = [r for r in R if r.cls is not None and r.cls.name.endswith("Posterior")]
    ctx.pmap(bare_posterior, ps)
    ctx.need("posteriors", len(ps), 8)


def bare_posterior(ctx, r):
    last = [None]

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        if f is None:
            return
        bad = [e for e in ev if e.kind in BAD]
        ctx.ob(f"bare:{r.label}.{n}[{v}]", val is None and bool(raises(ev)) and not bad, where(bad[0]) if bad else f.qual, f"{r.label}.{n} does not refuse to run before fit")

    sweep_one(ctx.P, r, on_call, only={"sample", "save_state"})
    if last[0] is not None:
        ctx.absorb(last[0].s)
