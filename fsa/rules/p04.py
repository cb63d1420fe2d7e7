"""P04: optional arguments may be left out."""
from .sweep import *
from ..harness import LEAVE_OUT, config_fields

EXPLANATION = (
    "Every public operation of every class is interpreted with all arguments given, with each optional argument left out in turn, and with "
    "all of them left out; constructors likewise; training and calibration additionally with each field and each group of the configuration "
    "left out in turn. A definite failure on a missing value (attribute, call, subscript, iteration, arithmetic, numerical operand) or any "
    "internal error that appears only when the optional argument is left out is a violation."
)
ASSUMPTIONS = [
    "third-party calls are opaque; of None operands only those of the numerical libraries' leading argument are judged",
    "arguments whose documentation makes them required in a configuration (calib_params when an output calibrator is set) are given",
]
# documented: required when an output calibrator is configured
DEPENDENT = {"calib_params"}


def signature(e):
    return (e.kind, esig(e)[1], e.site[1])


def pick_variants(f):
    out = []
    for n, om in variants(f):
        om2 = tuple(x for x in om if x not in DEPENDENT)
        if om and not om2:
            continue
        out.append((n, om2))
    return out


def run_receiver(ctx, r):
    P = ctx.P
    base = {}
    last = [None]
    seen = {}

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        errs = {signature(e): e for e in ev if e.kind in ERR}
        if n == "__init__":
            if v == "full":
                base[n] = set(errs)
                return
        elif v == "all":
            base[n] = set(errs)
            return
        key = f"{r.label}.{n}[{v}]"
        bad = {k: e for k, e in errs.items() if k not in base.get(n, set())}
        if not bad:
            ctx.ob(key, True, f.qual if f is not None else r.label)
        for k, e in bad.items():
            ctx.ob(f"{k[2]}:{k[1]}", False, where(e), f"{r.label}.{n} with {v}: {e.kind} {e.name}; path {e.chain()}")

    sweep_one(P, r, on_call, modes=("full", "min") if r.cls else ("full",), pick=pick_variants)
    if last[0] is not None:
        ctx.absorb(last[0].s)


def make(P, it):
    kind, kw, field = it
    kw = dict(kw)
    if field is not None:
        kw["over"] = {field: LEAVE_OUT}
    return FitRun(P, **kw) if kind == "fit" else CalRun(P, **kw)


def run_config(ctx, it):
    kind, kw, field = it
    r = make(ctx.P, it)
    ctx.absorb(r.s)
    lab = f"{kind}({','.join(f'{k}={v}' for k, v in kw.items())}) without {field}"
    bad = [e for e in r.s.I.events if e.kind in ERR]
    if not bad:
        ctx.ob(lab, True, lab)
    for e in bad:
        ctx.ob(f"{e.site[1]}:{esig(e)[1]}", False, where(e), f"{lab}: {e.kind} {e.name}; path {e.chain()}")


def run(ctx):
    P = ctx.P
    R = receivers(P) + functions(P)
    R.sort(key=lambda x: -("ensemble" in x.label) * 3 - ("[" in x.label))
    ctx.pmap(run_receiver, R)
    items = []
    s = Scn(P)
    fields = [f for f, d in config_fields(s, FIT) if d]
    ctx.need("optional fields of the training configuration", len(fields), 18)
    for f in fields:
        for approx in APPROX if ctx.tier != "quick" or f.count(".") == 0 else ("map", "swag", "sghmc"):
            items.append(("fit", dict(approx=approx), f))
    for api, cls in (("prob", CAL), ("calib", CCFG), ("output", OCFG)):
        for f, d in config_fields(s, cls):
            if d:
                items.append(("cal", dict(api=api, kind="classifier"), f))
    for approx in APPROX:
        items.append(("fit", dict(approx=approx, val=False, freeze=False, callbacks=False, dump=False, save_dir=False), None))
    for api in ("prob", "calib", "output"):
        for kind in ("classifier", "regressor"):
            items.append(("cal", dict(api=api, kind=kind, val=False, callbacks=False, freeze=False, unc=False, dump=False, save_dir=False), None))
    ctx.pmap(run_config, items)
