"""Sweep: abstract calls of every public operation of the package on every receiver that a user can have in hand."""
from .apiscn import *

# classes that only exist as parts of other classes or that the training runs exercise as a whole
INTERNAL_MOD = (".trainer", "_trainer", "train_state", "output_calibrator.py", "calibrator", ".mixin")
SKIP_NAMES = {"ProbModel", "CalibModel", "OutputCalibModel"}


GENERIC_SKIP = {"ProbClassifier", "ProbRegressor", "CalibClassifier", "CalibRegressor", "OutputCalibClassifier", "OutputCalibRegressor"}
# whole training runs: few variants, and only on the complete models
HEAVY = {"fit", "train", "calibrate"}


def internal(c):
    if c.name.endswith(("Mixin", "ABC")) or c.name in SKIP_NAMES or "transformers" in c.qual or c.name.endswith("Approximations"):
        return True
    m = c.mod.name
    return m.endswith(("trainer", "training.output_calibrator", "output_calib_model_calibrator", "calib_model_calibrator", "training.mixin")) or c.name.endswith(("Trainer", "Calibrator")) and "calibration" not in m and "output_calibrator." not in m and "conformal" not in m and "multivalid" not in m


def is_prop(f):
    return bool({"property", "setter", "abstractmethod"} & deco_names(f))


def err_events(P, ev, kinds=ERR):
    return [e for e in ev if e.kind in kinds]


def esig(e):
    """stable signature of an error: kind, name and enclosing function (no line numbers)."""
    import re

    return (e.kind, re.sub(r"\d+", "#", str(e.name))[:120], e.site[1])


class Receiver:
    """label + builder(api) -> object (effects go to api.s.st)."""

    func = None

    def __init__(self, label, cls, build, fitted=None, extra=None, methods=None):
        self.label, self.cls, self.build, self.fitted, self.extra, self.methods = label, cls, build, fitted, extra or {}, methods


def need_rng(a, obj):
    s = a.s
    w = s.P.cls("fortuna.utils.random.WithRNG")
    for m in members(obj):
        c = class_of(s, m)
        if c is not None and w in c.mro and ("f", m, "_rng") not in s.st.w:
            s.st.w[("f", m, "_rng")] = s.given("rng_of_model", "fortuna.utils.random.RandomNumberGenerator")


def class_of(s, v):
    """class of the object(s) a value denotes."""
    for m in members(v):
        c = s.I.cls_of(m)
        if c is not None:
            return c
    return None


def overrides(P, c, a):
    """constructor overrides needed for a legitimate instance."""
    s = a.s
    o = {}
    names = [n for n, *_ in a.ctor_params(c)] if isinstance(c.lookup("__init__"), tuple) else []
    if "output_calib_manager" in names:
        o["output_calib_manager"] = s.new("fortuna.output_calibrator.output_calib_manager.base.OutputCalibManager", output_calibrator=NONE)
    if c.name.endswith("SamplingCallback"):
        for n in names:
            if "repository" in n:
                o[n] = s.given(n, P.cls("SGMCMCPosteriorStateRepository").qual)
    return o


def receivers(P):
    out = []
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if is_abstract(c) or internal(c) or c.name in GENERIC_SKIP:
            continue

        def b(a, c=c, mode="full"):
            r = a.build(c, mode, overrides(P, c, a))
            need_rng(a, r)
            return r

        out.append(Receiver(c.qual, c, b))
    for kind, mk, mod in (("ProbClassifier", prob_classifier, "classification"), ("ProbRegressor", prob_regressor, "regression")):
        for approx in APPROX:
            if approx == "sngp" and kind == "ProbRegressor":
                continue

            def b(a, mk=mk, approx=approx):
                a.recv = mk(a.s, approx)
                return a.recv

            def fit(a, r):
                kw = {}
                s = a.s
                cfg = given_config(s, FIT, "cfg", {"disable_jit": FALSE, "devices": const(0), "dump_state": FALSE, "start_from_current_state": FALSE, "restore_checkpoint_path": NONE, "callbacks": NONE, "freeze_fun": NONE})
                mcfg = given_config(s, FIT, "mcfg", {"disable_jit": FALSE, "devices": const(0), "dump_state": FALSE, "start_from_current_state": FALSE, "restore_checkpoint_path": NONE, "callbacks": NONE, "freeze_fun": NONE})
                s.call(r, "train", train_data_loader=loader(s, "train"), val_data_loader=loader(s, "val"), fit_config=cfg, calib_config=NONE, map_fit_config=mcfg)

            for part in (None, "predictive", "posterior", "joint", "likelihood", "prob_output_layer", "prior"):
                if part in ("joint", "likelihood", "prob_output_layer", "prior") and approx != "map":
                    continue

                def bb(a, b=b, part=part):
                    r = b(a)
                    if part == "prior":
                        r = a.s.attr(a.s.attr(r, "joint"), "prior")
                    elif part:
                        r = a.s.attr(r, part)
                    a.model, a.recv = a.recv, r
                    return r

                lab = f"{kind}[{approx}]" + ("." + part if part else "")
                fz = None if part in ("joint", "likelihood", "prob_output_layer", "prior") else (lambda a, r, fit=fit: fit(a, a.model))
                out.append(Receiver(lab, None, bb, fitted=fz))
    for api in ("calib", "output"):
        for kind in ("Classifier", "Regressor"):
            m = "classification" if kind == "Classifier" else "regression"

            def b(a, api=api, kind=kind, m=m):
                s = a.s
                if api == "calib":
                    kw = {"model": model(s)}
                    if kind == "Regressor":
                        kw["likelihood_log_variance_model"] = model(s)
                    a.recv = s.new(f"fortuna.calib_model.{m}.Calib{kind}", **kw)
                else:
                    a.recv = s.new(f"fortuna.output_calib_model.{m}.OutputCalib{kind}")
                return a.recv

            def fit(a, r, api=api):
                s = a.s
                cfg = given_config(s, CCFG if api == "calib" else OCFG, "cfg", {"disable_jit": FALSE, "devices": const(0), "dump_state": FALSE, "start_from_current_state": FALSE, "restore_checkpoint_path": NONE, "callbacks": NONE, "freeze_fun": NONE})
                if api == "calib":
                    s.call(r, "calibrate", calib_data_loader=loader(s, "train"), val_data_loader=loader(s, "val"), config=cfg, loss_fn=s.given("loss_fn"))
                else:
                    s.call(r, "calibrate", calib_outputs=s.given("co"), calib_targets=s.given("ct"), val_outputs=s.given("vo"), val_targets=s.given("vt"), config=cfg)

            for part in (None, "predictive", "likelihood", "prob_output_layer"):
                if part == "likelihood" and api == "output":
                    continue

                def bb(a, b=b, part=part):
                    r = b(a)
                    if part:
                        r = a.s.attr(r, part)
                    a.model, a.recv = a.recv, r
                    return r

                lab = ("Calib" if api == "calib" else "OutputCalib") + kind + ("." + part if part else "")
                fz = None if part in ("likelihood", "prob_output_layer") else (lambda a, r, fit=fit: fit(a, a.model))
                out.append(Receiver(lab, None, bb, fitted=fz))
    return out


def functions(P):
    """module-level functions of the package."""
    out = []
    for f in sorted(P.functions.values(), key=lambda f: f.qual):
        if f.cls is None and f.mod.name == f.qual.rsplit(".", 1)[0] and "transformers" not in f.qual:
            r = Receiver("fn " + f.qual, None, None)
            r.func = f
            out.append(r)
    return out


def sweep_function(P, r, on_call, pick=None):
    f = r.func
    a = Api(P)
    a.label = r.label
    a.cls = None
    # the nested-dictionary helpers themselves are analysed, not summarised
    for q in list(a.s.I.stubs):
        if q.startswith(P.pkg + ".utils.nested_dicts"):
            del a.s.I.stubs[q]
    s = a.s
    for vn, om in pick(f) if pick else variants(f, bound=False):
        kw = {n: a.sym_for(n, ann, f.mod, "arg." + n) for n, d, ann, _ in params_of(f, drop_self=False) if n not in om}
        v, ev, end = a.run(lambda: s.I.call(s.I.decorated(f), [], list(kw.items()), s.st, s.fr, None))
        inner = [m for m in members(v) for m in (m.a[0] if m.k == "tuple" else (m,))] if v is not None else []
        inner = [m for m in inner if m.k == "func" and m in s.I.funcs]
        if inner and end is not None:
            old = s.st
            s.st = end
            for m in inner:
                g = s.I.funcs[m][0]
                args = [a.sym_for(n, ann, g.mod, "arg." + n) for n, d, ann, _ in params_of(g, drop_self=False) if not d]
                _, ev2, end2 = a.run(lambda: s.I.call(m, args, [], s.st, s.fr, None))
                ev = ev + ev2
            s.st = old
        on_call(a, r, f.name, vn, f, v, ev, end)


def sweep_one(P, r, on_call, modes=("full",), stage="new", only=None, pick=None):
    """abstract calls of every public method of receiver r; on_call(api, label, method, variant, func, value, events, endstate)."""
    if r.func is not None:
        if stage == "new":
            sweep_function(P, r, on_call, pick)
        return
    for mode in modes:
        a = Api(P)
        a.label = r.label
        ctor_ev0 = len(a.s.I.events)
        try:
            recv = r.build(a) if r.cls is None else r.build(a, mode=mode)
        except Dead:
            on_call(a, r, "__init__", mode, None, None, a.s.I.events[ctor_ev0:], None)
            continue
        on_call(a, r, "__init__", mode, None, recv, a.s.I.events[ctor_ev0:], None)
        if stage == "fitted":
            if r.fitted is None:
                return
            try:
                r.fitted(a, recv)
            except Dead:
                on_call(a, r, "<fit>", mode, None, None, a.s.I.events[ctor_ev0:], None)
                return
        c = r.cls or class_of(a.s, recv)
        a.cls = c
        if c is None:
            continue
        for n, f in public_methods(c):
            if is_prop(f) or (only and n not in only):
                continue
            if n in HEAVY and stage == "fitted":
                continue
            vs = pick(f) if pick else variants(f)
            if n in HEAVY and c.name.endswith("Posterior"):
                if r.cls is not None:
                    continue
                vs = [v for v in vs if v[0] in ("all", "required-only")]
            elif n in HEAVY and r.cls is None:
                vs = [v for v in vs if v[0] in ("all", "required-only")]
            for vn, om in vs:
                v, ev, end = a.call(n, f, om)
                on_call(a, r, n, f"{mode}/{vn}" if mode != "full" else vn, f, v, ev, end)
