"""P11: training data teach, validation data only measure."""
from .trainscn import *
from .fitscn import FitRun, is_method
from .calibscn import CalRun

EXPLANATION = (
    "(a) The training loop of every trainer and calibrator class is evaluated abstractly for two epochs with opaque training and validation steps: every training step receives the training batch (and its model outputs) "
    "of its position and the training-set size, no argument of a training step and no returned state depends on a validation batch, a validation result or a metric, validation steps receive only validation batches and the "
    "validation-set size, and the state after validation has the parameters, optimizer state and mutable state (up to the average over devices) of the state before it. "
    "(b) Fitting with every posterior approximation and calibrating every model is evaluated abstractly: the loaders and sizes that reach the trainer come from the loader of the same role, and the model (and the output "
    "calibrator) is applied in training mode exactly inside the training steps of the component being trained. (c) Every public operation of the predictive objects applies the model in evaluation mode."
)
ASSUMPTIONS = [
    "SWAG refreshes moving averages of the model on training-like passes when it draws samples (documented); those applications are exempt from (c)",
    "metrics and prediction functions are arbitrary user functions of what they are given",
]

VSYM = ("V0", "V1", "VO0", "VO1", "VM", "arg.validation_dataset_size", "arg.val_dataset_size")


WRAP = ("lane", "batched", "flax.jax_utils.replicate", "flax.jax_utils.unreplicate", "jax.device_get")


def peel(v):
    while v.k in ("lane", "batched") or v.k == "app" and v.a[0] in WRAP and v.a[1]:
        v = v.a[0] if v.k != "app" else v.a[1][0]
    return v


def unlane(v):
    """drop the device dimension everywhere in a term."""
    from ..values import mk

    memo = {}

    def go(x):
        if isinstance(x, V):
            if x not in memo:
                p = peel(x)
                memo[x] = go(p) if p is not x else mk(x.k, *[go(y) for y in x.a])
            return memo[x]
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(v)


def vmention(v, vals):
    return any(s in vals or s.startswith("VM") and s[2:].isdigit() for s in syms(v))


def loop_job(ctx, it):
    c, name, kw = it
    over = {"save_checkpoint_dir": const("dir"), "save_every_n_steps": NONE, "early_stopping_mode": const("min")}
    over.update(kw.pop("over", {}))
    r = TrainRun(ctx.P, c, nval=2, over=over, **kw)
    ctx.absorb(r.s)
    I = r.s.I
    k, w = f"{c.name}:{name}", r.f.qual
    if r.v is None:
        ctx.ob(k, False, w, "training never returns")
        return
    bad = {"V0", "V1", "VO0", "VO1"}
    good = {"B0", "B1", "O0", "O1"}
    F = r.F
    tn = "arg.training_dataset_size"
    vn = "arg." + F["vn"] if "vn" in F else None
    ns, cur, nv = 0, r.state, 0
    nb = len(r.batches)
    nvb = 1 if r.fulls else 2
    seq = sorted(r.seq, key=lambda z: z[0])
    for i, kind, b, res, cd in seq:
        if kind == "step":
            j = ns % nb
            lab = f"{k}:step{ns}"
            ctx.ob(f"{lab}:batch", peel(b["batch"]) == r.batches[j], w, f"training step {ns + 1} is given {str(b['batch'])[:80]} instead of training batch {j + 1}")
            if r.outs:
                ctx.ob(f"{lab}:outputs", peel(b["outputs"]) == r.outs[j], w, f"training step {ns + 1} is given the outputs {str(b['outputs'])[:80]}")
            if "n_data" in b:
                ctx.ob(f"{lab}:size", b["n_data"].k == "sym" and str(b["n_data"]) == "$" + tn, w, f"training step {ns + 1} is given the data-set size {str(b['n_data'])[:80]}")
            for q, v in b.items():
                if q in ("self",) or not isinstance(v, V):
                    continue
                t = I.models.reify(I, v, r.end, 8)
                ctx.ob(f"{lab}:{q}:independent", not vmention(t, bad) and not (vn and vn in syms(t)), w, f"`{q}` of training step {ns + 1} depends on validation: {str(t)[:120]}")
            check_state(ctx, r, f"{lab}:state", w, b["state"], cur, f"training step {ns + 1} starts from")
            ns += 1
            cur = res
        elif kind == "val":
            lab = f"{k}:val{nv}"
            j = nv % nvb
            ctx.ob(f"{lab}:batch", peel(b["batch"]) == r.vals[j], w, f"validation step {nv + 1} is given {str(b['batch'])[:80]} instead of validation batch {j + 1}")
            if r.vouts:
                ctx.ob(f"{lab}:outputs", peel(b["outputs"]) == r.vouts[j], w, f"validation step {nv + 1} is given the outputs {str(b['outputs'])[:80]}")
            if "n_data" in b:
                ctx.ob(f"{lab}:size", str(b["n_data"]) == "$" + vn, w, f"validation step {nv + 1} is given the data-set size {str(b['n_data'])[:80]}")
            check_state(ctx, r, f"{lab}:state", w, b["state"], cur, f"validation step {nv + 1} measures")
            nv += 1
    ctx.ob(f"{k}:steps", ns == 2 * nb, w, f"{ns} training steps for {2 * nb} training minibatches")
    res = r.v.a[0][0] if r.v.k == "tuple" else r.v
    check_state(ctx, r, f"{k}:returned", w, res, cur, "the returned state is made from", True)


def fld(r, m, fn):
    m = peel(m)
    if m.k == "app" and m.a[0] == ".replace" and m.a[1]:
        kw = dict(m.a[2]) if len(m.a) > 2 else {}
        return kw[fn] if fn in kw else fld(r, m.a[1][0], fn)
    if m.k == "phi":
        return phi([fld(r, x, fn) for x in members(m)])
    return r.s.attr(m, fn)


def check_state(ctx, r, key, w, v, cur, what, final=False):
    """v is cur itself, or cur with its mutable state averaged over devices (SWAG adds its statistics at the end)."""
    I = r.s.I
    for m in members(v):
        m = peel(m)
        if m == cur:
            continue
        t = I.models.reify(I, m, r.end, 8)
        ctx.ob(key + ":independent", not vmention(t, {"V0", "V1", "VO0", "VO1"}), w, f"{what} a state that depends on validation data or results: {str(t)[:120]}")
        for fn in ("params", "opt_state", "step"):
            d = fld(r, m, fn) if not final else None
            if d is None:
                continue
            d = I.models.reify(I, d, r.end, 6)
            want = r.s.attr(cur, fn)
            ds, ws = {unlane(x) for x in members(d)}, {unlane(x) for x in members(I.models.reify(I, want, r.end, 6))}
            ctx.ob(f"{key}:{fn}", ds <= ws, w, f"{what} a state whose `{fn}` is {str(d)[:100]}, not that of the last training step")
        if not final:
            d = I.models.reify(I, fld(r, m, "mutable"), r.end, 6)
            ctx.ob(f"{key}:mutable", all(x == NONE or syms(x) <= syms(cur) for x in members(d)), w, f"{what} a state whose mutable part is {str(d)[:100]}")


# ------------------------------------------------------------------ roles and modes


def quals(e):
    return [x[1] for x in e.stack] + [e.site[1]]


def frames(e):
    return [x.rsplit(".", 1)[-1] for x in quals(e)]


TR = ("training_step", "training_loss_step")
SWAGQ = "swag_posterior."


def modes(ctx, lab, hits, field, trained):
    for h in hits:
        fr = frames(h.e)
        swag = any(SWAGQ in x for x in quals(h.e))
        v = h.bound.get(field, UNDEF)
        tr = any(n in TR for n in fr)
        if swag and not tr:
            continue
        want = TRUE if tr and trained else FALSE
        w = h.e.site[1]
        place = next((n for n in reversed(fr) if n in TR or n.startswith("val")), fr[-1] if fr else "?")
        ms = set(members(v))
        if not ms <= {TRUE, FALSE}:
            if want == FALSE or v.k != "app":
                ctx.ob(f"{lab}:{place}:{field}:{w}", want not in (TRUE,) and not any(m == TRUE for m in ms), w, f"{lab}: applied with {field}={str(v)[:80]} in {place}")
            continue
        ctx.ob(f"{lab}:{place}:{field}:{w}", ms == {want}, w, f"{lab}: applied with {field}={v} in {place}, expected {want}")


def role(ctx, s, lab, w, v, sym_, what, may=(), none=False):
    got = deep_syms(s, v) & {"train", "val", "traint", "valt"}
    if none:
        ctx.ob(f"{lab}:{what}", not got and all(m == NONE for m in members(v)), w, f"{lab}: {what} is {str(v)[:80]} although no validation data are given")
        return
    ctx.ob(f"{lab}:{what}", got == {sym_}, w, f"{lab}: {what} comes from {sorted(got) or str(v)[:60]} instead of `{sym_}`")


def fit_job(ctx, it):
    ap, kind, val, kw = it
    r = FitRun(ctx.P, ap, kind, val=val, extra=[(is_method(ctx.P, "ModelManager", "apply"), 3)], **kw)
    ctx.absorb(r.s)
    lab = f"fit[{ap},{kind}{'' if val else ',no validation'}{''.join(',' + k for k in kw)}]"
    for n, h in enumerate(r.train_w.hits):
        w = h.e.stack[-1][1] if h.e.stack else ""
        b = h.bound
        role(ctx, r.s, f"{lab}:{n}", w, b.get("training_dataloader", UNDEF), "train", "training loader")
        role(ctx, r.s, f"{lab}:{n}", w, b.get("training_dataset_size", UNDEF), "train", "training size")
        # SWAG trains on from MAP without a validation loop of its own, others hand the loader on
        vd = b.get("validation_dataloader", UNDEF)
        if val and not all(m == NONE for m in members(vd)):
            role(ctx, r.s, f"{lab}:{n}", w, vd, "val", "validation loader")
            role(ctx, r.s, f"{lab}:{n}", w, b.get("validation_dataset_size", UNDEF), "val", "validation size")
        elif not val:
            role(ctx, r.s, f"{lab}:{n}", w, vd, "val", "validation loader", none=True)
    modes(ctx, lab, r.watches[0].hits, "train", True)
    if ap == "laplace":
        vw = [e for e in r.s.I.events if e.kind == "call" and isinstance(e.target, FuncInfo) and "hessian" in e.target.name.lower()]
        for e in vw:
            for q, v in (e.bound or {}).items():
                ctx.ob(f"{lab}:{e.target.name}:{q}", "val" not in syms(v), e.target.qual, f"{lab}: the curvature is computed with validation data ({q})")


def cal_job(ctx, it):
    api, kind, val, kw = it
    r = CalRun(ctx.P, api, kind, val=val, stub_samples=True, extra=[(is_method(ctx.P, "ModelManager", "apply"), 3), (is_method(ctx.P, "OutputCalibManager", "apply"), 3)], **kw)
    ctx.absorb(r.s)
    lab = f"calibrate[{api},{kind}{'' if val else ',no validation'}{''.join(',' + k for k in kw)}]"
    for n, h in enumerate(r.train_w.hits):
        w = h.e.stack[-1][1] if h.e.stack else ""
        b, sf = h.bound, h.bound["self"]
        L = f"{lab}:{n}"
        if api == "prob":
            role(ctx, r.s, L, w, b["training_data_loader"], "train", "calibration loader")
            role(ctx, r.s, L, w, b["training_dataset_size"], "train", "calibration size")
            role(ctx, r.s, L, w, rec_field(sf, "_calib_outputs_loader"), "train", "calibration outputs")
            role(ctx, r.s, L, w, b["val_data_loader"], "val", "validation loader", none=not val)
            role(ctx, r.s, L, w, rec_field(sf, "_val_outputs_loader"), "val", "validation outputs", none=not val)
            if val:
                role(ctx, r.s, L, w, b["val_dataset_size"], "val", "validation size")
        elif api == "calib":
            role(ctx, r.s, L, w, b["training_dataloader"], "train", "calibration loader")
            role(ctx, r.s, L, w, b["training_dataset_size"], "train", "calibration size")
            role(ctx, r.s, L, w, b["validation_dataloader"], "val", "validation loader", none=not val)
            if val:
                role(ctx, r.s, L, w, b["validation_dataset_size"], "val", "validation size")
        else:
            role(ctx, r.s, L, w, rec_field(sf, "_calib_outputs"), "train", "calibration outputs")
            role(ctx, r.s, L, w, rec_field(sf, "_calib_targets"), "traint", "calibration targets")
            role(ctx, r.s, L, w, rec_field(sf, "_val_outputs"), "val", "validation outputs", none=not val)
            role(ctx, r.s, L, w, rec_field(sf, "_val_targets"), "valt", "validation targets", none=not val)
    ctx.need(f"{lab}: training runs", len(r.train_w.hits), 1)
    modes(ctx, lab + ":model", r.watches[0].hits, "train", api == "calib")
    modes(ctx, lab + ":calibrator", r.watches[1].hits, "calib", api != "calib")


def pred_job(ctx, rc):
    from .sweep import sweep_one

    W, last, n = {}, [None], [0]

    def prep(s):
        W[s] = (Watch(s, is_method(ctx.P, "ModelManager", "apply"), depth=3), Watch(s, is_method(ctx.P, "OutputCalibManager", "apply"), depth=3))

    def on_call(a, r, nm, variant, f, val, ev, end):
        last[0] = a
        ws, cs = W[a.s]
        if nm != "__init__" and f is not None and f.name not in TRAINERS:
            ids = {e.idx for e in ev}
            hs = [h for h in ws.hits if h.e.idx in ids]
            modes(ctx, f"{rc.label}.{nm}[{variant}]", hs, "train", False)
            n[0] += len(hs)
        ws.hits.clear()
        cs.hits.clear()

    Api.prep = prep
    try:
        sweep_one(ctx.P, rc, on_call, stage="fitted", pick=None)
    finally:
        Api.prep = None
    if last[0] is not None:
        ctx.absorb(last[0].s)
    if "Prob" in rc.label or "Calib" in rc.label and "Output" not in rc.label:
        ctx.need(f"{rc.label}: applications of the model", n[0], 1)


TRAINERS = ("train", "calibrate", "fit")


def run(ctx):
    ts = all_trainers(ctx.P)
    ctx.need("trainer and calibrator classes", len(ts), 15)
    es = {"early_stopping_patience": const(2)}
    jobs = []
    for c in ts:
        jobs.append((c, "plain", dict(ncb=0)))
        jobs.append((c, "early stopping", dict(ncb=0, over=es, es=[(True, False), (True, False)])))
        jobs.append((c, "no validation", dict(ncb=0, val=False)))
        if family(ctx.P, c) == "TrainerABC":
            jobs.append((c, "accumulation", dict(ncb=0, gas=2)))
    ctx.pmap(loop_job, jobs)
    fits = [(a, k, v, {}) for a in APPROX for k in ("classifier", "regressor") for v in (True, False) if not (a == "sngp" and k == "regressor")]
    fits += [("map", "classifier", True, dict(devices=-1)), ("map", "regressor", True, dict(disable_jit=True))]
    ctx.pmap(fit_job, fits)
    cals = [(a, k, v, {}) for a in ("prob", "calib", "output") for k in ("classifier", "regressor") for v in (True, False)]
    cals += [(a, "classifier", True, dict(devices=-1)) for a in ("prob", "calib", "output")]
    ctx.pmap(cal_job, cals)
    from .sweep import receivers

    rcs = [r for r in receivers(ctx.P) if r.func is None and r.fitted is not None and ".predictive" in r.label]
    ctx.need("fitted predictive objects", len(rcs), 10)
    ctx.pmap(pred_job, rcs)
