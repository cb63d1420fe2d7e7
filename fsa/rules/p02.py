"""P02: every calibration option reaches the calibration machinery."""
from .calibscn import *
from .p01 import trainer_classes, rec_field, slot, has_callback, repos, O, M, C, H

EXPLANATION = (
    "Interprocedural provenance dataflow (abstract interpretation with joins, calls inlined) from the three public "
    "calibrate methods (probabilistic model, stand-alone calibration model, output calibration model; classification "
    "and regression) for each switch setting. Every configuration field and data argument is a distinct abstract token; "
    "an obligation is discharged when the token is the value found in the slot of its own meaning at the calibrator "
    "constructor, its train call, the outputs-sampling call, the restore call or the final repository."
)
ASSUMPTIONS = [
    "third-party libraries (jax, flax, optax, tqdm) honour the arguments they are given",
    "recursion and loops are abstracted by joins",
]

COMMON = {
    f"{O}.n_epochs": ("arg", "n_epochs"),
    f"{M}.metrics": ("arg", "metrics"),
    f"{M}.verbose": ("arg", "verbose"),
    f"{M}.disable_calibration_metrics_computation": ("field", "disable_training_metrics_computation"),
    f"{M}.uncertainty_fn": ("field", "uncertainty_fn"),
    f"{M}.eval_every_n_epochs": ("field", "eval_every_n_epochs"),
    f"{M}.early_stopping_monitor": ("field", "early_stopping_monitor"),
    f"{M}.early_stopping_patience": ("field", "early_stopping_patience"),
    f"{M}.early_stopping_min_delta": ("es", "min_delta"),
    f"{C}.save_checkpoint_dir": ("dir", "save_checkpoint_dir"),
    f"{C}.save_every_n_steps": ("field", "save_every_n_steps"),
    f"{C}.keep_top_n_checkpoints": ("field", "keep_top_n_checkpoints"),
}
EXTRA = {
    "calib": {
        f"{O}.freeze_fun": ("field", "freeze_fun"),
        f"{H}.max_grad_norm": ("kw", "max_grad_norm"),
        f"{H}.gradient_accumulation_steps": ("kw", "gradient_accumulation_steps"),
    },
    "prob": {},
    "output": {},
}
DATA = {
    "prob": {"training_data_loader": ("arg", "train"), "val_data_loader": ("arg", "val")},
    "calib": {"training_dataloader": ("arg", "train"), "validation_dataloader": ("arg", "val")},
    "output": {"_calib_outputs": ("field", "train"), "_calib_targets": ("field", "traint"), "_val_outputs": ("field", "val"), "_val_targets": ("field", "valt")},
}
SIZES = {
    "prob": {"training_dataset_size": "train", "val_dataset_size": "val"},
    "calib": {"training_dataset_size": "train", "validation_dataset_size": "val"},
    "output": {},
}


def run(ctx):
    items = [(a, k) for a in ("prob", "calib", "output") for k in ("classifier", "regressor")]
    n = sum(ctx.pmap(one, items))
    ctx.need("calibrator runs", n, 6)


def method_names(v):
    """names of the bound methods/functions a value may be."""
    out = set()
    for m in leaves(v):
        if m.k in ("bound", "super") and len(m.a) >= 1:
            f = m.a[0]
            out.add(getattr(f, "name", None) or getattr(getattr(f, "a", [None])[0], "name", str(f)))
        else:
            out.add(show(m, 2))
    return out


def one(ctx, item):
    api, kind = item
    P = ctx.P
    tag = f"{api}/{kind}"
    r = CalRun(P, api, kind)
    ctx.absorb(r.s)
    hits = r.train_w.hits
    ctx.ob(f"{tag}/reaches-calibrator", bool(hits), "calibrate", "calibrate never trains the calibrator")
    for h in hits:
        w = where(h.e)
        for opt, (kd, name) in {**COMMON, **EXTRA[api]}.items():
            v = slot(h, kd, name)
            lab = f"cfg.{opt}"
            ok = carries(v, lab) if kd == "dir" else (v is UNDEF or passes(v, lab)) if kd == "es" else passes(v, lab)
            ctx.ob(f"{tag}/{opt}", ok, w, f"the value given as {opt} does not arrive at the calibrator's {name} (found {show(v, 4)[:120]})")
        for name, (kd, lab) in DATA[api].items():
            v = slot(h, kd, name)
            ctx.ob(f"{tag}/{name}", passes(v, lab), w, f"{name} is {show(v, 3)[:100]}")
        for name, lab in SIZES[api].items():
            v = slot(h, "arg", name)
            other = "val" if lab == "train" else "train"
            ctx.ob(f"{tag}/{name}", lab in syms(v) and other not in syms(v), w, f"{name} is {show(v, 4)[:100]}")
        st = h.bound.get("state", UNDEF)
        ctx.ob(f"{tag}/{O}.method", carries(st, f"cfg.{O}.method"), w, "the state handed to the calibrator does not use the configured optimizer")
        if api == "prob":
            ctx.ob(f"{tag}/state-origin", carries(st, "current_repo"), w, "calibration does not start from the fitted posterior's calibration parameters")
            names = method_names(h.bound.get("loss_fun", UNDEF))
            ctx.ob(f"{tag}/loss_fun", bool(names) and all("negative_log_joint_prob" in n for n in names), w, f"the calibration loss is {sorted(names)}")
        else:
            ctx.ob(f"{tag}/loss_fn", carries(h.bound.get("loss_fun", UNDEF), "loss_fn"), w, "the given loss function does not arrive")
        if api == "calib":
            ctx.ob(f"{tag}/callbacks", has_callback(h.bound.get("callbacks", UNDEF), "cb"), w, "user callbacks do not arrive")
        rng = h.bound.get("rng", UNDEF)
        ctx.ob(f"{tag}/predict_fn", all("predict" in n for n in method_names(slot(h, "field", "predict_fn"))), w, "the prediction function is not the output layer's")
    if api == "prob":
        for h in r.sample_w.hits:
            v = h.bound.get("n_output_samples", UNDEF)
            ctx.ob(f"{tag}/n_posterior_samples", passes(v, "cfg.processor.n_posterior_samples"), where(h.e), f"the number of posterior samples is {show(v, 3)[:80]}")
        rs = CalRun(P, api, kind, stub_samples=True)
        ctx.absorb(rs.s)
        for h in rs.train_w.hits:
            for kd, f, lab, other in (("field", "_calib_outputs_loader", "train", "val"), ("field", "_val_outputs_loader", "val", "train"), ("arg", "training_dataset_size", "train", "val"), ("arg", "val_dataset_size", "val", "train")):
                v = slot(h, kd, f)
                ctx.ob(f"{tag}/{f}-sampled", lab in deep_syms(rs.s, v) and other not in deep_syms(rs.s, v), where(h.e), f"{f} is {show(v, 4)[:100]}")
        ctx.need("output-sampling calls", len(r.sample_w.hits), 2)
    check_dump(ctx, r, tag, api, True)
    # default uncertainty function
    ru = CalRun(P, api, kind, unc=False, dump=False, callbacks=False, freeze=False, val=False)
    ctx.absorb(ru.s)
    want = "mean" if kind == "classifier" else "variance"
    for h in ru.train_w.hits:
        n = method_names(slot(h, "field", "uncertainty_fn"))
        ctx.ob(f"{tag}/default-uncertainty_fn", all(x.split(".")[-1].strip("')") == want for x in n), where(h.e), f"the default uncertainty is {sorted(n)}")
        for name, (kd, lab) in DATA[api].items():
            if lab.startswith("val"):
                v = slot(h, kd, name)
                ctx.ob(f"{tag}/no-{name}", all(l is NONE for l in leaves(v)), where(h.e), f"without validation data, {name} is {show(v, 3)[:80]}")
        if api == "calib":
            v = slot(h, "field", "freeze_fun")
            ctx.ob(f"{tag}/no-freeze", all(l is NONE for l in leaves(v)), where(h.e), "a freezing function appears although none was given")
    ctx.ob(f"{tag}/reaches-calibrator-minimal", bool(ru.train_w.hits), "calibrate", "calibrate without optional data never trains the calibrator")
    check_dump(ctx, ru, tag, api, False)
    # restore
    r3 = CalRun(P, api, kind, restore=True)
    ctx.absorb(r3.s)
    lab = f"cfg.{C}.restore_checkpoint_path"
    hs = [h for h in r3.restore_w.hits if carries(h.bound.get("restore_checkpoint_path", UNDEF), lab)]
    ctx.ob(f"{tag}/restore_checkpoint_path", bool(hs), "calibrate", "the configured checkpoint is never restored")
    for h in hs:
        o = h.bound.get("optimizer", UNDEF)
        ctx.ob(f"{tag}/restore-optimizer", passes(o, f"cfg.{O}.method"), where(h.e), f"checkpoint restored with optimizer {show(o, 2)[:60]}")
    for h in r3.train_w.hits:
        ctx.ob(f"{tag}/restored-state-used", carries(h.bound.get("state", UNDEF), lab), where(h.e), "calibration does not start from the restored state")
    if api == "calib":
        r4 = CalRun(P, api, kind, current=True)
        ctx.absorb(r4.s)
        ctx.ob(f"{tag}/reaches-calibrator-current", bool(r4.train_w.hits), "calibrate", "calibrate never trains")
        for h in r4.train_w.hits:
            ctx.ob(f"{tag}/start_from_current_state", carries(h.bound.get("state", UNDEF), "current_state"), where(h.e), "calibration does not start from the current state")
    # devices
    rd = CalRun(P, api, kind, disable_jit=True)
    rm = CalRun(P, api, kind, devices=-1)
    ctx.absorb(rd.s)
    ctx.absorb(rm.s)
    plain, jit, multi = trainer_classes(rd.train_w.hits), trainer_classes(hits), trainer_classes(rm.train_w.hits)

    def has(q, n):
        return any(isinstance(c, ClassInfo) and c.name == n for c in P.cls(q).mro)

    ctx.ob(f"{tag}/disable_jit", bool(plain) and not any(has(q, "JittedMixin") or has(q, "MultiDeviceMixin") for q in plain), "calibrate", f"with compilation disabled the calibrator is {sorted(plain)}")
    ctx.ob(f"{tag}/single-device", bool(jit) and all(has(q, "JittedMixin") and not has(q, "MultiDeviceMixin") for q in jit), "calibrate", f"on one device the calibrator is {sorted(jit)}")
    ctx.ob(f"{tag}/devices", bool(multi) and any(has(q, "MultiDeviceMixin") for q in multi), "calibrate", f"on all devices the calibrator is {sorted(multi)}")
    return len(hits)


def check_dump(ctx, r, tag, api, dump):
    s = r.s
    lab = f"cfg.{C}.save_checkpoint_dir"
    if r.result is None:
        ctx.ob(f"{tag}/completes(dump={dump})", False, "calibrate", "calibration cannot complete with a fully specified configuration")
        return
    if api == "prob":
        hs = [h for h in r.save_w.hits if h.e.target.cls.name == "ProbModel"]
        if dump:
            ctx.ob(f"{tag}/dump_state", bool(hs) and all(passes(h.bound.get("checkpoint_path", UNDEF), lab) for h in hs), "calibrate", "dump requested but the calibrated state is not saved to the given directory")
            ctx.ob(f"{tag}/dump-keep", bool(hs) and all(passes(h.bound.get("keep_top_n_checkpoints", UNDEF), f"cfg.{C}.keep_top_n_checkpoints") for h in hs), "calibrate", "the number of checkpoints to keep does not arrive at the dump")
        else:
            ctx.ob(f"{tag}/no-dump_state", not hs, "calibrate", "no dump requested but the state is saved")
        return
    rep = s.reify(s.attr(r.pred, "state"), 6)
    ds = repos(rep)
    if not ds:
        ctx.ob(f"{tag}/repository", False, "calibrate", "no state repository after calibration")
    for d in ds:
        if dump:
            ctx.ob(f"{tag}/dump_state", carries(d, lab), "calibrate", f"dump requested but the final state goes to {show(d, 3)[:80]}")
        else:
            ctx.ob(f"{tag}/no-dump_state", all(l is NONE for l in leaves(d)), "calibrate", f"no dump requested but the final state goes to {show(d, 3)[:80]}")
    hs = r.put_w.hits
    ctx.ob(f"{tag}/dump-keep", bool(hs) and all(passes(h.bound.get("keep", UNDEF), f"cfg.{C}.keep_top_n_checkpoints") for h in hs), "calibrate", "the number of checkpoints to keep does not arrive at the repository")
