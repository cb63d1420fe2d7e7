"""P01: every training option reaches the machinery that acts on it."""
from .fitscn import *

EXPLANATION = (
    "Interprocedural provenance dataflow (abstract interpretation with joins, calls inlined) from the public train "
    "method of ProbClassifier/ProbRegressor, for each of the 8 posterior approximations and each switch setting "
    "(restore / current state / dump / devices / jit / freeze / callbacks). Every configuration field is a distinct "
    "abstract token; an obligation is discharged when the token (possibly re-wrapped) is the value found in the slot of "
    "its own meaning at the trainer constructor, the trainer's train call, the early-stopping object, the checkpoint "
    "restore call or the final state repository."
)
ASSUMPTIONS = [
    "third-party libraries (jax, flax, optax, tqdm) honour the arguments they are given",
    "documented exceptions: SWAG ignores early stopping (stated in its log warning), the two SGMCMC methods ignore the optimizer method, Laplace runs no training loop of its own",
]

O, M, C, H = "optimizer", "monitor", "checkpointer", "hyperparameters"
# option -> (slot kind, slot name)
TRAIN = {
    f"{O}.n_epochs": ("arg", "n_epochs"),
    f"{M}.metrics": ("arg", "metrics"),
    f"{M}.verbose": ("arg", "verbose"),
    f"{O}.freeze_fun": ("field", "freeze_fun"),
    f"{M}.disable_training_metrics_computation": ("field", "disable_training_metrics_computation"),
    f"{M}.eval_every_n_epochs": ("field", "eval_every_n_epochs"),
    f"{M}.early_stopping_monitor": ("field", "early_stopping_monitor"),
    f"{M}.early_stopping_patience": ("field", "early_stopping_patience"),
    f"{M}.early_stopping_min_delta": ("es", "min_delta"),
    f"{C}.save_checkpoint_dir": ("dir", "save_checkpoint_dir"),
    f"{C}.save_every_n_steps": ("field", "save_every_n_steps"),
    f"{C}.keep_top_n_checkpoints": ("field", "keep_top_n_checkpoints"),
    f"{H}.max_grad_norm": ("kw", "max_grad_norm"),
    f"{H}.gradient_accumulation_steps": ("kw", "gradient_accumulation_steps"),
}
EXEMPT = {("swag", f"{M}.early_stopping_monitor"), ("swag", f"{M}.early_stopping_patience"), ("swag", f"{M}.early_stopping_min_delta")}
NO_LOOP = {"laplace"}
UNSUPPORTED = {("sngp", "regressor")}  # SNGP is documented for classification only
OWN_OPT = {"sghmc", "cyclical_sgld"}


def slot(h, kind, name):
    if kind == "arg":
        return h.bound.get(name, UNDEF)
    if kind == "kw":
        return rec_field(h.bound.get("kwargs", UNDEF), name)
    sf = h.bound["self"]
    if kind in ("field", "dir"):
        return rec_field(sf, name)
    es = rec_field(sf, "_early_stopping")
    out = []
    for m in members(es):
        if m is UNDEF:
            continue
        if m.k == "app":
            d = dict(m.a[2])
            out.append(d.get(name, UNDEF))
        elif m.k == "rec":
            out.append(dict(m.a[1]).get(name, UNDEF))
        else:
            out.append(m)
    return phi(out) if out else UNDEF


def has_callback(v, label):
    """every alternative list contains the user's callback as an element (directly or through list concatenation)."""
    v = strip(v)
    if v.k == "phi":
        return all(has_callback(m, label) for m in v.a[0])
    if v.k == "app" and v.a[0] in ("or", "Or"):
        return any(has_callback(a, label) for a in v.a[1])
    return label in syms(v)


def check_train_hits(ctx, r, hits, cfg, tag, approx, groups=True):
    for h in hits:
        w = where(h.e)
        for opt, (kind, name) in TRAIN.items():
            if cfg == "cfg" and (approx, opt) in EXEMPT:
                continue
            v = slot(h, kind, name)
            lab = f"{cfg}.{opt}"
            if kind == "dir":
                ok = carries(v, lab)
            elif kind == "es":
                ok = v is UNDEF or passes(v, lab)
            else:
                ok = passes(v, lab)
            ctx.ob(f"{tag}/{opt}", ok, w, f"the value given as {opt} does not arrive at the trainer's {name} (found {show(v, 4)[:120]})")
        cb = h.bound.get("callbacks", UNDEF)
        ctx.ob(f"{tag}/callbacks", has_callback(cb, "cb" if cfg == "cfg" else "mcb"), w, f"user callbacks do not arrive (found {show(cb, 3)[:120]})")
        for p, l in (("training_dataloader", "train"), ("validation_dataloader", "val")):
            ctx.ob(f"{tag}/{p}", passes(h.bound.get(p, UNDEF), l), w, f"{p} is {show(h.bound.get(p, UNDEF), 3)[:80]}")
        # optimizer: the state's transformation is the user's
        for p, l, other in (("training_dataset_size", "train", "val"), ("validation_dataset_size", "val", "train")):
            sy = syms(h.bound.get(p, UNDEF))
            ctx.ob(f"{tag}/{p}", l in sy and other not in sy, w, f"{p} is {show(h.bound.get(p, UNDEF), 4)[:80]}")
        if approx not in OWN_OPT or cfg == "mcfg":
            st = h.bound.get("state", UNDEF)
            ctx.ob(f"{tag}/{O}.method", carries(st, f"{cfg}.{O}.method"), w, "the state handed to the trainer does not use the configured optimizer")


def trainer_classes(hits):
    out = set()
    for h in hits:
        out |= rec_class(h.bound["self"])
    return out


def plain_base(P, q):
    """first trainer class in the MRO that is neither a jitted nor a multi-device variant."""
    jm, mm = P.cls("fortuna.training.trainer.JittedMixin"), P.cls("fortuna.training.trainer.MultiDeviceMixin")
    for c in P.cls(q).mro:
        if isinstance(c, ClassInfo) and jm not in c.mro and mm not in c.mro:
            return c.qual
    return None


def run(ctx):
    kinds = ("classifier", "regressor")
    items = [(a, k) for a in APPROX for k in kinds if (a, k) not in UNSUPPORTED]
    n_train = sum(ctx.pmap(one, items))
    ctx.need("trainer runs under the user's configuration", n_train, 14)


def one(ctx, item):
    approx, kind = item
    P = ctx.P
    jm, mm = P.cls("fortuna.training.trainer.JittedMixin"), P.cls("fortuna.training.trainer.MultiDeviceMixin")
    n_train = 0
    tag = f"{approx}/{kind}"
    r = FitRun(P, approx, kind)
    ctx.absorb(r.s)
    prim, prel = r.primary(), r.prelim()
    if r.result is None and not prim and approx not in NO_LOOP:
        ctx.ob(f"{tag}/reaches-trainer", False, "ProbModel.train", "training cannot complete with a fully specified configuration")
        return 0
    if approx not in NO_LOOP:
        ctx.ob(f"{tag}/reaches-trainer", len(prim) > 0, "ProbModel.train", "no trainer run is driven by the user's configuration")
        n_train += len(prim)
        check_train_hits(ctx, r, prim, "cfg", tag, approx)
    if approx in PRELIM:
        ctx.ob(f"{tag}/preliminary-map", len(prel) > 0, "ProbModel.train", "the preliminary MAP run does not use map_fit_config")
        check_train_hits(ctx, r, prel, "mcfg", tag + "/map", "map")
    # repository after fit
    check_repo(ctx, r, tag, dump=True)
    ctx.ob(f"{tag}/fresh-state-not-restored", not any(carries(h.bound.get("restore_checkpoint_path", UNDEF), f"cfg.{C}.restore_checkpoint_path") for h in r.restore_w.hits), "", "restores although no restore path was given")
    # dump off
    r2 = FitRun(P, approx, kind, dump=False, callbacks=False, freeze=False)
    ctx.absorb(r2.s)
    check_repo(ctx, r2, tag, dump=False)
    for h in r2.primary():
        v = slot(h, "field", "freeze_fun")
        ctx.ob(f"{tag}/no-freeze", all(l is NONE for l in leaves(v)), where(h.e), "a freezing function appears although none was given")
    # restore
    r3 = FitRun(P, approx, kind, restore=True)
    ctx.absorb(r3.s)
    lab = f"cfg.{C}.restore_checkpoint_path"
    hs = [h for h in r3.restore_w.hits if carries(h.bound.get("restore_checkpoint_path", UNDEF), lab)]
    ctx.ob(f"{tag}/restore_checkpoint_path", bool(hs), "ProbModel.train", "the configured checkpoint is never restored")
    for h in r3.primary():
        ctx.ob(f"{tag}/restored-state-used", carries(h.bound.get("state", UNDEF), lab), where(h.e), "training does not start from the restored state")
    for h in hs:
        o = h.bound.get("optimizer", UNDEF)
        if approx not in OWN_OPT:
            ctx.ob(f"{tag}/restore-optimizer", passes(o, f"cfg.{O}.method") or approx in ("laplace",) , where(h.e), f"checkpoint restored with optimizer {show(o, 2)[:60]}")
    # current state
    r4 = FitRun(P, approx, kind, current=True)
    ctx.absorb(r4.s)
    for h in r4.primary():
        ctx.ob(f"{tag}/start_from_current_state", carries(h.bound.get("state", UNDEF), "current_state"), where(h.e), "training does not start from the current state")
    if approx in NO_LOOP:
        hs = r4.put_w.hits
        ctx.ob(f"{tag}/start_from_current_state", bool(hs) and all(carries(h.bound.get("state", UNDEF), "current_state") for h in hs), "fit", "the fit does not start from the current state")
    # processor options
    if approx not in NO_LOOP and kind == "classifier":
        rd = FitRun(P, approx, kind, disable_jit=True)
        rm = FitRun(P, approx, kind, devices=-1)
        ctx.absorb(rd.s)
        ctx.absorb(rm.s)
        plain, jit, multi = trainer_classes(rd.primary()), trainer_classes(prim), trainer_classes(rm.primary())
        ctx.ob(f"{tag}/disable_jit", bool(plain) and all(jm not in P.cls(q).mro and mm not in P.cls(q).mro for q in plain), "fit", f"with compilation disabled the trainer is {sorted(plain)}")
        ctx.ob(f"{tag}/single-device", bool(jit) and all(jm in P.cls(q).mro and mm not in P.cls(q).mro for q in jit), "fit", f"on one device the trainer is {sorted(jit)}")
        ctx.ob(f"{tag}/devices", bool(multi) and any(mm in P.cls(q).mro for q in multi) and all(mm in P.cls(q).mro or jm in P.cls(q).mro for q in multi), "fit", f"on all devices the trainer is {sorted(multi)}")
        bases = {plain_base(P, q) for q in plain | jit | multi}
        ctx.ob(f"{tag}/same-trainer", len(bases) == 1, "fit", f"the execution variants train differently: {sorted(map(str, bases))}")
    return n_train



def repos(v):
    """all repository records inside a (multi) repository."""
    out = []
    for x in sub(v):
        if x.k == "rec" and "checkpoint_dir" in dict(x.a[1]):
            out.append(dict(x.a[1])["checkpoint_dir"])
    return out


def check_repo(ctx, r, tag, dump):
    s = r.s
    lab = f"cfg.{C}.save_checkpoint_dir"
    if r.result is None:
        ctx.undec(f"{tag}/dump_state={dump}", "the abstract run does not reach the end of fit")
        return
    rep = s.reify(s.attr(r.post, "state"), 6)
    ds = repos(rep)
    w = ", ".join(sorted(rec_class(rep)))
    if not ds:
        ctx.undec(f"{tag}/dump_state={dump}", "repository not resolved")
        return
    for d in ds:
        if dump:
            ctx.ob(f"{tag}/dump_state", carries(d, lab), w, f"dump requested but the final states go to {show(d, 3)[:80]}")
        elif r.approx not in OWN_OPT:  # the SGMCMC methods persist their samples whenever a directory is given
            ctx.ob(f"{tag}/no-dump_state", all(l is NONE for l in leaves(d)), w, f"no dump requested but the final states go to {show(d, 3)[:80]}")
    if dump and r.approx not in ("sghmc", "cyclical_sgld"):
        hs = [h for h in r.put_w.hits if not any(l.startswith("mcfg.checkpointer.keep") for l in syms(h.bound.get("keep", UNDEF)))]
        ctx.ob(f"{tag}/dump-keep", bool(hs) and all(passes(h.bound.get("keep", UNDEF), f"cfg.{C}.keep_top_n_checkpoints") for h in hs), w, "the number of checkpoints to keep does not reach the repository")
