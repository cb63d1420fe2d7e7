"""P12: early stopping."""
from .trainscn import *

EXPLANATION = (
    "The training loop of every trainer and calibrator class is evaluated abstractly for three epochs, with the training and validation steps opaque and the early-stopping tracker replaced by a script of "
    "verdicts (improved / not improved / stop). Read off the ordered record: one tracker, made with the configured tolerance and patience; after every validation epoch, and only then, it is given the configured "
    "quantity of the mean over all validation batches of that epoch, negated exactly when the direction is `max`; a checkpoint of the state just validated is saved exactly when the verdict is an improvement and a "
    "directory is set; training ends exactly after the epoch whose verdict is to stop, otherwise after the requested number of epochs; the state of the last epoch is returned. With no patience, no validation set or "
    "validation disabled nothing is tracked and all epochs run; an unknown direction raises or warns."
)
ASSUMPTIONS = ["the verdicts of flax's EarlyStopping are those its documentation describes; they are scripted here", "validation is on when its frequency is a positive number of epochs, first at epoch 0 (documented default of every epoch)"]

NEG = ("neg", "USub", "jax.numpy.negative", "numpy.negative")
CFG = {"early_stopping_patience": const(2), "early_stopping_mode": const("min"), "save_checkpoint_dir": const("dir"), "save_every_n_steps": NONE, "early_stopping_verbose": TRUE}


def inner(v):
    while v.k in ("lane", "batched"):
        v = v.a[0]
    return v


def direction(x):
    """(+1 | -1 | None, monitored value)."""
    if x.k == "app" and x.a[0] in NEG and len(x.a[1]) == 1:
        s, y = direction(x.a[1][0])
        return -s, y
    if x.k == "app" and x.a[0] in ("Mult", "jax.numpy.multiply", "numpy.multiply", "Div") and len(x.a[1]) == 2:
        for k, f in ((0, -1), (1, -1), (0, 1), (1, 1)):
            if x.a[1][k] in (const(f), const(float(f))) and (k == 1 or x.a[0] != "Div"):
                s, y = direction(x.a[1][1 - k])
                return s * f, y
    if x.k == "app" and x.a[0] == "Sub" and x.a[1][0] in (const(0), const(0.0)):
        s, y = direction(x.a[1][1])
        return -s, y
    if x.k == "app" and x.a[0] in ("float", "jax.numpy.asarray", "jax.numpy.array") and x.a[1]:
        return direction(x.a[1][0])
    return 1, x


def check(ctx, c, name, epochs, over, script, stop_after=None, improved=(), tracked=True, val_epochs=None, sign=1, val=True, dir_=True):
    ov = dict(CFG)
    ov.update(over)
    if not dir_:
        ov["save_checkpoint_dir"] = NONE
    r = TrainRun(ctx.P, c, epochs=epochs, ncb=0, nval=2, val=val, over=ov, es=script)
    ctx.absorb(r.s)
    k, w = f"{c.name}:{name}", r.f.qual
    if r.v is None:
        ctx.ob(k, False, w, f"{name}: training never returns")
        return
    run_epochs = stop_after if stop_after is not None else epochs
    want_val = [e for e in range(run_epochs) if e in (val_epochs if val_epochs is not None else range(epochs))]
    nb = len(r.batches)
    # group the record by epoch
    ev = sorted([(i, "step", b, x, cd) for i, kd, b, x, cd in r.seq if kd == "step"] + [(i, "val", b, x, cd) for i, kd, b, x, cd in r.seq if kd == "val"]
                + [(i, "save", b, x, cd) for i, kd, b, x, cd in r.seq if kd == "save"] + [(i, "update", arg, rc, cd) for i, arg, cd, rc in r.es_updates], key=lambda z: z[0])
    steps = [z for z in ev if z[1] == "step"]
    for z in ev:
        extra = [q for q, _ in z[4] if not (q.k == "app" and q.a[0] == "loop")]
        ctx.ob(f"{k}:{z[1]}:certain", not extra, w, f"{name}: a {z[1]} happens only under {[str(q)[:80] for q in extra][:2]}")
    ctx.ob(f"{k}:epochs", len(steps) == nb * run_epochs, w, f"{name}: {len(steps) // nb if nb else 0} epochs run instead of {run_epochs}")
    if len(steps) != nb * run_epochs:
        return
    bounds = [steps[e * nb + nb - 1][0] for e in range(run_epochs)]
    nxt = [steps[(e + 1) * nb][0] if (e + 1) * nb < len(steps) else float("inf") for e in range(run_epochs)]
    last = steps[-1][3]
    for e in range(run_epochs):
        seg = [z for z in ev if bounds[e] < z[0] < nxt[e]]
        vals = [z for z in seg if z[1] == "val"]
        ups = [z for z in seg if z[1] == "update"]
        saves = [z for z in seg if z[1] == "save"]
        if e == run_epochs - 1 and saves:
            saves = saves[:-1]  # the final checkpoint at the end of training
        ek = f"{k}:epoch{e}"
        isval = e in want_val
        nval = (1 if r.fulls else 2) if isval else 0
        ctx.ob(f"{ek}:validated", len(vals) == nval, w, f"{name}: {len(vals)} validation steps after epoch {e + 1}, expected {nval}")
        st = inner(steps[e * nb + nb - 1][3])
        for z in vals:
            ctx.ob(f"{ek}:validated state", st == inner(z[2]["state"]) or st in set(sub(r.s.I.models.reify(r.s.I, z[2]["state"], r.end, 8))), w, f"{name}: validation after epoch {e + 1} uses {str(z[2]['state'])[:80]}")
        ctx.ob(f"{ek}:updates", len(ups) == (1 if isval and tracked else 0), w, f"{name}: early stopping is updated {len(ups)} times after epoch {e + 1}")
        for z in ups:
            sg, q = direction(z[2])
            means = {res: x for _, x, res in r.means}
            m, key = (q.a[0], q.a[1]) if q.k == "item" else (None, None)
            vms = [v[3] for v in vals]
            ctx.ob(f"{ek}:direction", sg == sign, w, f"{name}: the tracker minimises {str(z[2])[:100]}")
            if not means:  # the averaging helper has another name: judge the term itself
                ms = set(sub(z[2]))
                ctx.ob(f"{ek}:monitor", "init.early_stopping_monitor" in syms(z[2]) and all(v[3] in ms for v in vals), w, f"{name}: the tracker follows {str(q)[:100]}")
                continue
            ctx.ob(f"{ek}:monitor", key is not None and str(key) == "$init.early_stopping_monitor" and m in means, w, f"{name}: the tracker follows {str(q)[:100]}, not the configured quantity of the epoch's validation")
            if m in means:
                ms = set(sub(means[m]))
                ctx.ob(f"{ek}:mean", all(v in ms for v in vms) and not any(x in ms for x in [z2[3] for z2 in ev if z2[1] == "val" and z2 not in vals]) and not any(s_.startswith("AUX") for s_ in syms(means[m])),
                       w, f"{name}: the monitored value averages {str(means[m])[:100]} instead of the validation results of epoch {e + 1}")
        wants = 1 if isval and tracked and e in improved and dir_ else 0
        ctx.ob(f"{ek}:checkpoints", len(saves) == wants, w, f"{name}: {len(saves)} checkpoints are saved after epoch {e + 1}, expected {wants}")
        for z in saves:
            ctx.ob(f"{ek}:checkpointed state", st == inner(z[2]["state"]) or st in set(sub(r.s.I.models.reify(r.s.I, z[2]["state"], r.end, 8))), w, f"{name}: the improved checkpoint holds {str(z[2]['state'])[:80]}")
            ctx.ob(f"{ek}:checkpoint directory", z[2].get("save_checkpoint_dir") == const("dir"), w, f"{name}: the improved checkpoint goes to {str(z[2].get('save_checkpoint_dir'))[:80]}")
            ctx.ob(f"{ek}:checkpoint overwrites", z[2].get("force_save") == TRUE, w, f"{name}: an improved checkpoint is not forced over one of the same step")
    if tracked:
        ctx.ob(f"{k}:trackers", len(r.es_made) == 1, w, f"{name}: {len(r.es_made)} early-stopping trackers are made")
        for args, kw in r.es_made:
            a = dict(zip(("min_delta", "patience"), args))
            a.update(kw)
            ctx.ob(f"{k}:tracker:patience", a.get("patience") == const(2), w, f"the tracker has patience {str(a.get('patience'))[:60]}")
            ctx.ob(f"{k}:tracker:min_delta", str(a.get("min_delta")) == "$init.early_stopping_min_delta", w, f"the tracker has tolerance {str(a.get('min_delta'))[:60]}")
    res = r.v.a[0][0] if r.v.k == "tuple" else r.v
    res = r.s.I.models.reify(r.s.I, res, r.end, 8)
    ctx.ob(f"{k}:returned", inner(res) == last or last in set(sub(res)), w, f"{name}: the state returned is {str(res)[:80]}, not the last one")


T, F_ = True, False


def job(ctx, it):
    c, sc = it
    if sc == "min":
        check(ctx, c, "improving, then not, then improving", 3, {}, [(T, F_), (F_, F_), (T, F_)], improved=(0, 2))
    elif sc == "max":
        check(ctx, c, "direction max", 2, {"early_stopping_mode": const("max")}, [(F_, F_), (T, F_)], improved=(1,), sign=-1)
    elif sc == "stop":
        check(ctx, c, "patience exhausted at the second epoch", 3, {}, [(T, F_), (F_, T)], improved=(0,), stop_after=2)
    elif sc == "stopmax":
        check(ctx, c, "patience exhausted at the first epoch, direction max", 2, {"early_stopping_mode": const("max")}, [(F_, T)], stop_after=1, sign=-1)
    elif sc == "nodir":
        check(ctx, c, "no checkpoint directory", 2, {}, [(T, F_), (T, F_)], improved=(0, 1), dir_=False)
    elif sc == "none":
        check(ctx, c, "no patience", 3, {"early_stopping_patience": NONE}, [(T, T)] * 3, tracked=False)
        check(ctx, c, "patience zero", 3, {"early_stopping_patience": const(0)}, [(T, T)] * 3, tracked=False)
    elif sc == "noval":
        check(ctx, c, "no validation set", 3, {}, [(T, T)] * 3, val=False, val_epochs=())
    elif sc == "every2":
        check(ctx, c, "validation every second epoch", 4, {"eval_every_n_epochs": const(2)}, [(T, F_), (F_, F_)], improved=(0,), val_epochs=(0, 2))
        check(ctx, c, "stop at the second validation", 5, {"eval_every_n_epochs": const(2)}, [(T, F_), (F_, T)], improved=(0,), val_epochs=(0, 2), stop_after=3)
    elif sc == "never":
        check(ctx, c, "validation frequency zero", 2, {"eval_every_n_epochs": const(0)}, [(T, T)] * 2, val_epochs=())
        check(ctx, c, "validation frequency None", 2, {"eval_every_n_epochs": NONE}, [(T, T)] * 2, val_epochs=())
    elif sc == "keep":
        ov = dict(CFG)
        ov["save_every_n_steps"] = const(1)
        r = TrainRun(ctx.P, c, ncb=0, over=ov, keep=("save_checkpoint",), es=[(T, F_), (T, F_)])
        ctx.absorb(r.s)
        evs = [e for e in r.ev if e.kind == "ext" and str(e.name).endswith("checkpoints.save_checkpoint")]
        ctx.ob(f"{c.name}:checkpoint files", len(evs) >= 3, r.f.qual, f"{len(evs)} checkpoint writes reach the file system")
        for e in evs:
            kw = dict(e.kw)
            n = kw.get("keep", e.args[4] if len(e.args) > 4 else UNDEF)
            ctx.ob(f"{c.name}:kept:{e.site[1]}", syms(n) == {"init.keep_top_n_checkpoints"}, r.f.qual, f"a checkpoint is written keeping {str(n)[:60]} checkpoints, not the configured number")
            d = kw.get("ckpt_dir", e.args[0] if e.args else UNDEF)
            ctx.ob(f"{c.name}:directory:{e.site[1]}", const("dir") in set(sub(d)), r.f.qual, f"a checkpoint goes to {str(d)[:60]}")
    elif sc == "mode":
        for m in (const("avg"), NONE):
            ov = dict(CFG)
            ov["early_stopping_mode"] = m
            r = TrainRun(ctx.P, c, epochs=2, ncb=0, over=ov, es=[])
            ctx.absorb(r.s)
            evs = r.s.I.events
            warned = any(e.kind in ("ext", "method") and str(e.name).rsplit(".", 1)[-1] in ("warning", "warn", "error", "critical", "exception") for e in evs)
            ctx.ob(f"{c.name}:unknown direction {m}", r.v is None or warned, r.f.qual, f"an early-stopping direction of {m} is silently accepted")


def mean_job(ctx, c):
    """the monitored quantities are means over the recorded steps."""
    a = Api(ctx.P)
    o = a.build(c)
    s, I = a.s, a.s.I
    ds = [I.new_dict([(const("val_loss"), s.sym(f"L{i}", None, "not")), (const("val_acc"), s.sym(f"A{i}", None, "not"))], s.st) for i in range(3)]
    d, f = c.lookup("_get_mean_losses_and_metrics")
    if not isinstance(f, FuncInfo):
        ctx.undec(f"{c.name}:mean", "no function takes the mean of the recorded steps under its known name")
        return
    v, ev, end = a.run(lambda: s.call(o, "_get_mean_losses_and_metrics", I.new_list(ds, s.st)))
    ctx.absorb(s)
    if v is None:
        ctx.ob(f"{c.name}:mean", False, f.qual, "the mean of the recorded steps is never returned")
        return
    t = I.models.reify(I, v, end, 8)
    tail = lambda x: x.a[0].rsplit(".", 1)[-1] if x.k == "app" and isinstance(x.a[0], str) else ""
    other = [x for x in sub(t) if tail(x) in ("max", "min", "median", "sum", "std", "var", "prod", "nanmax", "nanmin") or x.k == "item" and x.a[1].k == "const" and isinstance(x.a[1].a[0], int)]
    means = [x for x in sub(t) if tail(x) in ("mean", "average", "nanmean", "fmean")]
    names = {f"{q}{i}" for q in "LA" for i in range(3)}
    if not means and not other:
        ctx.undec(f"{c.name}:mean", f"the mean over steps is computed in an unknown way: {str(t)[:100]}")
        return
    ctx.ob(f"{c.name}:mean", bool(means) and not [x for x in other if tail(x) != "sum"] and names <= set().union(*[syms(x) for x in means]), f.qual, f"the quantities of an epoch are {str(t)[:140]}, not means over all its steps")


SCN = ("min", "max", "stop", "stopmax", "nodir", "none", "noval", "every2", "never", "keep", "mode")


def run(ctx):
    ts = all_trainers(ctx.P)
    ctx.need("trainer and calibrator classes", len(ts), 15)
    ctx.pmap(mean_job, ts)
    ctx.pmap(job, [(c, s) for c in ts for s in SCN])
