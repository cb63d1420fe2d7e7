"""P17: parameters, mutable state and calibration state reach the model and the calibrator in their own roles."""
from .p26 import *
from .p26 import prepare as _prepare  # noqa: F401
from .trainscn import all_trainers, family, FAMILIES
from ..values import show

EXPLANATION = (
    "Every public evaluation method of the likelihoods and predictive distributions found in the source is evaluated symbolically with the model, the output calibrator and the output layer "
    "replaced by placeholders. Each application of a placeholder is an obligation: the parameters, mutable state, calibration parameters and calibration state it receives must come from the "
    "argument, posterior sample or state of that role; the calibrator is applied to what the model returned, and what the layer receives, and the result, come from the calibrator exactly when "
    "one is configured. The joint-probability, loss and calibration-loss functions are evaluated for every combination of requested auxiliary values, mode and available state: each requested value "
    "is returned under its own name, unsupported combinations raise. The calibration manager is evaluated for every combination of state, mode and keys, and the state it returns must have the form it reads."
)
ASSUMPTIONS = ["a state's field of a given name holds what its name says (P07, P15, P18 decide that)"]

MM = "fortuna.model.model_manager.base.ModelManager"
OCM = "fortuna.output_calibrator.output_calib_manager.base.OutputCalibManager"
POST = "fortuna.prob_model.posterior.base.Posterior"
ROLES = ("params", "mutable", "calib_params", "calib_mutable")


def placeholders(P, log, posterior=True, aux=False):
    """stubs of the model manager, the calibration manager, the output layer and posterior samples."""

    def prep(s):
        I = s.I
        I.folds = 1
        R = lambda v, st, d=8: I.models.reify(I, v, st, d)

        def mm(I, b, st, fr, n):
            a = [R(b.get(k, NONE), st) for k in ("params", "inputs", "mutable", "train", "rng")]
            log.append(("MODEL", a))
            o = app("MODEL", a[:3])
            if aux and I.truth(b.get("train", FALSE), st) is True and I.nullness(b.get("mutable", NONE), st) == "not":
                return tup([o, I.new_dict([(const("mutable"), app("NEWMUT", a[:3]))], st)])
            return o

        def cm(I, b, st, fr, n):
            a = [R(b.get(k, NONE), st) for k in ("params", "outputs", "mutable", "calib", "rng")]
            log.append(("CAL", a))
            o = app("CAL", a[:3])
            if aux and I.truth(b.get("calib", FALSE), st) is True and I.nullness(b.get("mutable", NONE), st) == "not":
                return tup([o, app("NEWCAL", a[:3])])
            return o

        def layer(m):
            def la(I, b, st, fr, n):
                a = [R(b.get(k, NONE), st) for k in ("outputs", "targets")]
                log.append(("LAYER." + m, a))
                return app("LAYER." + m, a)
            return la

        for c in P.classes.values():
            f = c.methods.get("sample")
            if f and posterior and P.cls(POST) in c.mro:
                I.stubs[f.qual] = lambda I, b, st, fr, n: app("POST", [b.get("rng", NONE)])
            f = c.methods.get("apply")
            if f and P.cls(MM) in c.mro:
                I.stubs[f.qual] = mm
            if P.cls(LAYER) in c.mro:
                for m in LAYER_METHODS:
                    if c.methods.get(m):
                        I.stubs[c.methods[m].qual] = layer(m)
        for c in P.classes.values():
            f = c.methods.get("apply")
            if f and P.cls(OCM) in c.mro:
                I.stubs[f.qual] = cm

    return prep


def role(v):
    """names of the roles a value was taken from ('none' for None, '?' for anything else)."""
    out = set()
    for m in members(v):
        if m is NONE:
            out.add("none")
        elif m.k == "item" and m.a[1].k == "const" and isinstance(m.a[1].a[0], str):
            out |= role(m.a[0]) if m.a[1].a[0] == "output_calibrator" else {m.a[1].a[0]}
        elif m.k == "attr":
            out.add(m.a[1])
        elif m.k == "sym" and str(m.a[0]).startswith("arg."):
            out.add(m.a[0][4:])
        elif m.k == "rmap" and len(m.a[0]) == 1:
            out |= role(m.a[0][0][1])
        elif m.k == "app" and len(m.a[1]) >= 1 and str(m.a[0]).rsplit(".", 1)[-1] in ("FrozenDict", "freeze", "unfreeze", "replicate", "unreplicate", "tree"):
            out |= role(m.a[1][0])
        elif m.k == "phi":
            out |= role(m)
        elif m.k in ("elem", "lane"):
            out |= role(m.a[0])
        else:
            out.add("?")
    return out


def calibs_own(v):
    """is a value the calibrator's part of what it was taken from?"""
    return all(m is NONE or m.k == "item" and m.a[1] is const("output_calibrator") for m in members(v))


def apps(v, names):
    return [y for y in sub(v) if y.k == "app" and y.a[0] in names]


def outside(v, inner, cover):
    """an `inner` application reachable from v without passing by a `cover` application."""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if x.k == "app" and x.a[0] in cover:
            continue
        if x.k == "app" and x.a[0] in inner:
            return x
        for y in x.a:
            stack = [y]
            while stack:
                z = stack.pop()
                if isinstance(z, V):
                    todo.append(z)
                elif isinstance(z, (tuple, list)):
                    stack.extend(z)
    return None


RAW = ("get_outputs",)


def flow(ctx, it):
    """evaluation methods: each placeholder gets every state in its role."""
    label, kind, dist, opts = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]
    log = []

    def go():
        a = Api(P)
        recv = r.build(a)
        if kind == "prob" and r.fitted:
            r.fitted(a, recv)
        elif label.endswith(".predictive"):
            rep = P.cls("TrainStateRepository")
            I = a.s.I
            for q in {x.lookup("get")[1].qual for x in P.classes.values() if rep in x.mro}:
                I.stubs[q] = lambda I, b, st, fr, n: I.sym("STATE", None, "not")
            I.store_attr(recv, "state", a.s.given("REPOSITORY", rep.qual), a.s.st, a.s.fr, None)
        c = class_of(a.s, recv)
        n = 0
        for meth in sorted({m for b in c.mro if isinstance(b, ClassInfo) for m in b.methods}):
            d, f = c.lookup(meth)
            if not isinstance(f, FuncInfo) or meth.startswith("_") or is_abstract_fn(f) or any(x.startswith("property") or x.endswith("setter") for x in deco_names(f)):
                continue
            ps = [p for p, *_ in params_of(f)]
            if not any(p in ps for p in ("inputs_loader", "data_loader", "outputs")):
                continue
            for cal in ((True, False) if "calibrated" in ps else (True,)):
                ov = {}
                if "distribute" in ps:
                    ov["distribute"] = TRUE if dist else FALSE
                if "calibrated" in ps:
                    ov["calibrated"] = TRUE if cal else FALSE
                omit = [p for p in ps if p in EXTRA + ("variance", "variances", "means", "target_samples")]
                del log[:]
                v, ev, end = a.call(meth, f, omit, override=ov)
                k = f"{label}.{meth}:{'distributed' if dist else 'local'}{'' if cal else ':uncalibrated'}"
                if v is None:
                    ctx.ob(k, False, f.qual, "never returns")
                    continue
                n += 1
                v = reified(a, v, end, 14)
                judge(ctx, k, f.qual, kind, cal and meth not in RAW, list(log), v, "outputs" if kind == "output" else None)
        ctx.absorb(a.s)
        ctx.need(f"evaluation methods of {label}", n, 5)

    with_prep(placeholders(P, log), go)


def judge(ctx, k, w, kind, cal, log, v, src):
    for name, a in log:
        if name == "MODEL":
            ctx.ob(f"{k}:model:params", role(a[0]) == {"params"}, w, f"the model is applied with the parameters {show(a[0], 4)[:90]}")
            ctx.ob(f"{k}:model:mutable", role(a[2]) == {"mutable"}, w, f"the model is applied with the mutable state {show(a[2], 4)[:90]}")
            data = {y.a[0] for y in sub(a[1]) if y.k == "sym" and str(y.a[0]).startswith("arg.")}
            ctx.ob(f"{k}:model:inputs", bool(data) and data <= {"arg.inputs_loader", "arg.data_loader", "arg.inputs", "arg.batch"}, w, f"the model is applied to {show(a[1], 4)[:90]}")
            one_sample(ctx, k, w, a)
        if name == "CAL":
            if kind == "calib":
                ctx.ob(f"{k}:calibrator", False, w, "an output calibrator is applied though there is none")
                continue
            ow = ("params", "mutable") if kind == "output" else ("calib_params", "calib_mutable")
            for i, ro in ((0, ow[0]), (2, ow[1])):
                rs = role(a[i])
                what = "parameters" if i == 0 else "state"
                ctx.ob(f"{k}:calibrator:{what}", rs - {"none"} == {ro} and calibs_own(a[i]) and (kind == "prob" or "none" not in rs), w, f"the calibrator is applied with the {what} {show(a[i], 5)[:110]}")
            if kind == "output":
                ctx.ob(f"{k}:calibrator:outputs", a[1].k == "sym" and a[1].a[0] == "arg.outputs", w, f"the calibrator is applied to {show(a[1], 4)[:90]}")
            else:
                ctx.ob(f"{k}:calibrator:outputs", bool(apps(a[1], ("MODEL",))) and not apps(a[1], ("CAL",)), w, f"the calibrator is applied to {show(a[1], 4)[:90]}")
            one_sample(ctx, k, w, a)
        if name.startswith("LAYER.") and kind != "output":
            ctx.ob(f"{k}:{name}:outputs", bool(apps(a[0], ("CAL" if cal and kind == "prob" else "MODEL",))), w, f"the output layer is given {show(a[0], 4)[:90]}")
        if name.startswith("LAYER."):
            t = a[1]
            if {y.a[0] for y in sub(t) if y.k == "sym"} & {"arg.data_loader", "arg.batch", "arg.targets"}:
                x, y = batch_of(a[0]), batch_of(t)
                ctx.ob(f"{k}:{name}:targets", y is not None and y[1] == 1 and (x is None or x[0] == y[0] and x[1] == 0) or t.k == "sym" and t.a[0] == "arg.targets", w, f"the outputs for {x} are paired with the targets {show(t, 4)[:80]}")
    used = apps(v, ("MODEL", "CAL")) or [y for y in sub(v) if y.k == "sym" and y.a[0] == "arg.outputs"]
    ctx.ob(f"{k}:result", bool(used), w, "the result does not depend on the model")
    if cal and kind == "prob":
        ctx.ob(f"{k}:result calibrated", outside(v, ("MODEL",), ("CAL",)) is None, w, "the result uses outputs of the model that do not pass by the output calibrator")
    if kind == "output":
        ctx.ob(f"{k}:result calibrated", bool(apps(v, ("CAL",))) == cal, w, "the result " + ("does not use calibrated outputs" if cal else "uses calibrated outputs though they were not asked for"))


def one_sample(ctx, k, w, a):
    ps = {y for x in a for y in sub(x) if y.k == "app" and y.a[0] == "POST"}
    ctx.ob(f"{k}:one sample", len(ps) <= 1, w, f"{len(ps)} posterior samples are mixed in one evaluation")


def batch_of(v):
    """(batch, component) a value was computed from, if one."""
    xs = {(y.a[0], y.a[1].a[0]) for y in sub(v) if y.k == "item" and y.a[1].k == "const" and isinstance(y.a[1].a[0], int) and (y.a[0].k == "elem" or y.a[0].k == "sym" or y.a[0].k == "lane") and any(
        z.k == "sym" and str(z.a[0]) in ("arg.data_loader", "arg.batch") for z in sub(y.a[0]))}
    return xs.pop() if len(xs) == 1 else None


def subsets(xs):
    out = [()]
    for x in xs:
        out += [y + (x,) for y in out]
    return out


def aux_objects(P):
    """(label, receiver builder, method, kind, manager present) of the functions that return auxiliary values."""
    out = []
    R = {r.label: r for r in receivers(P)}

    def at(lab, *path):
        def b(a):
            r = R[lab].build(a)
            for x in path:
                r = a.s.attr(r, x)
            return r
        return b

    def loss(q, lab, arg):
        def b(a):
            r = R[lab].build(a)
            return a.s.new(P.cls(q), **{arg: r, "loss_fn": a.s.sym("LOSS", None, "not")})
        return b

    out.append(("likelihood", at("ProbClassifier[map].likelihood"), "_batched_log_joint_prob", "joint", True))
    out.append(("likelihood without calibrator", at("CalibClassifier.likelihood"), "_batched_log_joint_prob", "joint", False))
    for m in ("_batched_log_joint_prob", "_batched_negative_log_joint_prob"):
        out.append((f"joint.{m}", at("ProbClassifier[map].joint"), m, "joint", True))
    out.append(("calibration loss", loss("fortuna.calib_model.loss.Loss", "CalibClassifier.likelihood", "likelihood"), "__call__", "loss", False))
    out.append(("calibration loss with calibrator", loss("fortuna.calib_model.loss.Loss", "ProbClassifier[map].likelihood", "likelihood"), "__call__", "loss", True))
    out.append(("output calibration loss", loss("fortuna.output_calib_model.loss.Loss", "OutputCalibClassifier.predictive", "predictive"), "__call__", "output", True))
    out.append(("output calibrated predictive", at("OutputCalibClassifier.predictive"), "_log_joint_prob", "output", True))
    for m in ("_batched_log_joint_prob", "_batched_negative_log_joint_prob"):
        out.append((f"predictive.{m}", at("ProbClassifier[map].predictive"), m, "ensemble", True))
    return out


def aux_job(ctx, it):
    label, auxs, train, given, mut, cmut = it
    P = ctx.P
    lab, build, meth, kind, manager = [x for x in aux_objects(P) if x[0] == label][0]
    log = []

    def go():
        a = Api(P)
        recv = build(a)
        s, I = a.s, a.s.I
        c = class_of(s, recv)
        d, f = c.lookup(meth)
        if not isinstance(f, FuncInfo):
            ctx.notes.append(f"{lab}: no {meth}")
            return
        ps = [p for p, *_ in params_of(f)]
        oc = lambda v: I.new_dict([(const("output_calibrator"), v)], s.st)
        CP, CS = s.sym("arg.calib_params", None, "not"), s.sym("arg.calib_mutable", None, "not")
        cm = {"none": NONE, "empty": oc(NONE), "state": oc(CS)}[cmut]
        ov = {"return_aux": I.new_list([const(x) for x in auxs], s.st)}
        if kind == "output":
            ov.update(params=oc(CP), mutable=cm, outputs=s.sym("arg.outputs", None, "not"))
        elif kind == "ensemble":
            ov.update(calib_params=oc(CP), calib_mutable=cm, ensemble_outputs=s.sym("arg.outputs", None, "not") if given else NONE)
        else:
            ov.update(params=s.sym("arg.params", None, "not"), calib_params=oc(CP), calib_mutable=cm, outputs=s.sym("arg.outputs", None, "not") if given else NONE, train=const(train), mutable=s.sym("arg.mutable", None, "not") if mut else NONE,
                      rng=s.sym("arg.rng", None, "not"), batch=tup([s.sym("X", None, "not"), s.sym("Y", None, "not")]))
        v, ev, end = a.call(meth, f, (), override={x: y for x, y in ov.items() if x in ps}, recv=recv)
        k = f"{lab}:{'+'.join(auxs) or 'nothing'}:{'train' if train else 'eval'}:{'outputs given' if given else 'from inputs'}:{'mutable' if mut else 'no mutable'}:{cmut}"
        ok_aux = {"joint": ("outputs", "mutable", "calib_mutable"), "loss": ("outputs", "mutable", "calib_mutable"), "output": ("outputs", "mutable"), "ensemble": ("outputs", "calib_mutable")}[kind]
        bad = any(x not in ok_aux for x in auxs)
        if kind in ("joint", "loss"):
            m = "mutable" in auxs
            bad = bad or train and given or m and (given or not train or not mut) or not m and mut and train
        if bad:
            ctx.ob(f"{k}:refused", v is None, f.qual, "an unsupported combination of requested auxiliary values and arguments is accepted")
            ctx.absorb(s)
            return
        ctx.ob(f"{k}:accepted", v is not None, f.qual, "a supported combination of requested auxiliary values and arguments never returns")
        ctx.absorb(s)
        if v is None:
            return
        v = reified(a, v, end, 12)
        want_cal = manager
        for name, x in log:
            if name == "MODEL" and kind in ("joint", "loss"):
                ctx.ob(f"{k}:model", not given and role(x[0]) == {"params"} and role(x[2]) == ({"mutable"} if mut else {"none"}), f.qual, f"the model is applied with {show(x[0], 3)[:60]} and {show(x[2], 3)[:60]}" + (" though its outputs are given" if given else ""))
                ctx.ob(f"{k}:model mode", x[3] is const(train), f.qual, f"the model is applied with train={show(x[3], 2)}")
                ctx.ob(f"{k}:model inputs", x[1].k == "sym" and x[1].a[0] == "X", f.qual, f"the model is applied to {show(x[1], 3)[:60]}")
                ctx.ob(f"{k}:model keys", "arg.rng" in {y.a[0] for y in sub(x[4]) if y.k == "sym"}, f.qual, "the model does not get the given key")
            if name == "CAL":
                st = {"none": {"none"}, "empty": {"none"}, "state": {"calib_mutable"}}[cmut]
                fresh = kind == "ensemble" and not given
                ctx.ob(f"{k}:calibrator", (fresh or x[0] is CP and role(x[2]) == st) and not (fresh and "none" in role(x[0]) and role(x[0]) == {"none"}), f.qual, f"the calibrator is applied with {show(x[0], 3)[:60]} and {show(x[2], 3)[:60]}")
                ctx.ob(f"{k}:calibrator mode", x[3] is const(("mutable" if kind == "output" else "calib_mutable") in auxs), f.qual, f"the calibrator is applied with calib={show(x[3], 2)}")
                src = "MODEL" if kind in ("joint", "loss") and not given else "POST" if fresh else "arg.outputs"
                ctx.ob(f"{k}:calibrator outputs", bool(apps(x[1], (src,))) or any(y.k == "sym" and y.a[0] == src for y in sub(x[1])), f.qual, f"the calibrator is applied to {show(x[1], 3)[:60]}")
            if name.startswith("LAYER.") or name == "LOSS":
                ctx.ob(f"{k}:layer", bool(apps(x[0], ("CAL",))) == want_cal, f.qual, f"the layer is given {show(x[0], 3)[:60]}")
        ncal = sum(1 for n, _ in log if n == "CAL")
        ctx.ob(f"{k}:calibrated once", (ncal == 1) == manager and (ncal == 0) == (not manager), f.qual, f"the calibrator is applied {ncal} times")
        for m in members(v):
            if not auxs and kind != "loss":
                ctx.ob(f"{k}:value", m.k != "tuple", f.qual, "auxiliary values are returned though none were asked for")
                ctx.ob(f"{k}:value from outputs", outside(m, ("MODEL",), ("CAL",)) is None or not manager, f.qual, "the value uses uncalibrated outputs")
                continue
            if m.k != "tuple" or len(m.a[0]) != 2:
                ctx.ob(f"{k}:pair", False, f.qual, f"the value and the auxiliary values are not returned as a pair: {show(m, 3)[:80]}")
                continue
            x = m.a[0][0]
            src = apps(x, ("CAL",)) if manager else apps(x, ("MODEL",)) or [y for y in sub(x) if y.k == "sym" and y.a[0] == "arg.outputs"]
            ctx.ob(f"{k}:value from outputs", bool(src) and (outside(x, ("MODEL",), ("CAL",)) is None or not manager), f.qual, f"the value does not come from the {'calibrated ' if manager else ''}outputs: {show(x, 3)[:80]}")
            if kind in ("joint", "loss"):
                ctx.ob(f"{k}:value from targets", any(y.k == "sym" and y.a[0] == "Y" for y in sub(x)), f.qual, "the value does not depend on the targets of the batch")
            x = m.a[0][1]
            while x.k == "app" and x.a[0] in ("tree", "batched") and x.a[1]:
                x = x.a[1][0]
            if kind == "ensemble" and x.k != "rmap":
                ns = {y.a[1].a[0] for y in sub(x) if y.k == "item" and y.a[1].k == "const"}
                continue
            if x.k != "rmap":
                ctx.undec(f"{k}:aux", f"auxiliary values of unknown form {show(x, 3)[:80]}")
                continue
            got = {(q.a[0] if isinstance(q, V) else q): y for q, y in x.a[0]}
            ctx.ob(f"{k}:names", set(got) == set(auxs), f.qual, f"asked for {sorted(auxs)}, got {sorted(map(str, got))}")
            for n, y in got.items():
                aux_value(ctx, f"{k}:{n}", f.qual, kind, n, y, given, cmut, manager)

    with_prep(placeholders(P, log, aux=True), go)


def aux_value(ctx, k, w, kind, n, y, given, cmut, manager):
    if n == "outputs":
        ctx.ob(k, (bool(apps(y, ("CAL",))) == manager) and outside(y, ("MODEL",), ("CAL",) if manager else ()) is None or not manager and (apps(y, ("MODEL",)) or given), w, f"the returned outputs are {show(y, 3)[:80]}")
        ctx.ob(f"{k}:only outputs", not apps(y, ("NEWMUT", "NEWCAL")), w, f"the returned outputs are {show(y, 3)[:80]}")
    elif n == "mutable" and kind != "output":
        ctx.ob(k, y.k == "app" and y.a[0] == "NEWMUT", w, f"the returned mutable state is {show(y, 3)[:80]}, not the one the model returned")
    else:
        z = None
        for m in members(y):
            if m.k == "rmap":
                z = {(q.a[0] if isinstance(q, V) else q): b for q, b in m.a[0]}
        new = manager and cmut == "state"
        v = z.get("output_calibrator") if z else None
        ctx.ob(k, z is not None and set(z) == {"output_calibrator"} and (v.k == "app" and v.a[0] == "NEWCAL" if new else v is NONE), w, f"the returned calibration state is {show(y, 4)[:80]}")


def manager_job(ctx, it):
    """the calibration manager applies the calibrator with its own variables and returns state in the form it reads."""
    q, mut, calib, rng, none = it
    P = ctx.P
    c = P.cls(q)
    a = Api(P)
    s, I = a.s, a.s.I
    calls = []

    def applied(I, recv, args, kw, st, fr, node):
        if recv.k != "sym" or recv.a[0] != "CALIBRATOR":
            return None
        kw = dict(kw)
        R = lambda v, d=6: I.models.reify(I, v, st, d)
        var = args[0] if args else kw.get("variables", UNDEF)
        m = kw.get("mutable", FALSE)
        calls.append((R(var), args[1] if len(args) > 1 else kw.get("outputs", UNDEF), R(m), kw.get("train", UNDEF), R(kw.get("rngs", NONE))))
        ms = R(m)
        cols = [y for y in (ms.a[0] if ms.k in ("rlist", "tuple") else ())]
        if ms is FALSE or ms.k == "const":
            return I.sym("OUT", None, "not")
        return tup([I.sym("OUT", None, "not"), I.new_dict([(y, I.sym(f"NEW_{y.a[0]}", None, "not")) for y in cols if y.k == "const"], st)])

    I.method_stubs = {"apply": applied}
    o = a.build(c, override={"output_calibrator": NONE if none else s.sym("CALIBRATOR", None, "not")})
    D = lambda x: I.new_dict([(const(n), v) for n, v in x], s.st)
    ps = D([("params", s.sym("P", None, "not"))])
    ms = D([("batch_stats", s.sym("B", None, "not")), ("other", s.sym("O", None, "not"))]) if mut else NONE
    f = c.lookup("apply")[1]
    v, ev, end = a.call("apply", f, (), override={"params": ps, "outputs": s.sym("arg.outputs", None, "not"), "mutable": ms, "calib": const(calib), "rng": s.sym("arg.rng", None, "not") if rng else NONE}, recv=o)
    k = f"{c.name}.apply:{'no calibrator' if none else 'calibrator'}:{'mutable' if mut else 'no mutable'}:{'calib' if calib else 'eval'}:{'keys' if rng else 'no keys'}"
    ctx.absorb(s)
    if v is None:
        ctx.ob(k, False, f.qual, "never returns")
        return
    v = reified(a, v, end, 8)
    if none:
        ctx.ob(k, v.k == "sym" and v.a[0] == "arg.outputs" and not calls, f.qual, f"without a calibrator the outputs become {show(v, 3)[:80]}")
        return
    ctx.ob(f"{k}:applied", len(calls) == 1, f.qual, f"the calibrator is applied {len(calls)} times")
    for var, x, m, tr, rn in calls:
        got = {(n.a[0] if isinstance(n, V) else n): {y.a[0] for y in sub(z) if y.k == "sym"} for n, z in var.a[0]} if var.k == "rmap" else None
        exp = {"params": {"P"}} | ({"batch_stats": {"B"}, "other": {"O"}} if mut else {})
        ctx.ob(f"{k}:variables", got == exp, f.qual, f"the calibrator is applied with {show(var, 4)[:90]}")
        ctx.ob(f"{k}:outputs", x.k == "sym" and x.a[0] == "arg.outputs", f.qual, f"the calibrator is applied to {show(x, 3)[:60]}")
        ctx.ob(f"{k}:mode", tr is const(calib), f.qual, f"the calibrator is applied with train={show(tr, 2)}")
        ml = sorted(str(y.a[0]) for y in m.a[0]) if m.k in ("rlist", "tuple") else None
        ctx.ob(f"{k}:mutable", ml == ["batch_stats", "other"] if mut and calib else m is FALSE, f.qual, f"the calibrator may update {show(m, 3)[:60]}")
        ctx.ob(f"{k}:keys", ("arg.rng" in {y.a[0] for y in sub(rn) if y.k == "sym"}) == rng, f.qual, f"the calibrator gets the keys {show(rn, 3)[:60]}")
    for m in members(v):
        if not (mut and calib):
            ctx.ob(f"{k}:result", m.k == "sym" and m.a[0] == "OUT", f.qual, f"the result is {show(m, 3)[:60]}")
            continue
        ok = m.k == "tuple" and len(m.a[0]) == 2 and m.a[0][0].k == "sym" and m.a[0][0].a[0] == "OUT"
        ctx.ob(f"{k}:result", ok, f.qual, f"the result is {show(m, 3)[:60]}")
        if ok:
            x = m.a[0][1]
            got = {(n.a[0] if isinstance(n, V) else n): str(z.a[0]) for n, z in x.a[0]} if x.k == "rmap" else None
            ctx.ob(f"{k}:state", got == {"batch_stats": "NEW_batch_stats", "other": "NEW_other"}, f.qual, f"the returned state {show(x, 4)[:90]} has not the form of the state that was passed")


def posterior_job(ctx, it):
    """samples of a posterior carry the state's mutable and calibration state in their own fields."""
    label, = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]
    a = Api(P)
    recv = r.build(a)
    I = a.s.I
    r.fitted(a, recv)
    c = class_of(a.s, recv)
    for q in {x.lookup(n)[1].qual for x in P.classes.values() for n in ("get", "pull") if x.name.endswith("Repository") and isinstance(x.lookup(n)[1], FuncInfo)}:
        I.stubs[q] = lambda I, b, st, fr, n: I.sym("STATE", None, "not")
    I.ext_stubs = dict(getattr(I, "ext_stubs", None) or {})
    I.ext_stubs["jax.pure_callback"] = lambda I, args, kw, st, fr, node: I.call(args[0], list(args[2:]), [], st, fr, node)
    f = c.lookup("sample")[1]
    v, ev, end = a.call("sample", f, [p for p, *_ in params_of(f) if p in ("input_shape",)])
    ctx.absorb(a.s)
    k = f"{label}.sample"
    if v is None:
        ctx.ob(k, False, f.qual, "never returns")
        return
    n = 0
    for m in members(v):
        for field in ROLES[1:]:
            try:
                x = a.s.I.attr(m, field, end, a.s.fr, None)
            except Dead:
                ctx.ob(f"{k}:{field}", False, f.qual, f"a sample has no `{field}`")
                continue
            n += 1
            x = reified(a, x, end, 4)
            ctx.ob(f"{k}:{field}", role(x) == {field}, f.qual, f"the `{field}` of a sample comes from {show(x, 4)[:100]}")
    ctx.need(f"fields of samples of {label}", n, 3)


def picked(v):
    """names of the entries a value was picked by, nearest to the value first reached."""
    out = set()
    for m in members(v):
        if m.k == "item" and m.a[1].k == "const" and isinstance(m.a[1].a[0], str):
            out.add(m.a[1].a[0])
        elif m.k == "app" and m.a[0] == ".get" and any(x.k == "const" and isinstance(x.a[0], str) for x in m.a[1]):
            out |= {x.a[0] for x in m.a[1] if x.k == "const" and isinstance(x.a[0], str)}
        elif m.k in ("item", "elem", "lane", "attr", "leaf") and isinstance(m.a[0], V):
            out |= picked(m.a[0])
        elif m.k == "app" and m.a[1]:
            for x in m.a[1][:1]:
                out |= picked(x)
    return out


def steps_job(ctx, it):
    """training and validation steps hand the state's parts to the loss in their roles, and keep the state the loss returns."""
    q, meth, mut = it
    P = ctx.P
    c = P.cls(q)
    fam = family(P, c)
    d, f = c.lookup(meth)
    if not isinstance(f, FuncInfo) or is_abstract_fn(f):
        return
    a = Api(P)
    s, I = a.s, a.s.I
    names = {n for n, *_ in a.ctor_params(c)}
    recv = a.build(c, override={k: v for k, v in {"freeze_fun": NONE, "multi_device": FALSE}.items() if k in names})
    need_rng(a, recv)
    ps = params_of(f)
    pn = [p for p, *_ in ps]
    ov = {p: s.sym("arg." + p, None, "not") for p in pn if p in ("loss_fun", "params", "batch", "outputs", "targets", "rng", "calib_params", "calib_mutable", "kwargs")}
    if "mutable" in pn:
        ov["mutable"] = s.sym("arg.mutable", None, "not") if mut else NONE
    if "state" in pn:
        ov["state"] = s.given("arg.state", P.cls(FAMILIES[fam]["state"]).qual)
    if "metrics" in pn:
        ov["metrics"] = NONE
    v, ev, end = a.call(meth, f, [], override=ov, recv=recv)
    k = f"{c.name}.{meth}" + ("" if "mutable" not in pn else ":mutable" if mut else ":no mutable")
    ctx.absorb(s)
    train = meth.startswith("training")
    cs = [e for e in ev if e.kind == "call" and isinstance(e.target, V) and e.target.k == "sym" and e.target.a[0] == "arg.loss_fun"]
    if not cs:
        ctx.notes.append(f"{k}: the loss is not called directly")
        return
    ctx.ob(f"{k}:returns", v is not None, f.qual, "never returns")
    for e in cs:
        kw = {n: reified(a, x, end, 6) for n, x in e.kw}
        pos = [reified(a, x, end, 6) for x in (e.args or ())]
        given = {n: kw[n] for n in ("mutable", "calib_params", "calib_mutable") if n in kw}
        if fam == "OutputCalibratorABC":
            want = {"calib_params": {"params"}, "calib_mutable": {"mutable"} if mut or "state" in pn else {"none"}, "ensemble_outputs": {"outputs"}}
        elif fam == "OutputCalibModelCalibrator":
            want = {"mutable": {"mutable"} if mut or "state" in pn else {"none"}, "params": {"params"}, "outputs": {"outputs"}, "targets": {"targets"}}
            kw = dict(zip(("params", "targets", "outputs", "mutable", "rng", "return_aux"), pos)) | kw
        else:
            want = {"calib_params": {"calib_params"}, "calib_mutable": {"calib_mutable"}, "mutable": {"mutable"} if mut or "state" in pn else {"none"}}
            tr = kw.get("train", FALSE)
            ctx.ob(f"{k}:mode", tr is const(train), f.qual, f"the loss is evaluated with train={show(tr, 2)}")
        for n, r in want.items():
            x = kw.get(n, NONE)
            ctx.ob(f"{k}:{n}", role(x) == r, f.qual, f"the loss is given {n}={show(x, 3)[:80]}")
        if fam == "TrainerABC" and "batch" in pn:
            ctx.ob(f"{k}:batch", any(y.k == "sym" and y.a[0] == "arg.batch" for x in pos[1:2] + [kw.get("batch", NONE)] for y in sub(x)), f.qual, "the loss is not evaluated on the given batch")
        if fam == "OutputCalibratorABC":
            ctx.ob(f"{k}:batch", any(y.k == "sym" and y.a[0] == "arg.batch" for x in pos[0:1] + [kw.get("batch", NONE)] for y in sub(x)), f.qual, "the loss is not evaluated on the given batch")
        au = kw.get("return_aux", NONE)
        got = {y.a[0] for y in sub(au) if y.k == "const" and isinstance(y.a[0], str)}
        mname = "calib_mutable" if fam == "OutputCalibratorABC" else "mutable"
        if train and (mut or fam == "OutputCalibratorABC"):
            ctx.ob(f"{k}:asks for the state", mname in got, f.qual, f"the updated state is not asked for: {sorted(got)}")
        elif fam == "TrainerABC":
            ctx.ob(f"{k}:asks for the state", mname not in got, f.qual, f"the updated state is asked for: {sorted(got)}")
    if train and v is not None and meth == "training_loss_step":
        for m in members(reified(a, v, end, 8)):
            ok = m.k == "tuple" and len(m.a[0]) == 2 and m.a[0][1].k == "rmap"
            if not ok:
                ctx.undec(f"{k}:result", f"unknown form {show(m, 3)[:80]}")
                continue
            z = {(n.a[0] if isinstance(n, V) else n): y for n, y in m.a[0][1].a[0]}
            mname = "calib_mutable" if fam == "OutputCalibratorABC" else "mutable"
            for n, src in (("outputs", "outputs"), ("mutable", mname)):
                y = z.get(n, NONE)
                ns = picked(y)
                ctx.ob(f"{k}:returned {n}", ns == {src}, f.qual, f"the step returns as {n} {show(y, 4)[:90]}")


def run(ctx):
    P = ctx.P
    R = {r.label for r in receivers(P)}
    ap = ("map", "swag") if ctx.tier == "quick" else tuple(APPROX)
    items = []
    for k in ("Classifier", "Regressor"):
        for d in (True, False):
            items += [(f"Prob{k}[{m}].predictive", "prob", d, ()) for m in ap]
            items += [(f"Prob{k}[map].likelihood", "prob", d, ()), (f"Calib{k}.likelihood", "calib", d, ()), (f"Calib{k}.predictive", "calib", d, ())]
        items.append((f"OutputCalib{k}.predictive", "output", False, ()))
    items = [i for i in items if i[0] in R]
    ctx.need("likelihoods and predictive distributions", len({i[0] for i in items}), 10)
    ctx.pmap(flow, items)
    js = []
    for lab, b, m, kind, man in aux_objects(P):
        names = ("outputs", "mutable", "calib_mutable", "unknown")
        for au in subsets(names[:3]) + [("unknown",), ("outputs", "unknown")]:
            if kind == "output" and "calib_mutable" in au and len(au) > 1:
                continue
            two = (False, True)
            js += [(lab, au, t, g, mu, cm) for t in (two if kind in ("joint", "loss") else (False,)) for g in (two if kind != "output" else (True,)) for mu in (two if kind in ("joint", "loss") else (False,)) for cm in (("none", "empty", "state") if kind != "output" else ("empty", "state"))]
    ctx.pmap(aux_job, js)
    ms = [c for c in P.classes.values() if P.cls(OCM) in c.mro]
    ctx.need("calibration managers", len(ms), 1)
    two = (False, True)
    ctx.pmap(manager_job, [(c.qual, m, cb, r, n) for c in ms for m in two for cb in two for r in two for n in two])
    ctx.pmap(posterior_job, [(f"Prob{k}[{m}].posterior",) for k in ("Classifier", "Regressor") for m in APPROX if f"Prob{k}[{m}].posterior" in R])
    tr = [c for c in all_trainers(P)]
    ctx.need("trainers", len(tr), 8)
    ctx.pmap(steps_job, [(c.qual, m, mu) for c in tr for m, mus in (("training_loss_step", two), ("validation_step", (True,)), ("val_loss_step", (True,))) for mu in mus])
