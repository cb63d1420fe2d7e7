"""P18: model managers route parameters, mutable state, keys and mode to the right sub-model."""
from ..harness import *
from .apiscn import *
from .common import *
from .p07 import class_of_obj, head, method_qual, sub_syms
from .p15 import listed, lookup

EXPLANATION = (
    "Every manager class is evaluated with symbolic parameters and mutable state for each sub-model, for each combination of training mode, mutable state, keys and model editor. At each application of a sub-model the "
    "variables it gets may hold only its own parameters and its own mutable state, its keys must differ from those of the other sub-models, the mode must be the requested one, and the state it returns must come back "
    "in its own slot. Initialisation and the split of variables into parameters and state are judged likewise; each probabilistic model must use the manager, and the options, of its posterior approximation."
)
ASSUMPTIONS = ["a flax module applied with a list of mutable collections returns its outputs and the updated collections", "a model editor applies the function it is given to the parameters and inputs it is given"]

SUBS = {"model": ("model", "model"), "likelihood_log_variance_model": ("lik", "lik_log_var"), "_gp_output_model": ("gp", None)}
GPK = ("sngp_random_features", "sngp_laplace_covariance")


class Run:
    def __init__(self, P, c, editor, mutable, train, rng, batch=True):
        self.P, self.c = P, c
        a = self.a = Api(P)
        s = self.s = a.s
        I = s.I
        self.subs = {}
        self.calls = []
        X = s.sym("X", None, "not")
        self.X = X
        ed = s.sym("EDITOR", None, "not") if editor else NONE
        names = {n for n, _, _, _ in a.ctor_params(c)}
        ov = {"model": s.sym("MODEL", None, "not"), "likelihood_log_variance_model": s.sym("LIK", None, "not"), "model_editor": ed}
        self.o = a.build(c, override={k: v for k, v in ov.items() if k in names} | ({"model_editor": ed} if "model_editor" not in names else {}) if not sngp(c) else {k: v for k, v in ov.items() if k in names} | {"model_editor": ed})
        self.sub = {"MODEL": "model"}
        if "likelihood_log_variance_model" in names:
            self.sub["LIK"] = "lik_log_var"
        if sngp(c):
            I.store_attr(self.o, "_gp_output_model", s.sym("GP", None, "not"), s.st, s.fr, None)
            self.sub["GP"] = "gp"
        D = lambda kv: I.new_dict([(const(k), v) for k, v in kv], s.st)
        ps = [("model", D([("params", s.sym("P_MODEL", None, "not"))]))]
        ms = []
        bm = [("batch_stats", s.sym("M_MODEL", None, "not"))] if batch else []
        if sngp(c):
            ms.append(("model", D(bm + [(k, s.sym("M_GP_" + k, None, "not")) for k in GPK])))
        else:
            ms.append(("model", D(bm)))
        if "LIK" in self.sub:
            ps.append(("lik_log_var", D([("params", s.sym("P_LIK", None, "not"))])))
            ms.append(("lik_log_var", D([("batch_stats", s.sym("M_LIK", None, "not"))])))
        if editor:
            ps.append(("model_editor", s.sym("P_EDITOR", None, "not")))
        I.method_stubs = {"apply": self.applied}
        i0 = len(I.events)
        self.params, self.mutable = D(ps), D(ms) if mutable else NONE
        self.train, self.rng, self.has_mut = train, rng, mutable
        self.v, self.ev, self.end = a.run(lambda: s.call(self.o, "apply", params=self.params, inputs=X, mutable=self.mutable, train=const(train), rng=s.sym("RNG", None, "not") if rng else NONE))

    def applied(self, I, recv, args, kw, st, fr, node):
        kw = dict(kw)
        if recv.k != "sym":
            return None
        n = recv.a[0]
        if n == "EDITOR":
            f = kw.get("apply_fn", args[1] if len(args) > 1 else UNDEF)
            mp = kw.get("model_params", args[2] if len(args) > 2 else UNDEF)
            x = kw.get("x", args[3] if len(args) > 3 else UNDEF)
            aux = kw.get("has_aux", FALSE)
            self.calls.append(("EDITOR", I.models.reify(I, args[0] if args else kw.get("variables", UNDEF), st, 8), I.models.reify(I, x, st, 6), aux, None, None))
            r = I.call(f, [mp, x], [], st, fr, node)
            out = []
            for m in members(r):
                if aux is TRUE:
                    out.append(tup([app("edited", [I.item(m, const(0), st, fr, node)]), I.item(m, const(1), st, fr, node)]))
                else:
                    out.append(app("edited", [m]))
            return phi(out)
        if n in self.sub:
            var = args[0] if args else kw.get("variables", UNDEF)
            x = args[1] if len(args) > 1 else kw.get("inputs", UNDEF)
            mut = kw.get("mutable", FALSE)
            self.calls.append((n, I.models.reify(I, var, st, 8), I.models.reify(I, x, st, 8), I.models.reify(I, mut, st, 6), I.models.reify(I, kw.get("rngs", NONE), st, 8), kw.get("train", UNDEF)))
            o = I.sym("OUT_" + n, None, "not")
            if n == "GP":
                o = tup([o, I.sym("COV_GP", None, "not")])
            ml = listed(I.models.reify(I, mut, st, 6))
            if mut is FALSE:
                return o
            ks = ml if ml is not None else []
            return tup([o, I.new_dict([(k, I.sym(f"NEW_{n}_{k.a[0]}", None, "not")) for k in ks], st)])
        return None


def sngp(c):
    return any(isinstance(k, ClassInfo) and k.name == "SNGPClassificationModelManagerMixin" for k in c.mro)


def own(c, n, mutable, batch):
    ps = {"MODEL": {"P_MODEL"}, "GP": {"P_MODEL"}, "LIK": {"P_LIK"}}[n]
    ms = {"MODEL": {"M_MODEL"} if batch else set(), "LIK": {"M_LIK"}, "GP": {"M_GP_" + k for k in GPK}}[n]
    return ps, ms if mutable else set()


def apply_job(ctx, item):
    q, editor, mutable, train, rng, batch = item
    P = ctx.P
    c = P.cls(q)
    r = Run(P, c, editor, mutable, train, rng, batch)
    I = r.s.I
    ctx.absorb(r.s)
    w = method_qual(c, "apply")
    k = f"{c.name}:apply:{'editor' if editor else 'plain'}:{'mutable' if mutable else 'no mutable'}:{'train' if train else 'eval'}:{'keys' if rng else 'no keys'}{'' if batch else ':no statistics'}"
    if r.v is None:
        ctx.ob(k, False, w, "applying the model never returns")
        return
    aux = mutable and train
    keys = {}
    names = [n for n, *_ in r.calls]
    for n in list(r.sub) + (["EDITOR"] if editor else []):
        ctx.ob(f"{k}:{n}:applied", names.count(n) == 1, w, f"{n} is applied {names.count(n)} times")
    for n, var, x, mut, rngs, tr in r.calls:
        if n == "EDITOR":
            ctx.ob(f"{k}:{n}:params", sub_syms(var) == {"P_EDITOR"}, w, f"the editor gets {sorted(sub_syms(var))}")
            ctx.ob(f"{k}:{n}:aux", mut is const(aux), w, f"the editor is told has_aux={show(mut, 2)}")
            continue
        ps, ms = own(c, n, mutable, batch)
        got = {y for y in sub_syms(var) if y.startswith(("P_", "M_"))}
        ctx.ob(f"{k}:{n}:variables", got == ps | ms, w, f"{n} is applied with {sorted(got)} instead of {sorted(ps | ms)}")
        want_x = {"GP": {"OUT_MODEL"}}.get(n, {"X"})
        ctx.ob(f"{k}:{n}:inputs", sub_syms(x) == want_x, w, f"{n} is applied to {show(x, 4)[:80]}")
        cols = {"MODEL": ["batch_stats"] if batch else [], "LIK": ["batch_stats"], "GP": list(GPK)}[n] if mutable else []
        ml = listed(mut)
        ml = [y.a[0] for y in ml if y.k == "const"] if ml is not None else None
        if aux:
            ctx.ob(f"{k}:{n}:mutable", ml is not None and sorted(ml) == sorted(cols), w, f"{n} may update {ml if ml is not None else show(mut, 3)}, its state is {cols}")
        else:
            ctx.ob(f"{k}:{n}:mutable", mut is FALSE or ml is not None and set(ml) <= set(cols), w, f"{n} may update {ml if ml is not None else show(mut, 3)} outside training")
        if n != "GP":
            ctx.ob(f"{k}:{n}:mode", tr is const(train), w, f"{n} is applied with train={show(tr, 2)}")
            if rng:
                v = lookup(rngs, "dropout")
                ok = v is not None and "RNG" in sub_syms(v) and v != r.s.sym("RNG", None, "not")
                ctx.ob(f"{k}:{n}:keys", ok, w, f"{n} gets the keys {show(rngs, 4)[:80]}")
                ctx.ob(f"{k}:{n}:own keys", v not in keys.values(), w, f"{n} shares its key with another sub-model")
                keys[n] = v
            else:
                ctx.ob(f"{k}:{n}:no keys", "RNG" not in sub_syms(rngs) and all(y is NONE or lookup(y, "dropout") in (None, NONE) for y in members(rngs)), w, f"{n} gets keys {show(rngs, 3)[:80]} although none is given")
    out = I.models.reify(I, r.v, r.end, 10)
    last = "GP" if "GP" in r.sub else None
    outs = {"OUT_GP"} if last else {"OUT_" + n for n in r.sub}
    for m in members(out):
        o, st = m, None
        if aux:
            xs = listed(m)
            if xs is None and m.k == "tuple":
                xs = list(m.a[0])
            if xs is None or len(xs) != 2:
                ctx.ob(f"{k}:result", False, w, f"training with mutable state returns {show(m, 3)[:100]}, not a pair")
                continue
            o, st = xs
        got = {y for y in sub_syms(o) if y.startswith(("OUT_", "NEW_", "M_"))}
        ctx.ob(f"{k}:outputs", got == outs, w, f"the outputs are made of {sorted(got)}")
        ctx.ob(f"{k}:edited", ("edited" in {y.a[0] for y in sub(o) if y.k == "app"}) == (editor and not last), w, "the outputs pass by the model editor" if not editor else "the outputs do not pass through the model editor") if not last else None
        if st is None:
            continue
        ms = lookup(st, "mutable")
        for n, slot in r.sub.items():
            if n == "GP":
                continue
            cs = slots(ms, slot) if ms is not None else None
            exp = {"batch_stats": "NEW_%s_batch_stats" % n} if n != "MODEL" or batch else {}
            if n == "MODEL" and last:
                exp.update({x: "NEW_GP_" + x for x in GPK})
            ctx.ob(f"{k}:{slot}:state", cs is not None and {a: sub_syms(b) for a, b in cs.items()} == {a: {b} for a, b in exp.items()}, w, f"the updated state of `{slot}` is {({a: sorted(sub_syms(b)) for a, b in cs.items()}) if cs is not None else show(ms, 4)[:90] if ms is not None else 'missing'}")


def unwrap(v):
    while v.k == "app" and str(head(v)).rsplit(".", 1)[-1] in ("FrozenDict", "unfreeze", "freeze", "dict", "nested_update") and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def slots(v, slot):
    v = unwrap(v)
    x = lookup(v, slot)
    if x is None:
        return None
    x = unwrap(x)
    if x.k != "rmap":
        return None
    return {(k.a[0] if isinstance(k, V) else k): y for k, y in x.a[0]}


def hf_job(ctx, item):
    """managers of pre-trained models, which are called with their parameters."""
    q, editor, mutable, train, rng = item
    P = ctx.P
    c = P.cls(q)
    r = Run(P, c, editor, mutable, train, rng)
    I = r.s.I
    ctx.absorb(r.s)
    w = method_qual(c, "apply")
    k = f"{c.name}:apply:{'editor' if editor else 'plain'}:{'mutable' if mutable else 'no mutable'}:{'train' if train else 'eval'}:{'keys' if rng else 'no keys'}"
    if r.v is None:
        ctx.ob(k, False, w, "applying the model never returns")
        return
    M = r.s.sym("MODEL", None, "not")
    cs = [e for e in r.ev if e.kind == "call" and e.target == M]
    ctx.ob(f"{k}:applied", len(cs) == 1, w, f"the model is applied {len(cs)} times")
    eds = [x for x in r.calls if x[0] == "EDITOR"]
    ctx.ob(f"{k}:edited", len(eds) == (1 if editor else 0), w, f"the editor is applied {len(eds)} times")
    for e in cs:
        kw = {a: I.models.reify(I, b, r.end, 8) for a, b in e.kw}
        ctx.ob(f"{k}:params", sub_syms(kw.get("params", NONE)) == {"P_MODEL"}, w, f"the model is called with the parameters {show(kw.get('params', NONE), 3)[:80]}")
        ctx.ob(f"{k}:inputs", sub_syms(kw.get("**", NONE)) == {"X"}, w, "the model is not called with the given inputs")
        ctx.ob(f"{k}:mode", kw.get("train", UNDEF) is const(train), w, f"the model is called with train={show(kw.get('train', UNDEF), 2)}")
        d = kw.get("dropout_rng", NONE)
        ctx.ob(f"{k}:keys", "RNG" in sub_syms(d) and d != r.s.sym("RNG", None, "not") if rng else d is NONE, w, f"the model gets the key {show(d, 3)[:80]}")
        ms = {x for x in sub_syms(kw.get("mutable", NONE))}
        ctx.ob(f"{k}:mutable", ms == ({"M_MODEL"} if mutable else set()), w, f"the model gets the mutable state {sorted(ms)}")
    out = I.models.reify(I, r.v, r.end, 10)
    aux = mutable and train
    if not sngp(c):
        ctx.ob(f"{k}:logits", any(y.k == "attr" and y.a[1] == "logits" for y in sub(out)), w, "the logits are not picked from the output of the model")
    for m in members(out):
        o, st = m, None
        if aux:
            xs = list(m.a[0]) if m.k == "tuple" else listed(m)
            if xs is None or len(xs) != 2:
                ctx.ob(f"{k}:result", False, w, f"training with mutable state returns {show(m, 3)[:100]}, not a pair")
                continue
            o, st = xs
        if not sngp(c):
            ctx.ob(f"{k}:edited", ("edited" in {y.a[0] for y in sub(o) if y.k == "app"}) == editor, w, "the outputs pass by the model editor" if not editor else "the outputs do not come from the model editor")
            ctx.ob(f"{k}:outputs", "MODEL" in sub_syms(o), w, "the outputs do not come from the model")
        if st is not None:
            ms = lookup(st, "mutable")
            x = lookup(unwrap(ms), "model") if ms is not None else None
            ctx.ob(f"{k}:state", x is not None and "MODEL" in sub_syms(x) and all(any(i.k == "item" and i.a[1] is const(1) for i in sub(y)) for y in members(x)), w, f"the updated state is {show(x, 2)[:80] if x is not None else 'missing'}")
    for n, var, x, mut, rngs, tr in r.calls:
        if n == "EDITOR":
            ctx.ob(f"{k}:{n}:params", sub_syms(var) == {"P_EDITOR"}, w, f"the editor gets {sorted(sub_syms(var))}")
            ctx.ob(f"{k}:{n}:aux", I.truth(mut, r.end) is aux, w, f"the editor is told has_aux={show(mut, 2)}")
        if n == "GP":
            ps, ms = own(c, n, mutable, True)
            got = {y for y in sub_syms(var) if y.startswith(("P_", "M_"))}
            ctx.ob(f"{k}:GP:variables", got == ps | ms, w, f"the output layer is applied with {sorted(got)} instead of {sorted(ps | ms)}")
            ml = listed(mut)
            ml = sorted(y.a[0] for y in ml if y.k == "const") if ml is not None else None
            ctx.ob(f"{k}:GP:mutable", ml == sorted(GPK) if mutable and train else mut is FALSE or ml == [], w, f"the output layer may update {ml}")


def init_job(ctx, item):
    q, editor, rng = item
    P = ctx.P
    c = P.cls(q)
    a = Api(P)
    s, I = a.s, a.s.I
    names = {n for n, _, _, _ in a.ctor_params(c)}
    ed = s.sym("EDITOR", None, "not") if editor else NONE
    ov = {"model": s.sym("MODEL", None, "not"), "likelihood_log_variance_model": s.sym("LIK", None, "not"), "model_editor": ed}
    o = a.build(c, override={k: v for k, v in ov.items() if k in names} | {"model_editor": ed})
    sub = {"MODEL": "model"}
    if "likelihood_log_variance_model" in names:
        sub["LIK"] = "lik_log_var"
    if sngp(c):
        I.store_attr(o, "_gp_output_model", s.sym("GP", None, "not"), s.st, s.fr, None)
        sub["GP"] = "model"
    if editor:
        sub["EDITOR"] = "model_editor"
    calls = []

    def inited(I, recv, args, kw, st, fr, node):
        if recv.k == "sym" and recv.a[0] in sub:
            kw = dict(kw)
            n = recv.a[0]
            calls.append((n, I.models.reify(I, args[0] if args else kw.get("rngs", UNDEF), st, 8), I.models.reify(I, tup(list(args[1:]) + list(kw.values())), st, 8)))
            return I.sym("INIT_" + n, None, "not")
        return None

    I.method_stubs = {"init": inited}
    if not rng:
        I.store_attr(o, "rng", s.given("GEN", P.cls("RandomNumberGenerator").qual), s.st, s.fr, None)
    v, ev, end = a.run(lambda: s.call(o, "init", tup([s.sym("D0", None, "not")]), s.sym("RNG", None, "not") if rng else NONE))
    ctx.absorb(s)
    w = method_qual(c, "init")
    k = f"{c.name}:init:{'editor' if editor else 'plain'}:{'keys' if rng else 'own keys'}"
    if v is None:
        ctx.ob(k, False, w, "initialising the model never returns")
        return
    used = []
    for n in sub:
        ctx.ob(f"{k}:{n}", [x for x, *_ in calls].count(n) == 1, w, f"{n} is initialised {[x for x, *_ in calls].count(n)} times")
    for n, rngs, rest in calls:
        ks = rngs.a[0] if rngs.k == "rmap" else ()
        mine = {a.a[0] if isinstance(a, V) else a: b for a, b in ks}
        ctx.ob(f"{k}:{n}:collections", "params" in mine, w, f"{n} is initialised with the keys {show(rngs, 3)[:80]}")
        for col, key in mine.items():
            ctx.ob(f"{k}:{n}:{col}:own", key not in used, w, f"{n} gets for `{col}` a key that was given before")
            if rng:
                ctx.ob(f"{k}:{n}:{col}:given", "RNG" in sub_syms(key), w, f"the key of `{col}` of {n} is not derived from the given one")
            used.append(key)
    r = I.models.reify(I, v, end, 10)
    for m in members(r):
        if m.k != "rmap":
            ctx.undec(k, "the result is not an explicit mapping")
            continue
        fs = {(a.a[0] if isinstance(a, V) else a): b for a, b in m.a[0]}
        exp = {}
        for n, slot in sub.items():
            exp.setdefault(slot, set()).add("INIT_" + n)
        ctx.ob(f"{k}:slots", set(fs) == set(exp), w, f"initialisation gives the slots {sorted(fs)}")
        for slot, want in exp.items():
            got = {x for x in sub_syms(fs.get(slot, NONE)) if x.startswith("INIT_")}
            ctx.ob(f"{k}:{slot}", got == want, w, f"slot `{slot}` holds {sorted(got)}")


def split_job(ctx, item):
    """variables of several sub-models are split into parameters and mutable state, slot by slot."""
    q, names, with_mut, cols = item
    P = ctx.P
    c = P.cls(q)
    a = Api(P)
    s, I = a.s, a.s.I
    src = []
    for n in names:
        kv = [(const("params"), s.sym(f"P_{n}", None, "not"))]
        if n in with_mut:
            kv += [(const("batch_stats"), s.sym(f"B_{n}", None, "not")), (const("cache"), s.sym(f"C_{n}", None, "not"))][:cols]
        src.append((const(n), I.new_dict(kv, s.st)))
    v, ev, end = a.run(lambda: s.call(mk("class", c.qual), "init_from_dict", I.new_dict(src, s.st)))
    ctx.absorb(s)
    w = method_qual(c, "init_from_dict")
    k = f"split:{c.mod.name if hasattr(c.mod, 'name') else c.qual}:{','.join(names)}:{','.join(with_mut) or 'none'}:{cols}"
    if v is None:
        ctx.ob(k, False, w, "splitting never returns")
        return
    for m in members(v):
        base = s.st
        s.st = end
        ps = I.models.reify(I, s.attr(m, "params"), end, 8)
        ms = I.models.reify(I, s.attr(m, "mutable"), end, 8)
        s.st = base
        for n in names:
            cs = slots(ps, n)
            ctx.ob(f"{k}:{n}:params", cs == {"params": s.sym(f"P_{n}", None, "not")}, w, f"the parameters of `{n}` are {cs}")
            if with_mut:
                cs = slots(ms, n)
                want = dict([("batch_stats", s.sym(f"B_{n}", None, "not")), ("cache", s.sym(f"C_{n}", None, "not"))][:cols]) if n in with_mut else {}
                ctx.ob(f"{k}:{n}:mutable", cs == want or cs is None and not want, w, f"the mutable state of `{n}` is {cs}")
        if not with_mut:
            ctx.ob(f"{k}:none", ms is NONE, w, f"without mutable state, the state is {show(ms, 3)[:80]}")


def chosen_job(ctx, item):
    """each posterior approximation gets its own kind of manager, with its options and the user's models."""
    approx, opaque = item
    P = ctx.P
    s = Scn(P)
    I = s.I
    ed = s.sym("EDITOR", None, "not")
    try:
        if opaque:  # may be a pre-trained model of the transformers library
            stub_checks(s)
            akw = {"output_dim": s.sym("output_dim")} if approx == "sngp" else {}
            pm = s.new(P.cls("ProbClassifier").qual, model=s.sym("MODEL", None, "not"), posterior_approximator=s.new(APPROX[approx], **akw), model_editor=ed)
        else:
            pm = prob_classifier(s, approx, model_editor=ed)
    except Dead:
        ctx.ob(f"chosen:{approx}", False, P.cls("ProbClassifier").qual, f"a classifier with {approx} cannot be built")
        return
    mm = s.attr(pm, "model_manager")
    cs = {I.cls_of(m) for m in members(mm)}
    ctx.absorb(s)
    k = f"chosen:{approx}:{'any' if opaque else 'flax'} model"
    w = pm_qual = P.cls("ProbClassifier").qual
    if None in cs:
        ctx.undec(k, "the model manager is not an explicit object")
        return
    for c in cs:
        ctx.ob(f"{k}:kind:{c.name}", sngp(c) == (approx == "sngp"), w, f"{approx} uses a {c.name}")
    if opaque:
        ctx.need("managers of pre-trained models", len([c for c in cs if "HuggingFace" in c.name]), 1)
    for m in members(mm):
        ctx.ob(f"{k}:model", s.attr(m, "model") == s.attr(pm, "model"), w, "the manager does not hold the given model")
        ctx.ob(f"{k}:editor", s.attr(m, "model_editor") == ed, w, "the manager does not hold the given model editor")
        if approx != "sngp" or m.k != "obj":
            continue
        ap = s.attr(s.attr(pm, "posterior"), "posterior_approximator")
        d, f = P.cls("SNGPClassificationModelManagerMixin").lookup("__init__")
        for n, _, _, _ in params_of(f):
            if n in ("args", "kwargs"):
                continue
            ctx.ob(f"{k}:{n}", s.attr(m, n) == s.attr(ap, n), w, f"option `{n}` of the approximation does not reach the manager")



def likelihood_manager(ctx, kind):
    P = ctx.P
    for approx in ("map", "deep_ensemble") + (("sngp",) if kind == "classifier" else ()):
        s = Scn(P)
        pm = (prob_classifier if kind == "classifier" else prob_regressor)(s, approx)
        mm = s.attr(pm, "model_manager")
        lik = s.attr(pm, "likelihood")
        ctx.ob(f"{kind}:{approx}:likelihood", s.attr(lik, "model_manager") == mm, P.cls("ProbModel").qual, "the likelihood uses another model manager than the model")
        if kind == "regressor":
            for m in members(mm):
                ctx.ob(f"{kind}:{approx}:model", s.attr(m, "model") == s.attr(pm, "model"), P.cls("ProbRegressor").qual, "the manager does not hold the given model")
                ctx.ob(f"{kind}:{approx}:variance model", s.attr(m, "likelihood_log_variance_model").k == "obj" and s.attr(m, "likelihood_log_variance_model") != s.attr(pm, "model"), P.cls("ProbRegressor").qual, "the manager does not hold the given model of the likelihood log-variance")
        ctx.absorb(s)


def run(ctx):
    P = ctx.P
    base = P.cls("ModelManager")
    cs = [c for c in P.classes.values() if base in c.mro and not is_abstract(c) and "HuggingFace" not in c.name]
    ctx.need("model managers", len(cs), 3)
    tf = (True, False)
    ctx.pmap(apply_job, [(c.qual, e, m, t, r, b) for c in cs for e in tf for m in tf for t in tf for r in tf for b in (tf if m else (True,))])
    hs = [c for c in P.classes.values() if base in c.mro and "HuggingFace" in c.name and not is_abstract(c)]
    ctx.need("managers of pre-trained models", len(hs), 2)
    ctx.pmap(hf_job, [(c.qual, e, m, t, r) for c in hs for e in tf for m in tf for t in tf for r in tf])
    ctx.pmap(init_job, [(c.qual, e, r) for c in cs for e in tf for r in tf])
    sts = [c for c in P.classes.values() if c.name == "ModelManagerState"]
    ctx.need("state of a model manager", len(sts), 1)
    two = ("model", "lik_log_var")
    pats = [(("model",), ()), (("model",), ("model",)), (two, ()), (two, two[:1]), (two, two[1:]), (two, two), (("model", "model_editor"), ("model",))]
    ctx.pmap(split_job, [(c.qual,) + x + (n,) for c in sts for x in pats for n in (1, 2)])
    ctx.pmap(chosen_job, [(x, o) for x in APPROX for o in tf])
    ctx.pmap(likelihood_manager, ["classifier", "regressor"])
