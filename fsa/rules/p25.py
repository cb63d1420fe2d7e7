"""P25: the training objective is the negative of the rescaled log joint."""
from .sweep import *
from .algebra import *

EXPLANATION = (
    "The values returned by the priors, the likelihoods, the joint, the variational objective and the sampling integrators are derived "
    "symbolically by abstract interpretation of the source and brought to an arithmetic normal form (sums of monomials with rational "
    "coefficients), which is compared with the documented formula; the objective handed to the trainer is derived the same way for every "
    "posterior approximation, together with the data-set size it is rescaled with."
)
ASSUMPTIONS = [
    "jax.numpy functions have their mathematical meaning; floating point rounding is not considered",
    "the per-datum log-likelihood is the one of the probabilistic output layer",
]


def stub(s, P, qual, name, params=None):
    """replace a function by an opaque application of its arguments."""

    def f(I, bound, st, fr, node):
        vals = [I.models.reify(I, v, st, 4) for k, v in bound.items() if k != "self" and (params is None or k in params)]
        return app(name, vals)

    s.I.stubs[qual] = f


def methods_named(P, base, *names):
    b = P.cls(base)
    for c in P.classes.values():
        if b in c.mro:
            for n in names:
                if n in c.methods:
                    yield c.methods[n]


def alternatives(v, limit=16):
    """concrete alternatives of a value with phis below arithmetic."""
    out = []
    todo = [v]
    while todo and len(out) < limit:
        x = todo.pop()
        if x.k == "phi":
            todo += [m for m in x.a[0] if m is not UNDEF]
            continue
        p = first_phi(x)
        if p is None:
            out.append(x)
            continue
        for m in p.a[0]:
            if m is not UNDEF:
                todo.append(subst(x, p, m))
    return out


def first_phi(v, depth=0):
    if v.k == "phi":
        return v
    if v.k == "app" and depth < 12 and isinstance(v.a[0], str) and v.a[0] in ("Add", "Sub", "Mult", "Div", "Pow", "neg", "jax.numpy.sum", "jax.numpy.mean"):
        for x in v.a[1]:
            p = first_phi(x, depth + 1)
            if p is not None:
                return p
    return None


def subst(v, a, b):
    if v is a:
        return b
    if v.k == "app":
        return mk("app", v.a[0], tuple(subst(x, a, b) for x in v.a[1]), v.a[2] if len(v.a) > 2 else ())
    return v


def compare(ctx, k, where_, v, expected, N, what):
    """all alternatives of value v have the expected normal form."""
    if v is None:
        ctx.ob(k, False, where_, f"{what}: the computation never returns")
        return
    for x in alternatives(v):
        try:
            p = N.norm(x)
        except Unknown as e:
            ctx.undec(k, str(e))
            continue
        exp = expected if isinstance(expected, list) else [expected]
        judge(ctx, k, where_, p, exp, N, what)


def fn_atom(name):
    """leaf hook: applications of a stub become atoms named by the stub."""

    def leaf(v, N):
        if v.k == "app" and v.a[0] == name:
            return N.atom(v)
        return None

    return leaf


def find_app(v, name):
    return [x for x in sub(v) if x.k == "app" and x.a[0] == name]


def prior_formula(ctx):
    P = ctx.P
    for r in receivers(P):
        if r.cls is None or P.cls("fortuna.prob_model.prior.base.Prior") not in r.cls.mro:
            continue
        a = Api(P)
        r.build(a)
        f = r.cls.lookup("log_joint_prob")[1]
        v, ev, end = a.call("log_joint_prob", f, ())
        ctx.absorb(a.s)
        k = f"prior:{r.cls.qual}"

        def is_rav(x):
            return mentions(x, "arg.params")

        N = Norm(vec=is_rav)
        seen = {}

        def leaf(x, N, seen=seen):
            # every parameter raveled into one vector
            if x.k in ("item", "app", "attr") and mentions(x, "arg.params"):
                raws = [y for y in sub(x) if y.k == "app" and y.a[0] in ("jax.flatten_util.ravel_pytree",) and y.a[1][0].k == "sym"]
                if x.k == "item" and x.a[0] in raws and is_zero(x.a[1]):
                    seen["t"] = x
                    return ("v", "theta")
                if raws and x.k == "app" and N.fn(x) in ("builtins.len", "len"):
                    return ("N",)
                if raws and x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "shape":
                    return ("N",)
                if raws and x.k == "attr" and x.a[1] == "size":
                    return ("N",)
            return None

        N.leaf = leaf
        diag = "Diagonal" in r.cls.name
        N.vec = lambda x: (x is THETA) or (isinstance(x, V) and (is_rav(x) or diag and mentions(x, "init.log_var")))
        N.vals[("v", "theta")] = THETA
        lv = None
        if v is not None:
            for y in sub(v):
                if y.k == "sym" and "log_var" in str(y.a[0]):
                    lv = N.norm(y)
        if lv is None:
            ctx.undec(k, "no log-variance symbol in the value")
            continue
        th = atom(("v", "theta"))
        el = padd(padd(pmul(pexp(padd({}, lv, -1)), pmul(th, th)), plog(pmul(const_p(2), atom(("const", "pi"))))), lv)
        expected = pmul(const_p(Fraction(-1, 2)), N.sum(el))
        compare(ctx, k, f.qual, v, expected, N, "log density of the prior")


THETA = app("theta", ())


def is_zero(v):
    return isinstance(v, V) and v.k == "const" and v.a[0] == 0


def likelihood_formula(ctx):
    P = ctx.P
    R = {r.label: r for r in receivers(P)}
    for kind in ("ProbClassifier", "ProbRegressor"):
        r = R[f"{kind}[map].likelihood"]
        for outs_given in (False, True):
            a = Api(P)
            for f in methods_named(P, "fortuna.prob_output_layer.base.ProbOutputLayer", "log_prob"):
                stub(a.s, P, f.qual, "LOGP", ("outputs", "targets"))
            recv = r.build(a)
            c = class_of(a.s, recv)
            f = c.lookup("_batched_log_joint_prob")[1]
            batch = tup([a.s.given("batch.x"), a.s.given("batch.y")])
            ov = {"batch": batch}
            om = ("return_aux",) if outs_given else ("return_aux", "outputs")
            v, ev, end = a.call("_batched_log_joint_prob", f, om, override=ov)
            ctx.absorb(a.s)
            k = f"likelihood:{kind}:outputs={'given' if outs_given else 'computed'}"
            if v is None:
                ctx.ob(k, False, f.qual, "never returns")
                continue
            v = a.s.I.models.reify(a.s.I, v, end, 14)
            lp = find_app(v, "LOGP")
            lp = list(dict.fromkeys(lp))

            def leaf(x, N):
                if x.k == "app" and x.a[0] == "LOGP":
                    return ("v", "logp")
                if x.k == "item" and is_zero(x.a[1]) and x.a[0].k == "attr" and x.a[0].a[1] == "shape" and (mentions(x, "batch.y") or mentions(x, "batch.x")):
                    return ("B",)
                if x.k == "app" and N.fn(x) in ("builtins.len", "len") and x.a[1][0].k == "sym" and x.a[1][0].a[0] in ("batch.x", "batch.y"):
                    return ("B",)
                return None

            N = Norm(leaf=leaf, vec=lambda x: x == ("v", "logp") or x is LOGP)
            N.vals[("v", "logp")] = LOGP
            n = [y for y in sub(v) if y.k == "sym" and y.a[0] == "arg.n_data"]
            if not n:
                ctx.ob(k, False, f.qual, "the batch log-likelihood does not depend on the data-set size")
                continue
            e = pmul(pmul(N.norm(n[0]), atom(("B",), -1)), N.sum(atom(("v", "logp"))))
            compare(ctx, k, f.qual, v, e, N, "rescaled batch log-likelihood")
            for x in lp:
                o, t = x.a[1][0], x.a[1][1]
                ctx.ob(k + ":targets", t.k == "sym" and t.a[0] == "batch.y", f.qual, f"the likelihood is evaluated on {t} instead of the batch targets")
                if not outs_given:
                    ctx.ob(k + ":outputs", mentions(o, "batch.x") and mentions(o, "arg.params") or o.k == "phi" and mentions(o, "batch.x"), f.qual, f"the likelihood is evaluated on {str(o)[:80]} instead of the model outputs")


LOGP = app("LOGP", ())


def joint_formula(ctx):
    P = ctx.P
    R = {r.label: r for r in receivers(P)}
    for kind in ("ProbClassifier", "ProbRegressor"):
        for meth, sign in (("_batched_log_joint_prob", 1), ("_batched_negative_log_joint_prob", -1)):
            for aux in (False, True):
                a = Api(P)
                stub_joint(a.s, P)
                r = R[f"{kind}[map].joint"]
                recv = r.build(a)
                c = class_of(a.s, recv)
                f = c.lookup(meth)[1]
                om = () if aux else ("return_aux",)
                ov = {"return_aux": a.s.I.new_list([const("outputs")], a.s.st)} if aux else {}
                v, ev, end = a.call(meth, f, om, override=ov)
                ctx.absorb(a.s)
                k = f"joint:{kind}.{meth}:aux={aux}"
                if v is not None and aux:
                    v = phi([x for m in members(v) for x in ([m.a[0][0]] if m.k == "tuple" else [])]) if any(m.k == "tuple" for m in members(v)) else None
                check_joint(ctx, k, f.qual, v, sign, "arg.params")


def stub_joint(s, P):
    for f in methods_named(P, "fortuna.prob_model.prior.base.Prior", "log_joint_prob"):
        stub(s, P, f.qual, "PRIOR", ("params",))

    for f in methods_named(P, "fortuna.likelihood.base.Likelihood", "_batched_log_joint_prob"):
        def lik(I, bound, st, fr, node):
            x = app("LIK", [I.models.reify(I, bound[k], st, 4) for k in ("params", "batch", "n_data")])
            ra = bound.get("return_aux")
            if ra is None or ra is NONE:
                return x
            ex = I.exact(ra, st) if ra.k != "phi" else None
            if ex is not None:
                return tup([x, I.sym("aux", None, "not")]) if len(ex) else x
            return tup([x, I.sym("aux", None, "not")])

        s.I.stubs[f.qual] = lik


def check_joint(ctx, k, where_, v, sign, params_label, batch="arg.batch", n="arg.n_data"):
    if v is None:
        ctx.ob(k, False, where_, "the objective is never returned")
        return

    def leaf(x, N):
        if x.k == "app" and x.a[0] in ("PRIOR", "LIK"):
            return (x.a[0],)
        return None

    N = Norm(leaf=leaf)
    e = padd(padd({}, atom(("PRIOR",)), sign), atom(("LIK",)), sign)
    compare(ctx, k, where_, v, e, N, f"objective should be {'+' if sign > 0 else '-'}(log prior + rescaled log likelihood)")
    for x in find_app(v, "PRIOR"):
        ok = mentions(x, params_label)
        ctx.ob(k + ":prior-params", ok, where_, f"the prior is evaluated on {str(x.a[1][0])[:80]}")
    for x in find_app(v, "LIK"):
        ok = mentions(x.a[1][0], params_label) and mentions(x.a[1][1], batch) and mentions(x.a[1][2], n)
        ctx.ob(k + ":likelihood-arguments", ok, where_, f"the likelihood is evaluated on {str(x)[:160]}")


MAXIMISERS = ("sghmc", "cyclical_sgld")


def objectives(ctx, approx):
    P = ctx.P
    for kind in ("classifier", "regressor"):
        if approx == "sngp" and kind == "regressor":
            continue
        r = FitRun(P, approx, kind=kind)
        s = r.s
        ctx.absorb(s)
        k0 = f"fit:{approx}:{kind}"
        ctx.ob(k0, bool(r.primary()) or approx == "laplace", k0, "no training run starts")
        for h in r.train_w.hits:
            lf = (h.e.bound or {}).get("loss_fun")
            own = r._cls(h) == "cfg"
            sign = 1 if approx in MAXIMISERS and own else -1
            k = k0 + (":objective" if own else ":preliminary-objective")
            if lf is None:
                ctx.ob(k, False, where(h.e), "no objective is passed to the trainer")
                continue
            stub_joint(s, P)
            for m in members(lf):
                base = s.st
                s.st = base.fork()
                try:
                    v = s.I.call(m, [s.given("arg.params"), tup([s.given("arg.batch"), s.given("arg.batch")])], [("n_data", s.given("arg.n_data")), ("train", TRUE)], s.st, s.fr, None)
                except Dead:
                    v = None
                finally:
                    s.st = base
                check_joint(ctx, k, str(m)[:100], v, sign, "arg.params")
            for slot, lab in (("training_dataset_size", "train"), ("validation_dataset_size", "val")):
                v = h.bound.get(slot)
                if v is None:
                    continue
                labs = {l.split(".")[0].lstrip("$") for m in members(v) for l in syms(m)}
                ok = lab in {l for l in labs} and not ({"train", "val"} - {lab}) & labs
                ctx.ob(f"{k0}:{slot}", ok or all(m is NONE for m in members(v)), k0, f"{slot} is {str(v)[:120]}")


def variational(ctx):
    P = ctx.P
    c = P.cls("fortuna.prob_model.posterior.normalizing_flow.normalizing_flow_trainer.NormalizingFlowTrainer")
    f = c.lookup("training_loss_step")[1]
    a = Api(P)
    s = a.s
    recv = s.given("self", c.qual)
    for g in methods_named(P, "fortuna.prob_model.posterior.normalizing_flow.normalizing_flow_trainer.NormalizingFlowTrainer", "sample_forward"):
        s.I.stubs[g.qual] = lambda I, bound, st, fr, node: tup([app("SAMPLES", [bound["params"]]), app("LDJ", [bound["params"]])])
    ov = {"loss_fun": s.given("LOSS"), "kwargs": s.given("kw")}
    v, ev, end = a.call("training_loss_step", f, (), override=ov, recv=recv)
    ctx.absorb(s)
    k = "elbo:training_loss_step"
    if v is None:
        ctx.ob(k, False, f.qual, "never returns")
        return
    x = phi([m.a[0][0] for m in members(v) if m.k == "tuple"])

    def leaf(y, N):
        if y.k == "app" and y.a[0] == "LDJ":
            return ("v", "ldj")
        if isinstance(y, V) and y.k in ("item", "app", "elem", "leaf", "lane") and mentions(y, "LOSS") and not (y.k == "app" and isinstance(y.a[0], str) and y.a[0] in ("Add", "Sub", "Mult", "Div", "neg", "jax.numpy.mean", "jax.numpy.sum", "jax.numpy.asarray")):
            return ("v", "negp")
        return None

    N = Norm(leaf=leaf, vec=lambda y: True)
    N.vals[("v", "ldj")] = N.vals[("v", "negp")] = LOGP
    n1 = atom(("N",), -1)
    e = pmul(padd(N.sum(atom(("v", "negp"))), N.sum(atom(("v", "ldj"))), -1), n1)
    compare(ctx, k, f.qual, x, e, N, "variational objective (mean negative log joint minus mean log-determinant)")
    # the mean-field transformation and its log-determinant
    c = P.cls("fortuna.prob_model.posterior.normalizing_flow.advi.advi_architecture.ADVIArchitecture")
    a = Api(P)
    s = a.s
    recv = a.build(c)
    mean, ls, u = s.given("MEAN"), s.given("LOGSTD"), s.given("U")
    for name, var in (("forward", "u"), ("backward", "v")):
        f = c.lookup(name)[1]
        pars = s.I.new_dict([(const("mean"), mean), (const("log_std"), ls)], s.st) if hasattr(s.I, "new_dict") else None
        if pars is None:
            continue
        v, ev, end = a.call(name, f, (), override={"params": pars, var: u})
        ctx.absorb(s)
        t = members(v)[0] if v is not None else None
        if t is None or t.k != "tuple" or len(t.a[0]) != 2:
            ctx.ob(f"advi:{name}", False, f.qual, "does not return the transformed value and its log-determinant")
            continue

        def leaf(y, N):
            if y.k == "app" and N.fn(y) in ("jax.numpy.repeat", "jax.numpy.tile", "jax.numpy.broadcast_to") and y.a[1]:
                return N.norm(y.a[1][0])
            if y.k == "app" and N.fn(y) == "jax.numpy.full" and len(y.a[1]) > 1:
                return N.norm(y.a[1][1])
            if y.k == "app" and N.fn(y) in ("jax.numpy.sum",) and y.a[1]:
                return N.sum(N.norm(y.a[1][0]))
            if y.k == "app" and N.fn(y) in (".sum",):
                return N.sum(N.norm((list(y.a[1]) + [y.a[0].a[0]] if isinstance(y.a[0], V) else list(y.a[1]))[0]))
            return None

        N = Norm(leaf=leaf)
        m, l, w = N.norm(mean), N.norm(ls), N.norm(u)
        if name == "forward":
            e0, e1 = padd(m, pmul(pexp(l), w)), N.sum(l)
        else:
            e0, e1 = pmul(pexp(padd({}, l, -1)), padd(w, m, -1)), padd({}, N.sum(l), -1)
        compare(ctx, f"advi:{name}:value", f.qual, t.a[0][0], e0, N, f"{name} transformation")
        compare(ctx, f"advi:{name}:ldj", f.qual, t.a[0][1], e1, N, f"log-determinant of the {name} transformation")


def integrators(ctx):
    P = ctx.P
    for name in ("sghmc", "cyclical_sgld"):
        q = f"fortuna.prob_model.posterior.sgmcmc.{name}.{name}_integrator.{name}_integrator"
        f = P.functions.get(q)
        if f is None:
            ctx.undec("integrator:" + name, "not found")
            continue
        a = Api(P)
        s = a.s
        kw = {n: a.sym_for(n, ann, f.mod, "arg." + n) for n, d, ann, _ in params_of(f, drop_self=False)}
        pre = P.functions.get("fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner.identity_preconditioner")
        kw["preconditioner"] = s.I.call(s.I.decorated(pre), [], [], s.st, s.fr, None)
        if "step_schedule" in kw:
            kw["step_schedule"] = s.given("SCHED")
        g = P.functions.get("fortuna.utils.random.generate_random_normal_like_tree")
        s.I.stubs[g.qual] = lambda I, bound, st, fr, node: I.sym("NOISE", None, "not")
        gt = s.I.call(s.I.decorated(f), [], list(kw.items()), s.st, s.fr, None)
        upd = None
        for m in members(gt):
            for x in sub(m):
                if x.k == "func" and x in s.I.funcs and s.I.funcs[x][0].name.startswith("update"):
                    upd = x
        k = f"integrator:{name}"
        if upd is None:
            ctx.undec(k, "update function not recognised")
            continue
        grad = s.given("GRAD")
        try:
            v = s.I.call(upd, [grad, s.given("STATE")], [], s.st, s.fr, None)
        except Dead:
            v = None
        ctx.absorb(s)
        if v is None:
            ctx.ob(k, False, q, "the update never returns")
            continue
        ups = [m.a[0][0] for m in members(v) if m.k == "tuple"]
        n = 0
        for u in ups:
            for x in alternatives(u):
                forms = update_forms(x, grad)
                if forms is None:
                    continue
                n += 1
                why = bad_update(forms)
                ctx.ob(k, why is None, q, f"{why}: {str(x)[:160]}")
        if n < len(ups):
            ctx.undec(k, "the update's dependence on the gradient was not recognised")


def update_forms(x, grad):
    """(normal form of the update in gradient, noise and momentum; Norm; flips) or None."""
    flips = 1
    todo = x
    for _ in range(12):
        if todo.k == "app" and todo.a[0] == "tree" and todo.a[1]:
            todo = todo.a[1][0]
            continue
        if todo.k == "item" and todo.a[0].k == "app" and "update" in str(todo.a[0].a[0]):
            y = todo.a[0]
            args = list(y.a[1])
            gs = [z for z in args if mentions(z, "GRAD")]
            opt = [z for z in ([y.a[0]] if isinstance(y.a[0], V) else []) + args if z.k == "app" and z.a[0] == "optax.sgd"]
            if not gs or not opt:
                return None
            flips = -flips
            todo = gs[0]
            continue
        break

    def leaf(v, N):
        if v is grad:
            return ("v", "g")
        if v.k == "app" and v.a[0] == "tree" and v.a[1]:
            return N.norm(v.a[1][0])
        if v.k == "phi" and all(y.k == "leaf" for y in v.a[0]):
            ps = [N.norm(y) for y in v.a[0]]
            ps = [x for x in ps if x]
            if all(equal(x, ps[0]) for x in ps):
                return ps[0]
        if v.k in ("leaf", "lane", "elem"):
            src = v.a[0]
            if src.k == "app" and src.a[0] != "tree" and any("zeros_like" in str(y)[:40] for y in src.a[1][:1]):
                return {}
            if src is grad:
                return ("v", "g")
            if src.k == "sym" and src.a[0] == "NOISE":
                return ("v", "n")
            if src.k == "app" and src.a[0] == "tree" and src.a[1]:
                return N.norm(src.a[1][0])
            if any(y.k == "attr" and y.a[1] == "momentum" for y in sub(src)):
                return ("v", "m")
        if v.k == "sym" and v.a[0] == "NOISE":
            return ("v", "n")
        return None

    N = Norm(leaf=leaf)
    try:
        p = N.norm(todo)
    except Unknown:
        return None
    if not any(a == ("v", "g") for m in p for a, e in m):
        return None
    return p, N, flips


def coefficient(p, a):
    """the polynomial multiplying the atom (linear occurrences only; None otherwise)."""
    r = {}
    for m, c in p.items():
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None
            del d[a]
            r[tuple(sorted(d.items(), key=repr))] = c
    return r


def bad_update(forms):
    p, N, flips = forms
    g, n, m = (coefficient(p, ("v", x)) for x in "gnm")
    if g is None or n is None or m is None:
        return "the update is not linear in gradient, noise and momentum"
    if not g or not all(flips * c > 0 for c in g.values()) and not mixed(g):
        return "the update moves against the gradient of the log joint"
    if flips < 0:
        g = padd({}, g, -1)
    rest = {x: c for x, c in p.items() if not any(a in (("v", "g"), ("v", "n"), ("v", "m")) for a, e in x)}
    if rest:
        return "the update has a term without gradient, noise or momentum"
    if not n:
        return None  # a pure optimisation step
    # x' = x + sqrt(eps) v',  v' = a v + sqrt(eps) g + sqrt(2 (1 - a)) noise
    try:
        root = ppow(g, Fraction(1, 2))
        a = pmul(m, ppow(root, -1)) if m else {}
        want = pmul(root, ppow(pmul(const_p(2), padd(const_p(1), a, -1)), Fraction(1, 2)))
    except Unknown:
        return None
    if not equal(n, want):
        return f"the injected noise has scale {show(n, N)}, expected {show(want, N)} for the step {show(g, N)}"
    return None


def mixed(g):
    """a step size written as a sum with terms of both signs: its sign is not decided by its coefficients."""
    return len({c > 0 for c in g.values()}) > 1


def trainer_step(ctx):
    """the trainer differentiates the objective itself: the training loss step returns the value of loss_fun."""
    P = ctx.P
    base = P.cls("TrainerABC")
    nf = P.cls("fortuna.prob_model.posterior.normalizing_flow.normalizing_flow_trainer.NormalizingFlowTrainer")
    for c in sorted(P.classes.values(), key=lambda c: c.qual):
        if base not in c.mro or nf in c.mro or is_abstract(c) or "calib" in c.qual.lower():
            continue
        d, f = c.lookup("training_loss_step")
        if not isinstance(f, FuncInfo) or f.cls is not None and f.cls.name == "TrainerABC":
            continue
        a = Api(P)
        s = a.s
        recv = s.given("self", c.qual)
        loss = s.given("LOSS")
        v, ev, end = a.call("training_loss_step", f, (), override={"loss_fun": loss}, recv=recv)
        ctx.absorb(s)
        k = f"trainer:{c.qual}"
        xs = [m.a[0][0] for m in members(v) if m.k == "tuple"] if v is not None else []
        ok = bool(xs) and all(y.k in ("item", "app") and mentions(y, "LOSS") and not arith(y) for x in xs for y in members(x))
        ctx.ob(k, ok, f.qual, f"the loss being differentiated is {str(xs)[:120]} instead of the value of the objective")
        calls = [e for e in ev if e.target is loss or e.kind == "call" and e.name == "<opaque>" and e.target is loss]
        for e in calls:
            kw = dict(e.kw)
            ok = any(mentions(x, "arg.params") or mentions(x, "arg.rav_params") or "params" in "".join(syms(x)) for x in e.args[:1])
            ctx.ob(k + ":params", ok, where(e), f"objective evaluated on {[str(x)[:60] for x in e.args[:1]]}")
            if "n_data" in kw:
                ctx.ob(k + ":n_data", mentions(kw["n_data"], "arg.n_data"), where(e), f"objective rescaled with {kw['n_data']}")


def arith(v):
    return v.k == "app" and isinstance(v.a[0], str) and v.a[0] in ("Add", "Sub", "Mult", "Div", "neg", "Pow")


def run(ctx):
    prior_formula(ctx)
    likelihood_formula(ctx)
    joint_formula(ctx)
    variational(ctx)
    integrators(ctx)
    trainer_step(ctx)
    ctx.pmap(objectives, list(APPROX))
