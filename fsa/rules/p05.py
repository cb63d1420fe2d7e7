"""P05: random keys."""
from .sweep import *
from .trainscn import TrainRun, trainers

EXPLANATION = (
    "Every public operation that takes a random key is executed abstractly on every receiver, once with an explicit key and once without; every training and calibration run is executed as well. "
    "Each random draw (jax.random samplers, module application with rngs, module initialisation) is an obligation: the key it consumes derives from the explicit key and never from the model's own generator; "
    "without an explicit key it derives from the generator and never from a constant; on one path the same key term is never consumed at two different draw sites, never consumed by the same draw again in a later loop iteration, and never both split and consumed. "
    "The generator itself must hand out a key different from the state it keeps."
)
ASSUMPTIONS = [
    "two evaluations of the same draw site on the same key and the same arguments are one draw (composite quantities deliberately reuse samples)",
    "keys inside user-supplied callables are the caller's responsibility",
]

NOT_DRAWS = {"PRNGKey", "key", "split", "fold_in", "key_data", "wrap_key_data", "clone", "key_impl"}
GLOBAL_RANDOM = ("numpy.random.", "random.", "tensorflow.random.")


def draw_keys(e):
    """[(role, key value)] consumed by this event, [] otherwise."""
    n = str(e.name)
    kw = dict(e.kw)
    if e.kind == "ext" and n.startswith("jax.random."):
        short = n.rsplit(".", 1)[-1]
        if short in NOT_DRAWS:
            return []
        k = e.args[0] if e.args else kw.get("key")
        return [(short, k)] if k is not None else []
    if e.kind == "method" and n in ("apply", "init", "init_with_output"):
        out = []
        if kw.get("train") is FALSE or kw.get("deterministic") is TRUE:
            return []  # evaluation mode: nothing is drawn
        r = kw.get("rngs")
        if n != "apply" and r is None and e.args:
            r = e.args[0]
        if r is not None:
            out.append((n, r))
        return out
    return []


def key_terms(I, v, st, depth=4):
    """key values inside an rngs argument (a key, or a dictionary of keys)."""
    out = []
    if depth <= 0:
        return out
    for m in members(v):
        if m is NONE:
            continue
        if m.k == "obj":
            c = I.content(m, st)
            if c is not None and c.k == "map":
                out += [y for k, x in c.a[0] for y in key_terms(I, x, st, depth - 1)]
            continue
        if m.k == "rmap":
            out += [y for k, x in m.a[0] for y in key_terms(I, x, st, depth - 1)]
            continue
        out.append(m)
    return out


def keylike(k):
    """is this term a random key (rather than, say, the parameters given to an optimizer's init)?"""
    while k.k in ("item", "elem", "lane", "leaf") and isinstance(k.a[0], V):
        k = k.a[0]
    if k.k == "sym":
        return "rng" in str(k.a[0]) or str(k.a[0]).startswith(OWN)
    if k.k == "attr":
        return "rng" in str(k.a[1])
    if k.k == "app":
        return str(k.a[0]).startswith("jax.random.") or str(k.a[0]) == ".get" and any("rng" in l for l in syms(k)) or str(k.a[0]).startswith("jax.numpy.")
    return False


def shared_by_design(e):
    """the predictive classes and the validation loops evaluate the same samples on every batch of a loader."""
    return any(".predictive." in s[1] or s[1].rsplit(".", 1)[-1].startswith(("val", "_val")) for s in e.stack)


def contradictory(c1, c2):
    d = {}
    for c, v in c1:
        d.setdefault(c, v)
    return any(c in d and d[c] != v for c, v in c2)


class Draws:
    """records draws and splits of one abstract interpreter."""

    def __init__(self, s):
        self.s = s
        self.draws = []
        self.splits = []
        s.I.hooks.append(self)

    def __call__(self, e, st):
        n = str(e.name)
        if e.kind == "ext" and n in ("jax.random.split",):
            k = e.args[0] if e.args else dict(e.kw).get("key")
            if k is not None:
                self.splits.append((e, k))
            return
        for role, v in draw_keys(e):
            for k in key_terms(self.s.I, v, st):
                self.draws.append((e, role, k))


def loop_variant(k):
    return any(x.k in ("elem", "lane", "leaf") for x in sub(k))


OWN = "generator_key#"


def stub_generator(s):
    P = s.P
    f = P.cls("fortuna.utils.random.RandomNumberGenerator").methods["get"]
    n = [0]

    def get(I, bound, st, fr, node):
        n[0] += 1
        return I.sym(f"{OWN}{n[0]}", None, "not")

    s.I.stubs[f.qual] = get


class Tracker(Draws):
    def __init__(self, s):
        super().__init__(s)
        stub_generator(s)
        self.events = []

    def __call__(self, e, st):
        n = str(e.name)
        I = self.s.I
        if e.kind == "ext" and n.startswith(GLOBAL_RANDOM) and not n.endswith((".RandomState", ".default_rng", ".seed", ".Random")):
            self.events.append(("global", e, n, None, ()))
            return
        if e.kind == "ext" and n == "jax.random.split":
            k = e.args[0] if e.args else dict(e.kw).get("key")
            if k is not None:
                for m in members(k):
                    self.events.append(("split", e, "split", I.models.reify(I, m, st, 16), ()))
            return
        for role, v in draw_keys(e):
            other = tuple(I.models.reify(I, x, st, 3) for x in (e.args[1:] if role not in ("apply", "init", "init_with_output") else e.args))
            for k in key_terms(I, v, st):
                if role in ("apply", "init", "init_with_output") and not keylike(k):
                    continue
                self.events.append(("draw", e, role, I.models.reify(I, k, st, 16), other))


def roots(k):
    return {str(l) for l in syms(k)}


def key_roots(k, depth=40):
    """where a key comes from: the symbols (and constant seeds) at the end of its derivation, ignoring shapes and counts."""
    if depth <= 0:
        return roots(k)
    if k.k in ("item", "elem", "lane", "leaf", "attr") and isinstance(k.a[0], V):
        return key_roots(k.a[0], depth - 1)
    if k.k in ("phi", "tuple", "rlist"):
        return set().union(set(), *[key_roots(m, depth - 1) for m in k.a[0]])
    if k.k == "app":
        n = str(k.a[0])
        args = list(k.a[1]) + [x for _, x in k.a[2]]
        if n in ("jax.random.PRNGKey", "jax.random.key"):
            r = roots(k)
            return r or {"<constant>"}
        if n.startswith("jax.random.") and args:
            return key_roots(args[0], depth - 1)
        if n.endswith("tree_unflatten") and len(args) > 1:
            return key_roots(args[1], depth - 1)
        if n.startswith("jax.numpy.") and args or n in (".reshape", "Add", "GetItem"):
            return key_roots(args[0], depth - 1)
    return roots(k)


def const_key(k):
    return "<constant>" in key_roots(k)


def origin(ctx, key, evs, explicit, where_):
    """every draw consumes a key of the right origin."""
    for kind, e, role, k, other in evs:
        if kind == "global":
            ctx.ob(f"{e.site[1]}:{role}:global", False, where(e), f"{where_}: randomness from the process-wide generator {role}")
            continue
        if kind != "draw":
            continue
        r = key_roots(k)
        own = any(l.startswith(OWN) or l == "rng_of_model" for l in r)
        arg = "arg.rng" in r
        if explicit:
            ok = arg and not own
        else:
            ok = bool(own or r - {"<constant>"})
        ctx.ob(f"{e.site[1]}:{role}:{'explicit' if explicit else 'omitted'}:{key}", ok, where(e), f"{where_}: {role} draws with key {str(k)[:140]} " + ("instead of the key passed by the caller" if explicit else "which is not drawn from the model's generator") + f"; path {e.chain()}")


def in_loop(e):
    return any(c.k == "app" and c.a[0] == "loop" for c, _ in e.conds)


def reuse(ctx, evs, where_):
    by = {}
    for x in evs:
        if x[0] == "global" or x[3] is NONE:
            continue
        k = x[3]
        if k.k == "phi" or not (roots(k) or const_key(k)):
            continue
        by.setdefault(k, []).append(x)
    for k, xs in by.items():
        draws = [x for x in xs if x[0] == "draw"]
        bad = None
        for i, x in enumerate(draws):
            for y in xs:
                if y is x or y[0] == "draw" and y[1].idx <= x[1].idx:
                    continue
                e, f = x[1], y[1]
                if contradictory(e.conds, f.conds):
                    continue
                if y[0] == "split":
                    bad = (x, y, "is consumed and also split")
                elif e.site != f.site:
                    bad = (x, y, "is consumed by two different draws")
                elif shared_by_design(e) and shared_by_design(f):
                    continue
                elif e.stack == f.stack and in_loop(e) and not loop_variant(k):
                    bad = (x, y, "is consumed again in every iteration of a loop")
                elif x[4] != y[4]:
                    bad = (x, y, "is consumed by two draws of different quantities")
                else:
                    continue
                break
            if bad:
                break
        if draws:
            e = (bad or (draws[0],))[0][1]
            msg = ""
            if bad:
                msg = f"{where_}: key {str(k)[:100]} {bad[2]}: {bad[0][2]} at {bad[0][1].loc} <- {bad[0][1].chain()} and {bad[1][2]} at {bad[1][1].loc} <- {bad[1][1].chain()}"
            ctx.ob(f"reuse:{e.site[1]}:{e.site[2] if not bad else bad[2] + ' ' + bad[1][1].site[1]}", not bad, where(e), msg)


def has_rng(f):
    ps = params_of(f, drop_self=f.cls is not None and "staticmethod" not in deco_names(f))
    return any(n == "rng" and (ann is None or "Generator" not in ast.unparse(ann)) for n, _, ann, _ in ps)


def pick_rng(f):
    if not has_rng(f):
        return []
    opt = [n for n, d, *_ in params_of(f, drop_self=f.cls is not None) if d]
    vs = [("explicit", ()), ("explicit-defaults", tuple(n for n in opt if n != "rng"))]
    if "rng" in opt:
        vs += [("omitted", ("rng",)), ("omitted-defaults", tuple(opt))]
    return vs


def run_receiver(ctx, it):
    r, stage = it
    P = ctx.P
    tr = {}
    last = [None]

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        if n == "__init__" or f is None:
            tr[a.s].events.clear()
            return
        t = tr[a.s]
        ids = {e.idx for e in ev}
        evs = [x for x in t.events if x[1].idx in ids]
        t.events.clear()
        lab = f"{r.label}.{n}[{v}]"
        origin(ctx, lab, evs, v.startswith("explicit"), lab)
        reuse(ctx, evs, lab)
        ctx.count = getattr(ctx, "count", 0) + 1

    def prep(s):
        tr[s] = Tracker(s)

    Api.prep = prep
    try:
        sweep_one(P, r, on_call, stage=stage, pick=pick_rng)
    finally:
        Api.prep = None
    if last[0] is not None:
        ctx.absorb(last[0].s)


def run_scenario(ctx, it):
    kind, kw = it
    tr = []
    r = (FitRun if kind == "fit" else CalRun)(ctx.P, prep=lambda s: tr.append(Tracker(s)), **kw)
    ctx.absorb(r.s)
    lab = f"{kind}({','.join(f'{k}={v}' for k, v in kw.items())})"
    evs = tr[0].events
    for x in evs:
        if x[0] == "draw" and not any("tuning" in s[1] for s in x[1].stack):  # candidates are compared on common random numbers
            ctx.ob(f"{x[1].site[1]}:{x[2]}:run", key_roots(x[3]) != {"<constant>"}, where(x[1]), f"{lab}: {x[2]} draws with the constant key {str(x[3])[:120]}")
    reuse(ctx, evs, lab)


def generator(ctx):
    P = ctx.P
    s = Scn(P)
    g = s.new("fortuna.utils.random.RandomNumberGenerator", seed=s.given("seed"))
    d = Draws(s)
    out = [s.call(g, "get") for _ in range(3)]
    kept = s.attr(g, "_rng")
    ctx.absorb(s)
    w = "fortuna.utils.random.RandomNumberGenerator.get"
    ctx.ob("generator:distinct", len(set(out)) == 3, w, f"successive calls return {[str(o)[:60] for o in out]}")
    ctx.ob("generator:kept", kept not in out, w, "the key handed out is the one the generator keeps")
    ctx.ob("generator:seed", all("seed" in syms(o) for o in out), w, "keys do not depend on the seed")
    used = {m for e, k in d.splits for m in members(k)}
    ctx.ob("generator:split", not used & set(out), w, "a key handed out is split again by the generator")


def minibatch_keys(ctx, it):
    """every minibatch of a training run has a random key of its own, also when gradients are accumulated."""
    c, gas = it
    r = TrainRun(ctx.P, c, ncb=0, gas=gas)
    ctx.absorb(r.s)
    ks = [b.get("rng", UNDEF) for i, k, b, x, cd in r.seq if k == "step"]
    lab = f"{c.name}:accumulation={gas}"
    ctx.ob(f"{lab}:minibatches", len(ks) == 4, r.f.qual, f"{len(ks)} of 4 minibatches are trained on")
    ctx.ob(f"{lab}:distinct", len(set(ks)) == len(ks), r.f.qual, f"two of {len(ks)} minibatches are trained with the same random key {str(ks[0])[:120] if ks else ''}")
    for i, x in enumerate(ks):
        ctx.ob(f"{lab}:seeded{i}", "arg.rng" in syms(x), r.f.qual, f"the key of minibatch {i} does not come from the given one: {str(x)[:120]}")


def run(ctx):
    P = ctx.P
    generator(ctx)
    ts = trainers(P)
    ctx.need("trainer classes", len(ts), 9)
    ctx.pmap(minibatch_keys, [(c, g) for c in ts for g in (None, 2)])
    items = []
    for r in receivers(P) + functions(P):
        if r.func is not None:
            if has_rng(r.func):
                items.append((r, "new"))
            continue
        if r.cls is not None and not any(has_rng(f) for n, f in public_methods(r.cls)):
            continue
        items.append((r, "fitted" if r.fitted is not None else "new"))
    ctx.need("receivers with operations that take a key", len(items), 30)
    ctx.pmap(run_receiver, items)
    runs = [("fit", dict(approx=a, kind=k)) for a in APPROX for k in ("classifier", "regressor") if not (a == "sngp" and k == "regressor")]
    runs += [("cal", dict(api=a, kind=k)) for a in ("prob", "calib", "output") for k in ("classifier", "regressor")]
    runs += [("fit", dict(approx="map", kind="classifier", devices=-1)), ("fit", dict(approx="map", kind="regressor", disable_jit=True))]
    ctx.pmap(run_scenario, runs)
