"""P08: what the freeze function freezes never changes, and everything else is trained."""
from .fitscn import *
from .calibscn import CalRun

EXPLANATION = (
    "Every posterior's training pipeline is interpreted abstractly from ProbModel.train down to the gradient step with a parameter tree made of "
    "frozen and trainable leaves and a freeze function that labels them. The nested-dictionary and path helpers are analysed, not assumed. Each state handed to "
    "a repository must hold the starting value at the frozen leaves and a value produced by the gradient step at the trainable ones; each gradient step and "
    "each optimizer state may contain trainable leaves only; the log probability must be evaluated on the whole tree with the frozen leaves as they were; "
    "sampling after training must give back the whole tree with the frozen leaves as they were."
)
ASSUMPTIONS = [
    "path_aware_map, flatten_dict, tree_map, ravel_pytree keep the structure of the tree",
    "the gradient step returns a tree of the structure it was given and changes the leaves it was given only",
]

LEAVES = {"classifier": (("model", "params", "F"), ("model", "params", "T")), "regressor": (("lik_log_var", "params", "U"), ("model", "params", "F"), ("model", "params", "T"))}
FROZEN = ("F",)


def is_map(I, v, st):
    c = I.content(v, st) if I.is_container(v) else None
    return c if c is not None and c.k == "map" else None


def cons(I, pairs, st):
    """one object per content: equal trees are the same tree."""
    memo = I.__dict__.setdefault("tree_memo", {})
    key = tuple(sorted(pairs, key=lambda p: repr(p[0])))
    o = memo.get(key)
    if o is None:
        memo[key] = o = I.new_dict(list(pairs), st)
    else:
        st.set(("c", o), mk("map", tuple(pairs), UNDEF))
    return o


def norm(I, v, st, depth=8, fresh=False):
    """merge alternatives that are mappings with the same keys into one mapping of alternatives."""
    ms = list(members(v))
    cts = [is_map(I, m, st) for m in ms]
    if depth == 0 or not ms or any(c is None or c.a[1] is not UNDEF for c in cts):
        return v
    ks = {tuple(sorted((k for k, _ in c.a[0]), key=repr)) for c in cts}
    if len(ks) != 1:
        return v
    pairs = [(k, norm(I, phi([dict(c.a[0])[k] for c in cts]), st, depth - 1, fresh)) for k in ks.pop()]
    return I.new_dict(pairs, st) if fresh else cons(I, pairs, st)


def bare(v):
    """the members without the copies made of them."""
    out = []
    for m in members(v):
        while m.k == "app" and m.a[0] in ("deepcopy", "copy") and len(m.a[1]) == 1:
            m = m.a[1][0]
            if m.k == "phi":
                out += bare(m)
                m = None
                break
        if m is not None and m not in out:
            out.append(m)
    return out


def upd(v):
    """the result of gradient steps from these values."""
    out = []
    for m in members(v):
        out += list(members(m.a[1][0])) if m.k == "app" and m.a[0] == "UPD" else [m]
    return app("UPD", (phi(out),))


def leaves(I, v, st, path=()):
    """[(path of keys, value)] of a (possibly joined) tree."""
    n = norm(I, v, st)
    c = is_map(I, n, st) if n.k != "phi" else None
    if c is not None:
        out = []
        for k, x in c.a[0]:
            out += leaves(I, x, st, path + (k.a[0] if isinstance(k, V) and k.k == "const" else k,))
        if c.a[1] is not UNDEF:
            out.append((path + ("*",), c.a[1]))
        return out
    return [(path, v)]


def tmap(I, fn, vs, st, path=()):
    ns = [norm(I, v, st) for v in vs]
    cs = [is_map(I, n, st) if n.k != "phi" else None for n in ns]
    if cs[0] is None:
        return fn(path, vs) if all(c is None for c in cs) else None
    if any(c is None or c.a[1] is not UNDEF for c in cs):
        return None
    ds = [{k: x for k, x in c.a[0]} for c in cs]
    if any(set(d) != set(ds[0]) for d in ds):
        return None
    out = []
    for k, x in cs[0].a[0]:
        r = tmap(I, fn, [d[k] for d in ds], st, path + (k,))
        if r is None:
            return None
        out.append((k, r))
    return cons(I, out, st)


class Keep(dict):
    """the usual opaque summaries, except for the nested-dictionary helpers."""

    def __setitem__(self, k, v):
        if not k.startswith("fortuna.utils.nested_dicts."):
            dict.__setitem__(self, k, v)


def mk_tree(I, st, paths, n=0):
    root = {}
    for p in paths:
        d = root
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = I.sym(f"{p[-1].lower()}{n}", None, "not")

    def build(d):
        return I.new_dict([(const(k), build(x) if isinstance(x, dict) else x) for k, x in d.items()], st)

    return build(root)


class Tree:
    """prepares a run: the tree, the freeze functions, the structural models; records steps."""

    def __init__(self, P, paths, frozen=None, after=False):
        self.P, self.paths, self.after = P, paths, after
        self.frozen = frozen or {"cfg": FROZEN, "mcfg": FROZEN}
        self.steps, self.freezes, self.inits = [], [], []

    def ff(self, who):
        return mk("ext", "p08.freeze." + who)

    def prep(self, s):
        I, P = s.I, self.P
        I.rec_limit = 8
        I.norm = norm
        I.equal_zip = True
        ext = {}

        def tree_map(I, args, kw, st, fr, node):
            if len(args) == 2 and args[1].k in ("obj", "phi") and all(m.k == "obj" and not I.is_container(m) for m in members(args[1])):
                # taking the first device's copy of a whole state
                probe = mk("sym", "p08.leaf")
                return args[1] if I.call(args[0], [probe], [], st, fr, node) == mk("item", probe, const(0)) else None
            if len(args) == 2 and all(m.k == "app" and m.a[0] == "ENCODED" for m in members(args[1])):
                return args[1]  # an axis for the devices
            if len(args) < 2 or is_map(I, norm(I, args[1], st), st) is None:
                return None
            return tmap(I, lambda p, vs: I.call(args[0], vs, [], st, fr, node), args[1:], st)

        def path_map(I, args, kw, st, fr, node):
            if len(args) < 2 or is_map(I, norm(I, args[1], st), st) is None:
                return None
            return tmap(I, lambda p, vs: I.call(args[0], [tup(list(p))] + vs, [], st, fr, node), args[1:], st)

        def flatten(I, args, kw, st, fr, node):
            if not args or kw or len(args) > 1:
                return None
            n = norm(I, args[0], st)
            if is_map(I, n, st) is None:
                return None
            return I.new_dict([(tup([const(k) for k in p]), v) for p, v in leaves(I, n, st)], st)

        def same(I, args, kw, st, fr, node):
            if len(args) != 1 or is_map(I, norm(I, args[0], st), st) is None:
                return None
            return norm(I, args[0], st)

        def copy(I, args, kw, st, fr, node):
            return norm(I, args[0], st, fresh=True) if same(I, args, kw, st, fr, node) is not None else None

        for n in ("copy.deepcopy", "flax.core.unfreeze", "flax.core.frozen_dict.unfreeze"):
            ext[n] = copy
        for n in ("jax.tree_util.tree_map", "jax.tree_map", "jax.tree.map"):
            ext[n] = tree_map
        for n in ("flax.jax_utils.replicate", "jax.device_get"):
            ext[n] = lambda I, args, kw, st, fr, node: args[0] if len(args) == 1 else None
        ext["flax.traverse_util.path_aware_map"] = path_map
        ext["flax.traverse_util.flatten_dict"] = flatten
        for n in ("flax.core.FrozenDict", "flax.core.frozen_dict.FrozenDict", "flax.core.freeze", "flax.core.frozen_dict.freeze"):
            ext[n] = same
        for who, fz in self.frozen.items():

            def label(I, args, kw, st, fr, node, who=who, fz=fz):
                p = args[0]
                keys = tuple(k.a[0] for k in p.a[0] if k.k == "const") if p.k == "tuple" else ()
                self.freezes.append((who, keys, args[1] if len(args) > 1 else UNDEF, I.loc(fr, node) if hasattr(I, "loc") else ""))
                if keys not in self.paths:
                    return app("label", [p])
                return const("frozen" if keys[-1] in fz else "trainable")

            ext["p08.freeze." + who] = label
        I.ext_stubs = ext
        I.method_stubs = dict(getattr(I, "method_stubs", None) or {})
        I.method_stubs["unfreeze"] = lambda I, recv, args, kw, st, fr, node: norm(I, recv, st, fresh=True) if is_map(I, norm(I, recv, st), st) is not None else None
        I.stubs = Keep({k: v for k, v in I.stubs.items() if not k.startswith("fortuna.utils.nested_dicts.")})
        d, f = P.cls("Joint").lookup("init")

        def init(I, b, st, fr, n):
            later = self.after and not any(f.qual.endswith("run_preliminary_map") for x in fr.stack for f in (x[3],) if f is not None)
            o = {"params": mk_tree(I, st, self.paths, 1 if later else 0)}
            for x in ("mutable", "calib_params", "calib_mutable"):
                o[x] = I.sym(x + "0", None, "not")
            return I.new_obj(P.cls("JointState"), st, fields=o)

        I.stubs[f.qual] = init

        def minit(I, b, st, fr, n):
            return mk_tree(I, st, self.paths)

        mm = P.cls("ModelManager")
        for c in P.classes.values():
            if mm in c.mro and "init" in c.methods:
                I.stubs[c.methods["init"].qual] = minit

        def step(I, params, g, opt, tx, st, fr, node):
            r = tmap(I, lambda p, vs: upd(vs[0]), [params], st)
            ls = leaves(I, params, st)
            inits = [[p for p, _ in leaves(I, x, st)] for x in opt_trees(I, opt, st)]
            self.steps.append(Step([(p, labels(I, v, st)) for p, v in ls], inits, labels(I, tx, st), r is not None, I.loc(fr, node) if hasattr(I, "loc") else f"{fr.mod.path if hasattr(fr.mod,'path') else fr.mod}:{getattr(node,'lineno',0)}"))
            return r

        I.gradient_step = step
        def encode(I, b, st, fr, node):
            out = []
            for m in [m for v in b.values() for m in members(v)]:
                if m.k == "tuple":
                    m = tup([tup(I.exact(x, st, 24) or [x]) if I.is_container(x) else x for x in m.a[0]])
                out.append(NONE if m == NONE else app("ENCODED", (m,)))
            return phi(out)

        def decode(I, b, st, fr, node):
            out = []
            for m in [m for v in b.values() for m in bare(v)]:
                if m.k == "app" and m.a[0] == "ENCODED":
                    m = m.a[1][0]
                    if m.k == "tuple":
                        m = tup([I.new_list(list(x.a[0]), st) if x.k == "tuple" else x for x in m.a[0]])
                out.append(m)
            return phi(out)

        for q in P.functions:
            if q == "fortuna.utils.strings.encode_tuple_of_lists_of_strings_to_numpy":
                I.stubs[q] = encode
            elif q == "fortuna.utils.strings.decode_encoded_tuple_of_lists_of_strings_to_array":
                I.stubs[q] = decode

        def callback(I, args, kw, st, fr, node):
            return I.call(args[0], list(args[2:]), [], st, fr, node)

        for n in ("jax.pure_callback", "jax.experimental.io_callback"):
            ext[n] = callback


class Step:
    def __init__(self, params, inits, tx, ok, where):
        self.params, self.inits, self.tx, self.ok, self.where = params, inits, tx, ok, where


def terms(I, v, st, deep=False, limit=4000):
    """every term reachable from a value, not through mappings and conditions."""
    seen, todo = set(), [v]
    while todo and len(seen) < limit:
        x = todo.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if I.is_container(x):
            ct = I.content(x, st)
            if ct is not None and (ct.k != "map" or deep):
                todo.append(ct)
            continue
        if x.k == "obj":
            todo += [y for y in (st.get(("f", x, n)) for n in I.FIELDS.get(x, ())) if y is not None]
            continue
        stack = list(x.a)
        while stack:
            b = stack.pop()
            if isinstance(b, V):
                todo.append(b)
            elif isinstance(b, (tuple, frozenset, list)):
                stack.extend(b)


def opt_trees(I, opt, st):
    """the parameter trees an optimizer state was made for."""
    seen, todo, out = set(), [opt], []
    while todo:
        x = todo.pop()
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if x.k == "phi":
            n = norm(I, x, st)
            todo += list(members(x)) if n == x else [n]
        elif is_map(I, x, st) is not None:
            out.append(x)
        elif x.k == "obj":
            todo += [y for y in (st.get(("f", x, n)) for n in I.FIELDS.get(x, ())) if y is not None]
        elif x.k == "tuple":
            todo += list(x.a[0])
        elif x.k == "app":
            op, args = x.a[0], list(x.a[1])
            if op == "opt_update":
                todo += args[:1]
            elif op == ".init":
                todo += args[1:2]
            elif str(op).endswith("where"):
                todo += args[1:]
            elif op in ("oneof", "deepcopy", "copy"):
                todo += args
    return out


def labels(I, v, st):
    """the symbols and gradient steps a value is made from."""
    out = set()
    for x in terms(I, v, st, True):
        if x.k == "sym":
            out.add(x.a[0])
        elif x.k == "app" and x.a[0] == "UPD":
            out.add("UPD")
    return frozenset(out)


class Live:
    """the leaves of a live tree at every call of a function."""

    def __init__(self, s, pred, get):
        self.s, self.pred, self.get, self.hits = s, pred, get, []
        s.I.hooks.append(self)

    def __call__(self, e, st):
        if e.kind == "call" and self.pred(e):
            I = self.s.I
            for m in self.get(e, I, st):
                self.hits.append((e, snap(I, m, st)))


def snap(I, m, st):
    return [(p, bare(v), labels(I, v, st)) for p, v in leaves(I, m, st)]


def field_of(name, arg_name):
    def get(e, I, st):
        v = (e.bound or {}).get(arg_name)
        out = [x for m in (members(v) if v is not None else ()) for x in [st.get(("f", m, name))] if x is not None]
        return [phi(out)] if out else []

    return get


def dots(p):
    return ".".join(str(k) for k in p) or "the whole tree"


APPROX = ["map", "deep_ensemble", "swag", "advi", "laplace", "sghmc", "cyclical_sgld", "sngp"]
PARTIAL = ("sghmc", "cyclical_sgld")  # their stored samples hold the trainable part only
FLAT = ("swag", "advi", "laplace")  # without a freeze function these hold vectors or trees of moments
NO_STEPS = ("laplace",)


class Judge:
    def __init__(self, ctx, tag, t, own=True):
        self.own = own
        self.ctx, self.tag, self.t, self.n = ctx, tag, t, 0

    def start(self, p):
        return p[-1].lower() + "0"

    def tree(self, what, snapshot, where, partial=False, trained=True, frozen=FROZEN):
        """one whole parameter tree."""
        ctx, tag = self.ctx, self.tag
        got = {}
        for p, b, l in snapshot:
            # the moments of a trainable parameter are kept in its place
            q = next((p[:i] for i in range(len(p)) if p[:i] in self.t.paths and p[i - 1] not in frozen), p)
            b0, l0 = got.get(q, ([], frozenset()))
            got[q] = (b0 + b, l0 | l)
        want = set(self.t.paths)
        if partial:
            want = {p for p in want if p[-1] not in frozen or p in got}
        ctx.ob(f"{tag}: {what} {where}: the parameters", set(got) == want, where, f"{what} holds {sorted(map(dots, got))} where the parameters are {sorted(map(dots, want))}")
        for p in sorted(want & set(got)):
            b, l = got[p]
            if p[-1] in frozen:
                ok = len(b) == 1 and b[0].k == "sym" and b[0].a[0] == self.start(p)
                ctx.ob(f"{tag}: {what} {where}: {dots(p)} is as it started", ok, where, f"{what} holds {show(phi(b), 3)[:160]} at the frozen parameter {dots(p)}, which started as {self.start(p)}")
            elif self.own:
                s0 = self.start(p)
                ctx.ob(f"{tag}: {what} {where}: {dots(p)} is made of what it was", s0 in l or s0[:-1] + "1" in l, where, f"{what} holds {show(phi(b), 3)[:160]} at the trainable parameter {dots(p)}, which does not come from that parameter")
            if p[-1] not in frozen and trained:
                ctx.ob(f"{tag}: {what} {where}: {dots(p)} was trained", "UPD" in l, where, f"{what} holds {show(phi(b), 3)[:160]} at the trainable parameter {dots(p)}: no gradient step reaches it")

    def step(self, st, frozen, vector=False, own=True):
        ctx, tag, w = self.ctx, self.tag, st.where
        fz = {self.start(p) for p in self.t.paths if p[-1] in frozen}
        tr = {p for p in self.t.paths if p[-1] not in frozen}
        ctx.ob(f"{tag}: step {w}: is on the structure of its parameters", st.ok, w, "the gradient step is applied to parameters whose structure is unknown")
        got = {p for p, _ in st.params}
        if got <= set(self.t.paths):
            bad = sorted(dots(p) for p in got if p[-1] in frozen)
            miss = sorted(dots(p) for p in self.t.paths if p[-1] not in frozen and p not in got)
        else:
            # flattened parameters: what they were before any step
            ls = set().union(*[l for _, l in st.params])
            bad = sorted(ls & fz) if "UPD" not in ls else []
            miss = sorted(dots(p) for p in tr if not {self.start(p), self.start(p)[:-1] + "1"} & ls)
        ctx.ob(f"{tag}: step {w}: frozen parameters are not in it", not bad, w, f"the gradient step updates {bad}, which the freeze function freezes")
        ctx.ob(f"{tag}: step {w}: trainable parameters are in it", not miss, w, f"the gradient step leaves out {miss}, which the freeze function does not freeze")
        ctx.ob(f"{tag}: step {w}: the optimizer was initialised", bool(st.inits), w, "the optimizer state of the gradient step holds no parameters: it does not come from the optimizer's init")
        for i in st.inits:
            ctx.ob(f"{tag}: step {w}: the optimizer state covers what is stepped", set(i) == got, w, f"the optimizer state is for {sorted(map(dots, i))} and the gradient step is on {sorted(map(dots, got))}")


def run(ctx):
    P = ctx.P
    helpers(ctx, P)
    items = []
    for ap in APPROX:
        for kind in ("classifier",) if ap == "sngp" else ("classifier", "regressor"):
            vs = [("compiled", {}), ("plain", dict(disable_jit=True)), ("devices", dict(devices=-1))]
            for v, kw in vs:
                if kind == "regressor" and v != "compiled" and ctx.tier == "quick":
                    continue
                items.append((ap, kind, v, kw, "cfg"))
            if ap not in ("map", "sngp"):
                items.append((ap, kind, "only this training", dict(mapcfg=True), "cfg-only"))
                items.append((ap, kind, "only the preliminary training", dict(mapcfg=True), "mcfg-only"))
                if ap not in PRELIM:
                    items.append((ap, kind, "after a preliminary training", dict(mapcfg=True), "cfg"))
            items.append((ap, kind, "nothing", {}, "none"))
            items.append((ap, kind, "twice", dict(again=True), "cfg"))
    for kind in ("classifier", "regressor"):
        for v, kw in (("compiled", {}), ("plain", dict(disable_jit=True)), ("devices", dict(devices=-1))):
            items.append(("calib", kind, v, kw, "cfg"))
        items.append(("calib", kind, "nothing", {}, "none"))
    ctx.pmap(one, items)


def one(ctx, item):
    ap, kind, var, kw, what = item
    P = ctx.P
    tag = f"{ap} {kind} [{var}]"
    t = Tree(P, LEAVES[kind], after=bool(kw.get("mapcfg")) or ap in PRELIM)
    put, mput, ljp = [], [], []
    frozen = {"cfg": {"cfg": FROZEN, "mcfg": FROZEN}, "cfg-only": {"cfg": FROZEN, "mcfg": ()}, "mcfg-only": {"cfg": (), "mcfg": FROZEN}, "none": {"cfg": (), "mcfg": ()}}[what]

    def prep(s):
        t.prep(s)
        put.append(Live(s, is_method(P, "TrainStateRepository", "put"), field_of("params", "state")))
        mput.append(Live(s, is_method(P, "PosteriorMultiStateRepository", "put"), field_of("params", "state")))
        fn = ("ModelManager", "apply") if ap == "calib" else ("Joint", "_batched_log_joint_prob")
        ljp.append(Live(s, is_method(P, *fn), lambda e, I, st: [e.bound["params"]]))

    again = kw.get("again")
    kw = {k: v for k, v in kw.items() if k != "again"}
    over = dict(freeze_fun=t.ff("cfg") if frozen["cfg"] else NONE)
    if ap == "calib":
        r = CalRun(P, "calib", kind, prep=prep, restore=False, callbacks=False, save_dir=False, dump=False, over=over, **kw)
    else:
        r = FitRun(P, ap, kind=kind, prep=prep, restore=False, callbacks=False, save_dir=False, dump=False, over=over, map_over=dict(callbacks=NONE, dump_state=FALSE, save_checkpoint_dir=NONE, freeze_fun=t.ff("mcfg") if frozen["mcfg"] else NONE), **kw)
    s = r.s
    ctx.absorb(s)
    j = Judge(ctx, tag, t)
    where = f"{ap} {kind}"
    if r.result is None:
        ctx.ob(f"{tag}: training completes", False, where, "training with a freeze function always fails")
        return
    if again:
        # a second training that starts from the state of the first
        from .fitscn import FIT

        ov = {"disable_jit": FALSE, "devices": const(0), "dump_state": FALSE, "start_from_current_state": TRUE, "callbacks": NONE, "restore_checkpoint_path": NONE, "save_checkpoint_dir": NONE, "freeze_fun": t.ff("cfg")}
        n0 = len(t.steps)
        try:
            s.call(r.pm, "train", train_data_loader=loader(s, "train"), val_data_loader=loader(s, "val"), fit_config=given_config(s, FIT, "cfg", ov), calib_config=NONE)
        except Dead:
            ctx.ob(f"{tag}: the second training completes", False, where, "a second training that starts from the current state always fails")
            return
        if ap not in NO_STEPS:
            ctx.ob(f"{tag}: the second training takes gradient steps", len(t.steps) > n0, where, "no gradient step is ever taken on known parameters by a second training")
    for who, keys, val, loc in t.freezes:
        ctx.ob(f"{tag}: the {who} freeze function is given paths of parameters", keys in t.paths, loc or where, f"the freeze function is asked about {dots(keys)}, which is not the path of a parameter")
    every = set(FROZEN) if what in ("cfg",) else set()
    # which training a step or a state belongs to
    n = {"cfg": 0, "mcfg": 0}
    for st in t.steps:
        who = "mcfg" if any(x.startswith("mcfg.") for x in st.tx) else "cfg"
        n[who] += 1
        j.step(st, frozen[who])
        if ap not in PARTIAL:
            ctx.ob(f"{tag}: step {st.where}: uses the user's optimizer", any(x in ("cfg.optimizer.method", "mcfg.optimizer.method") for x in st.tx), st.where, "the gradient step does not use the optimizer of the configuration")
    if ap not in NO_STEPS:
        ctx.ob(f"{tag}: training takes gradient steps", n["cfg"] > 0, where, "no gradient step is ever taken on known parameters")
    if getattr(r, "mapcfg", None) is not None and (ap in PRELIM or what != "mcfg-only"):
        ctx.ob(f"{tag}: the preliminary training takes gradient steps", n["mcfg"] > 0, where, "no gradient step is ever taken on known parameters by the preliminary training")
    hits = put[0].hits + mput[0].hits
    ctx.need(f"{tag}: stored states", len(hits), 1)
    # a leaf stays as it started only where every training that ran froze it
    both = FROZEN if frozen["cfg"] and (getattr(r, "mapcfg", None) is None or frozen["mcfg"]) else ()
    whole = what == "cfg" or (what == "none" and ap not in FLAT)
    for e, sn in hits:
        if whole:
            j.tree("the stored state", sn, e.loc, partial=ap in PARTIAL, frozen=both)
    for e, sn in ljp[0].hits:
        if both or ap != "advi":
            j.tree("the evaluation", sn, e.loc, trained=False, frozen=both)
    ctx.need(f"{tag}: evaluations", len(ljp[0].hits), 1)
    if ap == "calib" or not whole:
        return
    kw = dict(inputs=s.sym("inp")) if ap == "swag" else {}
    try:
        o = s.call(r.post, "sample", rng=s.sym("key"), **kw)
    except Dead:
        ctx.ob(f"{tag}: sampling completes", False, where, "sampling after training always fails")
        return
    ok = 0
    for m in members(o):
        x = s.st.get(("f", m, "params"))
        if x is not None:
            ok += 1
            j.tree("the posterior sample", snap(s.I, x, s.st), where, frozen=both)
    ctx.need(f"{tag}: samples", ok, 1)


def helpers(ctx, P):
    """the label and path helpers themselves."""
    paths = (("a", "F"), ("a", "b", "T"), ("c", "F"), ("d",))
    want = {"trainable": [["a", "b", "T"], ["d"]], "frozen": [["a", "F"], ["c", "F"]]}

    def scn(ff=True):
        s = Scn(P)
        t = Tree(P, paths)
        t.prep(s)
        return s, t, mk_tree(s.I, s.st, paths), t.ff("cfg") if ff else NONE

    def lists(s, v):
        v = s.reify(v)
        if v.k != "tuple":
            return None
        out = []
        for x in v.a[0]:
            if x.k == "rlist":
                x = x.a[0]
            elif x.k == "tuple":
                x = x.a[0]
            else:
                return None
            out.append([k.a[0] if isinstance(k, V) and k.k == "const" else None for k in x])
        return sorted(out, key=str)

    F = "fortuna.utils.freeze."
    for fn, lab in (("get_trainable_paths", "trainable"), ("get_frozen_paths", "frozen")):
        s, t, tr, ff = scn()
        got = lists(s, s.callf(F + fn, tr, ff))
        ctx.absorb(s)
        ctx.ob(f"{fn}: the {lab} parameters", got == want[lab], F + fn, f"the {lab} paths of a tree whose {want[lab]} are labelled {lab} come out as {got}")
        s, t, tr, ff = scn(False)
        got = lists(s, s.callf(F + fn, tr, ff))
        ctx.absorb(s)
        w = sorted([list(p) for p in paths], key=str) if lab == "trainable" else []
        ctx.ob(f"{fn}: without a freeze function", got == w, F + fn, f"without a freeze function the {lab} paths come out as {got}")
    s, t, tr, ff = scn()
    opt = s.sym("opt")
    r = s.callf(F + "freeze_optimizer", tr, opt, ff)
    ctx.absorb(s)
    ok = False
    if r.k == "app" and str(r.a[0]).endswith("multi_transform") and len(r.a[1]) > 1:
        ts = {p: v for p, v in leaves(s.I, r.a[1][0], s.st)}
        ls = {p: v for p, v in leaves(s.I, r.a[1][1], s.st)}
        lab = {p: const("frozen" if p[-1] == "F" else "trainable") for p in paths}
        ok = ls == lab and ts.get(("trainable",)) == opt and ts.get(("frozen",)) is not None and ts[("frozen",)].k == "app" and str(ts[("frozen",)].a[0]).endswith("set_to_zero") and len(ts) == 2
    ctx.ob("freeze_optimizer: frozen parameters get no update, the others the optimizer's", ok, F + "freeze_optimizer", f"freezing an optimizer gives {show(s.reify(r), 6)[:300]}")
    s, t, tr, ff = scn(False)
    r = s.callf(F + "freeze_optimizer", tr, opt, ff)
    ctx.absorb(s)
    ctx.ob("freeze_optimizer: without a freeze function", r == opt, F + "freeze_optimizer", f"without a freeze function the optimizer becomes {show(r, 3)[:200]}")
