"""P15: repositories of several states keep their members apart, in order and complete."""
from itertools import product

from ..harness import *
from .apiscn import *
from .common import *
from .fitscn import FitRun
from .p07 import REPO, class_of_obj, empty, head, method_qual, path, posterior, sp, strip, sub_syms

EXPLANATION = (
    "Histories: every sequence of up to three writes (one member, all members, an update of one or of all) on a repository of three members is evaluated, in memory and on a modelled disk, and every read (one member, all, "
    "chosen fields of one or of all, pull) is compared field by field with a reference list of three states. Fitting an ensemble of three members must put the state of each run under its own index; "
    "collecting samples of a chain must fill the indices 0, 1, 2 in turn; drawing a sample must pick an index below the number of members."
)
ASSUMPTIONS = ["a checkpoint read from a directory is the one last written there (see P07)", "three members stand for any number"]
N = 3
FIELDS = ("params", "mutable", "calib_params", "calib_mutable", "step")


def canon(v):
    """(base symbol, {field: value}) of a state, whatever copies it went through."""
    v = strip(v)
    if v.k == "app" and head(v) == ".replace":
        b = v.a[1][0]
        base, fs = canon(b)
        fs = dict(fs)
        for n, x in v.a[2]:
            fs[n] = x
        return base, fs
    if v.k == "rec":
        fs = {n: strip(x) for n, x in v.a[1]}
        base = {x.a[0] for n, x in fs.items() if x.k == "attr" and x.a[1] == n}
        base = {strip(b) for b in base}
        if len(base) == 1:
            b = next(iter(base))
            return b, {n: x for n, x in fs.items() if not (x.k == "attr" and strip(x.a[0]) == b and x.a[1] == n)}
    return v, {}


def field(v, n):
    b, fs = canon(v)
    return strip(fs[n]) if n in fs else mk("attr", b, n)


def field_is(got, want):
    """want: (symbol, {field: term}); got: the term of a state."""
    for n in FIELDS:
        w = want[1].get(n, mk("attr", want[0], n))
        g = field(got, n)
        if g.k == "attr" and g.a[1] == n:
            g = mk("attr", strip(g.a[0]), n)
        if g != w:
            return n
    return None


def history(ctx, item):
    name, disk, first = item
    P = ctx.P
    R = P.cls(name)
    ops = [("put", 0), ("put", 1), ("put", 2), ("put", None), ("update", 0), ("update", 2), ("update", None)]
    depth = 2 if ctx.tier == "quick" else 3
    seqs = [first] if depth == 1 else [first + q for q in product(ops, repeat=depth - 1)]
    k0 = f"{name}:{'disk' if disk else 'memory'}"
    for seq in seqs:
        s = Scn(P)
        I = s.I
        store = {}
        counter = [0]

        def save(I, b, st, fr, node):
            store[tuple(path(b["save_checkpoint_dir"]))] = I.models.reify(I, b["state"], st, 8)
            return NONE

        def load(I, b, st, fr, node):
            p = tuple(path(b["restore_checkpoint_path"]))
            if p not in store:
                return app("nothing_saved", [b["restore_checkpoint_path"]])
            return store[p]

        def remove(I, args, kw, st, fr, node):
            x = args[0]
            if x.k == "app" and head(x) == "latest":
                store.pop(tuple(path(x.a[1][0])), None)
            return NONE

        for c in P.classes.values():
            for m, fn in (("save_checkpoint", save), ("restore_checkpoint", load), ("get_path_latest_checkpoint", lambda I, b, st, fr, node: app("latest", [b["checkpoint_dir"]]))):
                if m in c.methods:
                    I.stubs[c.methods[m].qual] = fn
        I.ext_stubs = {"os.remove": remove}
        kw = {"checkpoint_dir": const("DIR")} if disk else {}
        r = s.new(R, size=const(N), **kw)
        model = [None] * N
        for i in range(N):
            x = s.given(f"S{i}", P.cls("MAPState").qual)
            s.call(r, "put", state=x, i=const(i))
            model[i] = (x, {})
        w = R.qual
        tag = k0 + ":" + ",".join(f"{o}{'' if i is None else i}" for o, i in seq)
        try:
            for o, i in seq:
                counter[0] += 1
                kwi = {} if i is None else {"i": const(i)}
                tgt = range(N) if i is None else [i]
                if o == "put":
                    x = s.given(f"T{counter[0]}", P.cls("MAPState").qual)
                    s.call(r, "put", state=x, **kwi)
                    for j in tgt:
                        model[j] = (x, {})
                else:
                    c = s.sym(f"C{counter[0]}", None, "not")
                    s.call(r, "update", variables=I.new_dict([(const("mutable"), c)], s.st), **kwi)
                    for j in tgt:
                        model[j] = (model[j][0], dict(model[j][1], mutable=c))
        except Dead:
            ctx.ob(tag, False, w, "an operation never returns")
            continue
        base = s.st

        def read(m, **kw):
            s.st = base.fork()
            kept = dict(store)
            try:
                v = s.call(r, m, **kw)
                return I.models.reify(I, v, s.st, 8)
            except Dead:
                return None
            finally:
                s.st = base
                store.clear()
                store.update(kept)

        keys = I.new_list([const("params"), const("mutable")], s.st)
        base = s.st
        for m in ("get", "pull"):
            for j in range(N):
                v = read(m, i=const(j))
                bad = "it" if v is None else field_is(v, model[j])
                ctx.ob(f"{tag}:{m}:{j}", bad is None, w, f"`{m}({j})` gives {show(v, 3)[:90] if v is not None else 'nothing'}: {bad} is not that of member {j}")
            v = read(m)
            xs = listed(v)
            ctx.ob(f"{tag}:{m}:all", xs is not None and len(xs) == N and all(field_is(x, y) is None for x, y in zip(xs, model)), w, f"`{m}()` gives {show(v, 3)[:90] if v is not None else 'nothing'}, not all members in order")
        for j in range(N):
            v = read("extract", keys=keys, i=const(j))
            ctx.ob(f"{tag}:extract:{j}", extracted(v, model[j]), w, f"`extract` of member {j} gives {show(v, 4)[:90] if v is not None else 'nothing'}")
        v = read("extract", keys=keys)
        xs = listed(v)
        ctx.ob(f"{tag}:extract:all", xs is not None and len(xs) == N and all(extracted(x, y) for x, y in zip(xs, model)), w, f"`extract` of all members gives {show(v, 4)[:90] if v is not None else 'nothing'}")
        if R.lookup("extract_calib_keys")[1] is not None:
            pass
        if disk:
            want = {("DIR", str(i)) for i in range(N)}
            ctx.ob(f"{tag}:places", set(store) == want, w, f"members are kept in {sorted(sp(p) for p in store)}")
        ctx.absorb(s)


def listed(v):
    if v is None:
        return None
    if v.k == "tuple":
        return list(v.a[0])
    if v.k in ("rlist", "rtuple"):
        return list(v.a[0])
    return None


def extracted(v, want):
    if v is None:
        return False
    for n in ("params", "mutable"):
        w = want[1].get(n, mk("attr", want[0], n))
        g = lookup(v, n)
        if g is None:
            return False
        g = strip(g)
        if g.k == "attr" and g.a[1] == n:
            b, fs = canon(g.a[0])
            g = fs.get(n, mk("attr", b, n))
        if g != w:
            return False
    return True


def lookup(v, n):
    if v.k == "rmap":
        for k, x in v.a[0]:
            if k == n or k == const(n):
                return x
    return None


def callbacks(ctx, item):
    """samples of a chain fill the indices in turn, and only those."""
    name, kw, steps, at = item
    P = ctx.P
    c = P.cls(name)
    a = Api(P)
    s, I = a.s, a.s.I
    puts = []
    repo = s.sym("REPO", None, "not")
    step = [0]
    tr = s.sym("TRAINER", None, "not")
    names = {n for n, _, _, _ in a.ctor_params(c)}
    ov = {"trainer": tr, "state_repository": repo, "n_samples": const(N)}
    ov.update({k: const(v) for k, v in kw.items()})
    ctx.ob(f"{name}:options", set(ov) <= names, c.qual, "options of the sampling callback are missing") if not set(ov) <= names else None
    tag = f"{name}:{','.join(f'{k}={v}' for k, v in sorted(kw.items()))}"
    try:
        o = a.build(c, override={k: v for k, v in ov.items() if k in names})
    except Dead:
        ctx.ob(tag + ":built", at is None, c.qual, "a chain that yields enough samples is refused")
        ctx.absorb(s)
        return
    ctx.ob(tag + ":built", at is not None, c.qual, "a chain that cannot yield the configured number of samples is accepted")
    if at is None:
        ctx.absorb(s)
        return
    got = []
    for k in range(1, steps + 1):
        i0 = len(I.events)
        x = s.sym(f"X{k}", None, "not")
        try:
            r = s.call(o, "training_step_end", state=x)
        except Dead:
            ctx.ob(f"{tag}:{k}", False, c.qual, "the callback never returns")
            break
        ctx.ob(f"{tag}:{k}:returns", all(m == x for m in members(r)), c.qual, "the callback changes the state of the chain")
        for e in I.events[i0:]:
            if e.kind == "method" and str(e.name).rsplit(".", 1)[-1] == "put":
                q = dict(e.kw)
                st = q.get("state", e.args[0] if e.args else UNDEF)
                got.append((k, q.get("i", e.args[1] if len(e.args) > 1 else UNDEF)))
                ctx.ob(f"{tag}:{k}:state", {y.a[0] for y in sub(st) if y.k == "sym" and y.a[0].startswith("X")} == {f"X{k}"}, c.qual, "the sample stored is not the state of this step")
    ctx.ob(f"{tag}:indices", [i for _, i in got] == [const(i) for i in range(N)], c.qual, f"samples are stored under the indices {[show(i, 2) for _, i in got]}, not 0, 1, 2")
    ctx.ob(f"{tag}:steps", [k for k, _ in got] == at, c.qual, f"samples are taken after the steps {[k for k, _ in got]}, not {at}")
    ctx.absorb(s)


def ensemble(ctx, kw):
    """each run of an ensemble ends under its own index."""
    P = ctx.P
    r = FitRun(P, "deep_ensemble", "classifier", fit=False, **kw)
    s, I = r.s, r.s.I
    ap = s.attr(r.post, "posterior_approximator")
    I.store_attr(ap, "ensemble_size", const(N), s.st, s.fr, None)
    n = [0]

    def train(I, b, st, fr, node):
        n[0] += 1
        return tup([I.sym(f"TRAINED{n[0]}", P.cls("MAPState").qual, "not"), I.sym(f"STATUS{n[0]}", None, "not")])

    tr = P.cls("fortuna.training.trainer.TrainerABC")
    for c in P.classes.values():
        if tr in c.mro and "train" in c.methods:
            I.stubs[c.methods["train"].qual] = train
    tag = f"deep_ensemble:{','.join(f'{k}={v}' for k, v in sorted(kw.items())) or 'fit'}"
    from .fitscn import loader

    w = method_qual(class_of_obj(s, r.post), "fit")
    try:
        s.call(r.pm, "train", train_data_loader=loader(s, "train"), val_data_loader=loader(s, "val"), fit_config=r.cfg, calib_config=NONE)
    except Dead:
        ctx.ob(tag, False, w, "fitting never returns")
        return
    ctx.ob(f"{tag}:runs", n[0] == N, w, f"{n[0]} members are trained, {N} are configured")
    repo = s.attr(r.post, "state")
    ctx.ob(f"{tag}:size", s.attr(repo, "size") == const(N), w, "the size of the repository is not the configured number of members")
    seen = {}
    for h in r.multi_put_w.hits:
        i, st = h.bound.get("i", NONE), h.bound.get("state", NONE)
        src = {x for x in sub_syms(st) if x.startswith("TRAINED")}
        for x in src:
            seen.setdefault(x, []).append(i)
    for j in range(N):
        ctx.ob(f"{tag}:member:{j}", seen.get(f"TRAINED{j + 1}") == [const(j)], w, f"the state of run {j} is stored under {[show(i, 2) for i in seen.get(f'TRAINED{j + 1}', [])]}")
    ctx.absorb(s)


def chain_size(ctx, approx):
    P = ctx.P
    r = FitRun(P, approx, "classifier", fit=False)
    s, I = r.s, r.s.I
    ap = s.attr(r.post, "posterior_approximator")
    x = s.sym("NSAMPLES", None, "not")
    I.store_attr(ap, "n_samples", x, s.st, s.fr, None)
    from .fitscn import loader

    made = []
    w = method_qual(class_of_obj(s, r.post), "fit")
    cb = P.cls("SGMCMCSamplingCallback")
    for c in P.classes.values():
        if cb in c.mro and c is not cb and "__init__" in c.methods:

            def init(I, b, st, fr, node):
                made.append(dict(b))
                return NONE

            I.stubs[c.methods["__init__"].qual] = init
    try:
        s.call(r.pm, "train", train_data_loader=loader(s, "train"), val_data_loader=loader(s, "val"), fit_config=r.cfg, calib_config=NONE)
    except Dead:
        ctx.ob(f"{approx}:fit", False, w, "fitting never returns")
        return
    repo = s.attr(r.post, "state")
    ctx.ob(f"{approx}:size", s.attr(repo, "size") == x, w, "the size of the repository is not the configured number of samples")
    ctx.need(f"{approx}: sampling callbacks", len(made), 1)
    for b in made:
        ctx.ob(f"{approx}:callback:n_samples", b.get("n_samples") == x, w, "the number of samples to collect is not the configured one")
        ctx.ob(f"{approx}:callback:repository", b.get("state_repository") == repo, w, "samples are collected into another repository than the one that is kept")
    ctx.absorb(s)


def sampling(ctx, approx):
    """a draw reads one member, whose index is below the number of members."""
    P = ctx.P
    s, pm, post, ks, multi = posterior(P, approx)
    I = s.I
    ap = s.attr(post, "posterior_approximator")
    i0 = len(I.events)
    repo = s.attr(post, "state")
    reads = []
    R = P.cls(REPO[approx])
    d, f = R.lookup("get")

    def get(I, b, st, fr, node):
        reads.append(b.get("i", NONE))
        return app("member", [b.get("i", NONE)])

    I.stubs[f.qual] = get
    w = method_qual(class_of_obj(s, post), "sample")
    try:
        v = I.models.reify(I, s.call(post, "sample", s.sym("KEY", None, "not")), s.st, 8)
    except Dead:
        ctx.ob(f"{approx}:sample", False, w, "drawing never returns")
        return
    draws = {x for x in sub(v) if x.k == "app" and isinstance(head(x), str) and head(x).startswith("jax.random.")}
    idx = [x for x in draws if head(x).rsplit(".", 1)[-1] in ("choice", "randint")]
    ctx.ob(f"{approx}:draw", len(idx) == 1, w, f"{len(idx)} indices are drawn")
    for x in idx:
        args, kw = list(x.a[1]), dict(x.a[2])
        nm = head(x).rsplit(".", 1)[-1]
        if nm == "choice":
            hi = kw.get("a", args[1] if len(args) > 1 else UNDEF)
            ok = hi == const(N) or hi.k == "app" and str(head(hi)).rsplit(".", 1)[-1] in ("arange", "range") and [y for y in hi.a[1] if y != const(0)] == [const(N)]
            ok = ok and "p" not in kw and len(args) <= 4
        else:
            lo = kw.get("minval", args[2] if len(args) > 2 else UNDEF)
            hi = kw.get("maxval", args[3] if len(args) > 3 else UNDEF)
            ok = lo == const(0) and hi == const(N)
        ctx.ob(f"{approx}:range", ok, w, f"the index is drawn as {show(x, 4)[:100]}, not among the {N} members")
    if v.k == "rec":
        for n, y in v.a[1]:
            ms = {z for z in sub(y) if z.k == "app" and head(z) == "member"}
            at = {z.a[1][0] for z in ms if z.a[1][0] not in (const(0),)}
            ctx.ob(f"{approx}:field:{n}", bool(idx) and bool(set(sub(y)) & set(idx)), w, f"`{n}` of the sample is {show(y, 4)[:90]}, not that of the drawn member")
            ctx.ob(f"{approx}:own:{n}", {z.a[1] for z in sub(y) if z.k == "attr"} & {"params", "mutable", "calib_params", "calib_mutable"} <= {n}, w, f"`{n}` of the sample is {show(y, 4)[:90]}")
    ctx.absorb(s)


def run(ctx):
    P = ctx.P
    ops = [("put", 0), ("put", 1), ("put", 2), ("put", None), ("update", 0), ("update", 2), ("update", None)]
    base = P.cls("PosteriorMultiStateRepository")
    rs = [c for c in P.classes.values() if base in c.mro]
    ctx.need("repositories of several states", len(rs), 2)
    ctx.pmap(history, [(c.qual, d, (o,)) for c in rs for d in (False, True) for o in ops])
    sg = dict(n_epochs=4, n_training_steps=4)
    ctx.pmap(
        callbacks,
        [
            ("SGHMCSamplingCallback", dict(sg, n_thinning=1, burnin_length=0), 16, [1, 2, 3]),
            ("SGHMCSamplingCallback", dict(sg, n_thinning=2, burnin_length=3), 16, [5, 7, 9]),
            ("SGHMCSamplingCallback", dict(sg, n_thinning=3, burnin_length=7), 16, [10, 13, 16]),
            ("SGHMCSamplingCallback", dict(sg, n_thinning=3, burnin_length=8), 16, None),
            ("SGHMCSamplingCallback", dict(sg, n_thinning=1, burnin_length=13), 16, [14, 15, 16]),
            ("SGHMCSamplingCallback", dict(sg, n_thinning=1, burnin_length=14), 16, None),
            ("CyclicalSGLDSamplingCallback", dict(sg, n_thinning=1, cycle_length=4, exploration_ratio=0.5), 16, [2, 3, 6]),
            ("CyclicalSGLDSamplingCallback", dict(sg, n_thinning=2, cycle_length=8, exploration_ratio=0.5), 16, [4, 6, 12]),
            ("CyclicalSGLDSamplingCallback", dict(sg, n_thinning=1, cycle_length=8, exploration_ratio=0.75), 16, [6, 7, 14]),
            ("CyclicalSGLDSamplingCallback", dict(sg, n_thinning=7, cycle_length=8, exploration_ratio=0.75), 16, None),
        ],
    )
    ctx.pmap(ensemble, [{}, {"val": False}, {"freeze": False}, {"save_dir": False, "dump": False}])
    ctx.pmap(chain_size, ["sghmc", "cyclical_sgld"])
    ctx.pmap(sampling, ["deep_ensemble", "sghmc", "cyclical_sgld"])
