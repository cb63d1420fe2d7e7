"""P07: checkpoints are written where asked, hold every field, and are read back as the same kind of state."""
from ..harness import *
from .apiscn import *
from .common import *
from .calibscn import CalRun
from .fitscn import FitRun
from .p22 import built, text_of, whole
from .trainscn import TrainRun, all_trainers

EXPLANATION = (
    "The disk is modelled by the directories, as normalised path terms, that reach the checkpoint functions of flax. For every posterior, calibration model and output-calibration model, saving a state is evaluated "
    "and the pairs (directory, state written) are compared with those required; loading is evaluated and each later read must come from the directory its member was written to. During training the directories "
    "written to must be those that restoring reads from. Every state class is rebuilt from the dictionary of its fields, present or absent, with and without an optimizer, and each field must get its own entry."
)
ASSUMPTIONS = ["flax's checkpoint functions write the given target to, and read it from, the given directory", "flax stores a state as the dictionary of its fields, without `apply_fn` and `tx`"]
N = 3


def head(v):
    if v.k != "app":
        return None
    h = v.a[0]
    if isinstance(h, V):
        return h.a[0] if h.k == "ext" else "." + str(h.a[1]) if h.k == "attr" else None
    return h


def path(v):
    """components of a path, however it is spelled."""
    if v.k == "const":
        return tuple(p for p in str(v.a[0]).split("/") if p)
    if v.k == "app":
        h = head(v)
        s = h.rsplit(".", 1)[-1] if isinstance(h, str) else None
        if s in ("str", "Path", "PurePath", "PosixPath", "fspath", "expanduser", "resolve", "absolute", "abspath", "as_posix", "normpath") and (v.a[1] or h.startswith(".")):
            if h.startswith(".") and isinstance(v.a[0], V):
                return path(v.a[0].a[0])
            if s in ("Path", "PurePath", "PosixPath") and len(v.a[1]) > 1:
                return sum((path(x) for x in v.a[1]), ())
            return path(v.a[1][0])
        if s == "Div" and len(v.a[1]) == 2 or s == "join" and not h.startswith("."):
            return sum((path(x) for x in v.a[1]), ())
        if s == "joinpath":
            return sum((path(x) for x in v.a[1]), ())
        if s in ("Add", "fstr", "format") and v.a[1] and all(isinstance(x, V) for x in v.a[1]):
            ps = []
            for x in v.a[1]:
                ps += [c for c in path(x)]
            return tuple(ps)
    return (v,)


def sp(p):
    return "/".join(x if isinstance(x, str) else show(x, 3)[:60] for x in p)


def disk(I, ev, st, what):
    """[(paths, event)] of the checkpoint operations."""
    out = []
    for e in ev:
        if e.kind == "ext" and e.name.startswith("flax.") and e.name.endswith("." + what):
            kw = dict(e.kw)
            d = kw.get("ckpt_dir") or (e.args[0] if e.args else UNDEF)
            r = I.models.reify(I, d, st, 8)
            out.append(([path(x) for x in members(r)], e))
    return out


def target(I, e, st, depth=8):
    kw = dict(e.kw)
    t = kw.get("target") or (e.args[1] if len(e.args) > 1 else UNDEF)
    return I.models.reify(I, t, st, depth)


REPO = {"deep_ensemble": "PosteriorMultiStateRepository", "sghmc": "SGMCMCPosteriorStateRepository", "cyclical_sgld": "SGMCMCPosteriorStateRepository"}
APPROX = ("map", "advi", "laplace", "swag", "sngp", "deep_ensemble", "sghmc", "cyclical_sgld")
SIZE = ("ensemble_size", "n_samples")


def posterior(P, approx):
    s = Scn(P)
    I = s.I
    pm = prob_classifier(s, approx)
    post = s.attr(pm, "posterior")
    ap = s.attr(post, "posterior_approximator")
    for n in SIZE:
        I.store_attr(ap, n, const(N), s.st, s.fr, None)
    R = P.cls(REPO.get(approx, "PosteriorStateRepository"))
    multi = approx in REPO
    r = s.new(R, **({"size": const(N)} if multi else {}))
    ks = []
    for i in range(N if multi else 1):
        x = s.given(f"S{i}", P.cls("MAPState").qual)
        ks.append(x)
        s.call(r, "put", state=x, **({"i": const(i)} if multi else {}))
    I.store_attr(post, "state", r, s.st, s.fr, None)
    return s, pm, post, ks, multi


def strip(v):
    """the state behind copies of it."""
    while v.k == "app" and isinstance(head(v), str) and head(v).rsplit(".", 1)[-1] in ("deepcopy", "copy", "device_get"):
        v = v.a[1][0]
    return v


def same_state(t, want):
    ts = {strip(x) for x in members(t)}
    out = set()
    for x in ts:
        if x.k == "rec":
            fs = dict(x.a[1])
            if all((strip(y).k == "attr" and strip(y).a[1] == f and strip(strip(y).a[0]) == want) for f, y in fs.items() if f not in ("grad_accumulated", "encoded_name")):
                x = want
        out.add(x)
    return out == {want}


def save_load(ctx, item):
    approx, level = item
    P = ctx.P
    s, pm, post, ks, multi = posterior(P, approx)
    I = s.I
    obj = post if level == "posterior" else pm
    D = s.given("DIR")
    k = f"{approx}:{level}"
    i0 = len(I.events)
    try:
        s.call(obj, "save_state", D)
    except Dead:
        ctx.ob(f"{k}:save", False, "save_state", "saving the state of a fitted posterior never returns")
        return
    fobj = class_of_obj(s, post)
    w = method_qual(fobj, "save_state")
    wrote = {}
    for ps, e in disk(I, I.events[i0:], s.st, "save_checkpoint"):
        t = target(I, e, s.st)
        kw = dict(e.kw)
        for p in ps:
            wrote.setdefault(p, []).append(t)
        ctx.ob(f"{k}:save:overwrites", kw.get("overwrite") in (TRUE,), w, "saving must replace what is in the directory")
    root = path(D)
    want = {root + (str(i),): x for i, x in enumerate(ks)} if multi else {root: ks[0]}
    if approx in ("sghmc", "cyclical_sgld"):
        want[root + ("c",)] = ks[-1]
    for p, x in want.items():
        ctx.ob(f"{k}:save:{sp(p)}", p in wrote and all(same_state(t, x) for t in wrote[p]), w, f"{sp(p)} must hold {show(x, 2)}; it holds {[show(t, 3)[:80] for t in wrote.get(p, [])]}")
    for p in wrote:
        ctx.ob(f"{k}:save:only", p in want, w, f"the state is also written to {sp(p)}")
    # loading
    i0 = len(I.events)
    w = method_qual(fobj, "load_state")
    try:
        s.call(obj, "load_state", D)
    except Dead:
        ctx.ob(f"{k}:load", False, w, "loading a saved state never returns")
        return
    for ps, e in disk(I, I.events[i0:], s.st, "restore_checkpoint"):
        for p in ps:
            ctx.ob(f"{k}:load:reads", p in want, w, f"loading reads from {sp(p)}, where nothing is saved")
    repo = s.attr(post, "state")
    if multi:
        ctx.ob(f"{k}:load:size", s.attr(repo, "size") == const(N), w, "the loaded repository does not have the configured number of members")
    opt = s.sym("OPT", None, "not")
    for i in range(len(ks)):
        for o in (False, True):
            i0 = len(I.events)
            base = s.st
            s.st = base.fork()
            try:
                r = s.call(repo, "get", **({"i": const(i)} if multi else {}), **({"optimizer": opt} if o else {}))
                end = s.st
            except Dead:
                ctx.ob(f"{k}:get:{i}", False, w, "a loaded state cannot be read")
                continue
            finally:
                s.st = base
            got = {p for ps, e in disk(I, I.events[i0:], end, "restore_checkpoint") for p in ps}
            exp = root + (str(i),) if multi else root
            need = {exp}
            ctx.ob(f"{k}:get:{i}", got == need, w, f"after loading, {'member ' + str(i) if multi else 'the state'} must be read from {sp(exp)}; it is read from {[sp(p) for p in got]}")
            if o:
                rr = I.models.reify(I, r, end, 6)
                ctx.ob(f"{k}:get:{i}:optimizer", all(opt in set(sub(x)) for x in members(rr)), w, "a state read from a checkpoint must get the given optimizer")
    ctx.absorb(s)


def class_of_obj(s, v):
    for m in members(v):
        c = s.I.cls_of(m)
        if c is not None:
            return c


def method_qual(c, n):
    d, f = c.lookup(n)
    return f.qual if isinstance(f, FuncInfo) else c.qual


def fit_paths(ctx, approx):
    """training writes into the save directory, in the places that restoring reads from."""
    P = ctx.P
    sets = {}
    for name, kw in (("save", {}), ("restore", {"restore": True})):
        r = FitRun(P, approx, "classifier", **kw)
        ctx.absorb(r.s)
        I = r.s.I
        out = {"save_checkpoint": {}, "restore_checkpoint": {}}
        for what in out:
            for ps, e in disk(I, I.events[getattr(r, "ev0", 0):], r.s.st, what):
                for p in ps:
                    if p and isinstance(p[0], V):
                        out[what].setdefault((show(p[0], 3), p[1:]), e)
                    else:
                        ctx.ob(f"fit:{approx}:{what}:somewhere", False, where(e), f"{what} uses {sp(p)}, which no option names")
        sets[name] = out
    SAVE, REST = "$cfg.checkpointer.save_checkpoint_dir", "$cfg.checkpointer.restore_checkpoint_path"
    saved = {t for (r0, t) in sets["save"]["save_checkpoint"] if r0 == SAVE}
    ctx.ob(f"fit:{approx}:writes", bool(saved), approx, "training writes no checkpoint into the directory that is asked for")
    allowed = {SAVE, "$mcfg.checkpointer.save_checkpoint_dir"}
    for name in sets:
        for (r0, t), e in sets[name]["save_checkpoint"].items():
            ctx.ob(f"fit:{approx}:save in:{r0}", r0 in allowed, where(e), f"a checkpoint is written to {r0}, which is not the directory to save to")
        for (r0, t), e in sets[name]["restore_checkpoint"].items():
            if r0 == REST:
                ctx.ob(f"fit:{approx}:restore from:{sp(t)}", t in saved, where(e), f"restoring reads the sub-directory {sp(t)!r}, but training writes to {sorted(sp(x) for x in saved)}")
            elif r0 in allowed:
                ctx.ob(f"fit:{approx}:read back:{sp(t)}", t in {q for (r1, q) in sets[name]["save_checkpoint"] if r1 == r0}, where(e), f"{r0}/{sp(t)} is read back but never written")
            else:
                ctx.ob(f"fit:{approx}:restore in:{r0}", False, where(e), f"a checkpoint is read from {r0}, which is not the one to restore")
    ctx.ob(f"fit:{approx}:restores", any(r0 == REST for (r0, t) in sets["restore"]["restore_checkpoint"]), approx, "the checkpoint to restore is never read")


SKIP = {"apply_fn", "tx"}


def round_trip(ctx, c):
    P = ctx.P
    d, f = c.lookup("init_from_dict")
    if not isinstance(f, FuncInfo):
        ctx.ob(f"{c.name}:init_from_dict", False, c.qual, "the state cannot be rebuilt from a checkpoint")
        return
    fields = [x[0] for x in Api(P).s.I.P.classes[c.qual].all_fields()]
    for n in ("params", "opt_state", "step"):
        if n not in fields:
            fields.append(n)
    fields = [x for x in fields if x not in SKIP]
    always = ("params", "step", "encoded_name", "opt_state")
    opts = [n for n in fields if n not in always]
    for what, gone in [("present", ()), ("absent", tuple(opts))] + [(f"without {n}", (n,)) for n in opts] + [(f"only {n}", tuple(m for m in opts if m != n)) for n in opts]:
        for with_opt in (False, True) if len(gone) in (0, len(opts)) else (False,):
            a = Api(P)
            s = a.s
            I = s.I
            vals = {}
            for n in fields:
                vals[n] = NONE if n in gone else s.sym(f"d.{n}", None, "not")
            D = I.new_dict([(const(n), v) for n, v in vals.items()], s.st)
            opt = s.sym("OPT", None, "not")
            v, ev, end = a.run(lambda: s.call(mk("class", c.qual), "init_from_dict", D, opt if with_opt else NONE))
            ctx.absorb(s)
            tag = f"{c.name}:round trip:{what}:{'optimizer' if with_opt else 'none'}"
            if v is None:
                ctx.ob(tag, False, f.qual, "rebuilding the state never returns")
                continue
            r = I.models.reify(I, v, end, 8)
            for x in members(r):
                if x.k != "rec":
                    ctx.undec(tag, "result is not an explicit record")
                    continue
                ctx.ob(tag + ":kind", x.a[0] == c.qual, f.qual, f"the checkpoint of a {c.name} is rebuilt as a {x.a[0].rsplit('.', 1)[-1]}")
                fs = dict(x.a[1])
                for n in fields:
                    got = fs.get(n, UNDEF)
                    if got is UNDEF:
                        k = P.classes[c.qual]
                        ctx.ob(f"{tag}:{n}", n == "encoded_name", f.qual, f"`{n}` is not restored")
                        continue
                    want = vals[n]
                    if n == "opt_state" and with_opt:
                        ok = opt in set(sub(got)) or sub_syms(got) == {f"d.{n}"}
                    elif n == "encoded_name":
                        ok = sub_syms(got) <= {"d.encoded_name"}
                    elif want is NONE:
                        ok = all(y is NONE or empty(y) for y in members(got))
                    else:
                        ok = all(sub_syms(y) == {f"d.{n}"} for y in members(got))
                    ctx.ob(f"{tag}:{n}", ok, f.qual, f"`{n}` of the checkpoint is rebuilt as {show(got, 4)[:100]}")
                got = fs.get("tx", NONE)
                ctx.ob(tag + ":tx", got is (opt if with_opt else NONE), f.qual, f"the optimizer of the rebuilt state is {show(got, 3)[:80]}")


def empty(y):
    return y.k == "const" and not y.a[0] or not sub_syms(y) and y.k == "app"


def sub_syms(v):
    return {x.a[0] for x in sub(v) if x.k == "sym"}


def low_level(ctx, c):
    """save_checkpoint / restore_checkpoint as every class offers them."""
    P = ctx.P
    a = Api(P)
    s = a.s
    I = s.I
    I.one_device = True
    try:
        o = a.build(c)
    except Dead:
        return
    k = c.name
    d, f = c.lookup("save_checkpoint")
    for q in c.mro:
        if isinstance(q, ClassInfo) and "_update_state_with_stats" in q.methods:
            # running statistics of the training join the state
            I.stubs[q.methods["_update_state_with_stats"].qual] = lambda I, b, st, fr, node: next(v for n, v in b.items() if n != "self")
    S = P.cls("CalibState") if "calib_model" in c.qual and "output" not in c.qual else P.cls("OutputCalibState") if "output_calib" in c.qual else P.cls("MAPState")
    x = whole(a, S, "STATE")
    args = {"state": x, "save_checkpoint_dir": s.given("DIR"), "keep": s.sym("KEEP", None, "not"), "force_save": s.sym("FORCE", None, "not"), "prefix": s.sym("PREFIX", None, "not")}
    i0 = len(I.events)
    v, ev, end = a.run(lambda: s.call(o, "save_checkpoint", **args))
    ops = disk(I, ev, end, "save_checkpoint")
    ctx.ob(f"{k}:save_checkpoint", bool(ops), f.qual, "nothing is written")
    multi = "MultiDevice" in k
    for ps, e in ops:
        kw = dict(e.kw)
        ctx.ob(f"{k}:save_checkpoint:dir", all(p == path(args["save_checkpoint_dir"]) for p in ps), f.qual, f"the checkpoint is written to {[sp(p) for p in ps]}, not to the given directory")
        for p, q in (("keep", "keep"), ("prefix", "prefix"), ("overwrite", "force_save")):
            ctx.ob(f"{k}:save_checkpoint:step", numbered(kw.get("step", NONE), x), f.qual, f"the checkpoint is numbered by {show(kw.get('step', NONE), 4)[:80]}, not by the step of the state")
            ctx.ob(f"{k}:save_checkpoint:{p}", kw.get(p) == args[q], f.qual, f"`{q}` does not reach the checkpoint function as `{p}`")
        t = target(I, e, e_state(e, end))
        st = kw.get("step")
        for y in members(t):
            if y.k == "rec":
                ctx.ob(f"{k}:save_checkpoint:kind", y.a[0] == S.qual, f.qual, "another kind of state is written")
                for n, z in y.a[1]:
                    if n in SKIP or n == "grad_accumulated":
                        continue
                    ok = n in ("encoded_name", "_encoded_which_params") or all(sub_syms(m) == {f"STATE.{n}"} for m in members(z))
                    if n == "params" and not ok:
                        # frozen parameters are written next to the others
                        ok = "ADVI" in k or all(sub_syms(m) == {"STATE.params", "STATE.frozen_params"} for m in members(z))
                    if n == "frozen_params" and not ok:
                        ok = all(empty(m) for m in members(z)) and ("ADVI" in k or "STATE.frozen_params" in sub_syms(dict(y.a[1]).get("params", NONE)))
                    ctx.ob(f"{k}:save_checkpoint:{n}", ok, f.qual, f"`{n}` is written as {show(z, 4)[:80]}")
            else:
                ctx.ob(f"{k}:save_checkpoint:whole", any(z == x or z.k == "obj" for z in sub(y)) or "STATE" in show(y, 8), f.qual, f"the state is written as {show(y, 3)[:80]}")
    v, ev, end = a.run(lambda: s.call(o, "save_checkpoint", **dict(args, save_checkpoint_dir=NONE)))
    ctx.ob(f"{k}:save_checkpoint:none", not disk(I, ev, end, "save_checkpoint"), f.qual, "a checkpoint is written although no directory is given")
    d, f = c.lookup("restore_checkpoint")
    v, ev, end = a.run(lambda: s.call(o, "restore_checkpoint", s.given("PATH"), s.sym("OPT", None, "not"), s.sym("PREFIX", None, "not")))
    ops = disk(I, ev, end, "restore_checkpoint")
    ctx.ob(f"{k}:restore_checkpoint", bool(ops) and v is not None, f.qual, "nothing is read")
    for ps, e in ops:
        kw = dict(e.kw)
        ctx.ob(f"{k}:restore_checkpoint:dir", all(p == path(s.given("PATH")) for p in ps), f.qual, f"the checkpoint is read from {[sp(p) for p in ps]}, not from the given path")
        ctx.ob(f"{k}:restore_checkpoint:prefix", kw.get("prefix") == s.sym("PREFIX", None, "not"), f.qual, "the prefix does not reach the checkpoint function")
    if v is not None:
        r = I.models.reify(I, v, end, 8)
        for y in members(r):
            if y.k == "rec":
                tx = dict(y.a[1]).get("tx", NONE)
                ctx.ob(f"{k}:restore_checkpoint:optimizer", "OPT" in sub_syms(tx), f.qual, "the given optimizer does not reach the restored state")
            else:
                ctx.ob(f"{k}:restore_checkpoint:optimizer", "OPT" in sub_syms(y), f.qual, "the given optimizer does not reach the restored state")
    ctx.absorb(s)


def numbered(v, x):
    return "STATE.step" in sub_syms(v) or v.k == "attr" and v.a[1] == "step" and any(z == x or z.k == "obj" for z in sub(v))


def repository(ctx, c):
    """where a repository of one state reads, writes and removes."""
    P = ctx.P
    for d0 in (True, False):
        for p0 in (True, False):
            s = Scn(P)
            I = s.I
            removed = []
            I.ext_stubs = {"os.remove": lambda I, args, kw, st, fr, node: removed.append(args[0]) or NONE}
            r = s.new(c, **({"checkpoint_dir": const("dir")} if d0 else {}))
            kw = {"checkpoint_path": const("path")} if p0 else {}
            if not d0:
                s.call(r, "put", state=s.given("OLD", P.cls("MAPState").qual))
            exp = ("path",) if p0 else ("dir",) if d0 else None
            k = f"{c.name}:{'dir' if d0 else 'memory'}:{'path' if p0 else 'own'}"
            pre = s.sym("PREFIX", None, "not")
            keep = s.sym("KEEP", None, "not")
            state = s.given("NEW", P.cls("MAPState").qual)
            for m, args in (("put", dict(state=state, keep=keep)), ("get", {}), ("pull", {}), ("update", dict(variables=I.new_dict([], s.st), keep=keep)), ("extract", dict(keys=I.new_list([const("params")], s.st)))):
                w = method_qual(c, m)
                base = s.st
                s.st = base.fork()
                i0 = len(I.events)
                del removed[:]
                try:
                    v = s.call(r, m, prefix=pre, **args, **kw)
                    end = s.st
                except Dead:
                    ctx.ob(f"{k}:{m}", False, w, f"`{m}` never returns")
                    continue
                finally:
                    s.st = base
                for what in ("save_checkpoint", "restore_checkpoint"):
                    ops = disk(I, I.events[i0:], end, what)
                    due = exp is not None and (what == "save_checkpoint") == (m == "put") or exp is not None and m == "update"
                    ctx.ob(f"{k}:{m}:{what}", {p for ps, e in ops for p in ps} == ({exp} if due else set()), w, f"`{m}` uses {[sp(p) for ps, e in ops for p in ps]} for {what}")
                    for ps, e in ops:
                        ctx.ob(f"{k}:{m}:{what}:prefix", dict(e.kw).get("prefix") == pre, w, f"the prefix given to `{m}` is not used")
                        if what == "save_checkpoint":
                            ctx.ob(f"{k}:{m}:keep", dict(e.kw).get("keep") == keep, w, f"the number of checkpoints to keep given to `{m}` is not used")
                            ctx.ob(f"{k}:{m}:overwrite", dict(e.kw).get("overwrite") is TRUE, w, f"`{m}` does not replace what is there")
                gone = bool(removed)
                ctx.ob(f"{k}:{m}:remove", gone == (exp is not None and m in ("pull", "update")), w, f"`{m}` {'removes' if gone else 'does not remove'} the checkpoint")
                for x in removed:
                    ctx.ob(f"{k}:{m}:removed", const(exp[0]) in set(sub(x)) if exp else False, w, f"`{m}` removes {show(x, 3)[:80]}")
            ctx.absorb(s)


def e_state(e, end):
    return end


def calib_save_load(ctx, item):
    """calibration models and output-calibration models."""
    label, mkc, repo, state = item
    P = ctx.P
    s = Scn(P)
    I = s.I
    cls = P.cls(mkc)
    a = Api(P)
    s, I = a.s, a.s.I
    o = a.build(cls)
    x = s.given("S0", P.cls(state).qual)
    r = s.new(P.cls(repo))
    s.call(r, "put", state=x)
    holder = o
    try:
        holder = s.attr(o, "predictive")
    except Dead:
        pass
    if not any(m.k == "obj" for m in members(holder)):
        holder = o
    for h in {o, holder}:
        I.store_attr(h, "state", r, s.st, s.fr, None)
    D = s.given("DIR")
    k = cls.name
    i0 = len(I.events)
    w = method_qual(cls, "save_state")
    try:
        s.call(o, "save_state", D)
        ops = disk(I, I.events[i0:], s.st, "save_checkpoint")
        ctx.ob(f"{k}:save", bool(ops), w, "nothing is written")
        for ps, e in ops:
            ctx.ob(f"{k}:save:dir", all(p == path(D) for p in ps), w, f"the state is written to {[sp(p) for p in ps]}, not to the given directory")
            ctx.ob(f"{k}:save:state", same_state(target(I, e, s.st), x), w, f"{show(target(I, e, s.st), 3)[:80]} is written, not the state")
            ctx.ob(f"{k}:save:overwrites", dict(e.kw).get("overwrite") is TRUE, w, "saving must replace what is in the directory")
    except Dead:
        ctx.ob(f"{k}:save", False, w, "saving never returns")
    w = method_qual(cls, "load_state")
    i0 = len(I.events)
    try:
        s.call(o, "load_state", D)
        for ps, e in disk(I, I.events[i0:], s.st, "restore_checkpoint"):
            ctx.ob(f"{k}:load:dir", all(p == path(D) for p in ps), w, f"loading reads {[sp(p) for p in ps]}")
        st = s.attr(holder, "state")
        i0 = len(I.events)
        v = s.call(st, "get")
        got = {p for ps, e in disk(I, I.events[i0:], s.st, "restore_checkpoint") for p in ps}
        ctx.ob(f"{k}:load:read", got == {path(D)}, w, f"after loading, the state is read from {[sp(p) for p in got]}")
    except Dead:
        ctx.ob(f"{k}:load", False, w, "loading never returns")
    ctx.absorb(s)


def periodic(ctx, c):
    """states are saved after exactly those steps that are a multiple of the frequency."""
    P = ctx.P

    def saves(n, d=const("dir")):
        r = TrainRun(P, c, epochs=3, ncb=0, over={"save_checkpoint_dir": d, "save_every_n_steps": n})
        ctx.absorb(r.s)
        out, k, last = {}, 0, None
        for i, kind, b, v, cd in sorted(r.seq, key=lambda x: x[0]):
            if kind == "step":
                k, last = k + 1, v
            elif kind == "save":
                out.setdefault(k, []).append((b, last))
        return out, k, r

    b0, total, r = saves(NONE)
    w = r.f.qual
    ctx.need(f"{c.name}: steps", total, 3)
    for n in (0, 1, 2, 3, 4):
        got, t, r = saves(const(n))
        exp = {k for k in range(1, total + 1) if n and (k - (1 if r.fulls else 0)) % n == 0}
        for k in range(total + 1):
            g = len(got.get(k, [])) - len(b0.get(k, []))
            ctx.ob(f"{c.name}:every {n}:{k}", t == total and g == (k in exp), w, f"with a frequency of {n}, {g} states are saved after step {k} of {total}")
            for b, last in got.get(k, [])[: 1 if k in exp else 0]:
                now = {x for x in sub_syms(b.get("state", NONE)) if x.startswith("S") and x[1:].isdigit()}
                ctx.ob(f"{c.name}:every {n}:{k}:state", now == sub_syms(last), w, f"after step {k} the state saved is that of {sorted(now)}")
                ctx.ob(f"{c.name}:every {n}:{k}:dir", b.get("save_checkpoint_dir") == const("dir"), w, "a periodic save does not go to the configured directory")
    got, t, r = saves(const(1), NONE)
    for k, bs in got.items():
        ctx.ob(f"{c.name}:no directory:{k}", all(b.get("save_checkpoint_dir") is NONE for b, _ in bs), w, "a state is saved although no directory is given")


def dumped(ctx, approx):
    """the fitted state is left on disk exactly when asked."""
    P = ctx.P
    for dump in (True, False):
        if approx in ("sghmc", "cyclical_sgld"):
            continue  # chains always live in the directory when there is one
        r = FitRun(P, approx, "classifier", dump=dump)
        s, I = r.s, r.s.I
        ctx.absorb(s)
        k = f"{approx}:dump {dump}"
        w = approx
        try:
            repo = s.attr(r.post, "state")
            i0 = len(I.events)
            s.call(repo, "get", **({"i": const(0)} if approx in REPO else {}))
        except Dead:
            ctx.ob(k, False, w, "the fitted state cannot be read")
            continue
        got = {sp(p) for ps, e in disk(I, I.events[i0:], s.st, "restore_checkpoint") for p in ps}
        exp = {"$cfg.checkpointer.save_checkpoint_dir" + ("/0" if approx in REPO else "")} if dump else set()
        ctx.ob(k, got == exp, w, f"with dump_state={dump} the fitted state lives in {sorted(got) or 'memory'}")


def calib_dumped(ctx, item):
    api, kind = item
    P = ctx.P
    for dump in (True, False):
        r = CalRun(P, api, kind, dump=dump)
        s, I = r.s, r.s.I
        ctx.absorb(s)
        k = f"{api}:{kind}:dump {dump}"
        if api == "prob":
            n = len(r.save_w.hits)
            ctx.ob(k, (n > 0) == dump, api, f"with dump_state={dump} the state is saved {n} times after calibration")
            continue
        try:
            repo = s.attr(s.attr(r.model, "predictive"), "state")
            i0 = len(I.events)
            s.call(repo, "get")
        except Dead:
            ctx.ob(k, False, api, "the calibrated state cannot be read")
            continue
        got = {sp(p) for ps, e in disk(I, I.events[i0:], s.st, "restore_checkpoint") for p in ps}
        exp = {"$cfg.checkpointer.save_checkpoint_dir"} if dump else set()
        ctx.ob(k, got == exp, api, f"with dump_state={dump} the calibrated state lives in {sorted(got) or 'memory'}")


def refused(ctx, item):
    """dumping without a directory and saving without a state."""
    what, x, kind = item
    P = ctx.P
    if what == "fit":
        r = FitRun(P, x, kind, dump=True, save_dir=False)
        s, v = r.s, r.result
        n = len(r.train_w.hits)
        ctx.absorb(s)
        ctx.ob(f"{x}:{kind}:dump without directory", v is None and n == 0 and value_error(s.I.events), x, "training goes ahead although the state is to be dumped and there is no directory")
    elif what == "calib":
        r = CalRun(P, x, kind, dump=True, save_dir=False)
        ctx.absorb(r.s)
        ctx.ob(f"{x}:{kind}:dump without directory", len(r.train_w.hits) == 0 and value_error(r.s.I.events), x, "calibration goes ahead although the state is to be dumped and there is no directory")
    elif what == "save":
        s = Scn(P)
        pm = prob_classifier(s, x)
        post = s.attr(pm, "posterior")
        ctx.absorb(s)
        for o, n in ((post, "posterior"), (pm, "model")):
            i0 = len(s.I.events)
            base = s.st
            s.st = base.fork()
            try:
                s.call(o, "save_state", s.given("DIR"))
                ok = False
            except Dead:
                ok = True
            s.st = base
            ctx.ob(f"{x}:{n}:save without state", ok and value_error(s.I.events[i0:]), method_qual(class_of_obj(s, o), "save_state"), "saving before fitting is not refused with an error")
    else:
        a = Api(P)
        o = a.build(P.cls(x))
        s = a.s
        v, ev, end = a.run(lambda: s.call(o, "save_state", s.given("DIR")))
        ctx.absorb(s)
        ctx.ob(f"{x}:save without state", v is None and value_error(ev), method_qual(P.cls(x), "save_state"), "saving before calibration is not refused with an error")


def value_error(ev):
    rs = [e for e in ev if e.kind == "raise"]
    return bool(rs) and all("ValueError" in str(e.name) for e in rs[-1:])


def run(ctx):
    P = ctx.P
    ctx.pmap(periodic, all_trainers(P))
    ctx.pmap(dumped, list(APPROX))
    cal = [(x, k) for x in ("prob", "calib", "output") for k in ("classifier", "regressor")]
    ctx.pmap(calib_dumped, cal)
    models = ("CalibClassifier", "CalibRegressor", "OutputCalibClassifier", "OutputCalibRegressor")
    ctx.pmap(refused, [("fit", x, "classifier") for x in APPROX] + [("fit", "map", "regressor")] + [("calib",) + c for c in cal] + [("save", x, "") for x in APPROX] + [("saves", x, "") for x in models])
    ctx.pmap(save_load, [(x, l) for x in APPROX for l in ("posterior", "model")])
    ctx.pmap(fit_paths, list(APPROX))
    base = P.cls("TrainState")
    sts = [c for c in P.classes.values() if base in c.mro and c is not base and built(P, c)]
    ctx.need("state classes", len(sts), 6)
    ctx.pmap(round_trip, sts)
    rp = P.cls("TrainStateRepository")
    rs = [c for c in P.classes.values() if rp in c.mro]
    ctx.need("repositories of one state", len(rs), 3)
    ctx.pmap(repository, rs)
    ck = P.cls("fortuna.training.mixin.WithCheckpointingMixin")
    cs = [c for c in P.classes.values() if ck in c.mro and not is_abstract(c) and not c.name.endswith(("Mixin", "ABC")) and "transformers" not in c.qual]
    ctx.need("classes that write checkpoints", len(cs), 25)
    ctx.pmap(low_level, cs)
    ctx.pmap(calib_save_load, [("calib", c, "CalibStateRepository", "CalibState") for c in ("CalibClassifier", "CalibRegressor")] + [("output", c, "OutputCalibStateRepository", "OutputCalibState") for c in ("OutputCalibClassifier", "OutputCalibRegressor")])
