"""P14: gradients are synchronised, accumulated, clipped and applied once, in that order."""
from fractions import Fraction

from .algebra import *
from .trainscn import *

EXPLANATION = (
    "For every trainer class `training_step` is evaluated abstractly with an opaque loss, for every combination of clipping bound, accumulation count, dynamic scaling and freezing. "
    "The gradient that reaches the optimizer is reduced to an arithmetic normal form over the gradient of this step and the accumulated one, and compared with the one required: the average of the "
    "accumulated and the new gradients (averaged over devices), scaled by at most bound over the global norm of that very average; the guard of the accumulation is decided on all residues of the step counter."
)
ASSUMPTIONS = ["apply_gradients of the train state applies the given gradients once (flax)", "`DynamicScale.value_and_grad` averages over the given axis (flax)"]

GAS = 3
CLIP = 1.5


class Bad(Exception):
    pass


def head(v):
    if v.k != "app":
        return None
    h = v.a[0]
    if isinstance(h, V):
        return h.a[0] if h.k == "ext" else "." + str(h.a[1]) if h.k == "attr" else None
    return h


def short(v):
    h = head(v)
    return h.rsplit(".", 1)[-1] if isinstance(h, str) else None


def is_fin(c):
    """+1: the step is finite, -1: it is not; None: another condition."""
    n = short(c)
    if n == "is_finite":
        return 1
    if n in ("logical_not", "Not", "invert", "Invert", "bitwise_not"):
        r = is_fin(c.a[1][0])
        return -r if r else None
    return None


def choose(v, fin, memo):
    """resolve selections on whether the gradients are finite, and trivial tree maps."""
    if not isinstance(v, V):
        return v
    if v in memo:
        return memo[v]
    r = v
    if v.k not in ("const", "ext", "sym", "obj", "ref", "func", "undef"):
        def rb(x):
            if isinstance(x, V):
                return choose(x, fin, memo)
            if isinstance(x, (tuple, frozenset)):
                y = [rb(z) for z in x]
                return tuple(y) if isinstance(x, tuple) else frozenset(y)
            return x
        r = mk(v.k, *[rb(x) for x in v.a])
        if r.k == "phi":
            r = phi(list(r.a[0]))
        if r.k == "app":
            n = short(r)
            if n in ("where", "select") and len(r.a[1]) == 3 and is_fin(r.a[1][0]):
                r = r.a[1][1] if (is_fin(r.a[1][0]) > 0) == fin else r.a[1][2]
            elif n == "tree" and r.a[1][0].k == "leaf":
                r = r.a[1][0].a[0]
    memo[v] = r
    return r


class Grad:
    """normal form of (a leaf of) a gradient tree."""

    def __init__(self, case):
        self.case = case
        self.N = Norm(leaf=self.leaf, full_sums=False)

    def norm(self, v):
        return self.N.norm(v)

    def leaf(self, v, N):
        c = self.case
        if v.k == "leaf":
            return N.norm(v.a[0])
        if v.k == "sym" and v.a[0] == "ACC":
            return atom(("acc",))
        if v.k == "phi":
            ps = {key(N.norm(x)): N.norm(x) for x in v.a[0]}
            if len(ps) == 1:
                return next(iter(ps.values()))
            return None
        if v.k in ("elem", "item", "lane") and isinstance(v.a[0], V) and (short(v.a[0]) in ("tree_leaves", "leaves") or v.a[0].k == "item" and short(v.a[0].a[0]) in ("tree_flatten", "flatten")):
            x = v.a[0]
            return N.norm((x if x.k == "app" else x.a[0]).a[1][0])
        if v.k != "app":
            return None
        n = short(v)
        args = v.a[1]
        if n == "grad":
            if len(args) < 2 or args[1] != c.params:
                raise Bad("the gradient is not taken at the state's parameters")
            return atom(("g",))
        if n == "tree":
            return N.norm(args[0])
        if n == "zeros_like" or n in ("tree_map", "map") and args and args[0].k == "ext" and args[0].a[0].endswith("zeros_like"):
            return {}
        if n in ("asarray", "array", "device_put", "stop_gradient", "block_until_ready") and args:
            return N.norm(args[0])
        if n == "pmean":
            p = N.norm(args[0])
            if not set(a for m in p for a, e in m) <= {("g",), ("acc",), ("gd",), ("accd",)} | {a for m in p for a, e in m if a[0] == "clip"}:
                return None
            if any(a[0] == "clip" for m in p for a, e in m):
                raise Bad("the gradients are clipped before they are averaged over the devices")
            ren = {("g",): ("gd",), ("acc",): ("accd",)}
            return {tuple(sorted((ren.get(a, a), e) for a, e in m)): k for m, k in p.items()}
        gn = global_norm(self, v)
        if gn is not None:
            return atom(("norm", key(gn)))
        if n in ("minimum", "clip", "where", "select", "min"):
            f = self.factor(v, n, args, dict(v.a[2]) if len(v.a) > 2 else {})
            if f is not None:
                return f
        return None

    def factor(self, v, n, args, kw):
        """the clipping factor min(1, bound / norm)."""
        q = None
        if n in ("minimum", "min") and len(args) == 2:
            ps = [self.norm(x) for x in args]
            for p, o in (ps, ps[::-1]):
                if is_const(p) and cval(p) == 1:
                    q = o
        elif n == "clip" and args:
            r = list(args[1:]) + [kw[k] for k in ("a_min", "a_max", "min", "max") if k in kw]
            if r and r[-1].k == "const" and r[-1].a[0] in (1, 1.0):
                q = self.norm(args[0])
        elif n in ("where", "select") and len(args) == 3:
            cnd = args[0]
            op = short(cnd)
            ops = {"Lt": -1, "LtE": -1, "less": -1, "less_equal": -1, "Gt": 1, "GtE": 1, "greater": 1, "greater_equal": 1}
            if op in ops and len(cnd.a[1]) == 2:
                l, r = [self.norm(x) for x in cnd.a[1]]
                d = padd(l, r, -1)
                A, B = self.norm(args[1]), self.norm(args[2])
                one_first = is_const(A) and cval(A) == 1
                one = A if one_first else B
                q0 = B if one_first else A
                if is_const(one) and cval(one) == 1:
                    # holds: op(l, r); the factor must be one where the norm is below the bound
                    s = ops[op] if self.has_norm(l) else -ops[op] if self.has_norm(r) else 0
                    if s and (s < 0) == one_first:
                        q = q0
                    elif s:
                        raise Bad("the gradients are scaled when their norm is below the bound, not when it is above")
        if q is None:
            return None
        # q = bound / (norm + eps)
        inv = ppow(q, -1)
        m = {}
        for mo, c in inv.items():
            x = const_p(c)
            for a, e in mo:
                x = pmul(x, dict(a[1]) if isinstance(a, tuple) and a[0] == "poly" and e == 1 else atom(a, e))
            m = padd(m, x)
        eps = m.pop((), 0)
        if len(m) != 1:
            return None
        (mono, k), = m.items()
        if len(mono) != 1 or mono[0][0][0] != "norm" or mono[0][1] != 1:
            if any(a[0] == "norm" for a, e in mono if isinstance(a, tuple)):
                raise Bad("the gradients are not scaled by the ratio of the bound and their norm")
            return None
        if k != 1 / Fraction(str(CLIP)) or not 0 <= eps <= Fraction(1, 1000):
            raise Bad("the gradients are not scaled by the ratio of the bound and their norm")
        return atom(("clip", mono[0][0][1]))

    def has_norm(self, p):
        return any(isinstance(a, tuple) and a[0] == "norm" for m in p for a, e in m)


def global_norm(G, v):
    """the square of a leaf of the tree whose global norm v is, or None."""
    n = short(v)
    if n == "global_norm" and v.a[1]:
        return ppow(G.norm(v.a[1][0]), 2)
    if n == "sqrt" or n == "Pow" and len(v.a[1]) == 2 and v.a[1][1] == const(0.5):
        x = v.a[1][0]
        if short(x) == "reduce":
            carry, init, body, tree = x.a[1]
            if not (init.k == "const" and init.a[0] in (0, 0.0)):
                raise Bad("the norm does not start from zero")
            return squares(G, body, carry)
        if short(x) == "sum" and x.a[1]:
            y = x.a[1][0]
            return squares(G, y, None)
    return None


def squares(G, body, carry):
    """body = carry + sum(leaf ** 2): the leaf."""
    t = None
    if carry is not None:
        if short(body) not in ("Add", "add"):
            return None
        rest = [x for x in body.a[1] if x != carry]
        if len(rest) != 1:
            return None
        body = rest[0]
    while body.k in ("rsum", "rlist", "rtuple") or short(body) in ("rsum", "list", "array", "asarray", "stack", "comp", "rlist"):
        body = body.a[0] if body.k != "app" else body.a[1][0]
        if isinstance(body, tuple) and len(body) == 1:
            body = body[0]
        if not isinstance(body, V):
            return None
    if short(body) in ("sum", "vdot"):
        if short(body) == "vdot":
            a, b = [G.norm(x) for x in body.a[1][:2]]
            return pmul(a, b)
        a = body.a[1][0] if body.a[1] else body.a[0].a[0]
        p = G.norm(a)
        return p
    return None


class Case:
    def __init__(self, P, c, clip, gas, ds, acc, freeze, boundary):
        self.name = f"{c.name}:clip={clip}:steps={gas}:scale={ds}:{acc}:{'frozen' if freeze else 'all'}:{boundary}"
        self.boundary, self.gas, self.clip, self.ds, self.acc = boundary, gas, clip, ds, acc
        self.preds = []
        a = Api(P)
        s, I = a.s, a.s.I
        self.s = s
        I.one_device = True
        I.no_depth = True
        fam = family(P, c)
        over = {} if fam != "TrainerABC" else {"freeze_fun": s.sym("FREEZE", None, "not") if freeze else NONE}
        o = a.build(c, override=over)
        loss = lambda I, b, st, fr, nd: tup([app("LOSS", [b["params"]]), I.new_dict([(const("mutable"), app("MUT", [b["params"]])), (const("outputs"), NONE), (const("logging_kwargs"), NONE)], st)])
        self.where = None
        for k in c.mro:
            if isinstance(k, ClassInfo):
                if "training_loss_step" in k.methods:
                    I.stubs[k.methods["training_loss_step"].qual] = loss
                if "training_step" in k.methods:
                    self.where = k.methods["training_step"].qual
        I.ext_stubs = dict(getattr(I, "ext_stubs", None) or {})
        for n in ("jax.lax.cond",):
            I.ext_stubs[n] = self.cond
        for n in ("jax.tree_util.tree_reduce", "jax.tree_reduce", "jax.tree.reduce"):
            I.ext_stubs[n] = self.reduce
        qual = {"TrainerABC": "TrainState", "OutputCalibratorABC": "OutputCalibState", "OutputCalibModelCalibrator": "OutputCalibState"}[fam]
        x = s.given("STATE", P.cls(qual).qual)
        self.state = x
        if fam == "TrainerABC":
            I.store_attr(x, "dynamic_scale", s.sym("DS", None, "not") if ds else NONE, s.st, s.fr, None)
            if freeze:
                I.store_attr(x, "frozen_params", s.sym("FROZEN", None, "not"), s.st, s.fr, None)
            I.store_attr(x, "grad_accumulated", NONE if acc == "first" else s.sym("ACC", None, "not"), s.st, s.fr, None)
        self.params = mk("attr", x, "params")
        f = c.lookup("training_step")[1]
        self.f = f
        kw = {"state": x, "loss_fun": s.sym("lf", None, "not"), "rng": s.sym("rng", None, "not")}
        for p in params_of(f):
            n = p[0] if isinstance(p, tuple) else getattr(p, "arg", p)
            if n in kw:
                continue
            if n == "kwargs":
                kw[n] = I.new_dict([(const("max_grad_norm"), const(CLIP if clip else None)), (const("gradient_accumulation_steps"), const(gas))], s.st)
            elif n == "unravel":
                kw[n] = NONE
            else:
                kw[n] = s.sym(n, None, "not")
        self.v, self.ev, self.end = a.run(lambda: s.call(o, "training_step", **kw))
        self.I = I

    def cond(self, I, args, kw, st, fr, node):
        p, a, b = args[:3]
        self.preds.append(p)
        return I.call(a if self.boundary != "off" else b, list(args[3:]), [], st, fr, node)

    def reduce(self, I, args, kw, st, fr, node):
        f, t = args[:2]
        init = args[2] if len(args) > 2 else dict(kw).get("initializer", const(0))
        n = len(self.preds)
        carry = I.sym("<carry>", None, "not")
        body = I.call(f, [carry, mk("leaf", I.models.reify(I, t, st, 6))], [], st, fr, node)
        return app("reduce", (carry, init, body, t))


STEPS = range(4 * GAS)


def evaluate(v, state, x):
    """an integer expression of the step counter."""
    if v.k == "const":
        return v.a[0]
    if v.k == "attr" and v.a[0] == state and v.a[1] == "step":
        return x
    n = short(v)
    if n is None:
        raise Unknown(repr(v)[:80])
    a = [evaluate(y, state, x) for y in v.a[1]]
    two = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mult": lambda p, q: p * q, "Mod": lambda p, q: p % q, "FloorDiv": lambda p, q: p // q, "Eq": lambda p, q: p == q, "NotEq": lambda p, q: p != q,
           "Lt": lambda p, q: p < q, "LtE": lambda p, q: p <= q, "Gt": lambda p, q: p > q, "GtE": lambda p, q: p >= q}
    two.update({"add": two["Add"], "subtract": two["Sub"], "multiply": two["Mult"], "mod": two["Mod"], "remainder": two["Mod"], "rem": two["Mod"], "floor_divide": two["FloorDiv"], "equal": two["Eq"], "not_equal": two["NotEq"],
                "less": two["Lt"], "less_equal": two["LtE"], "greater": two["Gt"], "greater_equal": two["GtE"], "logical_and": lambda p, q: p and q, "logical_or": lambda p, q: p or q})
    one = {"Not": lambda p: not p, "logical_not": lambda p: not p, "USub": lambda p: -p, "neg": lambda p: -p, "asarray": lambda p: p, "int": int, "bool": bool, "squeeze": lambda p: p}
    if n in two and len(a) == 2:
        return two[n](*a)
    if n in one and len(a) == 1:
        return one[n](*a)
    raise Unknown(repr(v)[:80])


NAMES = {"g": "grad", "gd": "mean over devices of grad", "acc": "accumulated", "accd": "mean over devices of accumulated", "clip": "clip"}


def shw(p, N):
    return " + ".join((f"{c}*" if c != 1 else "") + "*".join(("clip[norm of root of " + shw(dict(a[1]), N) + "]" if a[0] == "clip" else None) or (NAMES.get(a[0]) or (repr(N.vals.get(a, a))[:60])) + ("" if e == 1 else f"^{e}") for a, e in m) for m, c in sorted(p.items(), key=repr)) or "0"


KNOWN = {"minimum", "maximum", "min", "max", "clip", "sqrt", "sum", "reduce", "square", "Pow", "Div", "Add", "Mult", "Sub", "grad", "leaf", "tree", "LOSS", "pmean", "mean", "abs", "where"}


def judged(p, N):
    """are all parts of the polynomial operations whose meaning is known?"""
    for m in p:
        for a, e in m:
            v = N.vals.get(a)
            if v is None:
                if a[0] == "poly" and not judged(dict(a[1]), N):
                    return False
                continue
            if any(x.k == "app" and short(x) not in KNOWN for x in sub(v)) or any(x.k in ("elem", "item") for x in sub(v)):
                return False
    return True


def rec_fields(v):
    return dict(v.a[1]) if v.k == "rec" else None


def judge_case(ctx, t):
    c, w = t.name, t.where
    s = t.s
    ctx.absorb(s)
    if t.v is None:
        ctx.ob(c, False, w, "the training step never returns")
        return
    I = t.I
    r = I.models.reify(I, t.v, t.end, 30)
    if r.k != "tuple" or len(r.a[0]) != 2:
        ctx.undec(c, "not a pair of a state and auxiliary values")
        return
    multi = "MultiDevice" in c.split(":")[0]
    for fin in (True, False) if t.ds else (True,):
        k = c + (f":{'finite' if fin else 'not finite'}" if t.ds else "")
        ns = [choose(x, fin, {}) for x in members(r.a[0][0])]
        for x in ns:
            F = rec_fields(x)
            if F is None:
                ctx.undec(k, "the new state is not an explicit record: " + repr(x)[:80])
                continue
            judge_state(ctx, t, k, F, fin, multi)
    if t.gas and t.gas > 1:
        if len(t.preds) != 1:
            if not t.preds:
                ctx.ob(c + ":guard", False, w, "the accumulated gradients are applied without looking at the number of steps")
            else:
                ctx.undec(c + ":guard", "several conditions")
        else:
            p = t.preds[0]
            p = I.models.reify(I, p, t.end, 12)
            try:
                got = [bool(evaluate(p, t.state, x)) for x in STEPS]
            except Unknown as e:
                ctx.undec(c + ":guard", str(e))
                return
            want = [(x + 1) % t.gas == 0 for x in STEPS]
            ctx.ob(c + ":guard", got == want, w, f"gradients must be applied every {t.gas} steps; they are applied after steps {[x + 1 for x in STEPS if got[x]]}")


def judge_state(ctx, t, k, F, fin, multi):
    w = t.where
    st = lambda n: mk("attr", t.state, n)
    P, O = F.get("params"), F.get("opt_state")
    P = st("params") if P is None else P
    O = st("opt_state") if O is None else O
    same = lambda v, n: v == st(n)
    G = Grad(t)
    sp = F.get("step")
    if sp is not None:
        try:
            ctx.ob(k + ":step", evaluate(sp, t.state, 5) == 6, w, "the step counter must advance by one in a training step; it becomes " + repr(sp)[:60])
        except Unknown as e:
            ctx.undec(k + ":step", str(e))
    acc = F.get("grad_accumulated")
    g = ("gd",) if multi and t.ds else ("g",)
    a0 = atom(("acc",)) if t.acc == "later" else {}
    total = padd(atom(g), a0) if fin else a0
    micro = bool(t.gas and t.gas > 1)
    try:
        if micro and t.boundary == "off":
            ctx.ob(k + ":params", same(P, "params") and same(O, "opt_state"), w, "between applications the parameters and the optimizer state must stay as they are")
            if acc is None:
                ctx.ob(k + ":accumulated", False, w, "the gradients of the step are not accumulated")
            else:
                p = G.norm(acc)
                ctx.ob(k + ":accumulated", key(p) == key(total), w, f"the accumulated gradients must become {shw(total, G.N)}; they become {shw(p, G.N)}")
            return
        if not fin:
            ctx.ob(k + ":params", same(P, "params"), w, "a step with non-finite gradients must leave the parameters as they are")
            ctx.ob(k + ":optimizer", same(O, "opt_state"), w, "a step with non-finite gradients must leave the optimizer state as it is")
            if micro:
                p = G.norm(acc) if acc is not None else a0
                ctx.ob(k + ":accumulated", not any(a[0] in ("g", "gd") for m in p for a, e in m), w, "non-finite gradients must not be accumulated")
            return
        hp, ho = short(P), short(O)
        if hp != "apply_gradients" or ho != "opt_update":
            ctx.ob(k + ":apply", False, w, "the gradients do not reach " + ("the parameters" if hp != "apply_gradients" else "the optimizer state"))
            return
        ctx.ob(k + ":apply", P.a[1][0] == st("params") and P.a[1][2] == st("opt_state") and O.a[1][0] == st("opt_state"), w, "the gradients must be applied once, to the parameters and the optimizer state of the given state")
        want = padd({}, total, Fraction(1, t.gas)) if micro else atom(g)
        if multi:
            want = {tuple(sorted(({("g",): ("gd",), ("acc",): ("accd",)}.get(a, a), e) for a, e in m)): x for m, x in want.items()}
            if t.ds:
                want = {tuple(sorted((("acc",) if a == ("accd",) else a, e) for a, e in m)): x for m, x in want.items()}
        for which, v in (("params", P.a[1][1]), ("optimizer", O.a[1][1])):
            p = G.norm(v)
            full = pmul(want, atom(("clip", key(ppow(want, 2))))) if t.clip else want
            ok = key(p) == key(full)
            if not ok and t.clip and not judged(p, G.N):
                ctx.undec(f"{k}:gradient:{which}", "a factor that is not understood: " + shw(p, G.N)[:200])
                continue
            ctx.ob(f"{k}:gradient:{which}", ok, w, f"the gradients given to the optimizer must be {shw(full, G.N)}; they are {shw(p, G.N)}")
        if micro:
            p = G.norm(acc) if acc is not None else a0
            ctx.ob(k + ":reset", not p and acc is not None, w, "after an application the accumulated gradients must start from zero again; they are " + shw(p, G.N))
        if "mutable" in F or any(True for _ in ()):
            m = F.get("mutable")
            ctx.ob(k + ":mutable", m is not None and short(m) == "MUT" or short(choose(m, fin, {})) == "pmean", w, "the state must carry the mutable objects of this step")
    except Bad as e:
        ctx.ob(k + ":gradient", False, w, str(e))
    except Unknown as e:
        ctx.undec(k, str(e))


def one(ctx, item):
    c, cfgs = item
    for cfg in cfgs:
        judge_case(ctx, Case(ctx.P, c, *cfg))


def configs(fam, thorough):
    if fam != "TrainerABC":
        return [(False, None, False, "later", False, "on")]
    out = []
    for clip in (False, True):
        for ds in (False, True):
            for freeze in (False, True):
                out.append((clip, None, ds, "later", freeze, "on"))
                if freeze and not thorough:
                    continue
                for acc in ("first", "later"):
                    for b in ("on", "off"):
                        out.append((clip, GAS, ds, acc, freeze, b))
                out.append((clip, 1, ds, "later", freeze, "on"))
    return out


def run(ctx):
    items = []
    for c in all_trainers(ctx.P):
        items.append((c, configs(family(ctx.P, c), ctx.tier == "thorough")))
    ctx.need("trainer classes", len(items), 15)
    ctx.pmap(one, items)
    ctx.pmap(flow, [c for c, _ in items if family(ctx.P, c) == "TrainerABC"])
    state_fields(ctx)
    ctx.notes.append(f"{sum(len(x) for _, x in items)} configurations")


def flow(ctx, c):
    """the clipping bound and the accumulation count given to train reach every training step."""
    r = TrainRun(ctx.P, c, ncb=0, nval=1, gas=2, kwargs={"max_grad_norm": const(CLIP)})
    ctx.absorb(r.s)
    n = 0
    for e in r.seq:
        if e[1] != "step":
            continue
        n += 1
        kw = r.s.I.models.reify(r.s.I, e[2]["kwargs"], r.end, 6)
        got = {}
        for x in members(kw):
            for y in sub(x):
                if y.k == "rmap":
                    got.update({k.a[0] if isinstance(k, V) else k: v for k, v in y.a[0]})
        for name, want in (("max_grad_norm", const(CLIP)), ("gradient_accumulation_steps", const(2))):
            ctx.ob(f"{c.name}:{name}:step {n}", got.get(name) == want, r.f.qual, f"`{name}` given to train does not reach the training step; it gets {got.get(name)}")
    ctx.need(f"training steps of {c.name}", n, 2)


def state_fields(ctx):
    base, out = ctx.P.cls("TrainState"), ctx.P.cls("OutputCalibState")
    n = 0
    for c in ctx.P.classes.values():
        if base in c.mro and c is not base and out not in c.mro:
            n += 1
            d = {f[0]: f for f in c.all_fields()}
            ctx.ob(f"{c.name}:grad_accumulated", "grad_accumulated" in d, c.qual, "the state has no place for the accumulated gradients, so that training with `gradient_accumulation_steps` fails")
    ctx.need("state classes", n, 3)
