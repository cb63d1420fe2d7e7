"""P22: every name offered in a registry or option list has an implementation behind it."""
import ast

from .apiscn import *
from .sweep import class_of, is_prop, receivers

EXPLANATION = (
    "Every enumeration of the package is read as a table of names and classes. A registry of states must map each name to the state class whose stored name it is, and hold every state class that the library builds; "
    "a registry used by approximation name must have an entry for each posterior approximator, whose class gives itself the same name and accepts that approximator. States converted from other states must store their own "
    "name, and every state class must be readable by the repository that writes it. For each argument that the library compares with a list of words, the accepted words are enumerated and each must lead to a value of its own."
)
ASSUMPTIONS = ["names of state classes are stored in the checkpoints as `encoded_name`"]


def words(v):
    return {x.a[0] for x in sub(v) if x.k == "const" and isinstance(x.a[0], str)} if v is not None else set()


def text_of(I, v, st):
    """the string a value spells, if it is a known one."""
    r = I.models.reify(I, v, st, 6)
    w = words(r)
    return next(iter(w)) if len(w) == 1 else None


def is_enum(c):
    return any(b == "enum.Enum" for b in c.ext_bases())


def class_of_value(P, v):
    return P.classes.get(v.a[0]) if v.k == "class" else None


def registries(ctx):
    P = ctx.P
    a = Api(P)
    s, I = a.s, a.s.I
    ctx.absorb(s)
    base = P.cls("TrainState")
    apx = P.cls("PosteriorApproximator")
    states = [c for c in P.classes.values() if base in c.mro]
    names = {}
    for c in states:
        names[c] = text_of(I, s.attr(mk("class", c.qual), "encoded_name"), s.st)
    approx = {}
    for c in P.classes.values():
        if apx in c.mro and c is not apx:
            o = a.build(c)
            v, ev, end = a.run(lambda: s.call(o, "__str__"))
            n = text_of(I, v, end) if v is not None else None
            if n is None and any(c in k.mro and k is not c for k in P.classes.values()):
                continue  # a base class
            if n is None:
                ctx.undec(f"name:{c.name}", "the name of the approximation is not a constant")
                continue
            ctx.ob(f"name:{c.name}", n not in approx, c.qual, f"{c.name} and {approx.get(n)} both call themselves {n!r}")
            approx[n] = c
    ctx.need("posterior approximators", len(approx), 8)
    n_enum = 0
    for e in P.classes.values():
        if not is_enum(e):
            continue
        n_enum += 1
        vals = {}
        for n in e.attrs:
            v = s.attr(mk("enum", e.qual, n), "value")
            vals[n] = v
            ctx.ob(f"{e.name}.{n}:value", v is not None and v is not NONE and v.k not in ("missing", "undef"), e.qual, f"{e.name}.{n} leads nowhere")
        cl = {n: class_of_value(P, v) for n, v in vals.items()}
        if cl and all(c is not None and base in c.mro for c in cl.values()):
            for n, c in cl.items():
                ctx.ob(f"{e.name}.{n}:same name", names[c] == n, e.qual, f"{e.name} maps {n!r} to {c.name}, whose checkpoints say {names[c]!r}")
            root = next((c for c in cl.values() if all(c in d.mro or d.mro[0] is d for d in cl.values())), None)
            ps = P.cls("PosteriorState")
            if ps in cl.values():
                for c in states:
                    if ps in c.mro and built(P, c):
                        ctx.ob(f"{e.name}:holds {c.name}", names[c] in cl and cl[names[c]] is c, e.qual, f"checkpoints of {c.name} say {names[c]!r}, which {e.name} maps to {cl[names[c]].name if names[c] in cl else 'nothing'}")
        elif cl and (set(vals) & set(approx)):
            for n, c in approx.items():
                ctx.ob(f"{e.name}:{n}", n in vals, e.qual, f"{e.name} has no entry for the approximation {n!r}")
            for n in vals:
                ctx.ob(f"{e.name}.{n}:offered", n in approx, e.qual, f"{e.name} has an entry {n!r}, the name of no approximator")
            for n, c in cl.items():
                if c is None or n not in approx:
                    continue
                d, f = c.lookup("__str__")
                if isinstance(f, FuncInfo) and P.cls("Posterior") in c.mro:
                    o = a.build(c, override={"posterior_approximator": s.given("apx", approx[n].qual)})
                    v, ev, end = a.run(lambda: s.call(o, "__str__"))
                    w = text_of(I, v, end) if v is not None else None
                    ctx.ob(f"{e.name}.{n}:own name", w is None or w == n, e.qual, f"{e.name} maps {n!r} to {c.name}, which calls itself {w!r}")
                    for q, dflt, ann, m in a.ctor_params(c):
                        if q == "posterior_approximator" and ann is not None:
                            t, _ = I.ann_class(ann, m)
                            ctx.ob(f"{e.name}.{n}:accepts", t is None or t in approx[n].mro, c.qual, f"{c.name} is made for {t.name if t else ''}, but is what {e.name} offers for {approx[n].name}")
    ctx.need("enumerations", n_enum, 4)
    # the posterior that approximations of a kind lead to differ
    for e in P.classes.values():
        if is_enum(e):
            cl = [v.a[0] for v in (s.attr(mk("enum", e.qual, n), "value") for n in e.attrs) if v.k == "class"]
            if cl and all(P.cls("Posterior") in P.classes[q].mro for q in cl if q in P.classes):
                ctx.ob(f"{e.name}:distinct", len(set(cl)) == len(cl), e.qual, "two approximations lead to the same posterior")
    return names


_built = {}


def built(P, c):
    """is the class mentioned as something to be called (or whose class methods are called) outside its own body?"""
    if P not in _built:
        out = set()
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Attribute):
                        f = f.value
                    if isinstance(f, ast.Name):
                        out.add((m.name, f.id))
        _built[P] = out
    return any(x == c.name for _, x in _built[P])


def conversions(ctx, names):
    """a state made by a class method of a state class stores the name of that class."""
    P = ctx.P
    base = P.cls("TrainState")
    n = 0
    for c in names:
        if names[c] is None or c is base or not built(P, c):
            continue
        for m in {m for k in c.mro if isinstance(k, ClassInfo) for m in k.methods}:
            d, f = c.lookup(m)
            if not isinstance(f, FuncInfo) or not {"classmethod", "staticmethod"} & deco_names(f):
                continue
            a = Api(P)
            s = a.s
            kw = {}
            for p, dflt, ann, _ in params_of(f, drop_self="classmethod" in deco_names(f)):
                if not dflt:
                    t = s.I.ann_class(ann, f.mod)[0] if ann is not None else None
                    kw[p] = whole(a, t, "arg." + p) if t is not None and base in t.mro else a.sym_for(p, ann, f.mod, "arg." + p)
            v, ev, end = a.run(lambda: s.call(mk("class", c.qual), m, **kw))
            ctx.absorb(s)
            if v is None:
                continue
            r = s.I.models.reify(s.I, v, end, 5)
            for x in members(r):
                if x.k != "rec":
                    continue
                k = P.classes.get(x.a[0])
                if k is None or base not in k.mro or names.get(k) is None:
                    continue
                fs = dict(x.a[1])
                en = fs.get("encoded_name")
                n += 1
                if en is None:
                    continue
                ok = text_of(s.I, en, end) == names[k] or from_dict(en)
                ctx.ob(f"{c.name}.{m}:encoded name of {k.name}", ok, f.qual, f"the {k.name} made by {c.name}.{m} stores the name {show(en, 3)[:80]}, not its own")
    ctx.need("state conversions", n, 8)


def whole(a, t, label):
    """a state of class t with every field known by name."""
    s = a.s
    fs = {f[0]: s.sym(f"{label}.{f[0]}", None, "not") for f in t.all_fields()}
    for n in ("apply_fn", "tx", "params", "opt_state", "step"):
        fs.setdefault(n, s.sym(f"{label}.{n}", None, "not"))
    fs["encoded_name"] = s.attr(mk("class", t.qual), "encoded_name")
    return s.I.new_obj(t, s.st, fields=fs)


def from_dict(v):
    """read from the dictionary of a checkpoint, which holds the name of the state it was made of."""
    return any(x.k == "sym" and str(x.a[0]) in ("arg.d",) for x in sub(v))


def option_sites(P):
    """{parameter name: words it is compared with} over all functions."""
    out = {}
    for f in P.functions.values():
        ps = {p for p, _, _, _ in params_of(f, drop_self=False)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and n.left.id in ps:
                r = n.comparators[0]
                ws = set()
                if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and isinstance(r.value, str):
                    ws = {r.value}
                elif isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    if isinstance(r, ast.Name):
                        d = [x.value for x in list(ast.walk(f.node)) + f.mod.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in x.targets)]
                        r = d[0] if d else r
                    if not isinstance(r, (ast.List, ast.Tuple, ast.Set)):
                        continue
                    ws = {x.value for x in r.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                if ws:
                    out.setdefault((f, n.left.id), set()).update(ws)
    return out



def concrete(P, c):
    return [k for k in P.classes.values() if c in k.mro and not is_abstract(k) and not k.name.endswith(("Mixin", "ABC"))]


def make(ctx, c):
    """a receiver of the class as a user has it in hand: part of a fitted model when there is one."""
    for r in receivers(ctx.P):
        if r.cls is not None or r.func is not None or r.fitted is None:
            continue
        a = Api(ctx.P)
        try:
            o = r.build(a)
            if class_of(a.s, o) is not c:
                continue
            r.fitted(a, o)
            return a, o
        except Dead:
            continue
    a = Api(ctx.P)
    return a, a.build(c)


def option(ctx, item):
    c, fname, p, ws = item
    P = ctx.P
    f = c.lookup(fname)[1]
    got = {}
    try:
        a, o = make(ctx, c)
    except Dead:
        return
    a.s.I.no_depth = True
    v0, _, _ = a.call(fname, f, recv=o)
    if v0 is None:
        ctx.notes.append(f"{c.name}.{fname}: not reached")
        return
    for w in ws:
        v, ev, end = a.call(fname, f, override={p: const(w)}, recv=o)
        if v is None and any(e.kind == "raise" and e.name.endswith("NotImplementedError") for e in ev):
            continue  # refused by name
        k = f"{c.name}.{fname}:{p}={w}"
        ctx.ob(k, v is not None, f.qual, f"`{p}={w!r}` is one of the accepted values, but leads to no result")
        if v is not None:
            got[w] = a.s.I.models.reify(a.s.I, v, end, 12)
    ctx.absorb(a.s)
    ks = sorted(got)
    for i, x in enumerate(ks):
        for y in ks[i + 1:]:
            if got[x] is NONE and got[y] is NONE:
                continue
            ctx.ob(f"{c.name}.{fname}:{p}:{x}/{y}", got[x] != got[y], f.qual, f"`{p}={x!r}` and `{p}={y!r}` lead to the same result {show(got[x], 3)[:80]}")


def run(ctx):
    names = registries(ctx)
    conversions(ctx, names)
    items = []
    for (f, p), ws in option_sites(ctx.P).items():
        if f.cls is None or f.mod.name.endswith(".plot") or is_prop(f):
            continue
        for c in concrete(ctx.P, f.cls):
            if c.lookup(f.name)[1] is f:
                items.append((c, f.name, p, sorted(ws)))
    ctx.need("option arguments", len(items), 6)
    ctx.pmap(option, items)
