"""P06: every internal call fits its callee; every name and attribute exists."""
import builtins
import symtable

from .sweep import *

EXPLANATION = (
    "Every public operation of every concrete class (all arguments given / optional ones omitted), whole training and calibration runs "
    "for the 8 posterior approximations, and predictions after them are interpreted abstractly; each internal call is bound against the "
    "callee's signature, each name, attribute, subscript of known containers and unpacking is resolved on its path. A definite failure on a "
    "feasible path is a violation. Additionally every function of the package is checked for names bound nowhere, intra-package imports of "
    "missing names and calls of package functions with impossible arguments, reached or not."
)
ASSUMPTIONS = [
    "third-party calls are opaque and accept any argument",
    "attributes set dynamically by inspect.getmembers (AdaptiveConformalRegressor) are assumed to exist",
    "values of unknown type have every attribute",
]
KINDS = ERR - {"null_deref"}
EXEMPT_FN = {"fortuna.conformal.regression.adaptive_conformal_regressor.AdaptiveConformalRegressor.update_error"}


def dynamic(P, q):
    """does the class that defines function q set attributes dynamically?"""
    f = P.functions.get(q)
    if f is None or f.cls is None:
        return False
    for k in f.cls.mro:
        if isinstance(k, ClassInfo):
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" or isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.ctx, ast.Store):
                        return True
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__":
                        return True
    return False


def run_receiver(ctx, arg):
    r, stage = arg
    P = ctx.P
    last = [None]

    def on_call(a, r, n, v, f, val, ev, end):
        last[0] = a
        bad = [e for e in ev if e.kind in KINDS and not (e.kind == "attr_error" and dynamic(P, e.site[1]))]
        key = f"call:{r.label}{'(fitted)' if stage == 'fitted' else ''}.{n}[{v}]"
        if not bad:
            ctx.ob(key, True, f.qual if f is not None else r.label)
        for e in bad:
            ctx.ob(f"{e.kind}:{e.site[1]}:{esig(e)[1]}", False, where(e), f"{e.kind} {e.name} when calling {r.label}.{n} ({v}); path {e.chain()}")

    sweep_one(P, r, on_call, stage=stage, modes=("full", "min") if r.cls else ("full",), pick=None, only=None)
    if last[0] is not None:
        ctx.absorb(last[0].s)


def fit_runs(ctx, arg):
    kind, kw = arg
    if kind == "fit":
        r = FitRun(ctx.P, **kw)
        lab = "train " + ",".join(f"{k}={v}" for k, v in kw.items())
    else:
        r = CalRun(ctx.P, **kw)
        lab = "calibrate " + ",".join(f"{k}={v}" for k, v in kw.items())
    ctx.absorb(r.s)
    bad = [e for e in r.s.I.events if e.kind in ERR]
    if not bad:
        ctx.ob("run:" + lab, True, lab)
    for e in bad:
        ctx.ob(f"{e.kind}:{e.site[1]}:{esig(e)[1]}", False, where(e), f"{e.kind} {e.name} during {lab}; path {e.chain()}")


def names_lint(ctx):
    P = ctx.P
    bi = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__spec__", "__path__", "__class__"}
    n = 0
    for m in P.modules.values():
        if m.tree is None:
            continue
        top = symtable.symtable((m.src if hasattr(m,"src") else open(m.path).read()), m.relpath, "exec")
        star = any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names) for x in ast.walk(m.tree))
        modnames = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        # a function declaring `global x` and assigning it defines x
        dynamic_ns = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("vars", "globals", "exec") for x in ast.walk(m.tree))
        tabs = [top]
        postponed = any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and any(a.name == "annotations" for a in x.names) for x in m.tree.body)
        ann_only = annotation_names(m.tree) if postponed else set()
        while tabs:
            t = tabs.pop()
            tabs += t.get_children()
            for s in t.get_symbols():
                if s.is_global() and s.is_assigned():
                    modnames.add(s.get_name())
        tabs = [top]
        while tabs:
            t = tabs.pop()
            tabs += t.get_children()
            miss = []
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                nm = s.get_name()
                if t is top or s.is_global():
                    n += 1
                    if nm not in modnames and nm not in bi and not star and not dynamic_ns and nm not in ann_only:
                        miss.append(nm)
            key = f"names:{m.name}:{t.get_name() if t is not top else '<module>'}"
            if not miss:
                ctx.ob(key, True, m.relpath)
            for nm in miss:
                ctx.ob(f"undefined:{m.name}:{t.get_name()}:{nm}", False, f"{m.relpath} in {t.get_name()}", f"name {nm} is bound nowhere")
    ctx.notes.append(f"global name uses checked: {n}")
    ctx.need("global name uses", n, 500)


def annotation_names(tree):
    """names that occur only inside annotations."""
    inside, outside = set(), set()

    def visit(n, ann):
        if isinstance(n, ast.Name):
            (inside if ann else outside).add(n.id)
        for f, v in ast.iter_fields(n):
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    visit(x, ann or f in ("annotation", "returns"))

    visit(tree, False)
    return inside - outside


def imports_lint(ctx):
    P = ctx.P
    n = 0
    for m in P.modules.values():
        bad = []
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and x.module and x.level == 0 and x.module.split(".")[0] == P.pkg:
                for a in x.names:
                    n += 1
                    if a.name == "*":
                        continue
                    if x.module not in P.modules:
                        bad.append((x.lineno, x.module))
                    elif P.resolve_global(P.modules[x.module], a.name) is None and f"{x.module}.{a.name}" not in P.modules:
                        src = open(P.modules[x.module].path).read()
                        if "vars()" in src or "globals()" in src:
                            continue
                        bad.append((x.lineno, f"{x.module}.{a.name}"))
        ctx.ob(f"imports:{m.name}", not bad, f"{m.relpath}:{bad[0][0] if bad else 0}", f"imports missing {bad}")
    ctx.need("package imports", n, 300)


FMT = __import__("string").Formatter()


def format_lint(ctx):
    """'...{}...'.format(a, b) with constant template: enough arguments."""
    P = ctx.P
    n = 0
    for m in P.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format" and isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                n += 1
                try:
                    fields = [f for _, f, _, _ in FMT.parse(x.func.value.value) if f is not None]
                except ValueError as e:
                    ctx.ob(f"format:{m.name}:{x.func.value.value[:40]}", False, f"{m.relpath}:{x.lineno}", str(e))
                    continue
                auto = sum(1 for f in fields if f == "" or f[0] in ".[!")
                idx = [int(f.split(".")[0].split("[")[0]) for f in fields if f and f.split(".")[0].split("[")[0].isdigit()]
                names = {f.split(".")[0].split("[")[0] for f in fields if f and not f.split(".")[0].split("[")[0].isdigit() and f[0] not in ".[!"}
                need = max([auto] + [i + 1 for i in idx])
                missing = names - {k.arg for k in x.keywords}
                ok = need <= len(x.args) and not missing
                ctx.ob(f"format:{m.name}:{x.func.value.value.strip()[:50]}", ok, f"{m.relpath}:{x.lineno}", f"format template needs {need} positional arguments and {sorted(names)}; got {len(x.args)} and {sorted(k.arg for k in x.keywords)}")
    ctx.need("format calls", n, 3)


def run(ctx):
    P = ctx.P
    names_lint(ctx)
    imports_lint(ctx)
    format_lint(ctx)
    R = receivers(P) + functions(P)
    items = [(r, "new") for r in R] + [(r, "fitted") for r in R if r.fitted is not None and r.label.split(".")[-1] in ("predictive", "posterior")]
    items.sort(key=lambda x: -(("ensemble" in x[0].label) * 3 + ("[" in x[0].label)))
    ctx.pmap(run_receiver, items)
    runs = []
    for approx in APPROX:
        for d, j in ((0, False), (0, True), (-1, False)):
            runs.append(("fit", dict(approx=approx, devices=d, disable_jit=j)))
        runs.append(("fit", dict(approx=approx, restore=True)))
        runs.append(("fit", dict(approx=approx, val=False, freeze=False, callbacks=False, dump=False)))
    for api in ("prob", "calib", "output"):
        for kind in ("classifier", "regressor"):
            for d, j in ((0, False), (0, True), (-1, False)):
                runs.append(("cal", dict(api=api, kind=kind, devices=d, disable_jit=j)))
            runs.append(("cal", dict(api=api, kind=kind, val=False, callbacks=False, dump=False)))
    ctx.pmap(fit_runs, runs)
    ctx.need("abstract runs", ctx.runs, 250)
