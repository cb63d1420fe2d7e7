"""Abstract entry scenarios: builds the object graphs of the public API."""
from __future__ import annotations

from .interp import Interp, Dead
from .program import Program, ClassInfo, FuncInfo, AnchorError
from .values import *  # noqa


class Scn:
    """One abstract run from one public entry point."""

    def __init__(self, P: Program, budget=6_000_000):
        self.P = P
        self.I = Interp(P, budget)
        self.st = self.I.root.fork()
        self.fr = self.I.entry_frame()
        self.dead = False

    # values
    def sym(self, label, cls=None, null="not"):
        return self.I.sym(label, cls, null)

    def given(self, label, cls=None):
        """an explicitly supplied (non-None, truthy unless tested) argument."""
        return self.I.sym(label, cls, "not")

    def new(self, cls, *args, **kw):
        c = cls if isinstance(cls, ClassInfo) else self.P.cls(cls)
        return self.I.call(self.I.class_val(c), list(args), list(kw.items()), self.st, self.fr, None)

    def raw(self, cls, **fields):
        """instance without running the constructor."""
        c = cls if isinstance(cls, ClassInfo) else self.P.cls(cls)
        return self.I.new_obj(c, self.st, fields)

    def attr(self, o, name):
        return self.I.attr(o, name, self.st, self.fr, None)

    def call(self, o, meth, *args, **kw):
        f = self.I.attr(o, meth, self.st, self.fr, None)
        return self.I.call(f, list(args), list(kw.items()), self.st, self.fr, None)

    def callf(self, qual, *args, **kw):
        f = self.P.func(qual)
        return self.I.call(self.I.decorated(f), list(args), list(kw.items()), self.st, self.fr, None)

    def try_call(self, *a, **kw):
        """like call, but returns None when the abstract run cannot return."""
        s = self.st.fork()
        old = self.st
        self.st = s
        try:
            v = self.call(*a, **kw)
            old.w.update(s.w)
            old.conds = s.conds
            return v
        except Dead:
            return None
        finally:
            self.st = old

    def reify(self, v, depth=6):
        from .models import reify

        return reify(self.I, v, self.st, depth)


# ---------------------------------------------------------------- provenance


def sub(v, limit=200000):
    """all sub-terms of a (reified) value."""
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            break
        yield x
        stack.extend(children(x))


def syms(v):
    return {x.a[0] for x in sub(v) if x.k == "sym"}


def path_of(v):
    """'$root.a.b' access path of an attribute chain, or None."""
    parts = []
    while v.k == "attr":
        parts.append(v.a[1])
        v = v.a[0]
    if v.k == "sym":
        return ".".join([v.a[0]] + parts[::-1])
    return None


def mentions(v, t):
    """does value v depend on term/symbol t?"""
    if isinstance(t, str):
        return t in syms(v)
    return any(x is t for x in sub(v))


def must_mention(v, pred):
    """every alternative (phi leaf) depends on something satisfying pred."""
    if v.k == "phi":
        return all(must_mention(m, pred) for m in v.a[0])
    return any(pred(x) for x in sub(v))


# ---------------------------------------------------------------- builders

APPROX = {
    "map": "MAPPosteriorApproximator",
    "deep_ensemble": "DeepEnsemblePosteriorApproximator",
    "swag": "SWAGPosteriorApproximator",
    "laplace": "LaplacePosteriorApproximator",
    "advi": "ADVIPosteriorApproximator",
    "sghmc": "SGHMCPosteriorApproximator",
    "cyclical_sgld": "CyclicalSGLDPosteriorApproximator",
    "sngp": "SNGPPosteriorApproximator",
}


def model(s: Scn):
    return s.I.new_obj(s.P.cls("fortuna.model.mlp.MLP"), s.st)


def loader(s: Scn, name):
    v = s.sym(name, "fortuna.data.loader.array_loaders.DataLoader")
    return v


def prob_classifier(s: Scn, approx="map", **kw):
    akw = {}
    if approx == "sngp":
        akw["output_dim"] = s.sym("output_dim")
    pa = s.new(APPROX[approx], **akw)
    stub_checks(s)
    return s.new("fortuna.prob_model.classification.ProbClassifier", model=model(s), posterior_approximator=pa, **kw)


def prob_regressor(s: Scn, approx="map", **kw):
    akw = {}
    if approx == "sngp":
        akw["output_dim"] = s.sym("output_dim")
    pa = s.new(APPROX[approx], **akw)
    stub_checks(s)
    m2 = s.I.new_obj(s.P.cls("fortuna.model.mlp.MLP"), s.st)
    return s.new("fortuna.prob_model.regression.ProbRegressor", model=model(s), likelihood_log_variance_model=m2, posterior_approximator=pa, **kw)


def ann_of(P, cls, param):
    d, f = cls.lookup("__init__")
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == param:
            return x.annotation, d.mod
    return None, None


def init_params(cls):
    """(name, has_default) of a constructor, self excluded, *args/**kw ignored."""
    d, f = cls.lookup("__init__")
    if not isinstance(f, FuncInfo):
        return []
    a = f.node.args
    pos = (a.posonlyargs + a.args)[1:]
    nd = len(a.defaults)
    out = [(x.arg, i >= len(pos) - nd) for i, x in enumerate(pos)]
    out += [(x.arg, d is not None) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


LEAVE_OUT = object()


def config_fields(s, cls, prefix=""):
    """[(dotted field path, has a default)] of a configuration class, groups included."""
    c = cls if isinstance(cls, ClassInfo) else s.P.cls(cls)
    out = []
    for p, dflt in init_params(c):
        ann, mod = ann_of(s.P, c, p)
        t, _ = s.I.ann_class(ann, mod) if ann is not None else (None, False)
        out.append((prefix + p, dflt))
        if t is not None and t.qual.startswith(s.P.pkg):
            out += config_fields(s, t, prefix + p + ".")
    return out


def given_config(s: Scn, cls, label="cfg", override=None, omit=()):
    """instance of a configuration class in which every constructor argument
    is a distinct explicitly given symbol ``label.group.field``; nested
    configuration classes are built recursively.  ``override`` maps a field
    name (or group.field) to a value."""
    override = override or {}
    c = cls if isinstance(cls, ClassInfo) else s.P.cls(cls)
    kw = {}
    for p, dflt in init_params(c):
        ann, mod = ann_of(s.P, c, p)
        t, _ = s.I.ann_class(ann, mod) if ann is not None else (None, False)
        full = f"{label}.{p}"
        key = ".".join(full.split(".")[1:])
        if p in omit or key in omit or override.get(key) is LEAVE_OUT:
            continue
        if key in override or p in override:
            kw[p] = override.get(key, override.get(p))
        elif t is not None and t.qual.startswith(s.P.pkg):
            kw[p] = given_config(s, t, full, override, omit)
        else:
            kw[p] = s.given(full)
    return s.new(c, **kw)


def stub_checks(s: Scn):
    """nested-dictionary utilities are treated as opaque selectors/updaters."""
    from .values import app, tup

    def op(name, mutates=None):
        def f(I, bound, st, fr, node):
            vals = [I.models.reify(I, v, st, 3) for v in bound.values()]
            return app(name, vals)

        return f

    for n in ("nested_get", "nested_update", "find_one_path_to_key", "nested_pair", "nested_unpair"):
        q = "fortuna.utils.nested_dicts." + n
        if q in s.P.functions:
            s.I.stubs[q] = op(n)
    q = "fortuna.utils.nested_dicts.nested_set"
    if q in s.P.functions:
        s.I.stubs[q] = op("nested_set")


FIT = "fortuna.prob_model.fit_config.base.FitConfig"
CAL = "fortuna.prob_model.calib_config.base.CalibConfig"
OCFG = "fortuna.output_calib_model.config.base.Config"
CCFG = "fortuna.calib_model.config.base.Config"
