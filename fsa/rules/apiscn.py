"""Generic driver: abstract calls of every public constructor and method of the package."""
from .calibscn import *
import ast

ERR = {"bind_error", "attr_error", "unpack_error", "index_error", "key_error", "enum_key_error", "unbound", "undefined_name", "null_deref"}
SKIP_MOD = ("transformers",)
OMIT = object()


def deco_names(f):
    out = set()
    for d in f.node.decorator_list:
        for n in ast.walk(d):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
    return out


def is_abstract(c):
    names = {}
    for k in reversed(c.mro):
        if isinstance(k, ClassInfo):
            for n, f in k.methods.items():
                names[n] = "abstractmethod" in deco_names(f)
            for n in k.attrs:
                names[n] = False
    return any(names.values())


def public_methods(c):
    """(name, FuncInfo) of the public methods reachable on an instance, in-package definitions only."""
    out = {}
    for k in c.mro:
        if not isinstance(k, ClassInfo):
            continue
        for n, f in k.methods.items():
            if n not in out:
                out[n] = f
    return sorted((n, f) for n, f in out.items() if not n.startswith("_"))


def placeholder(ann, d):
    """`xs: Sequence[str] = ()`: the empty default stands for "to be given";
    only a parameter documented as optional may be left out."""
    return isinstance(d, (ast.Tuple, ast.List)) and not d.elts and ann is not None and "Optional" not in ast.unparse(ann)


def params_of(f, drop_self=True):
    """[(name, has_default, annotation, kwonly)]"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    out = [(x.arg, i >= len(pos) - nd and not placeholder(x.annotation, a.defaults[i - (len(pos) - nd)]), x.annotation, False) for i, x in enumerate(pos)]
    if drop_self and out:
        out = out[1:]
    out += [(x.arg, d is not None and not placeholder(x.annotation, d), x.annotation, True) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


class Api:
    """one receiver, many abstract calls from the same start state."""

    prep = None  # called on every new scenario

    def __init__(self, P):
        self.P = P
        self.s = Scn(P)
        stub_checks(self.s)
        if Api.prep is not None:
            Api.prep(self.s)
        self.recv = None

    def sym_for(self, name, ann, mod, label=None, depth=0):
        s = self.s
        label = label or name
        t = None
        if ann is not None:
            try:
                t, _ = s.I.ann_class(ann, mod)
            except Exception:
                t = None
        if t is not None and t.qual.startswith(self.P.pkg):
            return s.given(label, t.qual)
        return s.given(label)

    def ctor_params(self, c):
        """constructor parameters, following *args/**kwargs forwarding along the MRO."""
        out, seen, kwonly_fw = [], set(), False
        for k in c.mro:
            if not isinstance(k, ClassInfo) or "__init__" not in k.methods:
                continue
            f = k.methods["__init__"]
            for n, dflt, ann, _ in params_of(f):
                if n not in seen:
                    seen.add(n)
                    out.append((n, dflt, ann, k.mod))
            if f.node.args.kwarg is None and f.node.args.vararg is None:
                break
        return out

    def build(self, c, mode="full", override=None):
        s = self.s
        d, f = c.lookup("__init__")
        kw = {}
        if isinstance(f, FuncInfo):
            ps = self.ctor_params(c)
        else:
            ps = dataclass_fields(c)
        for n, dflt, ann, m in ps:
            if override and n in override:
                if override[n] is not OMIT:
                    kw[n] = override[n]
                continue
            if dflt and mode == "min":
                continue
            kw[n] = self.sym_for(n, ann, m, "init." + n)
        self.recv = s.new(c, **kw)
        return self.recv

    def run(self, fn):
        """fn() evaluated from the current state without keeping its effects; returns (value or None, events)."""
        s = self.s
        base = s.st
        s.st = base.fork()
        i0 = len(s.I.events)
        v = None
        try:
            v = fn()
        except Dead:
            pass
        finally:
            end = s.st
            s.st = base
        return v, s.I.events[i0:], end

    def call(self, name, f, omit=(), override=None, prefix="arg.", recv=None):
        s = self.s
        static = "staticmethod" in deco_names(f)
        ps = params_of(f, drop_self=not static)
        mod = f.mod
        kw = {}
        for n, dflt, ann, _ in ps:
            if override and n in override:
                kw[n] = override[n]
            elif n in omit:
                continue
            else:
                kw[n] = self.sym_for(n, ann, mod, prefix + n)
        r = recv if recv is not None else self.recv
        return self.run(lambda: s.call(r, name, **kw))


def dataclass_fields(c):
    out = []
    for k in reversed(c.mro):
        if isinstance(k, ClassInfo):
            for n, ann, dflt in k.fields:
                out = [o for o in out if o[0] != n] + [(n, dflt is not None, ann, k.mod)]
    return out


def variants(f, bound=None):
    """argument subsets: all given, none of the optional ones, each optional one alone omitted."""
    static = "staticmethod" in deco_names(f) or f.cls is None
    ps = params_of(f, drop_self=not static)
    opt = [n for n, d, _, _ in ps if d]
    vs = [("all", ())]
    if opt:
        vs.append(("required-only", tuple(opt)))
        if len(opt) > 1:
            vs += [("without " + n, (n,)) for n in opt]
    return vs
