"""Flow-sensitive, context-sensitive abstract interpreter over the syntax tree.

Every statement is executed once per calling context on abstract values; both
arms of an undecided branch are analysed and *joined* (no path enumeration, no
solver).  Calls into the repository are inlined; calls out of it become opaque
terms or are handled by the small models in ``models.py``.
"""
from __future__ import annotations

import ast
import sys

from .program import ClassInfo, FuncInfo, Program
from .values import *  # noqa
from . import values as VV

sys.setrecursionlimit(200000)


class Dead(Exception):
    """No continuation on this control path."""


class Budget(Exception):
    pass


WIDE = 8  # opaque alternatives kept apart before they are summarised
FIELDS = {}  # object -> names of fields ever written


class State:
    __slots__ = ("parent", "w", "conds")

    def __init__(self, parent=None):
        self.parent = parent
        self.w = {}
        self.conds = parent.conds if parent is not None else ()

    def get(self, k):
        s = self
        while s is not None:
            w = s.w
            if k in w:
                return w[k]
            s = s.parent
        return None

    def set(self, k, v):
        self.w[k] = v
        if k[0] == "f" and isinstance(k[2], str):
            FIELDS.setdefault(k[1], {})[k[2]] = 1

    def fork(self):
        return State(self)

    def flat(self, upto):
        """writes made below ``upto``."""
        chain = []
        s = self
        while s is not upto:
            chain.append(s.w)
            s = s.parent
            if s is None:
                raise AssertionError("state chain")
        out = {}
        for w in reversed(chain):
            out.update(w)
        return out


class Frame:
    __slots__ = ("fid", "f", "mod", "cls", "selfv", "returns", "yields", "loops", "parent", "stack", "locals", "base", "node", "seq", "conds0")
    _n = 0

    def __init__(self, f, mod, cls, parent, stack):
        Frame._n += 1
        self.fid = Frame._n
        self.f = f
        self.mod = mod
        self.cls = cls
        self.selfv = None
        self.returns = []
        self.yields = []
        self.seq = []  # the values yielded, in order, or None if they cannot be listed
        self.conds0 = ()
        self.loops = []
        self.parent = parent
        self.stack = stack
        self.locals = None
        self.base = None
        self.node = None


class Event:
    __slots__ = ("kind", "name", "target", "args", "kw", "bound", "conds", "site", "stack", "result", "extra", "idx")

    def __repr__(self):
        return f"{self.kind} {self.name} @{self.site[0]}:{self.site[2]} args={list(self.args)} kw={dict(self.kw)}"

    @property
    def loc(self):
        return f"{self.site[0]}:{self.site[2]} in {self.site[1]}"

    def chain(self):
        return " <- ".join(f"{s[1].split('.')[-1] if False else '.'.join(s[1].split('.')[-2:])}:{s[2]}" for s in reversed(self.stack))


def local_names(node):
    """names assigned in a function body (excluding nested scopes)."""
    out = set()
    nonl = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack.extend(n.decorator_list)
            continue
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside comprehensions is not used in this repository
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        stack.extend(ast.iter_child_nodes(n))
    return out - nonl


class Interp:
    MAX_DEPTH = 70
    truth_hook = None

    def __init__(self, prog: Program, budget=4_000_000):
        self.P = prog
        self.root = State()
        self.events: list[Event] = []
        self.hooks = []  # callables (event, state)
        self.objcls: dict = {}  # V -> ClassInfo | 'list' | 'dict' | 'set'
        self.types: dict = {}  # V -> ClassInfo (declared)
        self.null: dict = {}  # V -> 'none' | 'not'
        self.funcs: dict = {}  # V func -> (FuncInfo, Frame|None, defaults)
        self.shared: set = set()  # objects evaluated once per process
        self.nobj = 0
        self.gcache: dict = {}
        self.modframes: dict = {}
        self.lambda_info: dict = {}
        self.locals_cache: dict = {}
        self.budget = budget
        self.steps = 0
        self.trylevel = 0
        self.analysed: set = set()  # qualnames of functions whose body was analysed
        self.opaque_calls: set = set()
        self.equal_zip = False  # zipped iterables have the same length
        self.norm = None  # canonical form of joined values
        self.exact_gens = False  # list what generators yield, and unroll loops over them
        self.rec_limit = 1
        self.list_cuts: list = []  # elements of lists of unknown length of which a part was taken
        self.stubs: dict = {}  # qualname -> callable(interp, selfv, args, kw, st, fr, node)
        self.imports_ok = True  # optional dependencies are installed
        from . import models

        self.models = models
        self.FIELDS = FIELDS

    # ------------------------------------------------------------------ events
    def emit(self, kind, name, st, fr, node, target=None, args=(), kw=(), bound=None, result=None, extra=None):
        e = Event()
        e.kind, e.name, e.target = kind, name, target
        e.args, e.kw, e.bound = tuple(args), tuple(kw), bound
        e.conds = st.conds
        e.site = (fr.mod.relpath if fr.mod else "?", fr.f.qual if fr.f else (fr.mod.name if fr.mod else "?"), getattr(node, "lineno", 0))
        e.stack = fr.stack
        e.result = result
        e.extra = extra
        e.idx = len(self.events)
        self.events.append(e)
        for h in self.hooks:
            h(e, st)
        return e

    def demote(self, n0, out):
        """errors on some alternatives only are not definite."""
        if out:
            for e in self.events[n0:]:
                if e.kind in ("unpack_error", "index_error", "key_error", "attr_error", "null_deref"):
                    e.kind = "maybe_" + e.kind

    # ------------------------------------------------------------------ helpers
    def new_obj(self, cls, st=None, fields=None, content=None):
        self.nobj += 1
        name = cls.name if isinstance(cls, ClassInfo) else cls
        v = mk("obj", self.nobj, name)
        self.objcls[v] = cls
        if st is not None:
            st.set(("a", v), TRUE)
            for k, x in (fields or {}).items():
                st.set(("f", v, k), x)
            if content is not None:
                st.set(("c", v), content)
        return v

    def new_list(self, elems, st, kind="list"):
        return self.new_obj(kind, st, content=mk("seq", tuple(elems)))

    def new_list_sum(self, elem, st, kind="list"):
        return self.new_obj(kind, st, content=mk("seqsum", elem))

    def new_dict(self, pairs, st, rest=None):
        return self.new_obj("dict", st, content=mk("map", tuple(pairs), rest if rest is not None else UNDEF))

    def content(self, v, st):
        return st.get(("c", v))

    def func_val(self, f: FuncInfo, frame=None, defaults=None):
        v = mk("func", f.qual, frame.fid if frame else 0)
        if v not in self.funcs:
            self.funcs[v] = (f, frame, defaults or {})
        return v

    def class_val(self, c: ClassInfo):
        return mk("class", c.qual)

    def cls_of(self, v):
        """ClassInfo of an instance value, if known."""
        c = self.objcls.get(v)
        if isinstance(c, ClassInfo):
            return c
        return self.types.get(v)

    def is_container(self, v):
        return v.k == "obj" and isinstance(self.objcls.get(v), str)

    # ------------------------------------------------------------------ joins
    def default_for(self, key):
        t = key[0]
        if t == "f":
            if key[1].k == "obj":
                return UNDEF
            if isinstance(key[2], tuple):
                return mk("item", key[1], key[2][1])
            return mk("attr", key[1], key[2])
        return UNDEF

    def join_vals(self, a, b):
        if a is b:
            return a
        return phi((a, b))

    def join_content(self, cs):
        cs = [c for c in cs if c is not UNDEF and c is not None]
        first = cs[0]
        if all(c is first for c in cs):
            return first
        if all(c.k in ("seq", "seqsum") for c in cs):
            if all(c.k == "seq" and len(c.a[0]) == len(first.a[0]) for c in cs if first.k == "seq") and first.k == "seq":
                return mk("seq", tuple(phi([c.a[0][i] for c in cs]) for i in range(len(first.a[0]))))
            el = []
            for c in cs:
                el.extend(c.a[0] if c.k == "seq" else [c.a[0]])
            el = [e for e in el if e is not UNDEF]
            return mk("seqsum", phi(el) if el else UNDEF)
        if all(c.k == "map" for c in cs):
            keys = []
            for c in cs:
                for k, _ in c.a[0]:
                    if k not in keys:
                        keys.append(k)
            pairs = []
            for k in keys:
                vals = []
                for c in cs:
                    d = dict(c.a[0])
                    vals.append(d.get(k, UNDEF))
                pairs.append((k, phi(vals)))
            rests = [c.a[1] for c in cs]
            rest = phi([r for r in rests if r is not UNDEF]) if any(r is not UNDEF for r in rests) else UNDEF
            return mk("map", tuple(pairs), rest)
        return first

    def merge_into(self, st: State, overlays, drop_undef_vars=False, cond=None):
        """overlays: list of write-dicts relative to st; at least one."""
        if len(overlays) == 1:
            st.w.update(overlays[0])
            return
        wide = []
        keys = {}
        for o in overlays:
            for k in o:
                keys[k] = 1
        # objects allocated in some of the arms only (looked up before the
        # allocation markers themselves are merged)
        fresh = {k[1] for k in keys if k[0] == "a" and st.get(k) is None}
        for k in keys:
            t = k[0]
            vals = []
            base = None
            have_base = False
            for o in overlays:
                if k in o:
                    vals.append(o[k])
                else:
                    if not have_base:
                        base = st.get(k)
                        have_base = True
                    vals.append(base)
            if t in ("t", "n", "done"):
                x = vals[0]
                if x is not None and all(y is x for y in vals):
                    st.w[k] = x
                elif st.get(k) is not None:
                    st.w[k] = None
                continue
            if t == "a":
                st.w[k] = TRUE
                continue
            if t == "g":
                # value-level fact: still valid if no arm contradicts it
                x = [y for y in vals if y is not None]
                st.w[k] = x[0] if x and all(y == x[0] for y in x) else None
                continue
            if t == "f" and k[1].k == "obj" and any(x is None for x in vals):
                ak = ("a", k[1])
                if k[1] in fresh:
                    vals = [x for x, o in zip(vals, overlays) if ak in o]
                    if not vals:
                        continue
            if t == "c":
                real = [x for x in vals if x is not None]
                st.w[k] = self.join_content(real)
                continue
            d = None
            vv = []
            for x in vals:
                if x is None:
                    if d is None:
                        d = self.default_for(k)
                    x = d
                vv.append(x)
            if drop_undef_vars and t in ("v", "f"):
                nn = [x for x in vv if x is not UNDEF]
                if nn:
                    vv = nn
            r = phi(vv)
            if r.k == "phi" and len(r.a[0]) > 3:
                wide.append(k)
            st.w[k] = r
            if cond is not None and len(vv) == 2 and r.k == "phi" and vv[0] is not vv[1]:
                st.w[("g", r)] = (cond, vv[0], vv[1])
        for k in wide:
            st.w[k] = self.widen(st.w[k], st)

    def widen(self, v, st):
        """summarise alternatives that are immutable training states of one
        class by a single state whose fields are the joined fields."""
        if v.k != "phi" or len(v.a[0]) <= 3:
            return v
        groups = {}
        rest = []
        for m in v.a[0]:
            c = self.objcls.get(m) if m.k == "obj" else None
            if isinstance(c, ClassInfo) and any("TrainState" in b for b in c.ext_bases()):
                groups.setdefault(c, []).append(m)
            else:
                rest.append(m)
        opaque = [m for m in rest if m.k in ("app", "attr", "item")]
        if not any(len(g) > 3 for g in groups.values()) and len(opaque) <= WIDE:
            return v
        if len(opaque) > WIDE:
            rest = [m for m in rest if m.k not in ("app", "attr", "item")] + [app("oneof", (phi(opaque),))]
        for c, g in groups.items():
            if len(g) <= 3:
                rest.extend(g)
                continue
            nv = self.new_obj(c, st)
            fs = {}
            for m in g:
                for k, x in self.models.obj_fields(self, m, st).items():
                    fs.setdefault(k, []).append(x)
            for k, xs in fs.items():
                st.set(("f", nv, k), self.widen(phi(xs), st))
            rest.append(nv)
        return phi(rest)

    @staticmethod
    def common_conds(cs):
        cs = list(cs)
        out = cs[0]
        for c in cs[1:]:
            n = 0
            for x, y in zip(out, c):
                if x != y:
                    break
                n += 1
            out = out[:n]
        return out

    # ------------------------------------------------------------------ facts
    def nullness(self, v, st):
        f = st.get(("n", v))
        if f is not None:
            return f
        k = v.k
        if k == "const":
            return "none" if v.a[0] is None else "not"
        if k in ("obj", "tuple", "func", "bound", "class", "mod", "ext", "partial", "xform", "gen", "bmeth", "enum"):
            return "not"
        if v in self.null:
            return self.null[v]
        if k == "phi":
            s = {self.nullness(m, st) for m in v.a[0] if m is not UNDEF}
            if len(s) == 1:
                return s.pop()
            return "unk"
        if k == "app":
            op = v.a[0]
            if isinstance(op, str):
                if op in NONNULL_OPS:
                    return "not"
                if op.startswith(("jax.", "numpy.", "flax.", "optax.")):
                    return "not"
        if k in ("item", "elem", "lane"):
            b = v.a[0]
            if k == "lane" and isinstance(b, V) and self.nullness(b, st) == "not":
                return "not"  # what is mapped over is an array of leaves
            while isinstance(b, V) and b.k in ("item", "elem", "lane"):
                b = b.a[0]
            if isinstance(b, V) and b.k == "app" and isinstance(b.a[0], str) and b.a[0].startswith(("jax.numpy.", "jax.random.", "numpy.")):
                return "not"
        return "unk"

    def truth(self, v, st):
        f = st.get(("t", v))
        if f is not None:
            return f is TRUE
        k = v.k
        if k == "const":
            return bool(v.a[0])
        if k == "tuple":
            return len(v.a[0]) > 0
        if k == "obj":
            c = self.objcls.get(v)
            if isinstance(c, str):
                ct = self.content(v, st)
                if ct is None:
                    return None
                if ct.k == "seq":
                    return len(ct.a[0]) > 0
                if ct.k == "map" and ct.a[1] is UNDEF:
                    if not ct.a[0]:
                        return False
                    if any(not (x.k == "phi" and UNDEF in x.a[0]) for _, x in ct.a[0]):
                        return True
                    return None
                return None
            for m in ("__len__", "__bool__"):
                if c.lookup(m)[1] is not None:
                    return None
            return True
        if k in ("func", "bound", "class", "mod", "partial", "xform", "gen", "enum", "bmeth"):
            return True
        if k == "app":
            op = v.a[0]
            if op == "not":
                t = self.truth(v.a[1][0], st)
                return None if t is None else not t
            if op == "is_none":
                n = self.nullness(v.a[1][0], st)
                return None if n == "unk" else n == "none"
            if op == "os.path.join" and any(self.truth(x, st) for x in v.a[1]) or op in ("pathlib.Path", "pathlib.PurePath"):
                return True
            if op == "and":
                ts = [self.truth(x, st) for x in v.a[1]]
                if any(t is False for t in ts):
                    return False
                if all(t is True for t in ts):
                    return True
                return None
            if op == "or":
                ts = [self.truth(x, st) for x in v.a[1]]
                if any(t is True for t in ts):
                    return True
                if all(t is False for t in ts):
                    return False
                return None
        if k == "phi":
            ts = {self.truth(m, st) for m in v.a[0] if m is not UNDEF}
            if len(ts) == 1:
                return ts.pop()
            return None
        if self.truth_hook is not None and k == "app":
            t = self.truth_hook(v, st)
            if t is not None:
                return t
        if st.get(("n", v)) == "none" or self.null.get(v) == "none":
            return False
        return None

    def assume(self, v, pol, st):
        """record that condition v evaluated to pol (on the current branch)."""
        if v.k == "app":
            op = v.a[0]
            if op == "not":
                self.assume(v.a[1][0], not pol, st)
                return
            if op == "is_none":
                x = v.a[1][0]
                st.set(("n", x), "none" if pol else "not")
                st.set(("t", v), TRUE if pol else FALSE)
                if not pol and x.k == "phi":
                    pass
                return
            if op == "and" and pol:
                for x in v.a[1]:
                    self.assume(x, True, st)
            if op == "or" and not pol:
                for x in v.a[1]:
                    self.assume(x, False, st)
        st.set(("t", v), TRUE if pol else FALSE)
        if pol:
            st.set(("n", v), "not")
        if v.k == "phi":
            ms = [m for m in v.a[0] if self.truth(m, st) is not (not pol)]
            if len(ms) == 1 and ms[0].k not in ("const", "obj"):
                self.assume(ms[0], pol, st)

    def eval3(self, c, st):
        """three-valued evaluation of a path condition from its atoms."""
        if c.k == "app" and c.a[0] in ("and", "or", "not"):
            ts = [self.eval3(x, st) for x in c.a[1]]
            if c.a[0] == "not":
                return None if ts[0] is None else not ts[0]
            z = c.a[0] == "or"
            if z in ts:
                return z
            return None if None in ts else (not z)
        if c.k == "obj":
            return None
        return self.truth(c, st)

    def consistent(self, st):
        """false when the compound conditions of the path contradict its atomic facts; propagates unit disjunctions."""
        for _ in range(3):
            again = False
            for c, pol in st.conds:
                pos = pol
                while c.k == "app" and c.a[0] == "not":
                    c, pos = c.a[1][0], not pos
                if c.k != "app" or c.a[0] not in ("and", "or"):
                    continue
                t = self.eval3(c, st)
                if t is not None:
                    if t != pos:
                        return False
                    continue
                if (c.a[0] == "or") == pos:
                    rest = [x for x in c.a[1] if self.eval3(x, st) is None]
                    if len(rest) == 1 and all(self.eval3(x, st) is (not pos) for x in c.a[1] if x is not rest[0]):
                        self.assume(rest[0], pos, st)
                        again = True
            if not again:
                break
        return True

    def refine(self, v, st):
        """drop phi members contradicting recorded facts."""
        if v.k != "phi":
            return v
        g = st.get(("g", v))
        if g is not None:
            tc = self.truth(g[0], st)
            if tc is not None:
                w = g[1] if tc else g[2]
                if w is not v:
                    return self.refine(w, st)
        n = st.get(("n", v))
        ms = v.a[0]
        if n == "none":
            if any(m is NONE for m in ms) or not all(m.k in ("app", "obj") for m in ms):
                return NONE
            ms = [m for m in ms if m.k == "app"]
        if n == "not":
            ms = [m for m in ms if self.nullness(m, st) != "none"]
        t = st.get(("t", v))
        if t is TRUE:
            ms = [m for m in ms if self.truth(m, st) is not False]
        elif t is FALSE:
            ms = [m for m in ms if self.truth(m, st) is not True]
        if not ms:
            return v
        if len(ms) == len(v.a[0]):
            return v
        return phi(ms)

    # ------------------------------------------------------------------ names
    def module_frame(self, m):
        if m.name not in self.modframes:
            self.modframes[m.name] = Frame(None, m, None, None, ())
        return self.modframes[m.name]

    def global_val(self, m, name):
        key = (m.name, name)
        if key in self.gcache:
            return self.gcache[key]
        r = self.P.resolve_global(m, name)
        v = None
        if r is not None:
            v = self.entity_val(r)
        elif name in BUILTINS:
            v = ext("builtins." + name)
        elif name == "__name__":
            v = const(m.name)
        elif name == "__file__":
            v = const(m.path)
        self.gcache[key] = v
        return v

    def entity_val(self, r):
        if r[0] == "mod":
            if r[1] in self.P.modules or r[1].split(".")[0] == self.P.pkg:
                return mk("mod", r[1])
            return ext(r[1])
        if r[0] == "func":
            return self.decorated(r[1])
        if r[0] == "class":
            return self.class_val(r[1])
        if r[0] == "ext":
            return ext(r[1])
        if r[0] == "missing":
            return mk("missing", r[1])
        if r[0] == "expr":
            _, node, target, mod = r
            key = ("expr", id(node))
            if key in self.gcache:
                return self.gcache[key]
            self.gcache[key] = mk("app", "global", (), ())
            before = self.nobj
            try:
                v = self.eval(node, self.root, self.module_frame(mod))
            except Dead:
                v = app("global:" + ast.unparse(target))
            for i in range(before + 1, self.nobj + 1):
                pass
            self.shared.add(v)
            if not isinstance(target, ast.Name):
                v = app("global:" + ast.unparse(target))
            self.gcache[key] = v
            return v
        raise AssertionError(r)

    def decorated(self, f: FuncInfo):
        v = self.func_val(f)
        return self.apply_decos(v, f, self.root, self.module_frame(f.mod))

    def apply_decos(self, v, f, st, fr):
        for d in reversed(f.decos):
            s = ast.unparse(d)
            last = s.split("(")[0].split(".")[-1]
            if last in ("property", "staticmethod", "classmethod", "abstractmethod", "setter", "contextmanager", "wraps", "add_start_docstrings", "add_start_docstrings_to_model_forward", "cached_property", "abstractproperty", "dataclass", "compact", "lru_cache"):
                continue
            dv = self.eval(d, st, fr)
            v = self.call(dv, [v], [], st, fr, d)
        return v

    def lookup_name(self, name, st, fr, node):
        f = fr
        while f is not None:
            v = st.get(("v", f.fid, name))
            if v is not None:
                if v is UNDEF:
                    break
                if v.k == "phi" and UNDEF in v.a[0]:
                    self.emit("maybe_unbound", name, st, fr, node)
                    v = phi([m for m in v.a[0] if m is not UNDEF])
                    st.set(("v", f.fid, name), v)
                return self.refine(v, st)
            if f.locals is not None and name in f.locals and f is fr:
                if f.f is not None:
                    self.emit("unbound", name, st, fr, node)
                    raise Dead()
            f = f.parent
        v = self.global_val(fr.mod, name)
        if v is None:
            if st.get(("v", fr.fid, name)) is UNDEF or (fr.locals and name in fr.locals):
                self.emit("unbound", name, st, fr, node)
            else:
                self.emit("undefined_name", name, st, fr, node)
            return app("undefined:" + name)
        return v

    # ------------------------------------------------------------------ attributes
    def attr(self, v, name, st, fr, node, quiet=False):
        k = v.k
        if k == "phi":
            n0 = len(self.events)
            out = []
            for m in v.a[0]:
                if m is UNDEF:
                    continue
                if self.nullness(m, st) == "none":
                    if not quiet:
                        self.emit("null_deref_maybe", name, st, fr, node, target=v)
                    continue
                try:
                    out.append(self.attr(m, name, st, fr, node, quiet))
                except Dead:
                    pass
            self.demote(n0, out)
            if not out:
                raise Dead()
            return phi(out)
        n = self.nullness(v, st)
        if n == "none" and name not in ("__class__", "__name__"):
            if not quiet:
                # an opaque call result is None only by assumption
                self.emit("null_deref_maybe" if v.k == "app" else "null_deref", name, st, fr, node, target=v)
            raise Dead()
        if k == "mod":
            m = self.P.modules.get(v.a[0])
            if m is not None:
                r = self.P.resolve_global(m, name)
                if r is not None:
                    return self.entity_val(r)
                full = f"{v.a[0]}.{name}"
                if full in self.P.modules:
                    return mk("mod", full)
                if name.startswith("__") and name.endswith("__"):
                    return app("modattr:" + name, (v,))
                self.emit("attr_error", f"{v.a[0]}.{name}", st, fr, node, target=v)
                return app("missing:" + full)
            return mk("mod", f"{v.a[0]}.{name}")
        if k == "ext":
            return ext(f"{v.a[0]}.{name}")
        if k == "missing":
            return v
        if k == "class":
            return self.class_attr(v, name, st, fr, node)
        if k == "enum":
            c = self.P.classes[v.a[0]]
            if name == "value":
                node2 = c.attrs.get(v.a[1])
                if node2 is None:
                    return mk("attr", v, name)
                return self.eval(node2, self.root, self.module_frame(c.mod))
            if name == "name":
                return const(v.a[1])
        st_v = st.get(("f", v, name))
        if st_v is not None and st_v is not UNDEF:
            if st_v.k == "phi" and UNDEF in st_v.a[0]:
                st_v2 = phi([m for m in st_v.a[0] if m is not UNDEF])
                c = self.cls_of(v)
                d, r = c.lookup(name) if c else (None, None)
                if r is None and not quiet:
                    self.emit("maybe_unset_attr", name, st, fr, node, target=v)
                elif r is not None and not isinstance(r, FuncInfo):
                    st_v2 = phi([st_v2, self.eval(r, self.root, self.module_frame(d.mod))])
                st_v = st_v2
            return self.refine(st_v, st)
        c = self.cls_of(v)
        if c is not None:
            if name == "__class__":
                return self.class_val(c)
            if name == "__dict__":
                return app("__dict__", (v,))
            d, r = c.lookup(name)
            if isinstance(r, FuncInfo):
                if r.kind == "property":
                    return self.call_func(r, None, [v], [], st, fr, node, selfv=v)
                if r.kind == "static":
                    return self.func_val(r)
                if r.kind == "classmethod":
                    return mk("bound", self.func_val(r), self.class_val(c))
                fv = self.func_val(r)
                if r.decos:
                    fv = self.method_decorated(r)
                return mk("bound", fv, v)
            if r is not None and k != "obj" and isinstance(r, ast.Constant) and r.value is None and any(n == name for n, _, _, _ in c.all_fields()):
                # the default of a record field says nothing about a given record
                w = mk("attr", v, name)
                t = self.field_type(c, name)
                if t is not None and w not in self.types:
                    self.types[w] = t
                return w
            if r is not None:
                val = self.eval(r, self.root, self.module_frame(d.mod))
                self.shared.add(val)
                if val.k == "func":
                    return mk("bound", val, v)
                return val
            if c.lookup("__getattr__")[1] is not None:
                return mk("attr", v, name)
            if k == "obj" and not c.ext_bases():
                if name in OBJECT_ATTRS:
                    return mk("attr", v, name)
                if not quiet:
                    self.emit("attr_error", name, st, fr, node, target=v, extra=c.qual)
                raise Dead()
            if k != "obj":
                # declared type only: attribute may be an instance field
                if not c.ext_bases() and not self.known_field(c, name) and name not in OBJECT_ATTRS and not quiet:
                    self.emit("attr_error_typed", name, st, fr, node, target=v, extra=c.qual)
            w = mk("attr", v, name)
            t = self.field_type(c, name)
            if t is not None and w not in self.types:
                self.types[w] = t
            return w
        if self.is_container(v) or k in ("tuple", "const", "gen"):
            return mk("bmeth", v, name)
        return mk("attr", v, name)

    def known_field(self, c, name):
        for d in c.mro + c.subclasses:
            if not isinstance(d, ClassInfo):
                continue
            if any(n == name for n, _, _ in d.fields) or name in d.methods or name in d.attrs:
                return True
            for f in d.methods.values():
                a = f.node.args.args
                s = a[0].arg if a else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
                        return True
        return False

    def field_type(self, c, name):
        for d in c.mro:
            if isinstance(d, ClassInfo):
                for n, ann, _ in d.fields:
                    if n == name and ann is not None:
                        t, _ = self.ann_class(ann, d.mod)
                        return t
        # constructor parameter stored verbatim
        for d in c.mro:
            if isinstance(d, ClassInfo) and "__init__" in d.methods:
                f = d.methods["__init__"]
                anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name:
                        if isinstance(n.value, ast.Name) and anns.get(n.value.id) is not None:
                            t, opt = self.ann_class(anns[n.value.id], d.mod)
                            return t
                        if isinstance(n.value, ast.Call):
                            r = self.P.resolve_dotted(d.mod, n.value.func)
                            if r and r[0] == "class":
                                return r[1]
        return None

    def ann_class(self, ann, mod):
        """-> (ClassInfo | None, optional?)"""
        if ann is None:
            return None, False
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None, False
        if isinstance(ann, ast.Constant) and ann.value is None:
            return None, True
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).split(".")[-1]
            if base == "Optional":
                t, _ = self.ann_class(ann.slice, mod)
                return t, True
            if base == "Union":
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                opt = any(isinstance(e, ast.Constant) and e.value is None for e in els)
                ts = [self.ann_class(e, mod)[0] for e in els if not (isinstance(e, ast.Constant) and e.value is None)]
                if len(ts) == 1:
                    return ts[0], opt
                return None, opt
            return None, False
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l, lo = self.ann_class(ann.left, mod)
            r, ro = self.ann_class(ann.right, mod)
            return (l or r) if (lo or ro) else None, lo or ro
        r = self.P.resolve_dotted(mod, ann)
        if r and r[0] == "class":
            return r[1], False
        return None, False

    def method_decorated(self, f):
        key = ("mdeco", f.qual)
        if key not in self.gcache:
            v = self.func_val(f)
            try:
                v = self.apply_decos(v, f, self.root, self.module_frame(f.mod))
            except Dead:
                pass
            self.gcache[key] = v
        return self.gcache[key]

    def class_attr(self, v, name, st, fr, node):
        c = self.P.classes[v.a[0]]
        if name == "__name__":
            return const(c.name)
        if name == "__init__":
            d, r = c.lookup(name)
            if r is None:
                return ext("builtins.object.__init__")
        if any(b == "enum.Enum" for b in c.ext_bases()) and name in c.attrs:
            return mk("enum", c.qual, name)
        s = st.get(("f", v, name))
        if s is not None and s is not UNDEF:
            return s
        d, r = c.lookup(name)
        if isinstance(r, FuncInfo):
            if r.kind == "classmethod":
                return mk("bound", self.func_val(r), v)
            return self.method_decorated(r) if r.decos and r.kind not in ("static", "property") else self.func_val(r)
        if r is not None:
            return self.eval(r, self.root, self.module_frame(d.mod))
        nested = f"{c.qual}.{name}"
        if nested in self.P.classes:
            return self.class_val(self.P.classes[nested])
        if c.ext_bases() or name.startswith("__"):
            return mk("attr", v, name)
        self.emit("attr_error", name, st, fr, node, target=v, extra=c.qual)
        raise Dead()

    # ------------------------------------------------------------------ containers
    def elem(self, v, st, fr=None, node=None):
        k = v.k
        if k == "phi":
            out = []
            for m in v.a[0]:
                if m is UNDEF:
                    continue
                if self.nullness(m, st) == "none":
                    if fr is not None:
                        self.emit("null_deref_maybe", "<iterate>", st, fr, node, target=v)
                    continue
                out.append(self.elem(m, st, fr, node))
            if not out:
                raise Dead()
            return phi(out)
        if self.nullness(v, st) == "none":
            if fr is not None:
                self.emit("null_deref", "<iterate>", st, fr, node, target=v)
            raise Dead()
        if k == "tuple":
            return phi(v.a[0]) if v.a[0] else UNDEF
        if k == "gen":
            return v.a[0]
        if self.is_container(v):
            ct = self.content(v, st)
            if ct is None:
                return mk("elem", v)
            if ct.k == "seq":
                return phi(ct.a[0]) if ct.a[0] else UNDEF
            if ct.k == "seqsum":
                return ct.a[0]
            if ct.k == "map":
                ks = [x for x, _ in ct.a[0]]
                if ct.a[1] is not UNDEF:
                    ks.append(mk("key", ct.a[1]))
                return phi(ks) if ks else UNDEF
        c = self.cls_of(v)
        if c is not None:
            d, r = c.lookup("__iter__")
            if isinstance(r, FuncInfo) and fr is not None:
                it = self.call_func(r, None, [v], [], st, fr, node, selfv=v)
                if it is v:
                    d, r = c.lookup("__next__")
                    if isinstance(r, FuncInfo):
                        return self.call_func(r, None, [v], [], st, fr, node, selfv=v)
                    return mk("elem", v)
                return self.elem(it, st, fr, node)
        if k == "class" and any(b == "enum.Enum" for b in self.P.classes[v.a[0]].ext_bases()):
            c = self.P.classes[v.a[0]]
            return phi([mk("enum", c.qual, n) for n in c.attrs]) if c.attrs else UNDEF
        if k == "bound" or k == "func":
            return mk("elem", v)
        return mk("elem", v)

    def exact(self, v, st, lim=6):
        """exact element list of an iterable or None."""
        if v.k == "tuple":
            return list(v.a[0])
        if v.k == "gen":
            return list(v.a[1].a[0]) if v.a[1] is not None else None
        if self.is_container(v):
            ct = self.content(v, st)
            if ct is not None and ct.k == "seq":
                return list(ct.a[0])
            if ct is not None and ct.k == "map" and ct.a[1] is UNDEF and not any(x.k == "phi" and UNDEF in x.a[0] for _, x in ct.a[0]):
                return [k for k, _ in ct.a[0]]
        if v.k == "class" and any(b == "enum.Enum" for b in self.P.classes[v.a[0]].ext_bases()):
            c = self.P.classes[v.a[0]]
            return [mk("enum", c.qual, n) for n in c.attrs]
        if v.k == "app" and v.a[0] == "range" and all(x.k == "const" for x in v.a[1]):
            try:
                r = range(*[x.a[0] for x in v.a[1]])
                if len(r) <= lim:
                    return [const(i) for i in r]
            except TypeError:
                return None
        return None

    def item(self, v, key, st, fr, node):
        k = v.k
        if k == "phi":
            n0 = len(self.events)
            out = []
            for m in v.a[0]:
                if m is UNDEF:
                    continue
                if self.nullness(m, st) == "none":
                    self.emit("null_deref_maybe", "<subscript>", st, fr, node, target=v)
                    continue
                try:
                    out.append(self.item(m, key, st, fr, node))
                except Dead:
                    pass
            self.demote(n0, out)
            if not out:
                raise Dead()
            return phi(out)
        if self.nullness(v, st) == "none":
            self.emit("null_deref", "<subscript>", st, fr, node, target=v)
            raise Dead()
        if k == "tuple" and key.k == "const" and isinstance(key.a[0], int):
            i = key.a[0]
            n = len(v.a[0])
            if -n <= i < n:
                return v.a[0][i]
            self.emit("index_error", str(i), st, fr, node, target=v)
            raise Dead()
        if k == "tuple" and key.k == "app" and key.a[0] == "slice" and all(x.k == "const" for x in key.a[1]):
            return tup(v.a[0][slice(*[x.a[0] for x in key.a[1]])])
        if k == "tuple" and v.a[0]:
            return phi(v.a[0])
        if k in ("ext", "class") and k == "class":
            c = self.P.classes[v.a[0]]
            if any(b == "enum.Enum" for b in c.ext_bases()):
                if key.k == "const" and key.a[0] in c.attrs:
                    return mk("enum", c.qual, key.a[0])
                if key.k == "const":
                    self.emit("enum_key_error", f"{c.name}[{key.a[0]!r}]", st, fr, node, target=v)
                    raise Dead()
                return mk("item", v, key)
            return v
        s = st.get(("f", v, ("item", key)))
        if s is not None and s is not UNDEF:
            return s
        if self.is_container(v):
            ct = self.content(v, st)
            kind = self.objcls[v]
            if ct is not None:
                if ct.k == "seq":
                    if key.k == "const" and isinstance(key.a[0], int):
                        n = len(ct.a[0])
                        i = key.a[0]
                        if -n <= i < n:
                            return ct.a[0][i]
                        return app("index_out_of_range", (v, key))
                    if key.k == "app" and key.a[0] == "slice":
                        if all(x.k == "const" for x in key.a[1]):
                            return self.new_list(ct.a[0][slice(*[x.a[0] for x in key.a[1]])], st)
                        return self.new_list_sum(phi(ct.a[0]) if ct.a[0] else UNDEF, st)
                    return phi(ct.a[0]) if ct.a[0] else app("index_out_of_range", (v, key))
                if ct.k == "seqsum":
                    if key.k == "app" and key.a[0] == "slice":
                        if any(x is not NONE for x in key.a[1]):
                            self.list_cuts.append(ct.a[0])
                        return self.new_list_sum(ct.a[0], st)
                    return ct.a[0] if ct.a[0] is not UNDEF else app("index_out_of_range", (v, key))
                if ct.k == "map":
                    d = dict(ct.a[0])
                    if key in d:
                        x = d[key]
                        if x.k == "phi" and UNDEF in x.a[0]:
                            ms = [m for m in x.a[0] if m is not UNDEF]
                            if ct.a[1] is UNDEF:
                                self.emit("maybe_key_error", show(key), st, fr, node, target=v)
                            x = phi(ms)
                        elif x is UNDEF:
                            x = app("missing_key", (v, key))
                        return x
                    if key.k == "const" and ct.a[1] is UNDEF and all(kk.k == "const" for kk in d):
                        self.emit("key_error", show(key), st, fr, node, target=v)
                        raise Dead()
                    vals = [x for kk, x in d.items() if x is not UNDEF] if key.k != "const" else [x for kk, x in d.items() if kk.k != "const"]
                    vals = [phi([m for m in members(x) if m is not UNDEF]) for x in vals]
                    if ct.a[1] is not UNDEF:
                        vals.append(mk("item", ct.a[1], key) if ct.a[1].k != "mapval" else ct.a[1].a[0])
                    return phi(vals) if vals else app("missing_key", (v, key))
            return mk("item", v, key)
        c = self.cls_of(v)
        if c is not None:
            d, r = c.lookup("__getitem__")
            if isinstance(r, FuncInfo):
                return self.call_func(r, None, [v, key], [], st, fr, node, selfv=v)
        if k == "ext":
            return v if key.k in ("ext", "class") else mk("item", v, key)
        return mk("item", v, key)

    # ------------------------------------------------------------------ stores
    def store_attr(self, v, name, val, st, fr, node):
        ms = members(v)
        for m in ms:
            if m is UNDEF:
                continue
            if self.nullness(m, st) == "none":
                self.emit("null_deref" if len(ms) == 1 else "null_deref_maybe", name + "=", st, fr, node, target=m)
                continue
            c = self.cls_of(m)
            if c is not None:
                d, r = c.lookup(name + "@setter")
                if isinstance(r, FuncInfo):
                    self.call_func(r, None, [m, val], [], st, fr, node, selfv=m)
                    continue
            self.emit("setattr", name, st, fr, node, target=m, args=(val,))
            if len(ms) == 1:
                st.set(("f", m, name), val)
            else:
                old = st.get(("f", m, name))
                if old is None:
                    old = self.default_for(("f", m, name))
                st.set(("f", m, name), phi((old, val)))

    def store_item(self, v, key, val, st, fr, node):
        ms = members(v)
        for m in ms:
            if m is UNDEF:
                continue
            if self.nullness(m, st) == "none":
                self.emit("null_deref" if len(ms) == 1 else "null_deref_maybe", "<setitem>", st, fr, node, target=m)
                continue
            self.emit("setitem", "[]=", st, fr, node, target=m, args=(key, val))
            weak = len(ms) > 1
            if self.is_container(m):
                ct = self.content(m, st)
                if ct is not None and ct.k == "map":
                    d = dict(ct.a[0])
                    if key in d:
                        old = d[key]
                        d[key] = phi((old, val)) if weak else val
                    else:
                        d[key] = phi((UNDEF, val)) if weak else val
                    st.set(("c", m), mk("map", tuple(d.items()), ct.a[1]))
                    continue
                if ct is not None and ct.k == "seq":
                    if key.k == "const" and isinstance(key.a[0], int) and -len(ct.a[0]) <= key.a[0] < len(ct.a[0]):
                        l = list(ct.a[0])
                        l[key.a[0]] = val if not weak else phi((l[key.a[0]], val))
                        st.set(("c", m), mk("seq", tuple(l)))
                    else:
                        st.set(("c", m), mk("seq", tuple(phi((x, val)) for x in ct.a[0])))
                    continue
                if ct is not None and ct.k == "seqsum":
                    st.set(("c", m), mk("seqsum", phi((ct.a[0], val))))
                    continue
            c = self.cls_of(m)
            if c is not None:
                d, r = c.lookup("__setitem__")
                if isinstance(r, FuncInfo):
                    self.call_func(r, None, [m, key, val], [], st, fr, node, selfv=m)
                    continue
            if not weak:
                st.set(("f", m, ("item", key)), val)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.set(("v", fr.fid, t.id), self.widen(v, st))
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i0 = star[0]
                for i, e in enumerate(t.elts):
                    if i < i0:
                        self.assign(e, self.unpack(v, i, None, st, fr, t), st, fr)
                    elif i == i0:
                        ex = self.exact(v, st) if v.k != "phi" else None
                        if ex is not None:
                            self.assign(e.value, self.new_list(ex[i0 : len(ex) - (n - i0 - 1)], st), st, fr)
                        else:
                            self.assign(e.value, self.new_list_sum(self.elem(v, st, fr, t), st), st, fr)
                    else:
                        self.assign(e, self.unpack(v, i - n, None, st, fr, t), st, fr)
                return
            vals = [self.unpack(v, i, n, st, fr, t) for i in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.store_attr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            key = self.eval(t.slice, st, fr)
            self.store_item(o, key, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, v, i, n, st, fr, node):
        k = v.k
        if k == "phi":
            n0 = len(self.events)
            out = []
            for m in v.a[0]:
                if m is UNDEF:
                    continue
                if self.nullness(m, st) == "none":
                    self.emit("null_deref_maybe", "<unpack>", st, fr, node, target=v)
                    continue
                try:
                    out.append(self.unpack(m, i, n, st, fr, node))
                except Dead:
                    pass
            self.demote(n0, out)
            if not out:
                raise Dead()
            return phi(out)
        if self.nullness(v, st) == "none":
            self.emit("null_deref", "<unpack>", st, fr, node, target=v)
            raise Dead()
        ex = self.exact(v, st)
        if ex is not None:
            if n is not None and len(ex) != n:
                self.emit("unpack_error", f"{len(ex)} values into {n}", st, fr, node, target=v)
                raise Dead()
            if -len(ex) <= i < len(ex):
                return ex[i]
            raise Dead()
        if k == "gen":
            return v.a[0]
        if self.is_container(v):
            return self.elem(v, st, fr, node)
        return mk("item", v, const(i))

    # ------------------------------------------------------------------ expressions
    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return app("expr:" + type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        try:
            return const(n.value)
        except TypeError:
            return app("const")

    def e_Name(self, n, st, fr):
        return self.lookup_name(n.id, st, fr, n)

    def e_Attribute(self, n, st, fr):
        return self.normal(self.attr(self.eval(n.value, st, fr), n.attr, st, fr, n), st)

    def normal(self, v, st):
        return self.norm(self, v, st) if self.norm is not None and v.k == "phi" else v

    def e_Subscript(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        key = self.eval(n.slice, st, fr)
        return self.normal(self.item(v, key, st, fr, n), st)

    def e_Index(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        return app("slice", [self.eval(x, st, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def seq_elts(self, elts, st, fr):
        out = []
        approx = None
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                ex = self.exact(v, st) if v.k != "phi" else None
                if ex is None:
                    approx = True
                    out.append(self.elem(v, st, fr, e))
                else:
                    out.extend(ex)
            else:
                out.append(self.eval(e, st, fr))
        return out, approx

    def e_Tuple(self, n, st, fr):
        out, ap = self.seq_elts(n.elts, st, fr)
        if ap:
            return self.new_list_sum(phi(out), st)
        return tup(out)

    def e_List(self, n, st, fr):
        out, ap = self.seq_elts(n.elts, st, fr)
        if ap:
            return self.new_list_sum(phi(out), st)
        return self.new_list(out, st)

    def e_Set(self, n, st, fr):
        out, ap = self.seq_elts(n.elts, st, fr)
        return self.new_list(out, st, "set")

    def e_Dict(self, n, st, fr):
        pairs = {}
        rest = UNDEF
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, st, fr)
            if k is None:
                if self.is_container(vv):
                    ct = self.content(vv, st)
                    if ct is not None and ct.k == "map":
                        pairs.update(dict(ct.a[0]))
                        if ct.a[1] is not UNDEF:
                            rest = ct.a[1] if rest is UNDEF else phi((rest, ct.a[1]))
                        continue
                rest = vv if rest is UNDEF else phi((rest, vv))
            else:
                pairs[self.eval(k, st, fr)] = vv
        return self.new_dict(pairs.items(), st, rest)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for x in n.values:
            parts.append(self.eval(x.value if isinstance(x, ast.FormattedValue) else x, st, fr))
        if all(p.k == "const" for p in parts):
            return const("".join(str(p.a[0]) for p in parts))
        return app("fstr", parts)

    def e_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            self.emit("truth_test", "not", st, fr, n, target=v)
            return self.neg(v, st)
        if v.k == "const" and isinstance(v.a[0], (int, float, bool)):
            x = v.a[0]
            try:
                if isinstance(n.op, ast.USub):
                    return const(-x)
                if isinstance(n.op, ast.UAdd):
                    return const(+x)
                if isinstance(n.op, ast.Invert):
                    return const(~x)
            except TypeError:
                pass
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(n.op)]
        self.check_null_operand(v, op, st, fr, n)
        return app(op, (v,))

    def neg(self, v, st):
        t = self.truth(v, st)
        if t is not None:
            return const(not t)
        if v.k == "app" and v.a[0] == "not":
            return v.a[1][0]
        return app("not", (v,))

    def check_null_operand(self, v, op, st, fr, n):
        nn = self.nullness(v, st)
        if nn == "none":
            self.emit("null_deref", "<" + op + ">", st, fr, n, target=v)
            raise Dead()
        if v.k == "phi" and any(m is NONE for m in v.a[0]):
            self.emit("null_deref_maybe", "<" + op + ">", st, fr, n, target=v)

    def e_BinOp(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        r = self.eval(n.right, st, fr)
        return self.binop(type(n.op).__name__, l, r, st, fr, n)

    def binop(self, op, l, r, st, fr, n):
        if l.k == "const" and r.k == "const" and l.a[0] is not None and r.a[0] is not None:
            try:
                a, b = l.a[0], r.a[0]
                if op == "Add":
                    return const(a + b)
                if op == "Sub":
                    return const(a - b)
                if op == "Mult" and isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return const(a * b)
                if op == "Div":
                    return const(a / b)
                if op == "FloorDiv":
                    return const(a // b)
                if op == "Mod" and isinstance(a, int):
                    return const(a % b)
                if op == "Pow" and abs(b) < 20:
                    return const(a**b)
            except Exception:
                pass
        if op == "Add":
            el, er = (None, None)
            if self.is_container(l) or l.k == "tuple":
                el = self.exact(l, st)
            if self.is_container(r) or r.k == "tuple":
                er = self.exact(r, st)
            lseq = l.k == "tuple" or (self.is_container(l) and self.objcls[l] == "list")
            rseq = r.k == "tuple" or (self.is_container(r) and self.objcls[r] == "list")
            if lseq and rseq:
                if el is not None and er is not None:
                    return tup(el + er) if l.k == "tuple" else self.new_list(el + er, st)
                return self.new_list_sum(phi([x for x in (self.elem(l, st), self.elem(r, st)) if x is not UNDEF] or [UNDEF]), st)
            if lseq or rseq:
                # list + unknown sequence: a fresh list
                a, b = (l, r) if lseq else (r, l)
                if self.is_container(a) and b.k in ("sym", "attr", "item", "elem", "phi"):
                    try:
                        es = [x for x in (self.elem(l, st), self.elem(r, st)) if x is not UNDEF]
                    except Dead:
                        es = []
                    if es:
                        return self.new_list_sum(phi(es), st)
        if op == "Mult" and (self.is_container(l) and self.objcls[l] == "list" or l.k == "tuple"):
            e = self.elem(l, st)
            return self.new_list_sum(e, st)
        self.check_null_operand(l, op, st, fr, n)
        self.check_null_operand(r, op, st, fr, n)
        return app(op, (l, r))

    def e_BoolOp(self, n, st, fr, ctx=False):
        isand = isinstance(n.op, ast.And)
        vals = []
        child = st
        forks = []
        cur = st
        for i, e in enumerate(n.values):
            try:
                v = self.test(e, cur, fr) if ctx else self.eval(e, cur, fr)
            except Dead:
                if not forks and cur is st:
                    raise
                break
            if i < len(n.values) - 1:
                self.emit("truth_test", "boolop", cur, fr, e, target=v)
            t = self.truth(v, cur)
            if i == len(n.values) - 1:
                vals.append(v)
                break
            if t is not None:
                if t != isand:
                    vals.append(v)
                    break
                continue  # neutral element: skip
            vals.append(v)
            nxt = cur.fork()
            nxt.conds = cur.conds + ((v, isand),)
            self.assume(v, isand, nxt)
            forks.append(nxt)
            cur = nxt
        # effects of the conditionally evaluated operands
        if forks:
            w = cur.flat(st)
            w = {k: x for k, x in w.items() if k[0] not in ("t", "n", "done")}
            if w:
                self.merge_into(st, [w, {}])
        if len(vals) == 1:
            return vals[0]
        if not ctx and not all(is_boolish(v) for v in vals):
            # value of ``a or b`` / ``a and b``
            if not isand:
                vals = [v for v in vals[:-1] if self.truth(v, st) is not False] + vals[-1:]
                vals = [phi([m for m in members(v) if m is not NONE]) if v.k == "phi" and v is not vals[-1] and any(m is not NONE for m in v.a[0]) else v for v in vals]
            return phi(vals)
        return app("and" if isand else "or", vals)

    def test(self, n, st, fr):
        """evaluate in boolean context."""
        if isinstance(n, ast.BoolOp):
            return self.e_BoolOp(n, st, fr, ctx=True)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.test(n.operand, st, fr)
            self.emit("truth_test", "not", st, fr, n, target=v)
            return self.neg(v, st)
        return self.eval(n, st, fr)

    def e_Compare(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        res = []
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, st, fr)
            res.append(self.compare(type(op).__name__, l, r, st, fr, n))
            l = r
        if len(res) == 1:
            return res[0]
        return app("and", res)

    def compare(self, op, l, r, st, fr, n):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            negate = op in ("IsNot", "NotEq")
            b = None
            if r is NONE or l is NONE:
                x = l if r is NONE else r
                nn = self.nullness(x, st)
                if nn != "unk":
                    b = nn == "none"
                    return const(b != negate)
                v = app("is_none", (x,))
                return self.neg(v, st) if negate else v
            if l.k == "const" and r.k == "const":
                return const((l.a[0] == r.a[0]) != negate)
            if l.k in ("class", "enum", "func") and r.k in ("class", "enum", "func"):
                return const((l is r) != negate)
            if l.k == "tuple" and r.k == "tuple" and all(x.k == "const" for x in l.a[0] + r.a[0]):
                return const((l is r) != negate)
            a, b2 = (l, r) if l.id <= r.id else (r, l)
            v = app("Eq", (a, b2))
            t = st.get(("t", v))
            if t is not None:
                return const((t is TRUE) != negate)
            return app("not", (v,)) if negate else v
        if op in ("In", "NotIn"):
            negate = op == "NotIn"
            ex = self.exact(r, st) if r.k != "phi" else None
            if ex is not None and l.k == "const" and all(x.k == "const" for x in ex):
                return const((l in ex) != negate)
            if self.is_container(r):
                ct = self.content(r, st)
                if ct is not None and ct.k == "map":
                    d = dict(ct.a[0])
                    if l in d and not (d[l].k == "phi" and UNDEF in d[l].a[0]):
                        return const(not negate)
            if l.k == "const" and r.k == "const" and isinstance(r.a[0], str) and isinstance(l.a[0], str):
                return const((l.a[0] in r.a[0]) != negate)
            if r.k == "phi" and any(m is NONE for m in r.a[0]) and fr is not None:
                self.emit("null_deref_maybe", "<in>", st, fr, n, target=r)
            if self.nullness(r, st) == "none":
                self.emit("null_deref", "<in>", st, fr, n, target=r)
                raise Dead()
            c = self.cls_of(r)
            v = app("In", (l, r))
            t = st.get(("t", v))
            if t is not None:
                return const((t is TRUE) != negate)
            return app("not", (v,)) if negate else v
        # ordering
        if l.k == "const" and r.k == "const":
            try:
                a, b = l.a[0], r.a[0]
                return const({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
            except TypeError:
                pass
        self.check_null_operand(l, op, st, fr, n)
        self.check_null_operand(r, op, st, fr, n)
        return app(op, (l, r))

    def e_IfExp(self, n, st, fr):
        c = self.test(n.test, st, fr)
        self.emit("truth_test", "if", st, fr, n, target=c)
        t = self.truth(c, st)
        if t is True:
            return self.eval(n.body, st, fr)
        if t is False:
            return self.eval(n.orelse, st, fr)
        outs, vals = [], []
        for pol, e in ((True, n.body), (False, n.orelse)):
            s = st.fork()
            s.conds = st.conds + ((c, pol),)
            self.assume(c, pol, s)
            try:
                vals.append(self.eval(e, s, fr))
                outs.append(s.flat(st))
            except Dead:
                pass
        if not outs:
            raise Dead()
        self.merge_into(st, outs, cond=c if len(outs) == 2 else None)
        r = phi(vals)
        if len(vals) == 2 and r.k == "phi":
            st.set(("g", r), (c, vals[0], vals[1]))
        return r

    def e_Lambda(self, n, st, fr):
        f = self.lambda_info.get(n)
        if f is None:
            f = FuncInfo(f"{fr.f.qual if fr.f else fr.mod.name}.<lambda@{n.lineno}:{n.col_offset}>", n, fr.mod, fr.cls)
            self.lambda_info[n] = f
        return self.func_val(f, fr if fr.f is not None or fr.parent is not None else None, self.eval_defaults(n, st, fr))

    def eval_defaults(self, node, st, fr):
        a = node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            out[p.arg] = self.eval(d, st, fr)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = self.eval(d, st, fr)
        return out

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        fr.yields.append(v)
        self.yield_seq(fr, st, [v])
        self.emit("yield", "yield", st, fr, n, target=v)
        return app("sent")

    def e_YieldFrom(self, n, st, fr):
        v = self.listing(self.eval(n.value, st, fr), st, fr, n)
        if self.exact_gens:
            ex = self.exact(v, st)
            self.yield_seq(fr, st, ex)
            if ex == []:
                self.emit("yield", "yield_from", st, fr, n, target=UNDEF)
                return app("sent")
        e = self.elem(v, st, fr, n)
        fr.yields.append(e)
        self.emit("yield", "yield_from", st, fr, n, target=e)
        return app("sent")

    def yield_seq(self, fr, st, vs):
        if not self.exact_gens:
            return
        if vs is None or fr.seq is None:
            fr.seq = None
            return
        if any(not (x.k == "app" and x.a[0] == "uloop") for x, _ in st.conds[len(fr.conds0):]):
            fr.seq = None
            return
        fr.seq.extend(vs)

    def listing(self, v, st, fr, node):
        """the generator an object iterates over."""
        if self.exact_gens and v.k in ("obj", "sym"):
            c = self.cls_of(v)
            if c is not None and not self.is_container(v):
                d, r = c.lookup("__iter__")
                if isinstance(r, FuncInfo):
                    return self.call_func(r, None, [v], [], st, fr, node, selfv=v)
        return v

    def comp_frame(self, fr):
        f = Frame(fr.f, fr.mod, fr.cls, fr, fr.stack)
        f.selfv = fr.selfv
        f.returns = fr.returns
        f.yields = fr.yields
        f.base = fr.base
        return f

    def run_comp(self, gens, st, fr, emit_elt):
        """returns (exact?, [results])"""
        res = []
        exact = True

        def rec(i, s, f):
            nonlocal exact
            if i == len(gens):
                res.append(emit_elt(s, f))
                return
            g = gens[i]
            it = self.eval(g.iter, s, f if i else fr)
            ex = self.exact(it, s, 24) if it.k != "phi" else None
            if ex is None or len(ex) > 24:
                exact = False
                items = [self.elem(it, s, fr, g.iter)]
                if items[0] is UNDEF:
                    return
            else:
                items = ex
            for x in items:
                s2 = s.fork()
                s2.conds = s.conds + ((app("loop", (it,)), True),)
                try:
                    self.assign(g.target, x, s2, f)
                    for c in g.ifs:
                        cv = self.test(c, s2, f)
                        t = self.truth(cv, s2)
                        if t is False:
                            raise Dead()
                        if t is None:
                            exact = False
                            s2.conds = s2.conds + ((cv, True),)
                            self.assume(cv, True, s2)
                    rec(i + 1, s2, f)
                except Dead:
                    continue
                w = {k: y for k, y in s2.flat(s).items() if k[0] not in ("t", "n", "done")}
                self.merge_into(s, [w, {}] if ex is None else [w], drop_undef_vars=True)

        f = self.comp_frame(fr)
        rec(0, st, f)
        return exact, res

    def e_ListComp(self, n, st, fr):
        ex, res = self.run_comp(n.generators, st, fr, lambda s, f: self.eval(n.elt, s, f))
        if ex:
            return self.new_list(res, st)
        return self.new_list_sum(phi(res) if res else UNDEF, st)

    def e_SetComp(self, n, st, fr):
        v = self.e_ListComp(n, st, fr)
        return v

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr)

    def e_DictComp(self, n, st, fr):
        ex, res = self.run_comp(n.generators, st, fr, lambda s, f: (self.eval(n.key, s, f), self.eval(n.value, s, f)))
        if ex:
            d = {}
            for k, v in res:
                d[k] = v
            return self.new_dict(d.items(), st)
        pairs = {}
        for k, v in res:
            pairs[k] = phi((pairs[k], v)) if k in pairs else v
        return self.new_obj("dict", st, content=mk("map", tuple((k, v) for k, v in pairs.items()), app("opendict")))

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            fv = self.super_attr(n.func.attr, st, fr, n)
        else:
            fv = self.eval(n.func, st, fr)
        args, kw = self.eval_args(n, st, fr)
        return self.call(fv, args, kw, st, fr, n)

    def super_attr(self, name, st, fr, node):
        f = fr
        while f is not None and (f.f is None or f.f.cls is None or f.selfv is None):
            f = f.parent
        if f is None:
            return ext("builtins.super." + name)
        selfv, here = f.selfv, f.f.cls
        c = self.cls_of(selfv)
        if c is None and selfv.k == "class":
            c = self.P.classes[selfv.a[0]]
        if c is None:
            c = here
        if here not in c.mro:
            c = here
        d, r = c.lookup(name, after=here)
        if isinstance(r, FuncInfo):
            if r.kind == "property":
                return self.call_func(r, None, [selfv], [], st, fr, node, selfv=selfv)
            if r.kind == "static":
                return self.func_val(r)
            if r.kind == "classmethod":
                cv = selfv if selfv.k == "class" else self.class_val(c)
                return mk("bound", self.func_val(r), cv)
            return mk("bound", self.method_decorated(r) if r.decos else self.func_val(r), selfv)
        if r is not None:
            return self.eval(r, self.root, self.module_frame(d.mod))
        if name == "__init__":
            return mk("bound", ext("builtins.object.__init__"), selfv)
        if c.ext_bases():
            return mk("attr", selfv, "super." + name)
        self.emit("attr_error", "super()." + name, st, fr, node, target=selfv, extra=c.qual)
        raise Dead()

    def eval_args(self, n, st, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                ex = self.exact(v, st) if v.k != "phi" else None
                if ex is not None:
                    args.extend(ex)
                elif v.k == "phi":
                    # align members of equal exact length
                    exs = [self.exact(m, st) for m in v.a[0] if m is not UNDEF]
                    if exs and all(e is not None and len(e) == len(exs[0]) for e in exs):
                        args.extend(phi([e[i] for e in exs]) for i in range(len(exs[0])))
                    else:
                        args.append(mk("star", v))
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.eval(a, st, fr))
        kw = []
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                kw.extend(self.expand_kwargs(v, st))
            else:
                kw.append((k.arg, v))
        return args, kw

    def expand_kwargs(self, v, st):
        if v.k == "phi":
            outs = [self.expand_kwargs(m, st) for m in v.a[0] if m is not UNDEF and m is not NONE]
            names = []
            for o in outs:
                for k, _ in o:
                    if k not in names:
                        names.append(k)
            res = []
            for k in names:
                vals = []
                missing = False
                for o in outs:
                    d = dict(o)
                    if k in d:
                        vals.append(d[k])
                    else:
                        missing = True
                if missing:
                    vals.append(UNDEF)
                res.append((k, phi(vals)))
            return res
        if self.is_container(v):
            ct = self.content(v, st)
            if ct is not None and ct.k == "map":
                out = []
                for k, x in ct.a[0]:
                    if k.k == "const" and isinstance(k.a[0], str):
                        out.append((k.a[0], x))
                if ct.a[1] is not UNDEF:
                    out.append(("**", ct.a[1]))
                return out
        return [("**", v)]

    def call(self, fv, args, kw, st, fr, node):
        k = fv.k
        if k == "phi":
            outs, vals = [], []
            n0 = len(self.events)
            ms = [m for m in fv.a[0] if m is not UNDEF]
            for m in ms:
                if self.nullness(m, st) == "none":
                    self.emit("null_deref_maybe", "<call>", st, fr, node, target=fv)
                    continue
                s = st.fork()
                try:
                    vals.append(self.call(m, args, kw, s, fr, node))
                    outs.append(s.flat(st))
                except Dead:
                    pass
            self.demote(n0, outs)
            if not outs:
                raise Dead()
            self.merge_into(st, outs)
            r = self.widen(phi(vals), st)
            g = st.get(("g", fv))
            if g is not None and len(vals) == 2 == len(ms) and r.k == "phi":
                a = vals[ms.index(g[1])] if g[1] in ms else None
                b = vals[ms.index(g[2])] if g[2] in ms else None
                if a is not None and b is not None:
                    st.set(("g", r), (g[0], a, b))
            return r
        if self.nullness(fv, st) == "none":
            self.emit("null_deref", "<call>", st, fr, node, target=fv)
            raise Dead()
        if k == "func":
            f, frame, dfl = self.funcs[fv]
            return self.call_func(f, frame, args, kw, st, fr, node, defaults=dfl)
        if k == "bound":
            inner, selfv = fv.a
            if inner.k == "func":
                f, frame, dfl = self.funcs[inner]
                return self.call_func(f, frame, [selfv] + args, kw, st, fr, node, selfv=selfv, defaults=dfl)
            return self.call(inner, [selfv] + args, kw, st, fr, node)
        if k == "partial":
            f0, a0, k0 = fv.a
            names = {x for x, _ in kw}
            return self.call(f0, list(a0) + args, [(x, y) for x, y in k0 if x not in names] + kw, st, fr, node)
        if k == "class":
            return self.instantiate(self.P.classes[fv.a[0]], args, kw, st, fr, node)
        if k == "xform":
            return self.models.call_xform(self, fv, args, kw, st, fr, node)
        if k == "bmeth":
            return self.models.call_bmeth(self, fv.a[0], fv.a[1], args, kw, st, fr, node)
        if k == "ext":
            return self.models.call_ext(self, fv.a[0], args, kw, st, fr, node)
        if k == "attr":
            return self.models.call_attr(self, fv.a[0], fv.a[1], args, kw, st, fr, node)
        c = self.cls_of(fv)
        if c is not None:
            d, r = c.lookup("__call__")
            if isinstance(r, FuncInfo):
                return self.call_func(r, None, [fv] + args, kw, st, fr, node, selfv=fv)
        self.emit("call", "<opaque>", st, fr, node, target=fv, args=args, kw=kw)
        self.models.escape_callables(self, args, kw, st, fr, node)
        return app(fv, args, kw)

    def bind(self, f: FuncInfo, args, kw, st, fr, node, frame, defaults):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        errs = []
        star_rest = None
        i = 0
        extra = []
        for v in args:
            if v.k == "star":
                star_rest = v.a[0]
                continue
            if i < len(pos):
                out[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        if star_rest is not None:
            for j, p in enumerate(pos[i:]):
                if p not in dict(kw):
                    out[p] = mk("item", star_rest, const(j)) if p not in out else out[p]
        if extra:
            if a.vararg:
                pass
            else:
                errs.append(f"takes {len(pos)} positional arguments but {len(args)} were given")
        if a.vararg:
            if star_rest is not None:
                out[a.vararg.arg] = star_rest if not extra else self.new_list_sum(phi(extra + [mk("elem", star_rest)]), st)
            else:
                out[a.vararg.arg] = tup(extra)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        kwrest = {}
        open_rest = UNDEF
        for n, v in kw:
            if n == "**":
                open_rest = v
                continue
            if n in names:
                if n in out and star_rest is None:
                    errs.append(f"got multiple values for argument {n!r}")
                if v.k == "phi" and UNDEF in v.a[0]:
                    d = self.default_value(f, n, frame, defaults, st, fr)
                    v = phi([m for m in v.a[0] if m is not UNDEF] + ([d] if d is not None else []))
                out[n] = v
            elif a.kwarg:
                kwrest[const(n)] = v
            else:
                if v.k == "phi" and UNDEF in v.a[0]:
                    continue
                errs.append(f"got an unexpected keyword argument {n!r}")
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                if open_rest is not UNDEF:
                    d = self.default_value(f, p, frame, defaults, st, fr)
                    it = mk("item", open_rest, const(p)) if open_rest.k != "app" or open_rest.a[0] != "opendict" else app("kwitem", (open_rest, const(p)))
                    out[p] = phi([it] + ([d] if d is not None else []))
                    continue
                d = self.default_value(f, p, frame, defaults, st, fr)
                if d is None:
                    errs.append(f"missing required argument {p!r}")
                    d = app("missing_arg:" + p)
                out[p] = d
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict(kwrest.items(), st, open_rest)
        return out, errs

    def default_value(self, f, p, frame, defaults, st, fr):
        if defaults and p in defaults:
            return defaults[p]
        if isinstance(f.node, ast.Lambda) or frame is not None:
            return None
        key = ("dflt", f.qual, p)
        if key in self.gcache:
            return self.gcache[key]
        a = f.node.args
        pos = a.posonlyargs + a.args
        node = None
        for x, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            if x.arg == p:
                node = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == p and d is not None:
                node = d
        if node is None:
            self.gcache[key] = None
            return None
        before = self.nobj
        try:
            v = self.eval(node, self.root, self.module_frame(f.mod))
        except Dead:
            v = app("default:" + f.qual + "." + p)
        if v.k == "obj":
            self.shared.add(v)
        self.gcache[key] = v
        return v

    def call_func(self, f: FuncInfo, frame, args, kw, st, fr, node, selfv=None, defaults=None):
        if selfv is None and f.cls is not None and args and f.kind in ("method", "property", "classmethod") and not isinstance(f.node, ast.Lambda):
            selfv = args[0]
        bound, errs = self.bind(f, args, kw, st, fr, node, frame, defaults)
        if self.norm is not None:
            bound = {k: self.normal(v, st) for k, v in bound.items()}
        ev = self.emit("call", f.qual, st, fr, node, target=f, args=args, kw=kw, bound=bound)
        for e in errs:
            self.emit("bind_error", f"{f.qual}() {e}", st, fr, node, target=f)
        if errs:
            raise Dead()
        stub = self.stubs.get(f.qual)
        if stub is not None:
            v = stub(self, bound, st, fr, node)
            ev.result = v
            st.set(("done", f.qual), TRUE)
            return v
        depth = len(fr.stack)
        rec = sum(1 for s in fr.stack if s[3] is f)
        if depth > self.MAX_DEPTH or rec >= self.rec_limit:
            self.emit("depth", f.qual, st, fr, node)
            v = app("rec:" + f.qual, args, kw)
            return v
        if any("abstract" in ast.unparse(d) for d in f.decos):
            v = app("abstract:" + f.qual, args, kw)
            ev.result = v
            return v
        self.analysed.add(f.qual)
        site = (fr.mod.relpath if fr.mod else "?", fr.f.qual if fr.f else "<entry>", getattr(node, "lineno", 0), f)
        nf = Frame(f, f.mod, f.cls, frame, fr.stack + (site,))
        if isinstance(f.node, ast.Lambda) and frame is not None:
            nf.cls = frame.cls
        nf.selfv = selfv
        if f.node not in self.locals_cache:
            self.locals_cache[f.node] = local_names(f.node)
        nf.locals = self.locals_cache[f.node]
        nf.base = st
        nf.conds0 = st.conds
        nf.node = node
        s = st.fork()
        for p, v in bound.items():
            s.set(("v", nf.fid, p), v)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, s, nf)
                nf.returns.append((s.flat(st), s.conds, v))
            else:
                self.block(f.node.body, s, nf)
                nf.returns.append((s.flat(st), s.conds, NONE))
        except Dead:
            pass
        if not nf.returns:
            if f.is_gen and nf.yields:
                nf.returns.append(({}, st.conds, NONE))
            else:
                self.emit("noreturn", f.qual, st, fr, node)
                raise Dead()
        self.merge_into(st, [r[0] for r in nf.returns])
        st.conds = self.common_conds([r[1] for r in nf.returns])
        v = self.widen(phi([r[2] for r in nf.returns]), st)
        if f.is_gen:
            v = mk("gen", phi(nf.yields) if nf.yields else UNDEF, tup(nf.seq) if self.exact_gens and nf.seq is not None else None)
        ev.result = v
        st.set(("done", f.qual), TRUE)
        self.emit("ret", f.qual, st, fr, node, target=f, result=v, extra=ev)
        return v

    def instantiate(self, c: ClassInfo, args, kw, st, fr, node):
        d, r = c.lookup("__new__")
        exts = c.ext_bases()
        if any("enum.Enum" == b for b in exts):
            return app("enumlookup:" + c.qual, args)
        v = self.new_obj(c, st)
        d, init = c.lookup("__init__")
        if isinstance(init, FuncInfo):
            self.emit("new", c.qual, st, fr, node, target=v, args=args, kw=kw)
            self.call_func(init, None, [v] + args, kw, st, fr, node, selfv=v)
        elif c.dataclass_like():
            fields = [f for f in c.all_fields()]
            names = [f[0] for f in fields]
            vals = {}
            for n, x in zip(names, args):
                vals[n] = x
            openr = None
            for n, x in kw:
                if n == "**":
                    openr = x
                else:
                    vals[n] = x
            for n, ann, dflt, dc in fields:
                if n not in vals and dflt is not None:
                    vals[n] = self.eval(dflt, self.root, self.module_frame(dc.mod))
                elif n not in vals and openr is not None:
                    vals[n] = mk("item", openr, const(n))
            bound = dict(vals)
            for n, x in vals.items():
                st.set(("f", v, n), x)
            self.emit("call", c.qual, st, fr, node, target=c, args=args, kw=kw, bound=bound, result=v)
            d, pi = c.lookup("__post_init__")
            if isinstance(pi, FuncInfo):
                self.call_func(pi, None, [v], [], st, fr, node, selfv=v)
        else:
            if (args or kw) and not exts:
                self.emit("bind_error", f"{c.qual}() takes no arguments", st, fr, node, target=c)
            self.emit("new", c.qual, st, fr, node, target=v, args=args, kw=kw)
            if exts:
                st.set(("f", v, "__ctor__"), app("ctor", args, kw))
        return v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            self.stmt(s, st, fr)

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            m(n, st, fr)

    def s_Expr(self, n, st, fr):
        self.eval(n.value, st, fr)

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.eval(n.value, st, fr)
            self.assign(n.target, v, st, fr)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, st, fr, t)
        elif isinstance(t, ast.Attribute):
            cur = self.attr(self.eval(t.value, st, fr), t.attr, st, fr, t)
        elif isinstance(t, ast.Subscript):
            cur = self.item(self.eval(t.value, st, fr), self.eval(t.slice, st, fr), st, fr, t)
        else:
            return
        r = self.eval(n.value, st, fr)
        if isinstance(t, ast.Name):
            self.emit("augassign", type(n.op).__name__, st, fr, n, target=cur, args=(r,), extra=t.id)
        # in-place list extension keeps identity
        if isinstance(n.op, ast.Add) and self.is_container(cur) and self.objcls[cur] == "list":
            self.models.call_bmeth(self, cur, "extend", [r], [], st, fr, n)
            v = cur
        else:
            v = self.binop(type(n.op).__name__, cur, r, st, fr, n)
        self.assign(t, v, st, fr)

    def s_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        f = fr
        f.returns.append((st.flat(f.base), st.conds, v))
        raise Dead()

    def s_Raise(self, n, st, fr):
        v = self.eval(n.exc, st, fr) if n.exc is not None else app("reraise")
        name = None
        if v.k == "ext":
            name = v.a[0]
        elif v.k == "app":
            name = v.a[0] if isinstance(v.a[0], str) else None
        elif v.k == "class":
            name = v.a[0]
        elif v.k == "obj":
            c = self.objcls.get(v)
            name = c.qual if isinstance(c, ClassInfo) else None
        self.emit("raise", name or "?", st, fr, n, target=v, extra=self.trylevel)
        raise Dead()

    def s_Assert(self, n, st, fr):
        v = self.test(n.test, st, fr)
        t = self.truth(v, st)
        if t is False:
            self.emit("raise", "builtins.AssertionError", st, fr, n, target=v)
            raise Dead()
        if t is None:
            self.assume(v, True, st)
            st.conds = st.conds + ((v, True),)

    def s_If(self, n, st, fr):
        c = self.test(n.test, st, fr)
        self.emit("truth_test", "if", st, fr, n, target=c)
        self.branch(c, lambda s: self.block(n.body, s, fr), lambda s: self.block(n.orelse, s, fr), st)

    def branch(self, c, fa, fb, st):
        t = self.truth(c, st)
        if t is True:
            fa(st)
            return
        if t is False:
            fb(st)
            return
        outs = []
        conds = []
        for pol, fn in ((True, fa), (False, fb)):
            s = st.fork()
            s.conds = st.conds + ((c, pol),)
            self.assume(c, pol, s)
            if not self.consistent(s):
                continue
            try:
                fn(s)
                outs.append(s.flat(st))
                conds.append(s.conds)
            except Dead:
                pass
        if not outs:
            raise Dead()
        self.merge_into(st, outs, cond=c if len(outs) == 2 else None)
        st.conds = self.common_conds(conds)

    def s_For(self, n, st, fr):
        it = self.listing(self.eval(n.iter, st, fr), st, fr, n)
        ex = self.exact(it, st) if it.k != "phi" else None
        if ex is not None and len(ex) <= 8 and not any(x is UNDEF for x in ex):
            self.loop_unrolled(n, it, ex, st, fr)
            return
        e = self.elem(it, st, fr, n.iter)
        if e is UNDEF:
            self.block(n.orelse, st, fr)
            return

        def pre(s):
            self.assign(n.target, e, s, fr)

        self.loop(n, app("loop", (it,)), pre, st, fr, None)

    def loop_unrolled(self, n, it, items, st, fr):
        breaks = []
        base = st
        cur = st.fork()
        alive = True
        for x in items:
            L = {"breaks": [], "conts": [], "base": cur}
            fr.loops.append(L)
            s = cur.fork()
            s.conds = base.conds + ((app("uloop" if self.exact_gens else "loop", (it,)), True),)
            outs = []
            try:
                self.assign(n.target, x, s, fr)
                self.block(n.body, s, fr)
                outs.append(s.flat(cur))
            except Dead:
                pass
            fr.loops.pop()
            outs.extend(L["conts"])
            for b in L["breaks"]:
                m = dict(cur.flat(base))
                m.update(b)
                breaks.append(m)
            if not outs:
                alive = False
                break
            self.merge_into(cur, outs)
        finals = list(breaks)
        if alive:
            try:
                self.block(n.orelse, cur, fr)
                finals.append(cur.flat(base))
            except Dead:
                pass
        if not finals:
            raise Dead()
        self.merge_into(base, finals)

    def s_While(self, n, st, fr):
        c = self.test(n.test, st, fr)
        t = self.truth(c, st)
        if t is False:
            self.block(n.orelse, st, fr)
            return

        def pre(s):
            pass

        self.loop(n, None, pre, st, fr, n.test)

    def loop(self, n, loopcond, pre, st, fr, test):
        infinite = False
        breaks_all = []
        cur = st.fork()
        exit_alive = True
        for it in range(2):
            L = {"breaks": [], "conts": [], "base": cur}
            s = cur.fork()
            fr.loops.append(L)
            outs = []
            try:
                if test is not None:
                    c = self.test(test, s, fr)
                    t = self.truth(c, s)
                    if t is True and it == 0 and c.k == "const":
                        infinite = True
                    if t is False:
                        raise Dead()
                    if t is None:
                        s.conds = s.conds + ((c, True),)
                        self.assume(c, True, s)
                else:
                    s.conds = s.conds + ((loopcond, True),)
                pre(s)
                self.block(n.body, s, fr)
                outs.append(s.flat(cur))
            except Dead:
                pass
            finally:
                fr.loops.pop()
            outs.extend(L["conts"])
            for b in L["breaks"]:
                m = dict(cur.flat(st))
                m.update(b)
                breaks_all.append(m)
            # 0 iterations, or the body's end
            outs.append({})
            outs = [{k: v for k, v in o.items() if k[0] not in ("t", "n")} for o in outs]
            self.merge_into(cur, outs, drop_undef_vars=True)
        finals = list(breaks_all)
        if not infinite:
            try:
                if test is not None:
                    c = self.test(test, cur, fr)
                    if self.truth(c, cur) is None:
                        self.assume(c, False, cur)
                self.block(n.orelse, cur, fr)
                finals.append(cur.flat(st))
            except Dead:
                pass
        if not finals:
            raise Dead()
        self.merge_into(st, finals, drop_undef_vars=True)

    def s_Break(self, n, st, fr):
        L = fr.loops[-1]
        L["breaks"].append(st.flat(L["base"]))
        raise Dead()

    def s_Continue(self, n, st, fr):
        L = fr.loops[-1]
        L["conts"].append(st.flat(L["base"]))
        raise Dead()

    def s_With(self, n, st, fr):
        exits = []
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            c = self.cls_of(v)
            if v.k == "gen":
                b = v.a[0]
            elif c is not None and isinstance(c.lookup("__enter__")[1], FuncInfo):
                b = self.call(self.attr(v, "__enter__", st, fr, n), [], [], st, fr, n)
                exits.append(v)
            else:
                b = v if v.k != "app" else app("enter", (v,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, b, st, fr)
        self.block(n.body, st, fr)
        for v in exits:
            self.call(self.attr(v, "__exit__", st, fr, n), [NONE, NONE, NONE], [], st, fr, n)

    def s_Try(self, n, st, fr):
        outs = []
        s = st.fork()
        self.trylevel += 1
        body_w = None
        try:
            try:
                self.block(n.body, s, fr)
                body_w = s.flat(st)
                self.block(n.orelse, s, fr)
                outs.append((s.flat(st), s.conds))
            except Dead:
                body_w = s.flat(st)
        finally:
            self.trylevel -= 1
        for h in n.handlers:
            if self.imports_ok and h.type is not None and body_w is not None and ast.unparse(h.type).split(".")[-1] in ("ModuleNotFoundError", "ImportError"):
                continue
            hs = st.fork()
            self.merge_into(hs, [body_w or {}, {}], drop_undef_vars=False)
            hs.conds = st.conds + ((app("except", (const(ast.unparse(h.type) if h.type else ""),)), True),)
            if h.name:
                hs.set(("v", fr.fid, h.name), app("exception"))
            try:
                self.block(h.body, hs, fr)
                outs.append((hs.flat(st), hs.conds))
            except Dead:
                pass
        if not outs:
            if n.finalbody:
                try:
                    self.block(n.finalbody, st.fork(), fr)
                except Dead:
                    pass
            raise Dead()
        self.merge_into(st, [o[0] for o in outs])
        st.conds = self.common_conds([o[1] for o in outs])
        self.block(n.finalbody, st, fr)

    def s_FunctionDef(self, n, st, fr):
        f = self.lambda_info.get(n)
        if f is None:
            f = FuncInfo(f"{fr.f.qual if fr.f else fr.mod.name}.{n.name}", n, fr.mod, fr.cls)
            self.lambda_info[n] = f
        f.kind = "nested"
        v = self.func_val(f, fr, self.eval_defaults(n, st, fr))
        v = self.apply_decos(v, f, st, fr)
        st.set(("v", fr.fid, n.name), v)

    def s_ClassDef(self, n, st, fr):
        st.set(("v", fr.fid, n.name), app("localclass:" + n.name))

    def s_Import(self, n, st, fr):
        for al in n.names:
            name = al.asname or al.name.split(".")[0]
            tgt = al.name if al.asname else al.name.split(".")[0]
            st.set(("v", fr.fid, name), self.entity_val(("mod", tgt)))

    def s_ImportFrom(self, n, st, fr):
        base = self.P._rel(fr.mod, n)
        for al in n.names:
            st.set(("v", fr.fid, al.asname or al.name), self.entity_val(self.P.resolve_from(base, al.name)))

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.set(("v", fr.fid, t.id), UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                key = self.eval(t.slice, st, fr)
                self.emit("delitem", "del", st, fr, t, target=o, args=(key,))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.emit("setattr", t.attr, st, fr, t, target=o, args=(UNDEF,))
                st.set(("f", o, t.attr), UNDEF)

    # ------------------------------------------------------------------ entry points
    def entry_frame(self, name="<entry>"):
        class _M:
            pass

        m = next(iter(self.P.modules.values()))
        fr = Frame(None, m, None, None, ())
        return fr

    def sym(self, label, cls=None, null="not", truth=None):
        v = sym(label)
        if cls is not None:
            self.types[v] = cls if isinstance(cls, ClassInfo) else self.P.cls(cls)
        if null is not None:
            self.null[v] = null
        return v


BOOLISH = {"is_none", "Eq", "In", "not", "and", "or", "Lt", "Gt", "LtE", "GtE", "isinstance", "hasattr", "callable", "issubclass"}


def is_boolish(v):
    return (v.k == "app" and v.a[0] in BOOLISH) or (v.k == "const" and isinstance(v.a[0], bool))


NONNULL_OPS = {
    "Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "MatMult", "neg", "fstr", "Eq", "In", "not", "and", "or",
    "Lt", "Gt", "LtE", "GtE", "range", "len", "deepcopy", "is_none", "slice", "batched", "grad", "str", "int", "float",
    "bool", "sum", "abs", "opendict", "exception", "enter",
}

OBJECT_ATTRS = {"__doc__", "__module__", "__eq__", "__hash__", "__repr__", "__str__", "__init_subclass__", "__reduce__", "__getattribute__", "__setattr__", "__sizeof__", "__ne__"}

import builtins as _b

BUILTINS = set(dir(_b))
