"""Whole-program front end: modules, imports, classes, C3 linearisation."""
from __future__ import annotations

import ast
import hashlib
import os
import warnings


class FuncInfo:
    __slots__ = ("qual", "name", "node", "mod", "cls", "decos", "is_gen", "kind", "jit", "outer")

    def __init__(self, qual, node, mod, cls=None, outer=None):
        self.qual = qual
        self.name = getattr(node, "name", "<lambda>")
        self.node = node
        self.mod = mod
        self.cls = cls
        self.outer = outer
        self.decos = list(getattr(node, "decorator_list", []))
        self.kind = "func"
        self.jit = None
        self.is_gen = _is_gen(node)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def __repr__(self):
        return f"<F {self.qual}>"

    @property
    def loc(self):
        return f"{self.mod.relpath}:{self.node.lineno}"


def _is_gen(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, qual, node, mod):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.mod = mod
        self.methods: dict[str, FuncInfo] = {}
        self.attrs: dict[str, ast.AST] = {}
        self.fields: list[tuple[str, ast.AST | None, ast.AST | None]] = []
        self.bases = []  # ClassInfo | str (external dotted)
        self.mro = None
        self.subclasses: list[ClassInfo] = []
        self.dyn_attrs: list = []  # vars()[NAME] = value

    def __repr__(self):
        return f"<C {self.qual}>"

    @property
    def loc(self):
        return f"{self.mod.relpath}:{self.node.lineno}"

    def lookup(self, name, after=None):
        """First definition of ``name`` along the MRO (optionally after a class)."""
        started = after is None
        for c in self.mro:
            if not started:
                if c is after:
                    started = True
                continue
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c, c.methods[name]
                if name in c.attrs:
                    return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassInfo) and c not in ("object", "builtins.object", "abc.ABC")]

    def is_sub(self, other):
        return other in self.mro

    def dataclass_like(self):
        for c in self.mro:
            if isinstance(c, ClassInfo):
                for d in c.node.decorator_list:
                    s = ast.unparse(d)
                    if "dataclass" in s:
                        return True
            elif any(t in c for t in ("PyTreeNode", "nn.Module", "linen.Module", "TrainState", "NamedTuple", "linen.module.Module", "struct.")):
                return True
        return False

    def all_fields(self):
        out = []
        names = {}
        for c in reversed(self.mro):
            if isinstance(c, ClassInfo):
                for n, ann, dflt in c.fields:
                    if n in names:
                        out[names[n]] = (n, ann, dflt, c)
                    else:
                        names[n] = len(out)
                        out.append((n, ann, dflt, c))
        return out

    def is_abstract(self):
        seen = set()
        for c in self.mro:
            if isinstance(c, ClassInfo):
                for n, f in c.methods.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if any("abstract" in ast.unparse(d) for d in f.decos):
                        return True
                for n in c.attrs:
                    seen.add(n)
        return False


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.binds: dict[str, list] = {}
        self.stars: list[str] = []

    def __repr__(self):
        return f"<M {self.name}>"


def _c3(cls, get_mro):
    seqs = [list(get_mro(b)) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            # inconsistent: fall back to order of appearance
            h = seqs[0][0]
        out.append(h)
        seqs = [[x for x in s if x != h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Program:
    def __init__(self, root="/repo", pkg="fortuna"):
        self.root = root
        self.pkg = pkg
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.functions: dict[str, FuncInfo] = {}
        self.by_node: dict = {}
        self.syntax_errors = []
        h = hashlib.sha256()
        for dp, dn, fns in sorted(os.walk(os.path.join(root, pkg))):
            dn.sort()
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = mod.endswith(".__init__")
                if is_pkg:
                    mod = mod[: -len(".__init__")]
                src = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode())
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(src, filename=rel)
                except SyntaxError as e:
                    self.syntax_errors.append((rel, str(e)))
                    continue
                self.modules[mod] = Module(mod, p, rel, tree, is_pkg)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._collect(m)
        for c in list(self.classes.values()):
            c.bases = [self._resolve_base(c.mod, b) for b in c.node.bases]
        done = {}

        def get_mro(c):
            if not isinstance(c, ClassInfo):
                return [c]
            if c.qual in done:
                return done[c.qual]
            done[c.qual] = [c]
            r = _c3(c, get_mro)
            done[c.qual] = r
            return r

        for c in self.classes.values():
            c.mro = get_mro(c)
        for c in self.classes.values():
            for b in c.mro[1:]:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)
        for c in self.classes.values():
            for k, v in c.dyn_attrs:
                name = self.const_of(c.mod, k)
                if name is not None:
                    c.attrs[name] = v

    # ---- collection
    def _collect(self, m: Module):
        def walk(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.binds.setdefault(al.asname, []).append(("mod", al.name))
                        else:
                            top = al.name.split(".")[0]
                            m.binds.setdefault(top, []).append(("mod", top))
                elif isinstance(s, ast.ImportFrom):
                    base = self._rel(m, s)
                    for al in s.names:
                        if al.name == "*":
                            m.stars.append(base)
                        else:
                            m.binds.setdefault(al.asname or al.name, []).append(("from", base, al.name))
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(f"{m.name}.{s.name}", s, m)
                    self.functions[f.qual] = f
                    self.by_node[s] = f
                    m.binds.setdefault(s.name, []).append(("func", f))
                elif isinstance(s, ast.ClassDef):
                    c = self._collect_class(m, s, f"{m.name}.{s.name}")
                    m.binds.setdefault(s.name, []).append(("class", c))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.binds.setdefault(n.id, []).append(("expr", s.value, t))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None:
                        m.binds.setdefault(s.target.id, []).append(("expr", s.value, s.target))
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        walk(getattr(s, fld, []) or [])
                    for hd in getattr(s, "handlers", []) or []:
                        walk(hd.body)

        walk(m.tree.body)

    def _collect_class(self, m, node, qual):
        c = ClassInfo(qual, node, m)
        self.classes[qual] = c

        def walk(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    decos = [ast.unparse(d) for d in s.decorator_list]
                    f = FuncInfo(f"{qual}.{s.name}", s, m, c)
                    if any(d.endswith(".setter") for d in decos):
                        f.qual += ".setter"
                        c.methods[s.name + "@setter"] = f
                    else:
                        if any(d.split(".")[-1] in ("property", "cached_property", "abstractproperty") for d in decos):
                            f.kind = "property"
                        elif any(d.endswith("staticmethod") for d in decos):
                            f.kind = "static"
                        elif any(d.endswith("classmethod") for d in decos):
                            f.kind = "classmethod"
                        else:
                            f.kind = "method"
                        c.methods[s.name] = f
                    self.functions[f.qual] = f
                    self.by_node[s] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                            c.methods.pop(t.id, None)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id in ("vars", "locals"):
                            c.dyn_attrs.append((t.slice, s.value))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.fields.append((s.target.id, s.annotation, s.value))
                    if s.value is not None:
                        c.attrs[s.target.id] = s.value
                elif isinstance(s, ast.ClassDef):
                    self._collect_class(m, s, f"{qual}.{s.name}")
                elif isinstance(s, (ast.If, ast.Try)):
                    walk(s.body)
                    walk(s.orelse)

        walk(node.body)
        return c

    def _rel(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts.append(s.module)
        return ".".join(parts)

    def const_of(self, mod, expr):
        for _ in range(5):
            if isinstance(expr, ast.Constant):
                return expr.value
            if isinstance(expr, ast.Attribute) and expr.attr == "__name__":
                r = self.resolve_dotted(mod, expr.value)
                return r[1].name if r and r[0] == "class" else None
            r = self.resolve_dotted(mod, expr)
            if r is None or r[0] != "expr":
                return None
            expr, mod = r[1], r[3]
        return None

    # ---- resolution of dotted names
    def resolve_global(self, m: Module, name, _depth=0):
        """-> ('mod',n)|('func',f)|('class',c)|('expr',node,target,mod)|('ext',dotted)|None"""
        if _depth > 20:
            return None
        bs = m.binds.get(name)
        if bs:
            b = bs[-1]
            if b[0] == "mod":
                return ("mod", b[1])
            if b[0] == "from":
                return self.resolve_from(b[1], b[2], _depth + 1)
            if b[0] == "expr":
                return ("expr", b[1], b[2], m)
            return b
        for st in m.stars:
            if st in self.modules:
                r = self.resolve_global(self.modules[st], name, _depth + 1)
                if r:
                    return r
            elif not st.startswith(self.pkg + "."):
                return ("ext", f"{st}.{name}")
        return None

    def resolve_from(self, base, name, _depth=0):
        if base in self.modules:
            r = self.resolve_global(self.modules[base], name, _depth + 1)
            if r:
                return r
            if f"{base}.{name}" in self.modules:
                return ("mod", f"{base}.{name}")
            return ("missing", f"{base}.{name}")
        if base.split(".")[0] == self.pkg:
            return ("missing", f"{base}.{name}")
        return ("ext", f"{base}.{name}")

    def resolve_dotted(self, m: Module, expr):
        """Resolve a Name/Attribute chain to a static entity."""
        if isinstance(expr, ast.Name):
            return self.resolve_global(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_dotted(m, expr.value)
            if b is None:
                return None
            if b[0] == "mod":
                full = f"{b[1]}.{expr.attr}"
                if b[1] in self.modules:
                    r = self.resolve_global(self.modules[b[1]], expr.attr)
                    if r:
                        return r
                    if full in self.modules:
                        return ("mod", full)
                    return ("missing", full)
                if full in self.modules:
                    return ("mod", full)
                return ("ext", full)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{expr.attr}")
            if b[0] == "class":
                _, r = b[1].lookup(expr.attr)
                if isinstance(r, FuncInfo):
                    return ("func", r)
        return None

    def _resolve_base(self, m, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        r = self.resolve_dotted(m, b)
        if r is None:
            return "builtins." + ast.unparse(b)
        if r[0] == "class":
            return r[1]
        if r[0] in ("mod", "ext"):
            return r[1]
        return "?" + ast.unparse(b)

    def cls(self, name) -> ClassInfo:
        if name in self.classes:
            return self.classes[name]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1:
            return c[0]
        raise AnchorError(f"class {name}: {len(c)} definitions")

    def func(self, name) -> FuncInfo:
        if name in self.functions:
            return self.functions[name]
        c = [x for x in self.functions.values() if x.qual.endswith("." + name)]
        if len(c) == 1:
            return c[0]
        raise AnchorError(f"function {name}: {len(c)} definitions")


class AnchorError(Exception):
    """An entity the rule is anchored on no longer exists: analysis broken."""
