"""P27: axes of predictive results: sample axes are reduced or kept, data axes concatenated, in the order of the inputs."""
from .p17 import *
from .p17 import placeholders

EXPLANATION = (
    "Every evaluation method of the likelihoods and predictive distributions is evaluated symbolically, locally and distributed, with the model, calibrator and layer as placeholders. Every array in the "
    "resulting term gets the labels of its leading axes (posterior samples, target samples, classes, devices, data within a batch, data) from the operations that build it: mapping over keys or devices adds an "
    "axis, swaps permute, reshapes merge, reductions remove, concatenation joins batches. An obligation is checked at every operation: batches are concatenated along their data axis and over all of the loader, "
    "device and per-device data axes are merged in that order, reductions remove sample or class axes only, operands line up; and the final labels are those the method's documentation gives."
)
ASSUMPTIONS = ["the model, calibrator and layer act on each row of their inputs separately", "the device loader splits a batch in order (P19)"]

REDUCE = {"mean", "sum", "var", "std", "max", "min", "logsumexp", "median", "prod", "nanmean", "argmax", "argmin", "average", "any", "all", "amax", "amin"}
KEEP = {"softmax", "log_softmax", "sort", "cumsum", "exp", "log", "sqrt", "square", "abs", "clip", "maximum", "minimum", "neg", "where", "isnan", "nan_to_num", "log1p", "expm1", "power", "device_get", "array", "asarray", "astype", "block_until_ready",
        "Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod", "Gt", "Lt", "GtE", "LtE", "Eq", "NotEq", "negative", "not", "relu", "softplus", "argsort", "copy", "reciprocal", "multiply", "add", "subtract", "divide", "true_divide", "tree", "device_put"}
DATA = ("arg.inputs_loader", "arg.data_loader")
SAMPLES = ("S", "T", "C", "q", "1")


class Unknown(Exception):
    pass


class Axes:
    def __init__(self, ctx, k, w, src):
        self.ctx, self.k, self.w, self.src = ctx, k, w, src
        self.memo = {}
        self.folding = 0
        self.whole = 0

    def bad(self, what, msg):
        self.ctx.ob(f"{self.k}:{what}", False, self.w, msg)

    def ok(self, what):
        self.ctx.ob(f"{self.k}:{what}", True, self.w, "")

    def of(self, v):
        key = (v, self.folding > 0)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self.calc(v)
        r = self.memo[key]
        if r is None:
            raise Unknown(show(v, 3)[:80])
        return r

    def const_int(self, x):
        return x.a[0] if x is not None and x.k == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) else None

    def join(self, xs, v):
        """labels of an elementwise combination."""
        xs = [x for x in xs if x]
        if not xs:
            return ()
        m = max(xs, key=len)
        for x in xs:
            if len(x) == len(m) and x != m or len(x) < len(m) and m[len(m) - len(x):] != x:
                self.bad("operands", f"arrays with the axes {self.name(x)} and {self.name(m)} are combined: {show(v, 3)[:80]}")
        self.ok("operands")
        return m

    def name(self, x):
        names = {"S": "posterior samples", "T": "target samples", "B": "data", "b": "data of a device", "D": "devices", "C": "classes"}
        return "(" + ", ".join(names.get(l, l) for l in x) + ")"

    def kwarg(self, v, name, pos):
        d = dict(v.a[2]) if len(v.a) > 2 else {}
        if name in d:
            return d[name]
        return v.a[1][pos] if len(v.a[1]) > pos else None

    def reduce(self, x, ax, what, v):
        if ax is None or ax is NONE:
            if set(x) - set(SAMPLES):
                self.bad("reduction", f"{what} over all axes {self.name(x)}")
            return ()
        i = self.const_int(ax)
        if i is None:
            raise Unknown(show(v, 3)[:80])
        if i < 0 or i >= len(x):
            self.ok("reduction")
            return x
        good = x[i] in SAMPLES
        self.ctx.ob(f"{self.k}:reduction", good, self.w, f"{what} over axis {i} of {self.name(x)}")
        return x[:i] + x[i + 1:]

    def lanes(self, v):
        """first labels of what a mapped or collected expression runs over."""
        out = set()
        for y in sub(v):
            if y.k in ("elem", "lane"):
                try:
                    x = self.of(y.a[0])
                except Unknown:
                    continue
                if x:
                    out.add(x[0])
        return out

    def calc(self, v):
        k = v.k
        if k == "const":
            return ()
        if k == "phi":
            ms = [m for m in v.a[0] if m is not NONE and m is not UNDEF]
            xs = {self.of(m) for m in ms}
            ys = {x[1:] if x[:1] == ("q",) else x for x in xs}
            if len(ys) > 1:
                raise Unknown("axes depend on the path")
            return xs.pop() if len(xs) == 1 else ys.pop()
        if k == "tuple":
            return self.join([self.of(x) for x in v.a[0]], v)
        if k in ("elem", "lane"):
            names = {y.a[0] for y in sub(v) if y.k == "sym"}
            # the innermost loader element is a batch
            if k == "elem" and not any(y.k == "app" and y.a[0] in ("batched", "MODEL", "CAL") or y.k == "app" and str(y.a[0]).endswith(("concatenate", "quantile", ".split", "arange")) for y in sub(v.a[0])):
                if names & set(DATA):
                    dev = any(y.k == "app" and "prefetch_to_device" in str(y.a[0]) for y in sub(v.a[0]))
                    return ("D", "b") if dev else ("B",)
            x = self.of(v.a[0])
            return x[1:]
        if k == "sym":
            n = str(v.a[0])
            if n.startswith("<carry"):
                return ()
            return () if not n.startswith("arg.") or n not in ("arg.inputs", "arg.batch", "arg.means", "arg.variances") else ("B",)
        if k == "item":
            b, i = v.a
            if b.k == "attr" and b.a[1] == "shape":
                return ()
            if b.k == "app" and b.a[0].endswith("random.split") and not self.of(b):
                return ()
            x = self.of(b)
            if b.k in ("elem", "lane") and self.const_int(i) in (0, 1) and ({y.a[0] for y in sub(b) if y.k == "sym"} & set(DATA)) and self.is_batch(b):
                return x  # inputs or targets of a batch
            if i.k == "const" and isinstance(i.a[0], str):
                return x
            if i.k == "tuple":
                out = list(x)
                for j, y in enumerate(i.a[0]):
                    t = str(y)
                    if j < len(x) and not t.startswith("slice(None, None"):
                        if x[j] in ("B", "b", "D", "S"):
                            self.bad("complete", f"only a part of the axis {self.name((x[j],))} is used: {show(v, 2)[:60]}")
                return tuple(out)
            if i.k == "const" or i.k == "app" and i.a[0] == "loopidx":
                if not x:
                    return ()
                if x[0] in ("B", "b", "D") or x[0] == "S" and not self.folding and i.k == "const":
                    self.bad("complete", f"a single element of the axis {self.name(x[:1])} is used: {show(v, 2)[:80]}")
                return x[1:]
            if str(i).startswith("slice("):
                if x and x[0] in ("B", "b", "D", "S") and str(i) != "slice(None, None, None)":
                    self.bad("complete", f"only a part of the axis {self.name(x[:1])} is used: {show(v, 2)[:80]}")
                return x
            self.of(i)
            return x[1:]
        if k == "attr":
            if v.a[1] == "T":
                x = self.of(v.a[0])
                if len(x) > 1:
                    raise Unknown("transpose")
                return x
            return ()
        if k == "leaf":
            return self.of(v.a[0])
        if k in ("rlist", "rsum"):
            raise Unknown("list as an array")
        if k != "app":
            return ()
        return self.op(v)

    def is_batch(self, b):
        while b.k == "lane":
            b = b.a[0]
        return b.k == "elem"

    def op(self, v):
        op = str(v.a[0])
        a = v.a[1]
        short = op.rsplit(".", 1)[-1]
        if op == "POST":
            return ()
        if op == "MODEL":
            x = self.of(a[1])
            self.ctx.ob(f"{self.k}:model inputs", x in (("B",), ("b",)), self.w, f"the model is applied to an array with the axes {self.name(x)}")
            return x
        if op == "CAL":
            return self.of(a[1])
        if op.startswith("LAYER."):
            x = self.of(a[0])
            if a[1] is not NONE:
                y = self.of(a[1])
                # outputs may have leading sample axes in front of the targets'
                fit = not y or y == x[len(x) - len(y):] or len(y) > len(x) and x == y[len(y) - len(x):] and set(y[:len(y) - len(x)]) <= set(SAMPLES)
                x = max(x, y, key=len)
                self.ctx.ob(f"{self.k}:targets", fit, self.w, f"outputs with the axes {self.name(x)} are evaluated at targets with the axes {self.name(y)}")
            return ("T",) + x if op.endswith("sample") else x
        if op == "fold":
            lo, hi, init, idx, carry, nxt = a
            self.folding += 1
            try:
                xs = [self.of(init), self.of(nxt)]
            finally:
                self.folding -= 1
            return self.join(xs, v)
        if op == "batched":
            x = self.of(a[0])
            srcs = self.src.get(v) or set()
            labs = set()
            for s in srcs:
                for e in s:
                    if e is NONE or e.k == "const":
                        continue
                    if e.k in ("tuple", "rlist"):
                        es = list(e.a[0])
                    else:
                        es = [e]
                    for z in es:
                        try:
                            y = self.of(z)
                        except Unknown:
                            continue
                        if y:
                            labs.add(y[0])
            if len(labs) != 1:
                raise Unknown(f"axis mapped over unknown ({sorted(labs)})")
            return (labs.pop(),) + x
        if op.endswith("random.split") or short == "split" and "random" in op:
            n = a[1] if len(a) > 1 else self.kwarg(v, "num", 1)
            base = self.of(a[0]) if a[0].k != "sym" else ()
            if n is None or n.k == "const":
                return base
            names = {str(y.a[0]) for y in sub(n) if y.k == "sym"}
            return ("T" if any("target" in y for y in names) else "S",)
        if op.startswith("jax.random."):
            return ()
        if short == "shard_prng_key":
            return ("D",)
        if op.startswith("jax.random."):
            return ()
        if short in ("swapaxes",):
            x = self.of(a[0])
            i, j = self.const_int(a[1]), self.const_int(a[2])
            if i is None or j is None or i < 0 or j < 0:
                raise Unknown("swapaxes")
            if max(i, j) >= len(x):
                if min(i, j) >= len(x):
                    return x
                raise Unknown("swap with a trailing axis")
            x = list(x)
            x[i], x[j] = x[j], x[i]
            return tuple(x)
        if short == "moveaxis":
            x = list(self.of(a[0]))
            i, j = self.const_int(a[1]), self.const_int(a[2])
            if i is None or j is None or not (0 <= i < len(x) and 0 <= j < len(x)):
                raise Unknown("moveaxis")
            y = x.pop(i)
            x.insert(j, y)
            return tuple(x)
        if short in ("transpose",):
            x = self.of(a[0])
            if len(x) < 1:
                return x
            ax = [self.const_int(y) for y in (a[1].a[0] if len(a) > 1 and a[1].k == "tuple" else a[1:])]
            if len(ax) < len(x) or any(i is None for i in ax):
                raise Unknown("transpose")
            y = [x[i] if i < len(x) else None for i in ax]
            while y and y[-1] is None:
                y.pop()
            if None in y:
                raise Unknown("transpose")
            return tuple(y)
        if short == "reshape":
            return self.reshape(v)
        if short in ("concatenate", "vstack", "hstack"):
            return self.concat(v, const(0) if short == "vstack" else self.kwarg(v, "axis", 1) or const(0))
        if short == "stack":
            x, lab = self.listed(a[0])
            ax = self.kwarg(v, "axis", 1)
            i = 0 if ax is None else self.const_int(ax)
            if i is None or i < 0 or i > len(x):
                raise Unknown("stack")
            return x[:i] + (lab,) + x[i:]
        if short in ("array", "asarray") and a and a[0].k in ("rsum", "rlist"):
            x, lab = self.listed(a[0])
            return (lab,) + x
        if short in ("zeros", "ones", "full", "empty"):
            sh = a[0] if a else self.kwarg(v, "shape", 0)
            es = list(sh.a[0]) if sh.k in ("tuple", "rlist") else [sh]
            out = []
            for e in es:
                l = self.extent(e)
                if l is None:
                    break
                out.append(l)
            return tuple(out)
        if short in ("zeros_like", "ones_like", "full_like"):
            return self.of(a[0])
        if short == "arange":
            l = self.extent(a[-1])
            return (l or "C",)
        if short in ("len", "loopidx"):
            return ()
        if short in ("quantile", "percentile", "nanquantile"):
            x = self.of(a[0])
            r = self.reduce(x, self.kwarg(v, "axis", 2), short, v)
            q = self.kwarg(v, "q", 1)
            return (("q",) if q is not None and any(y.k in ("rlist", "tuple") or y.k == "app" and str(y.a[0]).endswith("array") for y in members(q)) else ()) + r
        if short == "squeeze":
            x = self.of(a[0])
            i = self.const_int(self.kwarg(v, "axis", 1))
            if i is None:
                raise Unknown("squeeze")
            if 0 <= i < len(x):
                self.ctx.ob(f"{self.k}:squeezed", x[i] in ("T", "q", "1"), self.w, f"the axis {i} of {self.name(x)} is dropped")
                return x[:i] + x[i + 1:]
            return x
        if short == "expand_dims":
            x = self.of(a[0])
            i = self.const_int(self.kwarg(v, "axis", 1))
            if i is None:
                raise Unknown("expand_dims")
            return x if i < 0 or i > len(x) else x[:i] + ("1",) + x[i:]
        if short in REDUCE and (op.startswith(("jax.", "numpy.", "."))):
            x = self.of(a[0])
            kd = dict(v.a[2]).get("keepdims") if len(v.a) > 2 else None
            ax = self.kwarg(v, "axis", 1)
            r = self.reduce(x, ax, short, v)
            if kd is not None and kd is not FALSE and len(r) < len(x):
                raise Unknown("keepdims")
            return r
        if short in KEEP:
            return self.join([self.of(x) for x in a], v)
        if op == "oneof":
            return self.of(a[0])
        raise Unknown(op)

    def extent(self, e):
        """label of an axis whose length an expression gives, or None."""
        if e.k == "app" and str(e.a[0]).endswith("len") and e.a[1]:
            x = self.of(e.a[1][0])
            return x[0] if x else None
        if e.k == "item" and e.a[0].k == "attr" and e.a[0].a[1] == "shape":
            x = self.of(e.a[0].a[0])
            i = self.const_int(e.a[1])
            if i is not None and 0 <= i < len(x):
                return x[i]
            return "C" if i == -1 else None
        return None

    def listed(self, l):
        """labels of the elements of a list, and of the list itself."""
        e = l
        if l.k == "rsum":
            e = l.a[0]
        elif l.k == "rlist" and len(l.a[0]) == 1 and any(y.k in ("elem", "lane") for y in sub(l.a[0][0])):
            e = l.a[0][0]
        elif l.k in ("rlist", "tuple"):
            xs = {self.of(x) for x in l.a[0]}
            if len(xs) != 1:
                raise Unknown("list of different arrays")
            return xs.pop(), "q"
        else:
            raise Unknown("list")
        if e.k == "tuple":
            xs = {self.of(x) for x in e.a[0]}
        else:
            xs = {self.of(e)}
        labs = self.lanes(e)
        tops = {l for l in labs if l not in ("D", "b")} or labs
        if len(xs) != 1:
            raise Unknown("list of different arrays")
        # what the list runs over is the outermost element expression
        lab = self.outer(e)
        return xs.pop(), lab if lab else (tops.pop() if len(tops) == 1 else "?")

    def outer(self, e):
        labs = set()
        for y in sub(e):
            if y.k == "elem":
                try:
                    x = self.of(y.a[0])
                except Unknown:
                    continue
                if x:
                    labs.add(x[0])
        return labs.pop() if len(labs) == 1 else None

    def concat(self, v, ax):
        l = v.a[1][0]
        i = self.const_int(ax)
        if i is None:
            raise Unknown("concatenate")
        if l.k in ("tuple", "rlist") and not (len(l.a[0]) == 1 and l.k == "rlist"):
            xs = {self.of(x) for x in l.a[0]}
            if len(xs) != 1 or i >= 0 and i < len(next(iter(xs))):
                raise Unknown("concatenation of arrays")
            return xs.pop()
        e = l.a[0] if l.k == "rsum" else l.a[0][0] if l.k == "rlist" else None
        if e is None:
            raise Unknown("concatenation of a value")
        x = self.of(e)
        over = [y for y in sub(e) if y.k == "elem" and {z.a[0] for z in sub(y) if z.k == "sym"} & set(DATA)]
        self.ctx.ob(f"{self.k}:all batches", bool(over), self.w, "what is concatenated does not run over the batches of the loader")
        good = 0 <= i < len(x) and x[i] == "B"
        self.ctx.ob(f"{self.k}:concatenation", good, self.w, f"batches with the axes {self.name(x)} are concatenated along axis {i}")
        return x

    def reshape(self, v):
        a = v.a[1]
        x = self.of(a[0])
        sh = a[1] if len(a) == 2 else tup(list(a[1:]))
        # (shape[0] * shape[1],) + shape[2:]
        if sh.k == "app" and sh.a[0] == "Add" and len(sh.a[1]) == 2 and sh.a[1][0].k == "tuple":
            head, tail = sh.a[1]
        elif sh.k == "tuple" and sh.a[0] and sh.a[0][-1].k == "app" and str(sh.a[0][-1].a[0]) in ("star", "*"):
            head, tail = tup(list(sh.a[0][:-1])), sh.a[0][-1].a[1][0]
        elif sh.k == "tuple":
            head, tail = sh, None
        else:
            raise Unknown("reshape")
        out, pos = [], 0
        hs = list(head.a[0])
        for e in hs:
            i = self.const_int(e)
            if i == 1:
                out.append("1")
                continue
            if i == -1:
                if e is not hs[0]:
                    raise Unknown("reshape")
                if tail is not None:
                    t = str(tail)
                    m = [y for y in sub(tail) if y.k == "item"]
                n = self.from_tail(tail) if tail is not None else len(x)
                if n is None:
                    raise Unknown("reshape")
                out += self.merge(x[pos:n])
                pos = n
                continue
            n = 0
            fs = self.factors(e)
            for f in fs:
                j = self.const_int(f.a[1]) if f.k == "item" and f.a[0].k == "attr" and f.a[0].a[1] == "shape" and f.a[0].a[0] is a[0] else None
                if j is None or j != pos + n:
                    raise Unknown("reshape")
                n += 1
            out += self.merge(x[pos:pos + n])
            pos += n
        if tail is not None:
            n = self.from_tail(tail)
            if n != pos:
                raise Unknown("reshape")
        out += x[pos:]
        return tuple(out)

    def factors(self, e):
        if e.k == "app" and e.a[0] == "Mult":
            return [y for x in e.a[1] for y in self.factors(x)]
        return [e]

    def from_tail(self, t):
        """n of shape[n:]"""
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape":
            s = str(t.a[1])
            if s.startswith("slice(") and s.endswith(", None, None)"):
                n = s[6:].split(",")[0]
                return int(n) if n.isdigit() else None
        return None

    def merge(self, ls):
        if len(ls) <= 1:
            return list(ls)
        if tuple(ls) == ("D", "b"):
            self.ok("devices merged")
            return ["B"]
        self.bad("devices merged", f"the axes {self.name(ls)} are merged into one")
        return ["*".join(ls)]


WANT = {"ensemble_log_prob": ("S", "B"), "sample": ("T", "B"), "sample_calibrated_outputs": ("S", "B")}
LISTS = ("conformal_set", "credible_set")


def shapes(ctx, it):
    label, dist = it
    P = ctx.P
    r = [x for x in receivers(P) if x.label == label][0]
    log = []

    def go():
        a = Api(P)
        I = a.s.I
        I.batch_src = {}
        I.batch_dicts = True
        recv = r.build(a)
        if label.startswith("Prob") and r.fitted:
            r.fitted(a, recv)
        elif label.endswith(".predictive"):
            rep = P.cls("TrainStateRepository")
            for q in {x.lookup("get")[1].qual for x in P.classes.values() if rep in x.mro}:
                I.stubs[q] = lambda I, b, st, fr, n: I.sym("STATE", None, "not")
            I.store_attr(recv, "state", a.s.given("REPOSITORY", rep.qual), a.s.st, a.s.fr, None)
        c = class_of(a.s, recv)
        n = 0
        for meth in sorted({m for b in c.mro if isinstance(b, ClassInfo) for m in b.methods}):
            d, f = c.lookup(meth)
            if not isinstance(f, FuncInfo) or meth.startswith("_") or is_abstract_fn(f) or any(x.startswith("property") or x.endswith("setter") for x in deco_names(f)):
                continue
            ps = [p for p, *_ in params_of(f)]
            if not any(p in ps for p in ("inputs_loader", "data_loader")) or meth in LISTS or "conformal" in meth:
                continue
            for aux in ((False, True) if "return_aux" in ps else (None,)):
                ov = {"distribute": TRUE if dist else FALSE} if "distribute" in ps else {}
                if aux is not None:
                    ov["return_aux"] = I.new_list([const("outputs")], a.s.st) if aux else NONE
                omit = [p for p in ps if p in EXTRA + ("variance", "variances", "means", "target_samples", "interval_type")]
                I.list_cuts.clear()
                v, ev, end = a.call(meth, f, omit, override=ov)
                k = f"{label}.{meth}:{'distributed' if dist else 'local'}{':outputs' if aux else ''}"
                if v is None:
                    ctx.ob(k, False, f.qual, "never returns")
                    continue
                n += 1
                cut = [x for x in I.list_cuts if any(y.k == "app" and y.a[0] in ("MODEL", "POST") or y.k == "sym" and y.a[0] in DATA for y in sub(reified(a, x, end, 16)))]
                ctx.ob(f"{k}:all collected results", not cut, f.qual, "only a part of the results collected over the batches is used")
                v = reified(a, v, end, 16)
                want = WANT.get(meth, ("B",))
                for m in members(v):
                    parts = [("", m, want)]
                    if aux:
                        if m.k != "tuple" or len(m.a[0]) != 2:
                            ctx.undec(k, "samples and outputs are not returned as a pair")
                            continue
                        parts = [("", m.a[0][0], want)]
                        z = m.a[0][1]
                        o = next((y for q, y in z.a[0] if (q.a[0] if isinstance(q, V) else q) == "outputs"), None) if z.k == "rmap" else None
                        if o is None:
                            ctx.undec(f"{k}:aux", f"auxiliary values of unknown form {show(z, 3)[:80]}")
                        else:
                            parts.append((" of the outputs", o, want if label.startswith("Prob") and ".predictive" in label else ("B",)))
                    for what, x, wt in parts:
                        A = Axes(ctx, k, f.qual, I.batch_src)
                        try:
                            got = A.of(x)
                        except Unknown as e:
                            ctx.undec(f"{k}:axes{what}", f"cannot follow the axes: {e}")
                            continue
                        if got[:1] == ("q",):
                            got = got[1:]
                        ctx.ob(f"{k}:axes{what}", got == wt, f.qual, f"the result{what} has the axes {A.name(got)} instead of {A.name(wt)}")
        ctx.absorb(a.s)
        ctx.need(f"evaluation methods of {label}", n, 5)

    with_prep(placeholders(P, log), go)


def run(ctx):
    P = ctx.P
    R = {r.label for r in receivers(P)}
    ap = ("map",) if ctx.tier == "quick" else tuple(APPROX)
    items = []
    for k in ("Classifier", "Regressor"):
        for d in (True, False):
            items += [(f"Prob{k}[{m}].predictive", d) for m in ap]
            items += [(f"Prob{k}[map].likelihood", d), (f"Calib{k}.likelihood", d), (f"Calib{k}.predictive", d)]
    items = [i for i in items if i[0] in R]
    ctx.need("likelihoods and predictive distributions", len({i[0] for i in items}), 8)
    ctx.pmap(shapes, items)
