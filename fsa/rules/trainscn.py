"""Unrolled abstract runs of the training loops of every trainer class."""
from .common import *
from .apiscn import Api, params_of, deco_names

EPOCHS, BATCHES, VALS = 2, 2, 1


FAMILIES = {
    "TrainerABC": dict(state="TrainState", td="training_dataloader", vd="validation_dataloader", vn="validation_dataset_size", val="validation_step"),
    "OutputCalibratorABC": dict(state="OutputCalibState", td="training_data_loader", vd="val_data_loader", vn="val_dataset_size", val="val_step",
                                to="calib_outputs_loader", vo="val_outputs_loader"),
    "OutputCalibModelCalibrator": dict(state="OutputCalibState", val="val_step", tt="calib_targets", vt="val_targets", to="calib_outputs", vo="val_outputs"),
}


def family(P, c):
    for n in FAMILIES:
        if P.cls(n) in c.mro:
            return n
    return None


def trainers(P, base="TrainerABC"):
    """concrete trainer classes (every abstract step defined)."""
    t = P.cls(base)
    out = []
    for c in P.classes.values():
        if t not in c.mro or (c is t and base != "OutputCalibModelCalibrator"):
            continue
        ok = True
        for m in ("training_loss_step", FAMILIES[base]["val"]):
            d, f = c.lookup(m)
            if not isinstance(f, FuncInfo) or "abstractmethod" in " ".join(deco_names(f)):
                ok = False
        if ok:
            out.append(c)
    return out


def all_trainers(P):
    return [c for b in FAMILIES for c in trainers(P, b)]


class TrainRun:
    """train() with two epochs of two batches, the steps and callbacks opaque but recorded in order."""

    def __init__(self, P, cls, epochs=EPOCHS, ncb=2, nval=VALS, val=True, kwargs=None, stop=None, fields=None, over=None, keep=(), val_every=1, gas=None, es=None):
        self.P, self.cls = P, cls
        self.family = family(P, cls)
        F = self.F = FAMILIES[self.family]
        a = self.a = Api(P)
        s = self.s = a.s
        I = s.I
        self.seq = []
        self.means = []
        self.n = 0
        self.fulls = "tt" in F  # one full-data step per epoch
        self.batches = [s.sym(f"B{i}", None, "not") for i in range(1 if self.fulls else BATCHES)]
        self.outs = [s.sym(f"O{i}", None, "not") for i in range(len(self.batches))] if "to" in F else []
        self.vouts = [s.sym(f"VO{i}", None, "not") for i in range(nval)] if "to" in F else []
        self.vals = [s.sym(f"V{i}", None, "not") for i in range(nval)]
        self.cbs = [s.sym(f"CB{i}", None, "not") for i in range(ncb)]
        s.I.ext_stubs = {
            "tqdm.trange": lambda I, args, kw, st, fr, node: app("range", tuple(args)),
            "tqdm.auto.trange": lambda I, args, kw, st, fr, node: app("range", tuple(args)),
            "tqdm.tqdm": lambda I, args, kw, st, fr, node: args[0],
        }
        self.es = None
        self.es_made = []
        self.es_updates = []
        if es is not None:
            script = iter(es)

            def fresh(I, st, imp, stop):
                return I.new_obj("EarlyStopping", st, fields={"has_improved": const(imp), "should_stop": const(stop)})

            def make(I, args, kw, st, fr, node):
                self.es_made.append((tuple(args), dict(kw)))
                return fresh(I, st, False, False)

            def update(I, recv, args, kw, st, fr, node):
                if not (recv.k == "obj" and recv.a[1] == "EarlyStopping"):
                    return None
                x = args[0] if args else dict(kw).get("metric", UNDEF)
                self.es_updates.append((len(I.events), I.models.reify(I, x, st, 6), st.conds, recv))
                return fresh(I, st, *next(script, (True, False)))

            s.I.ext_stubs["flax.training.early_stopping.EarlyStopping"] = make
            s.I.method_stubs = {"update": update}
        ov = {"freeze_fun": NONE, "eval_every_n_epochs": const(val_every), "early_stopping_patience": const(0), "multi_device": FALSE}
        ov.update(over or {})
        names = {n for n, _, _, _ in a.ctor_params(cls)}
        one = lambda xs: xs[0] if self.fulls else tup(xs)
        for n, v in (("to", self.outs), ("vo", self.vouts if val else None), ("tt", self.batches), ("vt", self.vals if val else None)):
            if n in F:
                ov[F[n]] = one(v) if v is not None else NONE
        self.recv = a.build(cls, override={k: v for k, v in ov.items() if k in names})
        for n, v in (fields or {}).items():
            I.store_attr(self.recv, n, v, s.st, s.fr, None)
        for m, fn in (("training_step", self._step), (F["val"], self._val)):
            for k in cls.mro:
                if isinstance(k, ClassInfo) and m in k.methods and m not in keep:
                    I.stubs[k.methods[m].qual] = fn
        for m, fn in (("save_checkpoint", self._save), ("_get_mean_losses_and_metrics", self._mean), ("compute_metrics", self._metrics)):
            for k in cls.mro:
                if isinstance(k, ClassInfo) and m in k.methods and m not in keep:
                    I.stubs[k.methods[m].qual] = fn
        for m in ("_add_device_dim_to_input_dataloader", "_add_device_dim_to_data_loader", "_add_device_dim_to_outputs_loader", "_add_device_dim_to_array"):
            for k in cls.mro:
                if isinstance(k, ClassInfo) and m in k.methods:
                    I.stubs[k.methods[m].qual] = lambda I, b, st, fr, n: next(iter(x for q, x in b.items() if q != "self"))
        self.state = s.given("STATE", P.cls(F["state"]).qual)
        d, f = cls.lookup("train")
        self.f = f
        kw = {}
        for n, dflt, ann, _ in params_of(f, drop_self=True):
            kw[n] = a.sym_for(n, ann, f.mod, "arg." + n)
        kw["state"] = self.state
        kw["n_epochs"] = const(epochs)
        kw["verbose"] = FALSE
        if "td" in F:
            kw[F["td"]] = tup(self.batches)
            kw[F["vd"]] = tup(self.vals) if val else NONE
            kw[F["vn"]] = s.sym("arg." + F["vn"], None, "not") if val else NONE
        if self.family == "TrainerABC":
            kw["callbacks"] = I.new_list(self.cbs, s.st) if ncb else NONE
            kw["gradient_accumulation_steps"] = const(gas) if gas is not None else NONE
            kw["rank"] = const(3)
        kw.update(kwargs or {})
        self.kw = kw
        self.ev0 = len(I.events)
        self.v, self.ev, self.end = a.run(lambda: s.call(self.recv, "train", **kw))

    def new(self, what):
        self.n += 1
        return self.s.sym(f"{what}{self.n}", self.P.cls(self.F["state"]).qual, "not") if what == "S" else self.s.sym(f"{what}{self.n}", None, "not")

    def _step(self, I, b, st, fr, n):
        ns = self.new("S")
        b = dict(b)
        if "targets" in b:
            b["batch"] = b["targets"]
        self.seq.append((len(I.events), "step", b, ns, st.conds))
        return tup([ns, self.s.sym(f"AUX{self.n}", None, "not")])

    def _val(self, I, b, st, fr, n):
        r = self.new("VM")
        b = dict(b)
        if "targets" in b:
            b["batch"] = b["targets"]
        self.seq.append((len(I.events), "val", b, r, st.conds))
        return r

    def _save(self, I, b, st, fr, n):
        self.seq.append((len(I.events), "save", dict(b), None, st.conds))
        return NONE

    def _mean(self, I, b, st, fr, n):
        r = self.new("MEAN")
        x = next(y for q, y in b.items() if q != "self")
        self.means.append((len(I.events), I.models.reify(I, x, st, 6), r))
        return r

    def _metrics(self, I, b, st, fr, n):
        return I.new_dict([], st)



    def timeline(self):
        """callback and step calls in execution order: (kind, subject, value used, result, conds)."""
        out = [(i, k, b, r, cd) for i, k, b, r, cd in self.seq]
        names = {str(x): x for x in self.cbs}
        for j, e in enumerate(self.ev):
            if e.kind == "method" and isinstance(e.target, V) and e.target in self.cbs:
                out.append((self.ev0 + j - 0.5, "cb", e, e.result, e.conds))
        out.sort(key=lambda x: x[0])
        return [(k, b, r, cd) for _, k, b, r, cd in out]
