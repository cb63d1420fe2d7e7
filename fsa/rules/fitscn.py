"""Abstract runs of ProbModel.train for every posterior approximation."""
from .common import *

PRELIM = ("swag", "laplace")


def is_trainer_train(P):
    tr = P.cls("TrainerABC")

    def pred(e):
        f = e.target
        return isinstance(f, FuncInfo) and f.name == "train" and f.cls is not None and tr in f.cls.mro

    return pred


def is_method(P, base, *names):
    b = P.cls(base)

    def pred(e):
        f = e.target
        return isinstance(f, FuncInfo) and f.name in names and f.cls is not None and (b in f.cls.mro or f.cls in b.mro)

    return pred


class FitRun:
    def __init__(self, P, approx, kind="classifier", devices=0, disable_jit=False, restore=False, current=False, dump=True, freeze=True, callbacks=True, val=True, mapcfg=None, save_dir=True, extra=(), over=None, fit=True, prep=None, map_over=None):
        self.P, self.approx, self.kind = P, approx, kind
        s = self.s = Scn(P)
        if prep is not None:
            prep(s)
        self.train_w = Watch(s, is_trainer_train(P))
        self.restore_w = Watch(s, is_method(P, "WithPosteriorCheckpointingMixin", "restore_checkpoint"), depth=3)
        self.put_w = Watch(s, is_method(P, "TrainStateRepository", "put"), depth=3)
        self.multi_put_w = Watch(s, is_method(P, "PosteriorMultiStateRepository", "put"), depth=3)
        self.watches = [Watch(s, pred, depth=d) for pred, d in extra]
        mk_model = prob_classifier if kind == "classifier" else prob_regressor
        self.pm = mk_model(s, approx)
        cb = s.I.new_list([s.given("cb")], s.st) if callbacks else NONE
        ov = {
            "disable_jit": TRUE if disable_jit else FALSE,
            "devices": const(devices),
            "dump_state": TRUE if dump else FALSE,
            "start_from_current_state": TRUE if current else FALSE,
            "callbacks": cb,
        }
        if not restore:
            ov["restore_checkpoint_path"] = NONE
        if not freeze:
            ov["freeze_fun"] = NONE
        if not save_dir:
            ov["save_checkpoint_dir"] = NONE
        ov.update(over or {})
        self.cfg = given_config(s, FIT, "cfg", ov)
        kw = {}
        if mapcfg or (mapcfg is None and approx in PRELIM and not restore and not current):
            mo = {"disable_jit": FALSE, "devices": const(0), "dump_state": TRUE, "start_from_current_state": FALSE, "restore_checkpoint_path": NONE, "callbacks": s.I.new_list([s.given("mcb")], s.st)}
            mo.update(map_over or {})
            self.mapcfg = given_config(s, FIT, "mcfg", mo)
            kw["map_fit_config"] = self.mapcfg
        else:
            self.mapcfg = None
        self.post = s.attr(self.pm, "posterior")
        if current:
            self.set_current()
        self.result = None
        if not fit:
            return
        self.ev0 = len(s.I.events)
        try:
            self.result = s.call(self.pm, "train", train_data_loader=loader(s, "train"), val_data_loader=loader(s, "val") if val else NONE, fit_config=self.cfg, calib_config=NONE, **kw)
        except Dead:
            pass

    def set_current(self):
        s = self.s
        P = self.P
        cls = {"deep_ensemble": "fortuna.prob_model.posterior.posterior_multi_state_repository.PosteriorMultiStateRepository", "sghmc": "fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository.SGMCMCPosteriorStateRepository", "cyclical_sgld": "fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository.SGMCMCPosteriorStateRepository"}.get(self.approx, "fortuna.prob_model.posterior.posterior_state_repository.PosteriorStateRepository")
        st_cls = {"map": "MAPState", "swag": "MAPState", "laplace": "MAPState", "deep_ensemble": "MAPState", "sngp": "MAPState", "advi": "MAPState", "sghmc": None, "cyclical_sgld": None}[self.approx]
        self.repo = s.given("current_repo", P.cls(cls).qual)
        s.st.w[("f", self.post, "state")] = self.repo
        self.current_cls = P.cls(st_cls).qual if st_cls else None
        # opaque repository content
        for c in P.cls(cls).mro:
            q = f"{c.qual}.get"
            if isinstance(c.lookup("get"), tuple):
                d, f = c.lookup("get")
                if isinstance(f, FuncInfo):
                    s.I.stubs[f.qual] = self._get_stub

    def _get_stub(self, I, bound, st, fr, node):
        return I.sym("current_state", self.current_cls, "not")

    def _cls(self, h):
        """which configuration drives this training run (majority of its option symbols)."""
        n = {"cfg": 0, "mcfg": 0}
        for k, v in list(h.bound.items()):
            for l in syms(v) if k not in ("self", "state", "loss_fun") else ():
                r = l.split(".")[0]
                if r in n:
                    n[r] += 1
        sf = h.bound.get("self")
        if sf is not None:
            for m in members(sf):
                if m.k == "rec":
                    for fn, v in m.a[1]:
                        for l in syms(v) if fn not in ("predict_fn",) else ():
                            r = l.split(".")[0]
                            if r in n:
                                n[r] += 1
        return "mcfg" if n["mcfg"] > n["cfg"] else "cfg"

    def primary(self):
        """training runs under the user's own (not the preliminary) configuration."""
        return [h for h in self.train_w.hits if self._cls(h) == "cfg"]

    def prelim(self):
        return [h for h in self.train_w.hits if self._cls(h) == "mcfg"]
