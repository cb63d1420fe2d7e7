"""Abstract runs of the three calibration entry points."""
from .fitscn import *

REPO = "fortuna.prob_model.posterior.posterior_state_repository.PosteriorStateRepository"


def is_train_like(P):
    def pred(e):
        f = e.target
        if not isinstance(f, FuncInfo) or f.name != "train" or f.cls is None:
            return False
        return any(getattr(c, "name", "").endswith(("TrainerABC", "CalibratorABC", "OutputCalibModelCalibrator", "WithEarlyStoppingMixin")) for c in f.cls.mro)

    return pred


class CalRun:
    def __init__(self, P, api, kind, devices=0, disable_jit=False, restore=False, current=False, dump=True, freeze=True, callbacks=True, val=True, save_dir=True, unc=True, extra=(), over=None, call=True, stub_samples=False, prep=None):
        self.P, self.api, self.kind = P, api, kind
        s = self.s = Scn(P)
        if prep is not None:
            prep(s)
        self.train_w = Watch(s, is_train_like(P))
        ck = P.cls("fortuna.training.mixin.WithCheckpointingMixin")

        def is_restore(e):
            f = e.target
            return isinstance(f, FuncInfo) and f.name == "restore_checkpoint" and f.cls is not None and (ck in f.cls.mro or f.cls.name.startswith("With"))

        self.restore_w = Watch(s, is_restore, depth=3)
        self.put_w = Watch(s, is_method(P, "TrainStateRepository", "put"), depth=3)
        self.sample_w = Watch(s, lambda e: isinstance(e.target, FuncInfo) and e.target.name == "_sample_outputs_loader", depth=3)
        self.save_w = Watch(s, lambda e: isinstance(e.target, FuncInfo) and e.target.name == "save_state", depth=3)
        self.watches = [Watch(s, pred, depth=d) for pred, d in extra]
        ov = {
            "disable_jit": TRUE if disable_jit else FALSE,
            "devices": const(devices),
            "dump_state": TRUE if dump else FALSE,
            "start_from_current_state": TRUE if current else FALSE,
            "callbacks": s.I.new_list([s.given("cb")], s.st) if callbacks else NONE,
        }
        if not restore:
            ov["restore_checkpoint_path"] = NONE
        if not freeze:
            ov["freeze_fun"] = NONE
        if not save_dir:
            ov["save_checkpoint_dir"] = NONE
        if not unc:
            ov["uncertainty_fn"] = NONE
        ov.update(over or {})
        if stub_samples:
            from ..models import reify

            def stub(I, bound, st, fr, node):
                l = app("sampled", [reify(I, bound["inputs_loader"], st, 4)])
                return tup([l, app("size_of", [l])])

            for c in P.classes.values():
                if "_sample_outputs_loader" in c.methods:
                    s.I.stubs[c.methods["_sample_outputs_loader"].qual] = stub
        cfgcls = {"prob": CAL, "calib": CCFG, "output": OCFG}[api]
        self.cfg = given_config(s, cfgcls, "cfg", ov)
        stub_checks(s)
        clf = kind == "classifier"
        m = "classification" if clf else "regression"
        N = "Classifier" if clf else "Regressor"
        if api == "prob":
            self.model = (prob_classifier if clf else prob_regressor)(s, "map")
            self.post = s.attr(self.model, "posterior")
            self.repo = s.given("current_repo", P.cls(REPO).qual)
            s.st.w[("f", self.post, "state")] = self.repo
            kw = dict(calib_data_loader=loader(s, "train"), val_data_loader=loader(s, "val") if val else NONE, calib_config=self.cfg)
        elif api == "calib":
            mkw = {"model": model(s)}
            if not clf:
                mkw["likelihood_log_variance_model"] = model(s)
            self.model = s.new(f"fortuna.calib_model.{m}.Calib{N}", **mkw)
            self.pred = s.attr(self.model, "predictive")
            kw = dict(calib_data_loader=loader(s, "train"), val_data_loader=loader(s, "val") if val else NONE, config=self.cfg, loss_fn=s.given("loss_fn"))
            if current:
                self._current("fortuna.calib_model.calib_state_repository.CalibStateRepository", "CalibState")
        else:
            self.model = s.new(f"fortuna.output_calib_model.{m}.OutputCalib{N}")
            self.pred = s.attr(self.model, "predictive")
            kw = dict(calib_outputs=s.given("train"), calib_targets=s.given("traint"), val_outputs=s.given("val") if val else NONE, val_targets=s.given("valt") if val else NONE, config=self.cfg, loss_fn=s.given("loss_fn"))
        self.result = None
        if not call:
            return
        self.ev0 = len(s.I.events)
        try:
            self.result = s.call(self.model, "calibrate", **kw)
        except Dead:
            pass

    def _current(self, cls, st):
        s, P = self.s, self.P
        self.repo = s.given("current_repo", P.cls(cls).qual)
        s.st.w[("f", self.pred, "state")] = self.repo
        q = P.cls(st).qual
        for c in P.cls(cls).mro:
            lk = c.lookup("get") if isinstance(c, ClassInfo) else None
            if isinstance(lk, tuple) and isinstance(lk[1], FuncInfo):
                s.I.stubs[lk[1].qual] = lambda I, bound, st, fr, node: I.sym("current_state", q, "not")
