From 878a20de831178538571ee0c56579c23d59a1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 01/70] fix: pass gradient clipping and accumulation options to
 SWAG training

---
 fortuna/prob_model/posterior/swag/swag_posterior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_posterior.py b/fortuna/prob_model/posterior/swag/swag_posterior.py
index d04e58f..e024aeb 100755
--- a/fortuna/prob_model/posterior/swag/swag_posterior.py
+++ b/fortuna/prob_model/posterior/swag/swag_posterior.py
@@ -149,7 +149,11 @@ class SWAGPosterior(Posterior):
             which_params=which_params,
         )
 
-        kwargs = dict(rank=self.posterior_approximator.rank)
+        kwargs = dict(
+            rank=self.posterior_approximator.rank,
+            max_grad_norm=fit_config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
+        )
         logging.info("Run SWAG.")
         state, status["swag"] = trainer.train(
             rng=self.rng.get(),
-- 
2.43.0


From 2f5d7f4504a4783b0754512abc98c0d281967aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 02/70] fix: pass gradient clipping and accumulation options to
 SGHMC training

---
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index cb84d46..a38a5aa 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -181,6 +181,8 @@ class SGHMCPosterior(SGMCMCPosterior):
             ),
             verbose=fit_config.monitor.verbose,
             callbacks=[sghmc_sampling_callback],
+            max_grad_norm=fit_config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
         )
         logging.info("Fit completed.")
 
-- 
2.43.0


From 2ff68752c64d232017c9c4c1d4aa1adcad5a2929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 03/70] fix: run the user's callbacks in SGHMC training

---
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index a38a5aa..ad416a3 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -180,7 +180,7 @@ class SGHMCPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[sghmc_sampling_callback],
+            callbacks=list(fit_config.callbacks or []) + [sghmc_sampling_callback],
             max_grad_norm=fit_config.hyperparameters.max_grad_norm,
             gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
         )
-- 
2.43.0


From 892a1cc8561573695b5318e106c9bfecec79232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 04/70] fix: do not overwrite the optimizer of the caller's
 configuration in SGHMC

---
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index ad416a3..6591f69 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import pathlib
 from typing import Optional
@@ -94,6 +95,8 @@ class SGHMCPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in SGHMC is ignored.")
 
+        fit_config = copy.copy(fit_config)
+        fit_config.optimizer = copy.copy(fit_config.optimizer)
         fit_config.optimizer.method = sghmc_integrator(
             momentum_decay=self.posterior_approximator.momentum_decay,
             momentum_resample_steps=None,
-- 
2.43.0


From 05bf79d01ff0a8af9f42a33ae3caebeccab803b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 05/70] fix: do not overwrite the optimizer of the caller's
 configuration in CyclicalSGLD

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 59c945d..c738fcf 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import pathlib
 from typing import Optional
@@ -98,6 +99,8 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in CyclicalSGLD is ignored.")
 
+        fit_config = copy.copy(fit_config)
+        fit_config.optimizer = copy.copy(fit_config.optimizer)
         fit_config.optimizer.method = cyclical_sgld_integrator(
             rng_key=self.rng.get(),
             init_step_size=self.posterior_approximator.init_step_size,
-- 
2.43.0


From ca1892d46da704fe04a4b39d210ed8fbe8e60578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 06/70] fix: dump the Laplace state only when requested

---
 fortuna/prob_model/posterior/laplace/laplace_posterior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..d86e135 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -295,6 +295,8 @@ class LaplacePosterior(Posterior):
 
         self.state = PosteriorStateRepository(
             fit_config.checkpointer.save_checkpoint_dir
+            if fit_config.checkpointer.dump_state is True
+            else None
         )
         self.state.put(state, keep=fit_config.checkpointer.keep_top_n_checkpoints)
         logging.info("Fit completed.")
-- 
2.43.0


From d13d2e808dac399f48e2dcb02a7aaffd04e40711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 07/70] fix: pass gradient clipping and accumulation options to
 CyclicalSGLD training

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index c738fcf..7ee4ebf 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -189,6 +189,8 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
             ),
             verbose=fit_config.monitor.verbose,
             callbacks=[cyclical_sampling_callback],
+            max_grad_norm=fit_config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
         )
         logging.info("Fit completed.")
 
-- 
2.43.0


From 21dba856421d775e5ef6dd194512e9ff261f8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 08/70] fix: run the user's callbacks in CyclicalSGLD training

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 7ee4ebf..de66af8 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -188,7 +188,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[cyclical_sampling_callback],
+            callbacks=list(fit_config.callbacks or []) + [cyclical_sampling_callback],
             max_grad_norm=fit_config.hyperparameters.max_grad_norm,
             gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
         )
-- 
2.43.0


From 4cca01c8651ec775e6a9b25ffd44386329d0185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 09/70] fix: pass gradient clipping and accumulation options to
 the calibration model trainer

---
 fortuna/calib_model/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/calib_model/base.py b/fortuna/calib_model/base.py
index 3c5a379..62b39fc 100644
--- a/fortuna/calib_model/base.py
+++ b/fortuna/calib_model/base.py
@@ -145,6 +145,8 @@ class CalibModel(WithCalibCheckpointingMixin, abc.ABC):
             validation_dataset_size=n_val_data,
             verbose=config.monitor.verbose,
             callbacks=config.callbacks,
+            max_grad_norm=config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=config.hyperparameters.gradient_accumulation_steps,
         )
         self.predictive.state = CalibStateRepository(
             config.checkpointer.save_checkpoint_dir
-- 
2.43.0


From 903145d59e91bc7b8605cf586a791dea7610fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 10/70] fix: keep the configured number of checkpoints when
 dumping after calibration

---
 fortuna/prob_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 9f9f4e9..37c258c 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -225,7 +225,8 @@ class ProbModel(abc.ABC):
                 if calib_config.monitor.verbose:
                     logging.info("Dump state to disk.")
                 self.save_state(
-                    checkpoint_path=calib_config.checkpointer.save_checkpoint_dir
+                    checkpoint_path=calib_config.checkpointer.save_checkpoint_dir,
+                    keep_top_n_checkpoints=calib_config.checkpointer.keep_top_n_checkpoints,
                 )
 
             if calib_config.monitor.verbose:
-- 
2.43.0


From 68e0dd1c9e01917892fb5b03e14747937a488c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 11/70] fix: save checkpoints every n steps, not every n
 epochs, during output calibration

---
 fortuna/training/output_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 7e7a774..66b57c3 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -77,6 +77,7 @@ class OutputCalibratorABC(
         self.keep_top_n_checkpoints = keep_top_n_checkpoints
         self.disable_training_metrics_computation = disable_training_metrics_computation
         self.eval_every_n_epochs = eval_every_n_epochs
+        self._global_training_step = 0
         self.multi_device = False
 
     def train(
@@ -194,6 +195,7 @@ class OutputCalibratorABC(
             state, aux = self.training_step(
                 state, batch, outputs, loss_fun, rng, training_dataset_size
             )
+            self._global_training_step += 1
             # compute training losses and metrics for the current batch
             training_losses_and_metrics_current_batch = self.training_step_end(
                 current_epoch=current_epoch,
@@ -287,7 +289,8 @@ class OutputCalibratorABC(
         if (
             self.save_checkpoint_dir
             and self.save_every_n_steps
-            and current_epoch % self.save_every_n_steps == 0
+            and self._global_training_step >= self.save_every_n_steps
+            and self._global_training_step % self.save_every_n_steps == 0
         ):
             self.save_checkpoint(
                 state, self.save_checkpoint_dir, keep=self.keep_top_n_checkpoints
-- 
2.43.0


From fda8b3eff27a756edb56a44c771e25d943f56cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 12/70] fix: report unknown auxiliary objects instead of
 failing on them

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..0149cb1 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From 998369b30d7c63552e1d6ac9364a2df1fc1ccffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 13/70] fix: let auxiliary objects be omitted in the negative
 log joint probabilities

---
 fortuna/prob_model/joint/base.py      | 2 ++
 fortuna/prob_model/predictive/base.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fortuna/prob_model/joint/base.py b/fortuna/prob_model/joint/base.py
index 7af4d41..b75cbf4 100755
--- a/fortuna/prob_model/joint/base.py
+++ b/fortuna/prob_model/joint/base.py
@@ -135,6 +135,8 @@ class Joint(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[float, Tuple[float, dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             params,
             batch,
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 0149cb1..d139f4b 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -298,6 +298,8 @@ class Predictive(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             batch,
             n_data,
-- 
2.43.0


From f8ca40f7a1422bc15f206d2709ec008d0aa57522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 14/70] fix: let the optimizer be omitted when initializing a
 state

---
 fortuna/calib_model/state.py          | 2 +-
 fortuna/prob_model/posterior/state.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/calib_model/state.py b/fortuna/calib_model/state.py
index 1a4e25c..028fc80 100644
--- a/fortuna/calib_model/state.py
+++ b/fortuna/calib_model/state.py
@@ -40,7 +40,7 @@ class CalibState(TrainState):
             opt_state=(
                 kwargs["opt_state"]
                 if optimizer is None and "opt_state" in kwargs
-                else optimizer.init(params)
+                else None if optimizer is None else optimizer.init(params)
             ),
             mutable=mutable,
             step=kwargs.get("step", 0),
diff --git a/fortuna/prob_model/posterior/state.py b/fortuna/prob_model/posterior/state.py
index de0b030..7c79f7f 100644
--- a/fortuna/prob_model/posterior/state.py
+++ b/fortuna/prob_model/posterior/state.py
@@ -77,7 +77,7 @@ class PosteriorState(TrainState):
             opt_state=(
                 kwargs["opt_state"]
                 if optimizer is None and "opt_state" in kwargs
-                else optimizer.init(params)
+                else None if optimizer is None else optimizer.init(params)
             ),
             mutable=mutable,
             step=kwargs.get("step", 0),
-- 
2.43.0


From ee7f5316850d03a62b0984f6f5ad5f924702abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 15/70] fix: do not lose the model outputs when no output
 calibrator is configured

---
 fortuna/calib_model/loss.py | 5 ++++-
 fortuna/likelihood/base.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..d0e4405 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -108,8 +108,11 @@ class Loss(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
-            calib_mutable is not None
+            self.likelihood.output_calib_manager is not None
+            and calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
             and "calib_mutable" in return_aux
         ):
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..90ffcec 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -236,8 +236,11 @@ class Likelihood(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
-            calib_mutable is not None
+            self.output_calib_manager is not None
+            and calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
             and "calib_mutable" in return_aux
         ):
-- 
2.43.0


From 9665aeeef12e6eaef7d3b63a1ad2bf118d019370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 16/70] fix: define the random key when tuning the Laplace
 prior on a single device

---
 fortuna/prob_model/posterior/laplace/laplace_posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index d86e135..f785826 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -491,8 +491,9 @@ class LaplacePosterior(Posterior):
         candidates = list(
             jnp.linspace(min_prior_log_var, max_prior_log_var, grid_size)
         ) + [jnp.array(self.joint.prior.log_var)]
+        rng = jax.random.PRNGKey(0)
         if distribute:
-            rng = shard_prng_key(jax.random.PRNGKey(0))
+            rng = shard_prng_key(rng)
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
             candidates = [shard(c) for c in candidates]
             fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
-- 
2.43.0


From fc3d76a1bb0039fd59da8bc27e6c8e8f68ee8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 17/70] fix: repair undefined names in the SGMCMC state
 repository

---
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..976f39a 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
@@ -154,6 +154,6 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
                 step=state.step,
             )
         else:
-            raise RuntimeError(f"Invalid update state method {method}.")
+            raise RuntimeError(f"Invalid update state method {modify}.")
 
         return state
-- 
2.43.0


From 41fd3192246d87b2473b0ff8c5227529186f0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 18/70] fix: put a state in every slot of a multi-state
 repository without altering it

---
 .../prob_model/posterior/posterior_multi_state_repository.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
-- 
2.43.0


From 6e0cdcec15bd188381add271ca2eaa1fbec62669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 19/70] fix: save deep ensemble states to the requested
 directory

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..d6fb824 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -220,7 +220,12 @@ class DeepEnsemblePosterior(Posterior):
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
-- 
2.43.0


From 350076dfae3cc573247c051235135f69061ebf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:54 +0000
Subject: [PATCH 20/70] fix: save SGMCMC states to the requested directory

---
 .../posterior/sgmcmc/sgmcmc_posterior.py           | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..a5433d7 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -76,8 +76,20 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        checkpoint_dir = pathlib.Path(checkpoint_dir)
         for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=checkpoint_dir / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        self.save_checkpoint(
+            self.state.get(self.posterior_approximator.n_samples - 1),
+            save_checkpoint_dir=checkpoint_dir / "c",
+            keep=keep_top_n_checkpoints,
+            force_save=True,
+        )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0


From 164092289c2c2753aba3d3a7b94f916c8b8ae16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 21/70] fix: refuse to save ensembles that were never fitted

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py       | 5 +++++
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index d6fb824..300108c 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -219,6 +219,11 @@ class DeepEnsemblePosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         for i in range(self.posterior_approximator.ensemble_size):
             self.state.put(
                 state=self.state.get(i),
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index a5433d7..4a2e571 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -76,6 +76,11 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         checkpoint_dir = pathlib.Path(checkpoint_dir)
         for i in range(self.posterior_approximator.n_samples):
             self.state.put(
-- 
2.43.0


From 2b0f25bacd2cafb3a9ee0e4622d02c008f2ba959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 22/70] fix: never hand out the key kept as state of the random
 number generator

---
 fortuna/utils/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/utils/random.py b/fortuna/utils/random.py
index a34dd09..843df2c 100644
--- a/fortuna/utils/random.py
+++ b/fortuna/utils/random.py
@@ -45,8 +45,8 @@ class RandomNumberGenerator:
         jax.Array
             A random number generator key.
         """
-        self._rng = random.split(self._rng)[0]
-        return self._rng
+        self._rng, rng = random.split(self._rng)
+        return rng
 
 
 class WithRNG:
-- 
2.43.0


From 5699de2c681d53cdf87ce9dbf014716ca5a9e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 23/70] fix: report the unknown interval type instead of
 failing on it

---
 fortuna/prob_output_layer/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From 80976479953b80480789e5a0d9c522f1e2a8dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 24/70] fix: return the root of the given variances in the
 probabilistic output layer std

---
 fortuna/prob_output_layer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..565dff2 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,7 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        return jnp.sqrt(self.variance(outputs) if variances is None else variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
-- 
2.43.0


From fd6ce5dbd30c5c56a4a99c6c1af86e6e321d7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 25/70] fix: let a random key be passed when sampling from the
 predictive

---
 fortuna/prob_model/predictive/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index d139f4b..8990c60 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -355,7 +355,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
-- 
2.43.0


From 2927a4fc42d3adf935c923a5f8d179a05d81b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 26/70] fix: return the auxiliary outputs and keep the data
 axis when sampling from the predictive

---
 fortuna/prob_model/predictive/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 8990c60..d62b94c 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -369,7 +369,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -378,15 +378,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if "outputs" in return_aux:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -399,10 +399,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if "outputs" in return_aux:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From 99a470161621622236581714f64ca581b3de422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 27/70] fix: keep the sample axis apart from the data axis when
 sampling outputs

---
 fortuna/prob_model/predictive/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index d62b94c..195ecf9 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -510,7 +510,7 @@ class Predictive(WithRNG):
         if rng is None:
             rng = self.rng.get()
 
-        return self._loop_fun_through_inputs_loader(
+        return self._loop_ensemble_fun_through_inputs_loader(
             self._sample_batched_outputs,
             inputs_loader,
             n_output_samples,
-- 
2.43.0


From 4099187d9bf4740e1d865db0f1674741fb56b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 28/70] fix: count the data points, not the devices, when
 sampling a loader of outputs

---
 fortuna/prob_model/predictive/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 195ecf9..7a2615c 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -562,11 +562,6 @@ class Predictive(WithRNG):
         iterable = []
         size = 0
         for inputs in inputs_loader:
-            size += (
-                inputs.shape[0]
-                if not isinstance(inputs, dict)
-                else inputs[list(inputs.keys())[0]].shape[0]
-            )
             if distribute:
                 outputs = jnp.stack(
                     list(map(lambda key: _sample(shard_prng_key(key), inputs), keys)),
@@ -575,6 +570,7 @@ class Predictive(WithRNG):
                 outputs = self._unshard_ensemble_arrays(outputs)
             else:
                 outputs = lax.map(lambda key: _sample(key, inputs), keys)
+            size += outputs.shape[1]
             iterable.append(outputs)
         iterable = TargetsLoader.from_iterable(iterable=iterable)
         if return_size:
-- 
2.43.0


From fb7d8b2067e48512d9d0a75af159653fe0a8effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 29/70] fix: do not add the SNGP callback to the caller's
 configuration

---
 fortuna/prob_model/posterior/sngp/sngp_posterior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/sngp/sngp_posterior.py b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
index fc06714..5406b82 100755
--- a/fortuna/prob_model/posterior/sngp/sngp_posterior.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 from typing import Optional
 
@@ -49,6 +50,7 @@ class SNGPPosterior(MAPPosterior):
                 ridge_penalty=self.joint.likelihood.model_manager.ridge_penalty,
             )
         ]
+        fit_config = copy(fit_config)
         if fit_config.callbacks is None:
             fit_config.callbacks = callbacks
         else:
-- 
2.43.0


From 90903621772a166d025e02621654b3214f85521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 30/70] fix: import the name used by the concatenated loader

---
 fortuna/data/loader/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..abc6155 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import abc
 from typing import (
+    Any,
     Callable,
     Iterable,
     List,
-- 
2.43.0


From 37e80df3a83f984747a7d1890f36215fe9c2506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 31/70] fix: keep the mutable states of the mean and
 log-variance models apart, without altering the given one

---
 fortuna/model/model_manager/regression.py | 72 ++++++++---------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..e8efbca 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -63,80 +63,54 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
-        if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
+        has_aux = train and mutable is not None
+        model_mutable = (mutable.get("model") if mutable is not None else None) or {}
+        lik_log_var_mutable = (
+            mutable.get("lik_log_var") if mutable is not None else None
+        ) or {}
 
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
-        )
-
-        def apply_fn(p, x, m_mutable, llv_mutable):
+        def apply_fn(p, x):
             model_outputs = self.model.apply(
-                p["model"],
+                {**p["model"], **model_mutable},
                 x,
                 train=train,
-                mutable=m_mutable,
+                mutable=list(model_mutable.keys()) if has_aux else False,
                 rngs=model_rngs,
             )
             lik_log_var_outputs = self.likelihood_log_variance_model.apply(
-                p["lik_log_var"],
+                {**p["lik_log_var"], **lik_log_var_mutable},
                 x,
                 train=train,
-                mutable=llv_mutable,
+                mutable=list(lik_log_var_mutable.keys()) if has_aux else False,
                 rngs=lik_log_var_rngs,
             )
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
-                model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
-                lik_log_var_outputs = lik_log_var_outputs[0]
-
-            if model_has_aux:
+            aux = dict()
+            if has_aux:
                 model_outputs, m_mutable = model_outputs
-            if lik_log_var_has_aux:
                 lik_log_var_outputs, llv_mutable = lik_log_var_outputs
+                aux["mutable"] = FrozenDict(
+                    {"model": m_mutable, "lik_log_var": llv_mutable}
+                )
 
             self._check_outputs(model_outputs, lik_log_var_outputs)
 
-            aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
-
-            return jnp.concatenate(
-                (model_outputs, lik_log_var_outputs), axis=-1
-            ), FrozenDict(aux)
+            outputs = jnp.concatenate((model_outputs, lik_log_var_outputs), axis=-1)
+            if has_aux:
+                return outputs, aux
+            return outputs
 
         if self.model_editor is not None:
-            outputs, aux = self.model_editor.apply(
+            outputs = self.model_editor.apply(
                 params["model_editor"],
-                apply_fn=lambda p, x: apply_fn(
-                    p,
-                    x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
-                    llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
-                    ),
-                ),
+                apply_fn=apply_fn,
                 model_params=params,
                 x=inputs,
-                has_aux=True,
+                has_aux=has_aux,
             )
         else:
-            outputs, aux = apply_fn(
-                params,
-                inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
-            )
+            outputs = apply_fn(params, inputs)
 
-        if len(aux) > 0:
-            return outputs, aux
         return outputs
 
     def init(
-- 
2.43.0


From f2e3e2f5d934110a8d7fe8927e8c86073035ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 32/70] fix: use the dropout key of the log-variance model when
 initializing it

---
 fortuna/model/model_manager/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index e8efbca..b774fb0 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -128,7 +128,7 @@ class RegressionModelManager(ModelManager):
         model_rngs = {"params": model_params_key, "dropout": model_dropout_key}
         lik_log_var_rngs = {
             "params": lik_log_var_params_key,
-            "dropout": lik_log_var_params_key,
+            "dropout": lik_log_var_dropout_key,
         }
         params = dict(
             model=self.model.init(model_rngs, jnp.zeros((1,) + input_shape), **kwargs),
-- 
2.43.0


From f389236605ea53c28ebfab1636716b36a3a12db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 33/70] fix: return a targets loader when reducing a data
 loader

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index abc6155..d45dcc1 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -460,7 +460,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From eb25784ab66ab3831f44686f7078e007d511cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 34/70] fix: keep the patch that reached the tolerance in
 multivalid calibration

---
 fortuna/conformal/multivalid/iterative/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..87b56d9 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -267,6 +267,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             if val_losses[-1] <= atol:
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             if val_losses[-1] > val_losses[-2]:
@@ -280,6 +281,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 and (val_losses[-2] - val_losses[-1]) / val_losses[-2] <= rtol
             ):
                 logging.info(f"Relative tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             old_losses = jnp.copy(losses)
-- 
2.43.0


From 144e9b35544798ba1ac4113752d1e657b04c4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 35/70] fix: return initialized values when there are no
 patches to apply

---
 fortuna/conformal/multivalid/iterative/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index 87b56d9..8828bb3 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -333,13 +333,13 @@ class IterativeMultivalidMethod(MultivalidMethod):
             raise ValueError(
                 "At least one between `groups` and `values` must be provided."
             )
+        values = self._maybe_init_values(
+            values, groups.shape[0] if groups is not None else None
+        )
         if not len(self._patches):
             logging.warning("No patches available.")
             return values
 
-        values = self._maybe_init_values(
-            values, groups.shape[0] if groups is not None else None
-        )
         self._maybe_check_values(values)
 
         groups = self._init_groups(groups, values.shape[0])
-- 
2.43.0


From 8eaa2187650b484738f26ddde5400df947a730f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 36/70] fix: check membership in intervals, not sets, in the
 BatchMVP regressor

---
 fortuna/conformal/regression/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/regression/batch_mvp.py b/fortuna/conformal/regression/batch_mvp.py
index 97763eb..ddb6819 100644
--- a/fortuna/conformal/regression/batch_mvp.py
+++ b/fortuna/conformal/regression/batch_mvp.py
@@ -2,7 +2,7 @@ from fortuna.conformal.multivalid.iterative.batch_mvp import BatchMVPConformalMe
 from fortuna.conformal.regression.base import ConformalRegressor
 
 
-class BatchMVPConformalRegressor(BatchMVPConformalMethod, ConformalRegressor):
+class BatchMVPConformalRegressor(ConformalRegressor, BatchMVPConformalMethod):
     def __init__(self, seed: int = 0):
         """
         This class implements a classification version of BatchMVP
-- 
2.43.0


From af801acc488bfd851b71f850f7bbd7d8a33c359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 37/70] fix: check the given thresholds of the test data in
 BatchMVP

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..285c5b3 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -281,6 +281,11 @@ class BatchMVPConformalMethod(
     ):
         if jnp.any(values < 0) or jnp.any(values > 1):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
+        if test_values is not None:
+            if jnp.any(test_values < 0) or jnp.any(test_values > 1):
+                raise ValueError(
+                    "All elements in `test_thresholds` must be within [0, 1]."
+                )
 
     @staticmethod
     def _check_coverage(coverage: float):
-- 
2.43.0


From b74d49622aed3ddf4dde0b8b920675f7da03f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 38/70] fix: do not reshape the caller's lists in CV+

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..9ef9ea7 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From e66786003d0527c932e84de83a2b07f12d1be477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 39/70] fix: roll the residuals in EnbPI without altering the
 given ones

---
 fortuna/conformal/regression/enbpi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..a3cc735 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,12 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            len(new_residuals) :
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From 2d75bff8868bab24eb0aa5fe8086ad3c8543361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 40/70] fix: do not remove the labels from the collated
 features

---
 fortuna/data/dataset/data_collator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/data/dataset/data_collator.py b/fortuna/data/dataset/data_collator.py
index 5c13f5a..0c65018 100644
--- a/fortuna/data/dataset/data_collator.py
+++ b/fortuna/data/dataset/data_collator.py
@@ -52,6 +52,7 @@ class FlaxDataCollatorForMultipleChoice:
 
     def __call__(self, features):
         label_name = "label" if "label" in features[0].keys() else "labels"
+        features = [dict(feature) for feature in features]
         labels = [feature.pop(label_name) for feature in features]
         batch_size = len(features)
         num_choices = len(features[0]["input_ids"])
-- 
2.43.0


From 52a9f204ece28ed464a31888c25a77186b80d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 41/70] fix: do not append to the caller's lists when balancing
 the data

---
 fortuna/hallucination/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/hallucination/base.py b/fortuna/hallucination/base.py
index 193628f..900ad99 100644
--- a/fortuna/hallucination/base.py
+++ b/fortuna/hallucination/base.py
@@ -294,6 +294,7 @@ class HallucinationMulticalibrator:
     def _balance_data(
         self, texts: List[str], contexts: List[str], targets: List[int]
     ) -> Tuple[List[str], List[str], List[int]]:
+        texts, contexts, targets = list(texts), list(contexts), list(targets)
         idx0 = [i for i, y in enumerate(targets) if y == 0]
         idx1 = [i for i, y in enumerate(targets) if y == 1]
         len_diff = len(idx1) - len(idx0)
-- 
2.43.0


From 03d86c7823d6848bd0e16f85b42a222ee4e10351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 42/70] fix: refuse to use a grouping model before fitting it

---
 fortuna/hallucination/grouping/clustering/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortuna/hallucination/grouping/clustering/base.py b/fortuna/hallucination/grouping/clustering/base.py
index da899e9..cecaae4 100644
--- a/fortuna/hallucination/grouping/clustering/base.py
+++ b/fortuna/hallucination/grouping/clustering/base.py
@@ -11,6 +11,11 @@ class GroupingModel:
     Grouping model based on clustering of embeddings.
     """
 
+    def __init__(self):
+        self._clustering_model = None
+        self._mean = None
+        self._std = None
+
     def fit(
         self,
         embeddings: np.ndarray,
-- 
2.43.0


From e7fe65c86b996510719bf20f41b36e3ec59feaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 43/70] fix: refuse to scale probabilities before fitting the
 temperature

---
 fortuna/calibration/binary_classification/temp_scaling/base.py | 2 ++
 fortuna/calibration/classification/temp_scaling/base.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fortuna/calibration/binary_classification/temp_scaling/base.py b/fortuna/calibration/binary_classification/temp_scaling/base.py
index 85a8aa5..ba69b28 100644
--- a/fortuna/calibration/binary_classification/temp_scaling/base.py
+++ b/fortuna/calibration/binary_classification/temp_scaling/base.py
@@ -34,6 +34,8 @@ class BaseBinaryClassificationTemperatureScaling(abc.ABC):
         np.ndarray
             The predicted probabilities
         """
+        if self._temperature is None:
+            raise ValueError("The `fit` method must be called first.")
         self._check_probs(probs)
         return np.clip(probs / self._temperature, 0.0, 1.0)
 
diff --git a/fortuna/calibration/classification/temp_scaling/base.py b/fortuna/calibration/classification/temp_scaling/base.py
index 3c9e64e..39adf0a 100644
--- a/fortuna/calibration/classification/temp_scaling/base.py
+++ b/fortuna/calibration/classification/temp_scaling/base.py
@@ -51,6 +51,8 @@ class ClassificationTemperatureScaling(abc.ABC):
         np.ndarray
             The predicted probabilities for each input and class.
         """
+        if self._temperature is None:
+            raise ValueError("The `fit` method must be called first.")
         self._check_probs(probs)
         return softmax(np.log(probs) / self._temperature, axis=1)
 
-- 
2.43.0


From e2c81c17dfb832d0816094cf9fc4df310d5fe77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 44/70] fix: refuse validation outputs without targets instead
 of failing on them

---
 fortuna/output_calib_model/classification.py | 2 +-
 fortuna/output_calib_model/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/output_calib_model/classification.py b/fortuna/output_calib_model/classification.py
index 7c674f2..2a47135 100644
--- a/fortuna/output_calib_model/classification.py
+++ b/fortuna/output_calib_model/classification.py
@@ -99,7 +99,7 @@ class OutputCalibClassifier(OutputCalibModel):
             A calibration status object. It provides information about the calibration.
         """
         self._check_output_dim(calib_outputs, calib_targets)
-        if val_outputs is not None:
+        if val_outputs is not None and val_targets is not None:
             self._check_output_dim(val_outputs, val_targets)
         return super()._calibrate(
             uncertainty_fn=(
diff --git a/fortuna/output_calib_model/regression.py b/fortuna/output_calib_model/regression.py
index 68c9c06..7a46224 100644
--- a/fortuna/output_calib_model/regression.py
+++ b/fortuna/output_calib_model/regression.py
@@ -96,7 +96,7 @@ class OutputCalibRegressor(OutputCalibModel):
             A calibration status object. It provides information about the calibration.
         """
         self._check_output_dim(calib_outputs, calib_targets)
-        if val_outputs is not None:
+        if val_outputs is not None and val_targets is not None:
             self._check_output_dim(val_outputs, val_targets)
         return super()._calibrate(
             uncertainty_fn=(
-- 
2.43.0


From 44ecda2a454ec566251c5470dfa034a4c20646de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 45/70] fix: refuse to dump a calibration state without a
 directory

---
 fortuna/output_calib_model/base.py | 7 +++++++
 fortuna/prob_model/base.py         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/fortuna/output_calib_model/base.py b/fortuna/output_calib_model/base.py
index 97f017c..5b7520b 100644
--- a/fortuna/output_calib_model/base.py
+++ b/fortuna/output_calib_model/base.py
@@ -65,6 +65,13 @@ class OutputCalibModel(WithOutputCalibCheckpointingMixin, abc.ABC):
             raise ValueError(
                 "For validation, both `val_outputs` and `val_targets` must be passed as arguments."
             )
+        if (
+            config.checkpointer.dump_state is True
+            and not config.checkpointer.save_checkpoint_dir
+        ):
+            raise ValueError(
+                "`save_checkpoint_dir` must be passed when `dump_state` is set to True."
+            )
         trainer_cls = select_trainer_given_devices(
             devices=config.processor.devices,
             base_trainer_cls=OutputCalibModelCalibrator,
diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 37c258c..a64cfe0 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -113,6 +113,13 @@ class ProbModel(abc.ABC):
         val_data_loader: Optional[DataLoader] = None,
         calib_config: CalibConfig = CalibConfig(),
     ) -> Status:
+        if (
+            calib_config.checkpointer.dump_state is True
+            and not calib_config.checkpointer.save_checkpoint_dir
+        ):
+            raise ValueError(
+                "`save_checkpoint_dir` must be passed when `dump_state` is set to True."
+            )
         check_data_loader_is_not_random(calib_data_loader)
         if val_data_loader is not None:
             check_data_loader_is_not_random(val_data_loader)
-- 
2.43.0


From 7561c4eb34ad2050b3a3c1255b9af6ef57c88d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 46/70] fix: refuse to save a calibration model that has no
 state

---
 fortuna/calib_model/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fortuna/calib_model/base.py b/fortuna/calib_model/base.py
index 62b39fc..c17dd16 100644
--- a/fortuna/calib_model/base.py
+++ b/fortuna/calib_model/base.py
@@ -181,6 +181,10 @@ class CalibModel(WithCalibCheckpointingMixin, abc.ABC):
     def save_state(
         self, checkpoint_path: Path, keep_top_n_checkpoints: int = 1
     ) -> None:
+        if self.predictive.state is None:
+            raise ValueError(
+                """No state available. You must first either calibrate the model, or load a saved checkpoint."""
+            )
         return self.predictive.state.put(
             self.predictive.state.get(),
             checkpoint_path=checkpoint_path,
-- 
2.43.0


From 7abf6d72c4d271d264683c081b864c70f6433996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 47/70] fix: refuse to sample from posteriors that were never
 fitted

---
 fortuna/prob_model/posterior/base.py                       | 7 +++++++
 .../posterior/deep_ensemble/deep_ensemble_posterior.py     | 1 +
 fortuna/prob_model/posterior/laplace/laplace_posterior.py  | 1 +
 fortuna/prob_model/posterior/map/map_posterior.py          | 1 +
 .../posterior/normalizing_flow/advi/advi_posterior.py      | 1 +
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py    | 2 ++
 fortuna/prob_model/posterior/swag/swag_posterior.py        | 1 +
 7 files changed, 14 insertions(+)

diff --git a/fortuna/prob_model/posterior/base.py b/fortuna/prob_model/posterior/base.py
index 98237d6..7501697 100755
--- a/fortuna/prob_model/posterior/base.py
+++ b/fortuna/prob_model/posterior/base.py
@@ -76,6 +76,7 @@ class Posterior(WithRNG, WithPosteriorCheckpointingMixin):
                 optimizer=fit_config.optimizer.method,
             )
         elif fit_config.checkpointer.start_from_current_state is not None:
+            self._check_fitted()
             state = self.state.get(optimizer=fit_config.optimizer.method)
 
         if allowed_states is not None and not isinstance(state, allowed_states):
@@ -216,6 +217,12 @@ class Posterior(WithRNG, WithPosteriorCheckpointingMixin):
                 "`save_checkpoint_dir` must be passed when `dump_state` is set to True."
             )
 
+    def _check_fitted(self) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a saved checkpoint."""
+            )
+
     @staticmethod
     def _is_state_available_somewhere(fit_config: FitConfig) -> bool:
         return (
diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index 300108c..de1a16c 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -192,6 +192,7 @@ class DeepEnsemblePosterior(Posterior):
         return status
 
     def sample(self, rng: Optional[jax.Array] = None, **kwargs) -> JointState:
+        self._check_fitted()
         if rng is None:
             rng = self.rng.get()
         state = pure_callback(
diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index f785826..93aefaf 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -320,6 +320,7 @@ class LaplacePosterior(Posterior):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> JointState:
+        self._check_fitted()
         if rng is None:
             rng = self.rng.get()
         state: LaplaceState = self.state.get()
diff --git a/fortuna/prob_model/posterior/map/map_posterior.py b/fortuna/prob_model/posterior/map/map_posterior.py
index 331f012..07095cc 100755
--- a/fortuna/prob_model/posterior/map/map_posterior.py
+++ b/fortuna/prob_model/posterior/map/map_posterior.py
@@ -119,6 +119,7 @@ class MAPPosterior(Posterior):
         return status
 
     def sample(self, rng: Optional[jax.Array] = None, **kwargs) -> JointState:
+        self._check_fitted()
         state = self.state.get()
         return JointState(
             params=state.params,
diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..18637b0 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -289,6 +289,7 @@ class ADVIPosterior(Posterior):
         JointState
             A sample from the posterior distribution.
         """
+        self._check_fitted()
         if rng is None:
             rng = self.rng.get()
         state = self.state.get()
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index 4a2e571..d1da1c6 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -43,6 +43,7 @@ class SGMCMCPosterior(Posterior):
         JointState
             A sample from the posterior distribution.
         """
+        self._check_fitted()
         if rng is None:
             rng = self.rng.get()
         state = pure_callback(
@@ -110,6 +111,7 @@ class SGMCMCPosterior(Posterior):
                 optimizer=fit_config.optimizer.method,
             )
         elif fit_config.checkpointer.start_from_current_state is not None:
+            self._check_fitted()
             state = self.state.get(
                 i=self.state.size - 1,
                 optimizer=fit_config.optimizer.method,
diff --git a/fortuna/prob_model/posterior/swag/swag_posterior.py b/fortuna/prob_model/posterior/swag/swag_posterior.py
index e024aeb..51b7763 100755
--- a/fortuna/prob_model/posterior/swag/swag_posterior.py
+++ b/fortuna/prob_model/posterior/swag/swag_posterior.py
@@ -205,6 +205,7 @@ class SWAGPosterior(Posterior):
         JointState
             A sample from the posterior distribution.
         """
+        self._check_fitted()
         if rng is None:
             rng = self.rng.get()
         state = self.state.get()
-- 
2.43.0


From df0cf5ee4829c396ada0ea9b66fd7164be772c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 48/70] fix: refuse to predict with calibration models that
 were never calibrated

---
 fortuna/calib_model/base.py                      |  1 +
 fortuna/calib_model/predictive/base.py           | 14 ++++++++++++++
 fortuna/calib_model/predictive/classification.py |  1 +
 fortuna/calib_model/predictive/regression.py     |  2 ++
 4 files changed, 18 insertions(+)

diff --git a/fortuna/calib_model/base.py b/fortuna/calib_model/base.py
index c17dd16..f4ca3cf 100644
--- a/fortuna/calib_model/base.py
+++ b/fortuna/calib_model/base.py
@@ -232,6 +232,7 @@ class CalibModel(WithCalibCheckpointingMixin, abc.ABC):
     def _init_state(self, calib_data_loader: DataLoader, config: Config) -> CalibState:
         if config.checkpointer.restore_checkpoint_path is None:
             if config.checkpointer.start_from_current_state:
+                self.predictive._check_calibrated()
                 state = self.predictive.state.get(optimizer=config.optimizer.method)
             else:
                 state = self._init(calib_data_loader, config)
diff --git a/fortuna/calib_model/predictive/base.py b/fortuna/calib_model/predictive/base.py
index 6431921..637f611 100644
--- a/fortuna/calib_model/predictive/base.py
+++ b/fortuna/calib_model/predictive/base.py
@@ -24,6 +24,15 @@ class Predictive(WithRNG):
         self.likelihood = likelihood
         self.state = None
 
+    def _check_calibrated(self) -> None:
+        """
+        Check that the model has been calibrated beforehand.
+        """
+        if self.state is None:
+            raise ValueError(
+                "No calibration state was found. The model must be calibrated beforehand."
+            )
+
     def log_prob(self, data_loader: DataLoader, distribute: bool = True) -> jnp.ndarray:
         r"""
         Estimate the predictive log-probability density function (a.k.a. log-pdf), that is
@@ -48,6 +57,7 @@ class Predictive(WithRNG):
         jnp.ndarray
             An estimate of the predictive log-pdf for each data point.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.log_prob(
             params=state.params,
@@ -90,6 +100,7 @@ class Predictive(WithRNG):
         jnp.ndarray
             Samples for each input data point.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.sample(
             n_target_samples=n_samples,
@@ -129,6 +140,7 @@ class Predictive(WithRNG):
         jnp.ndarray
             An estimate of the predictive mean for each input.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.mean(
             params=state.params,
@@ -165,6 +177,7 @@ class Predictive(WithRNG):
         jnp.ndarray
             An estimate of the predictive mode for each input.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.mode(
             params=state.params,
@@ -203,6 +216,7 @@ class Predictive(WithRNG):
         jnp.ndarray
             An estimate of the predictive variance for each input.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.variance(
             params=state.params,
diff --git a/fortuna/calib_model/predictive/classification.py b/fortuna/calib_model/predictive/classification.py
index cdc58fb..69ebcfb 100644
--- a/fortuna/calib_model/predictive/classification.py
+++ b/fortuna/calib_model/predictive/classification.py
@@ -38,6 +38,7 @@ class ClassificationPredictive(Predictive):
         jnp.ndarray
             An estimate of the predictive entropy for each input.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.entropy(
             params=state.params,
diff --git a/fortuna/calib_model/predictive/regression.py b/fortuna/calib_model/predictive/regression.py
index 42f0ccf..9f5a938 100644
--- a/fortuna/calib_model/predictive/regression.py
+++ b/fortuna/calib_model/predictive/regression.py
@@ -52,6 +52,7 @@ class RegressionPredictive(Predictive):
         jnp.ndarray
             An estimate of the predictive entropy for each input.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.entropy(
             params=state.params,
@@ -92,6 +93,7 @@ class RegressionPredictive(Predictive):
             Quantile estimate for each quantile and each input. If multiple quantiles `q` are given, the result's
             first axis is over different quantiles.
         """
+        self._check_calibrated()
         state = self.state.get()
         return self.likelihood.quantile(
             q=q,
-- 
2.43.0


From a702b9f0ae9e186666885c2c22e64bcc7b7bb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 49/70] fix: refuse to restart an ensemble that was never
 fitted

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index de1a16c..779cdde 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -288,6 +288,7 @@ class DeepEnsemblePosterior(Posterior):
                 optimizer=fit_config.optimizer.method,
             )
         elif fit_config.checkpointer.start_from_current_state is not None:
+            self._check_fitted()
             state = self.state.get(i=i, optimizer=fit_config.optimizer.method)
 
         if allowed_states is not None and not isinstance(state, allowed_states):
-- 
2.43.0


From bd0ef784a2b6d260ae8ba604f0634506aa9566d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 50/70] fix: let the number of labels be omitted in multiple
 choice datasets

---
 fortuna/data/dataset/huggingface_datasets.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fortuna/data/dataset/huggingface_datasets.py b/fortuna/data/dataset/huggingface_datasets.py
index ec536e4..93b0f58 100644
--- a/fortuna/data/dataset/huggingface_datasets.py
+++ b/fortuna/data/dataset/huggingface_datasets.py
@@ -300,8 +300,13 @@ class HuggingFaceMultiChoiceDataset(HuggingFaceClassificationDatasetABC):
         sent2 = contexts[1]
 
         def _tokenize_fn(batch: Dict[str, List[Union[str, int]]]) -> Dict:
+            n_choices = self.num_unique_labels
+            if n_choices is None:
+                n_choices = (
+                    len(choices) if len(choices) > 1 else len(batch[choices[0]][0])
+                )
             first_sentences = [
-                [context] * self.num_unique_labels for context in batch[sent1]
+                [context] * n_choices for context in batch[sent1]
             ]
             question_headers = batch[sent2]
             if len(choices) > 1:
@@ -321,8 +326,8 @@ class HuggingFaceMultiChoiceDataset(HuggingFaceClassificationDatasetABC):
             )
             tokenized_inputs = {
                 k: [
-                    v[i : i + self.num_unique_labels]
-                    for i in range(0, len(v), self.num_unique_labels)
+                    v[i : i + n_choices]
+                    for i in range(0, len(v), n_choices)
                 ]
                 for k, v in tokenized_inputs.items()
             }
-- 
2.43.0


From eb1e2c47724d880fb714b0b4c5a5ed748f3b7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 51/70] fix: mask a copy of the tokens in the data collator

---
 fortuna/data/dataset/data_collator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/data/dataset/data_collator.py b/fortuna/data/dataset/data_collator.py
index 0c65018..aecb9d7 100644
--- a/fortuna/data/dataset/data_collator.py
+++ b/fortuna/data/dataset/data_collator.py
@@ -145,6 +145,7 @@ class FlaxDataCollatorForLanguageModeling:
         """
         Prepare masked tokens inputs/labels for masked language modeling: 80% MASK, 10% random, 10% original.
         """
+        inputs = inputs.copy()
         labels = inputs.copy()
 
         # We sample a few tokens in each sequence for MLM training (with probability `self.mlm_probability`)
-- 
2.43.0


From a2bbabb22ff1789b92927e7416c7c53236a7d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 52/70] fix: paths with a label when no labels are prescribed
 or nothing is frozen

---
 fortuna/utils/freeze.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fortuna/utils/freeze.py b/fortuna/utils/freeze.py
index a5c3c8f..090e97e 100644
--- a/fortuna/utils/freeze.py
+++ b/fortuna/utils/freeze.py
@@ -126,6 +126,8 @@ def get_frozen_paths(
     Tuple[List[AnyKey], ...]
         A tuple of sequences of keys pointing to the frozen parameters only.
     """
+    if freeze_fun is None:
+        return ()
     return get_paths_with_label(
         params, freeze_fun, "frozen", allowed_labels=["frozen", "trainable"]
     )
@@ -140,9 +142,10 @@ def get_paths_with_label(
     paths = path_aware_map(lambda p, v: p, params)
     if freeze_fun is not None:
         conds = list(flatten_dict(path_aware_map(freeze_fun, params)).values())
-        all_values_in_labels(conds, allowed_labels)
+        if allowed_labels is not None:
+            all_values_in_labels(conds, allowed_labels)
         return tuple(
             [list(p) for c, p in zip(conds, flatten_dict(paths)) if c == label]
         )
     else:
-        return tuple([list(p) for p in paths])
+        return tuple([list(p) for p in flatten_dict(paths)])
-- 
2.43.0


From 41b6dc552767781ab1464d50572aca8567f845c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 53/70] fix: use a separate key for every batch when
 recomputing mutable state in SWAG

---
 fortuna/prob_model/posterior/swag/swag_posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_posterior.py b/fortuna/prob_model/posterior/swag/swag_posterior.py
index 51b7763..0c47ac8 100755
--- a/fortuna/prob_model/posterior/swag/swag_posterior.py
+++ b/fortuna/prob_model/posterior/swag/swag_posterior.py
@@ -270,13 +270,14 @@ class SWAGPosterior(Posterior):
         if state.mutable:
             if inputs_loader is not None:
                 for batch_inputs in inputs_loader:
+                    rng, key = random.split(rng)
                     state = state.replace(
                         mutable=self.joint.likelihood.model_manager.apply(
                             state.params,
                             batch_inputs,
                             mutable=state.mutable,
                             train=True,
-                            rng=rng,
+                            rng=key,
                         )[1]["mutable"]
                     )
             else:
-- 
2.43.0


From 523c67fd15bcb2aa4cd9ed6ad4df89680a85d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 54/70] fix: initialise the Gaussian process layer of SNGP with
 its own key

---
 fortuna/model/model_manager/classification.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index ba92d3a..32ba0ef 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -345,7 +345,9 @@ class SNGPClassificationModelManager(
                 f"In order to use SNGP the output shape of the provide model has to be of shape"
                 f"(batch_size, n_features)."
             )
-        gp_params = self._gp_output_model.init(rngs, jnp.zeros(output_shape), **kwargs)
+        rng, gp_params_key, gp_dropout_key = random.split(rng, 3)
+        gp_rngs = {"params": gp_params_key, "dropout": gp_dropout_key}
+        gp_params = self._gp_output_model.init(gp_rngs, jnp.zeros(output_shape), **kwargs)
         params = dict(
             model=FrozenDict(nested_update(unfreeze(model_params), unfreeze(gp_params)))
         )
-- 
2.43.0


From 7d9730d903230a0762f8cdb5bafd42428e6d6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 55/70] fix: do not reuse initialisation keys when initialising
 a model editor

---
 fortuna/model/model_manager/regression.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index b774fb0..db247f6 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -141,12 +141,12 @@ class RegressionModelManager(ModelManager):
             model_outputs = self.model.apply(
                 p["model"],
                 x,
-                rngs=model_rngs,
+                rngs={"dropout": model_editor_dropout_key},
             )
             lik_log_var_outputs = self.likelihood_log_variance_model.apply(
                 p["lik_log_var"],
                 x,
-                rngs=lik_log_var_rngs,
+                rngs={"dropout": lik_log_var_editor_dropout_key},
             )
 
             self._check_outputs(model_outputs, lik_log_var_outputs)
@@ -154,9 +154,13 @@ class RegressionModelManager(ModelManager):
             return jnp.concatenate((model_outputs, lik_log_var_outputs), axis=-1)
 
         if self.model_editor is not None:
-            if rng is None:
-                rng = self.rng
-            rng, params_key, dropout_key = random.split(rng, 3)
+            (
+                rng,
+                params_key,
+                dropout_key,
+                model_editor_dropout_key,
+                lik_log_var_editor_dropout_key,
+            ) = random.split(rng, 5)
             rngs = {"params": params_key, "dropout": dropout_key}
             params.update(
                 dict(
-- 
2.43.0


From 38e8456be04f5840b0ac33be7a79c10fa69154fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 56/70] fix: compute the maximum calibration error without
 weighting by the counts

---
 fortuna/metric/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/metric/classification.py b/fortuna/metric/classification.py
index 3b121f0..aa23e51 100755
--- a/fortuna/metric/classification.py
+++ b/fortuna/metric/classification.py
@@ -177,7 +177,7 @@ def maximum_calibration_error(
     counts, confs, accs = compute_counts_confs_accs(
         preds, probs, targets, plot, plot_options
     )
-    mce = jnp.max(counts * jnp.abs(accs - confs))
+    mce = jnp.max(jnp.abs(accs - confs))
     return mce
 
 
-- 
2.43.0


From fa6a43b1521ea586900d5845f3ea33f5705376fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 57/70] fix: include the labels with small nonconformity scores
 in conformal sets

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From 24733eb09307d02248e64a969230bfe337166cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 58/70] fix: draw a new key for every minibatch when
 accumulating gradients

---
 fortuna/training/trainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7703368..203c9b7 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -487,12 +487,12 @@ class TrainerABC(
                 training_kwargs,
             )
             self._global_training_step += 1
+            # update model key
+            model_key = self.training_step_start(rng, state.step)
             if (gradient_accumulation_steps > 0) and (
                 (step + 1) % gradient_accumulation_steps != 0
             ):
                 continue
-            # update model key
-            model_key = self.training_step_start(rng, state.step)
             # compute training losses and metrics for the current batch
             state, training_losses_and_metrics_current_batch = self.training_step_end(
                 current_epoch=current_epoch,
-- 
2.43.0


From f58a238bad81c564fa0e229740266483c4d73ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:22 +0000
Subject: [PATCH 59/70] fix: keep the requested number of checkpoints when
 saving improved states in output calibration

---
 fortuna/training/output_calibrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 66b57c3..73544fc 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -431,7 +431,12 @@ class OutputCalibratorABC(
         # early stopping
         improved = self.early_stopping_update(val_losses_and_metrics_current_epoch)
         if improved and self.save_checkpoint_dir:
-            self.save_checkpoint(state, self.save_checkpoint_dir, force_save=True)
+            self.save_checkpoint(
+                state,
+                self.save_checkpoint_dir,
+                keep=self.keep_top_n_checkpoints,
+                force_save=True,
+            )
         return val_losses_and_metrics_current_epoch
 
     def _get_mean_losses_and_metrics(
-- 
2.43.0


From cf469449e6cd867d18f60708e2a792a5f800ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 60/70] fix: return the frozen parameters after training SWAG
 on multiple devices

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..31c6ccc 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -155,4 +155,8 @@ class MultiDeviceSWAGTrainer(SWAGMultiDeviceMixin, SWAGTrainer):
             force_save=True,
         )
         state = device_get(tree_map(lambda x: x[0], state))
+        if self.freeze_fun is not None:
+            state = state.replace(
+                params=self._get_all_params(state), frozen_params=None
+            )
         return self._update_state_with_stats(state)
-- 
2.43.0


From 7f90dc676fb54a391bf573b2fc56f461ffd59258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 61/70] fix: disable validation when `eval_every_n_epochs` is
 None

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 1 +
 fortuna/training/output_calibrator.py                       | 1 +
 fortuna/training/trainer.py                                 | 1 +
 3 files changed, 3 insertions(+)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 2dfb5a9..ea53dbd 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -457,6 +457,7 @@ class OutputCalibModelCalibrator(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 73544fc..c4e1721 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -451,6 +451,7 @@ class OutputCalibratorABC(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 203c9b7..4e67bdf 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -593,6 +593,7 @@ class TrainerABC(
     ) -> bool:
         return (
             validation_dataloader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
-- 
2.43.0


From 262df629434e30dfac1959b0232ec459fe09d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 62/70] fix: keep the requested number of checkpoints when
 saving improved output calibrators

---
 .../output_calib_model/output_calib_model_calibrator.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index ea53dbd..84a8971 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -442,7 +442,12 @@ class OutputCalibModelCalibrator(
         # early stopping
         improved = self.early_stopping_update(val_losses_and_metrics_current_epoch)
         if improved and self.save_checkpoint_dir:
-            self.save_checkpoint(state, self.save_checkpoint_dir, force_save=True)
+            self.save_checkpoint(
+                state,
+                self.save_checkpoint_dir,
+                keep=self.keep_top_n_checkpoints,
+                force_save=True,
+            )
         return val_losses_and_metrics_current_epoch
 
     def _get_mean_losses_and_metrics(
-- 
2.43.0


From 6bd69d3475d0f6700a1ff9a976bfafd3465a23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:57 +0000
Subject: [PATCH 63/70] fix: let gradients be accumulated when training
 calibration models

---
 fortuna/calib_model/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/calib_model/state.py b/fortuna/calib_model/state.py
index 028fc80..bad2de4 100644
--- a/fortuna/calib_model/state.py
+++ b/fortuna/calib_model/state.py
@@ -7,6 +7,7 @@ from typing import (
 )
 
 from flax.core import FrozenDict
+import jax.numpy as jnp
 
 from fortuna.training.train_state import TrainState
 from fortuna.typing import (
@@ -23,6 +24,7 @@ class CalibState(TrainState):
     mutable: Optional[Mutable] = None
     calib_params: Optional[CalibParams] = None
     calib_mutable: Optional[CalibMutable] = None
+    grad_accumulated: Optional[jnp.ndarray] = None
 
     @classmethod
     def init(
-- 
2.43.0


From 4beca0ca1d8a446248d7f70ca112d535449a8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:57 +0000
Subject: [PATCH 64/70] fix: average the gradients over devices when scaling
 the loss dynamically

---
 fortuna/training/trainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 4e67bdf..2a04f11 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -121,7 +121,11 @@ class TrainerABC(
         if state.dynamic_scale is None:
             value_and_grad_fn = value_and_grad
         else:
-            value_and_grad_fn = state.dynamic_scale.value_and_grad
+            value_and_grad_fn = (
+                partial(state.dynamic_scale.value_and_grad, axis_name="batch")
+                if self.multi_device
+                else state.dynamic_scale.value_and_grad
+            )
 
         forward_fun = lambda params: self.training_loss_step(
             loss_fun,
-- 
2.43.0


From b9cf094a47ada5f6f4f62086fefddcbd0ac61aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:57 +0000
Subject: [PATCH 65/70] fix: do not accumulate non-finite gradients

---
 fortuna/training/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 2a04f11..174b2c0 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -164,6 +164,9 @@ class TrainerABC(
             kwargs.get("gradient_accumulation_steps", 0.0) or 0.0
         )
         if gradient_accumulation_steps > 1:
+            if state.dynamic_scale is not None:
+                # a step with non-finite gradients must not affect the accumulated ones
+                grad = tree_map(partial(jnp.where, is_fin), grad, tree_map(jnp.zeros_like, grad))
             new_state = self.params_update_with_grad_accumulation(
                 state, grad, aux, gradient_accumulation_steps, max_grad_norm
             )
-- 
2.43.0


From 9d0eaf0de6eaef9e9a8e44f8a8817dfc4860d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 66/70] fix: keep the requested number of checkpoints when
 saving improved states in training

---
 .../prob_model/posterior/normalizing_flow/advi/advi_trainer.py | 3 ++-
 fortuna/prob_model/posterior/swag/swag_trainer.py              | 2 +-
 fortuna/training/trainer.py                                    | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index a2fa161..5045abf 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -1,5 +1,6 @@
 from typing import (
     List,
+    Optional,
     Tuple,
 )
 
@@ -44,7 +45,7 @@ class ADVITrainer(NormalizingFlowTrainer):
         self,
         state: ADVIState,
         save_checkpoint_dir: Path,
-        keep: int = 1,
+        keep: Optional[int] = None,
         force_save: bool = False,
         prefix: str = "checkpoint_",
     ) -> None:
diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 31c6ccc..4e3a8bb 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -108,7 +108,7 @@ class SWAGTrainer(MAPTrainer):
         self,
         state: SWAGState,
         save_checkpoint_dir: Path,
-        keep: int = 1,
+        keep: Optional[int] = None,
         force_save: bool = False,
         prefix: str = "checkpoint_",
     ) -> None:
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 174b2c0..cdff972 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -694,10 +694,11 @@ class TrainerABC(
         self,
         state: TrainState,
         save_checkpoint_dir: Path,
-        keep: int = 1,
+        keep: Optional[int] = None,
         force_save: bool = False,
         prefix: str = "checkpoint_",
     ) -> None:
+        keep = self.keep_top_n_checkpoints if keep is None else keep
         if self.freeze_fun is not None:
             state = state.replace(
                 params=self._get_all_params(state), frozen_params=None
-- 
2.43.0


From 434c3a36fea487bee3db32a38e406327da619e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:27 +0000
Subject: [PATCH 67/70] fix: apply the model editor of an SNGP model once

---
 fortuna/model/model_manager/classification.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index 32ba0ef..64666d7 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -267,16 +267,8 @@ class SNGPClassificationModelManagerMixin:
                 p, x, deep_feature_extractor_mutable, train, rng
             )
 
-        if self.model_editor is not None:
-            deep_feature_extractor_outputs = self.model_editor.apply(
-                params["model_editor"],
-                apply_fn=apply_fn,
-                model_params=params,
-                x=inputs,
-                has_aux=has_aux,
-            )
-        else:
-            deep_feature_extractor_outputs = apply_fn(params, inputs)
+        # the parent's `apply` takes care of the model editor
+        deep_feature_extractor_outputs = apply_fn(params, inputs)
 
         variables = params["model"].unfreeze()
         if mutable is not None:
-- 
2.43.0


From b96d1884e80a4b5d95dc649a1aea38c40d620058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:36 +0000
Subject: [PATCH 68/70] fix: keep the state of an output calibrator in the form
 it is read in

---
 fortuna/output_calibrator/output_calib_manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calibrator/output_calib_manager/base.py b/fortuna/output_calibrator/output_calib_manager/base.py
index 069e9ec..6a7cfe9 100644
--- a/fortuna/output_calibrator/output_calib_manager/base.py
+++ b/fortuna/output_calibrator/output_calib_manager/base.py
@@ -75,7 +75,7 @@ class OutputCalibManager(WithRNG):
             outputs, mutable = self.output_calibrator.apply(
                 variables, outputs, mutable=mutable, train=calib, rngs=rngs
             )
-            return outputs, {"mutable": mutable}
+            return outputs, FrozenDict(mutable)
         else:
             return self.output_calibrator.apply(
                 variables, outputs, train=calib, mutable=False, rngs=rngs
-- 
2.43.0


From b8a2e33f249051ad4349cd8ec58c2963749bbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:28 +0000
Subject: [PATCH 69/70] fix: count only the rows that are yielded in the size
 of a loader that drops its last batch

---
 fortuna/data/dataset/huggingface_datasets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fortuna/data/dataset/huggingface_datasets.py b/fortuna/data/dataset/huggingface_datasets.py
index 93b0f58..f8fcb29 100644
--- a/fortuna/data/dataset/huggingface_datasets.py
+++ b/fortuna/data/dataset/huggingface_datasets.py
@@ -119,10 +119,11 @@ class HuggingFaceClassificationDatasetABC(abc.ABC):
         HuggingFaceDataLoader
             The dataloader
         """
+        batch_size = per_device_batch_size * jax.local_device_count()
         iterable = IterableData.from_callable(
             lambda *args, **kwargs: self._get_data_loader(
                 dataset,
-                batch_size=per_device_batch_size * jax.local_device_count(),
+                batch_size=batch_size,
                 shuffle=shuffle,
                 drop_last=drop_last,
                 rng=rng,
@@ -131,7 +132,9 @@ class HuggingFaceClassificationDatasetABC(abc.ABC):
         )
         return HuggingFaceDataLoader(
             iterable=iterable,
-            num_inputs=len(dataset),
+            num_inputs=(
+                len(dataset) // batch_size * batch_size if drop_last else len(dataset)
+            ),
             num_unique_labels=self.num_unique_labels,
         )
 
-- 
2.43.0


From 0cdd1dc4550fb562c5962c19a79b61a932d19b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 70/70] fix: train a deep ensemble that starts from a
 preliminary MAP with its own optimizer

---
 .../posterior/deep_ensemble/deep_ensemble_posterior.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index 779cdde..2d9dfde 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -268,7 +268,8 @@ class DeepEnsemblePosterior(Posterior):
                             ]
                         ),
                     )
-                )
+                ),
+                tx=fit_config.optimizer.method,
             )
 
         return state
-- 
2.43.0

