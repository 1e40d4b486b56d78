From b92ac824c326c64ea59d65db14559ebd26cb696d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 01/36] fix: evolution with a single worker evaluates in the
 parent process

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..985f4db 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -468,7 +468,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From 2569b844ed511a17526ba80ff15cb6577f1fe0a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 02/36] fix: seed before building the universe so every rank
 simulates the same one

---
 yuca/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 985f4db..d261841 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -47,6 +47,9 @@ class CMAES():
         self.prediction_mode = query_kwargs("prediction_mode", 0, **kwargs)
 
         env_fn = query_kwargs("env_fn", HaltingWrapper, **kwargs)
+
+        # every process (mantle and arms) must build the same universe
+        seed_all(self.my_seed[0])
         
         self.env = env_fn(lr = 1e-2, dropout = 0.125, **kwargs) 
 
-- 
2.43.0


From c0e6d21a2b0cdba7e040e2a4a718f6c34a2e5c52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 03/36] fix: carry elites over from their saved params, not
 from overwritten agents

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index d261841..04b2cad 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -316,7 +316,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 440dabc3eb213d15a89b849c5847a3a70540f9f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 04/36] fix: rank the evaluated population, not the resampled
 one, on early stop

---
 yuca/cmaes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 04b2cad..b3dfcf5 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -520,15 +520,18 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
-                    self.rank_population(fitness, seed=my_seed)
-                else:
-                    self.update_population(fitness)
-
                 fit_mean = np.mean(fitness) 
                 fit_max = np.max(fitness) 
                 fit_min = np.min(fitness) 
                 fit_std_dev = np.std(fitness) 
+
+                stop_early = fit_std_dev < 0.02 and generation > 6
+
+                if generation == self.generations - 1 or stop_early:
+                    self.rank_population(fitness, seed=my_seed)
+                else:
+                    self.update_population(fitness)
+
                 avg_alive = np.mean(proportion_alive)
 
                 elite_configs = self.get_elite_configs()
@@ -564,8 +567,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if stop_early:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From 0dacd20c615832f9f58cb2d180d7c4e4e7639beb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 05/36] fix: keep runs with different seeds independent

---
 yuca/cmaes.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index b3dfcf5..cda91c2 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -423,15 +423,7 @@ class CMAES():
 
         t0 = time.time()
 
-        progress = {}
-        progress["elite_params"] = []
-        progress["elite_configs"] = []
-        progress["mean_fitness"] = []
-        progress["max_fitness"] = []
-        progress["min_fitness"] = []
-        progress["std_dev_fitness"] = []
-        progress["kwargs"] = self.kwargs
-        progress["distribution"] = []
+        starting_elite_params = self.elite_params
 
         print(f"begin evolution with:\n" \
                 f"selection mode {self.selection_mode} " \
@@ -442,7 +434,19 @@ class CMAES():
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
+            progress = {}
+            progress["elite_params"] = []
+            progress["elite_configs"] = []
+            progress["mean_fitness"] = []
+            progress["max_fitness"] = []
+            progress["min_fitness"] = []
+            progress["std_dev_fitness"] = []
+            progress["kwargs"] = self.kwargs
+            progress["distribution"] = []
+
             seed_all(my_seed)
+            # runs with different seeds are independent of one another
+            self.elite_params = starting_elite_params
             self.reset()
             self.initialize_population()
             
-- 
2.43.0


From 9f21923e204001419d070ca2fa59bf9f15b60f6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 06/36] fix: save the evolved rule, not cppn weights, after
 coevolution

---
 yuca/cmaes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index cda91c2..04173c0 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -230,11 +230,18 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.set_rule(self.elite_params[0])
 
         self.env.ca.save_config(ca_config_filepath)
 
 
+    def set_rule(self, params):
+        """
+        apply an agent's rule parameters to the universe
+        """
+
+        self.env.ca.set_params(params)
+
     def update_population(self, fitness):
 
         if self.selection_mode == 0:
@@ -633,6 +640,12 @@ class CMACES(CMAES):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
+    def set_rule(self, params):
+        # agents carry pattern (cppn) params first, followed by rule params
+
+        num_rule_params = self.env.ca.get_params().shape[0]
+        self.env.ca.set_params(params[-num_rule_params:])
+
     def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
 
         fitness_replicates = []
-- 
2.43.0


From 8e35887ef22410f86c61105aa45f085dc6114608 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 07/36] fix: do not run the uninitialized env of a mantle to
 make elite configs

---
 yuca/cmaes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 04173c0..fee722f 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -377,7 +377,11 @@ class CMAES():
             temp_agent.to_device(self.my_device)
 
             action = temp_agent.get_action()
-            _ = self.env.step(action)
+
+            # a mantle with arms never resets (and so never builds the
+            # model of) its own env: only the universe is needed here
+            if "pattern" not in self.tag:
+                self.env.ca.set_params(action)
 
             elite_configs.append(self.env.ca.make_config())
 
-- 
2.43.0


From b58a1be67943671a6cecd1118d9351ae8d6dba8e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 08/36] fix: cppn agents take the params they are given

---
 yuca/cppn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..a4759b7 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,10 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            # subclasses may append params of their own
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From cae856e4b34ff54686667176955455c99fde46f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 09/36] fix: write logs and configs atomically

---
 yuca/ca/continuous.py         |  3 ++-
 yuca/ca/neural.py             |  3 ++-
 yuca/ca/reaction_diffusion.py |  3 ++-
 yuca/cmaes.py                 |  4 ++--
 yuca/utils.py                 | 34 ++++++++++++++++++++++++++++++++++
 5 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..42841f4 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -19,6 +19,7 @@ from yuca.activations import Gaussian, \
 import yuca.utils as utils
 from yuca.utils import save_fig_sequence, \
         make_gif, \
+        save_npy, \
         query_kwargs
          
 from yuca.configs import get_orbium_config, \
@@ -262,7 +263,7 @@ class CCA(CA):
         if config is None:
             config = self.make_config()
 
-        np.save(filepath, config)
+        save_npy(filepath, config)
 
     def default_init(self):
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..4b060d9 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -19,6 +19,7 @@ from yuca.activations import Gaussian, \
 import yuca.utils as utils
 from yuca.utils import save_fig_sequence, \
         make_gif, \
+        save_npy, \
         query_kwargs
          
 from yuca.kernels import get_kernel, \
@@ -260,7 +261,7 @@ class NCA(CA):
         if config is None:
             config = self.make_config()
 
-        np.save(filepath, config)
+        save_npy(filepath, config)
 
     def initialize_weight_layer(self):
         
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..5105f41 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -10,6 +10,7 @@ import torch.nn.functional as F
 
 from yuca.utils import save_fig_sequence, \
         make_gif, \
+        save_npy, \
         query_kwargs
 
 from yuca.kernels import get_kernel, \
@@ -197,7 +198,7 @@ class RxnDfn(CA):
         if config is None:
             config = self.make_config()
 
-        np.save(filepath, config)
+        save_npy(filepath, config)
 
     def default_init(self):
 
diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index fee722f..d204c82 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -11,7 +11,7 @@ import torch
 import torch.nn as nn
 import torch.nn.functional as F
 
-from yuca.utils import query_kwargs, seed_all, save_fig_sequence
+from yuca.utils import query_kwargs, seed_all, save_fig_sequence, save_npy
 
 from yuca.params_agent import ParamsAgent 
 from yuca.wrappers.halting_wrapper import SimpleHaltingWrapper, HaltingWrapper 
@@ -566,7 +566,7 @@ class CMAES():
                 progress["std_dev_fitness"].append(fit_std_dev)
 
                 logs_path = os.path.join("./logs", f"{self.exp_id}_seed{my_seed}.npy")
-                np.save(logs_path, progress)
+                save_npy(logs_path, progress)
 
                 t2 = time.time()
                 timing_msg = f"elapsed time: {t2-t0:.4f}, generation {t2-t1:.4f}"
diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..ebc61cb 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 
 import time
 import numpy as np
@@ -21,6 +22,39 @@ def seed_all(my_seed=13):
     torch.manual_seed(my_seed)
     np.random.seed(my_seed)
 
+def atomic_write(filepath, write_fn):
+    """
+    replace the file at filepath with whatever write_fn writes
+
+    A reader, or a restart after a crash or a full disk, finds either
+    the complete old file or the complete new one.
+    """
+
+    temp_path = os.path.join(os.path.dirname(filepath), f".{uuid.uuid4().hex}.tmp")
+
+    try:
+        with open(temp_path, "wb") as f:
+            write_fn(f)
+            f.flush()
+            os.fsync(f.fileno())
+
+        os.replace(temp_path, filepath)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+def save_npy(filepath, data):
+    """
+    like np.save, but never leaves a partially written file at filepath
+    """
+
+    filepath = os.fspath(filepath)
+    if not filepath.endswith(".npy"):
+        filepath += ".npy"
+
+    atomic_write(filepath, lambda f: np.save(f, data))
+
 def query_kwargs(key, default, **kwargs):
 
    return kwargs[key] if key in kwargs.keys() else default
-- 
2.43.0


From b34d2b90656c27fb48a54a6a923b15a4d2710901 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 10/36] fix: write checkpoints and analyses atomically

---
 yuca/analyze.py        | 4 ++--
 yuca/clone.py          | 4 ++--
 yuca/step_predictor.py | 8 +++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..d1065f5 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -14,7 +14,7 @@ import torch.nn.functional as F
 
 import yuca
 from yuca.ca.continuous import CCA
-from yuca.utils import query_kwargs, get_bite_mask, save_fig_sequence
+from yuca.utils import query_kwargs, get_bite_mask, save_fig_sequence, save_npy
 from yuca.cppn import CPPN
 
 def np_shift(grid, shift):
@@ -429,7 +429,7 @@ class Phanes():
                 results["name"] = filename
                 results["use_cppn"] = self.use_cppn
                 results["max_ca_steps"] = self.ca_steps
-                np.save(save_path, results)
+                save_npy(save_path, results)
 
 
 
diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..80e3123 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -7,7 +7,7 @@ import torch
 import torch.nn.functional as F
 import torch.nn as nn
 
-from yuca.utils import query_kwargs, seed_all
+from yuca.utils import query_kwargs, seed_all, atomic_write
 from yuca.ca.neural import NCA
 from yuca.ca.continuous import CCA
 
@@ -156,7 +156,7 @@ def clone_from_ca(**kwargs):
         msg += f"saving to {save_path}"
         print(msg)
 
-        torch.save(best_state_dict, save_path)
+        atomic_write(save_path, lambda f: torch.save(best_state_dict, f))
 
 
 if __name__ == "__main__":
diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..6cbffb8 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -12,7 +12,8 @@ import torch.nn.functional as F
 
 import yuca
 from yuca.ca.continuous import CCA
-from yuca.utils import query_kwargs, get_bite_mask, save_fig_sequence, seed_all
+from yuca.utils import query_kwargs, get_bite_mask, save_fig_sequence, seed_all, \
+        atomic_write, save_npy
 
 
 class StepPredictor(nn.Module):
@@ -160,8 +161,9 @@ class StepPredictor(nn.Module):
                 save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
                 model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
 
-                np.save(save_path, progress)
-                torch.save(self.state_dict(), model_save_path)
+                save_npy(save_path, progress)
+                atomic_write(model_save_path, \
+                        lambda f: torch.save(self.state_dict(), f))
 
 
     def evaluate(self, test_dataloader):
-- 
2.43.0


From 323dc69c9d0512241b8690ee92585674775b2f52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 11/36] fix: saved configs keep the identity kernel

---
 yuca/ca/continuous.py         | 6 ++++--
 yuca/ca/neural.py             | 6 ++++--
 yuca/ca/reaction_diffusion.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 42841f4..54276f8 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -111,9 +111,11 @@ class CCA(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            self.id_kernel_config = config["identity_kernel_config"]
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -238,7 +240,7 @@ class CCA(CA):
 
         #    persistence_config["parameters"] = self.get_persistence_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
         config["persistence_config"] = persistence_config
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 4b060d9..3751f3f 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -141,9 +141,11 @@ class NCA(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            self.id_kernel_config = config["identity_kernel_config"]
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -235,7 +237,7 @@ class NCA(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         if "dt" not in config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 5105f41..f6345bf 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -79,9 +79,11 @@ class RxnDfn(CA):
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
+            self.id_kernel_config = None
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            self.id_kernel_config = config["identity_kernel_config"]
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -181,7 +183,7 @@ class RxnDfn(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         config["dt"] = self.dt.item() 
-- 
2.43.0


From e1f0ed4c58e55d867b05e225a657132c4fa022d5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 12/36] fix: loading a config does not load the files its maker
 was started from

---
 yuca/ca/continuous.py | 7 ++++++-
 yuca/ca/neural.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 54276f8..44575d8 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -103,7 +103,12 @@ class CCA(CA):
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-            self.__init__(**config["instant_kwargs"])
+            # the config being loaded takes the place of any files
+            # the universe that made it was started from
+            instant_kwargs = {key: value \
+                    for key, value in config["instant_kwargs"].items() \
+                    if key not in ("ca_config", "input_filepath")}
+            self.__init__(**instant_kwargs)
 
         self.genesis_fns = []
         self.persistence_fns = []
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 3751f3f..aab95b2 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -135,7 +135,12 @@ class NCA(CA):
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-            self.__init__(**config["instant_kwargs"])
+            # the config being loaded takes the place of any files
+            # the universe that made it was started from
+            instant_kwargs = {key: value \
+                    for key, value in config["instant_kwargs"].items() \
+                    if key not in ("ca_config", "input_filepath")}
+            self.__init__(**instant_kwargs)
 
 
         self.config = config
-- 
2.43.0


From fbe9e637991762f0915906c22112e6a5b51a1419 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 13/36] fix: universes loaded from one config do not share its
 state

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 3 +++
 yuca/ca/neural.py             | 5 ++++-
 yuca/ca/reaction_diffusion.py | 3 +++
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..f52ce93 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -284,7 +284,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 44575d8..5cc9aa7 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -102,6 +102,9 @@ class CCA(CA):
 
     def load_config(self, config):
 
+        # universes loaded from the same config must not share state
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             # the config being loaded takes the place of any files
             # the universe that made it was started from
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index aab95b2..a7a608a 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -124,7 +124,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
@@ -134,6 +134,9 @@ class NCA(CA):
 
     def load_config(self, config):
 
+        # universes loaded from the same config must not share state
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             # the config being loaded takes the place of any files
             # the universe that made it was started from
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index f6345bf..7723d18 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -76,6 +76,9 @@ class RxnDfn(CA):
 
     def load_config(self, config, verbose=False):
 
+        # universes loaded from the same config must not share state
+        config = copy.deepcopy(config)
+
         self.config = config
 
         if "identity_kernel_config" not in config.keys():
-- 
2.43.0


From f96d0b2623fde1a22fdd8dc4a772cd1bcb730766 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 14/36] fix: resetting a universe forgets its adapted step size

---
 yuca/code.py                     | 6 +++++-
 yuca/wrappers/halting_wrapper.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..7ad59b0 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -43,9 +43,12 @@ from yuca.ca.continuous import CCA
 class CODE(CCA):
 
     def __init__(self, **kwargs):
+        self.initial_dt = query_kwargs("prev_dt", 0.3, **kwargs)
+
         super(CODE, self).__init__(**kwargs)
     
-        self.prev_dt = query_kwargs("prev_dt", 0.3, **kwargs)
+        # loading a config may have re-run __init__ with other kwargs
+        self.initial_dt = query_kwargs("prev_dt", 0.3, **kwargs)
         self.max_dt = query_kwargs("max_dt", 0.5, **kwargs)
         self.min_dt = query_kwargs("min_dt", 0.01, **kwargs)
         self.error_threshold = query_kwargs("error_threshold", 1e-3, **kwargs)
@@ -56,6 +59,7 @@ class CODE(CCA):
     def reset(self):
 
         self.t_count = 0.0
+        self.prev_dt = self.initial_dt
 
     def adaptive_euler(self, grid, total_step=0.0):
         
diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..e0a8ce2 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,7 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
-
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim).to(self.ca.my_device)
-- 
2.43.0


From 412ebea4194e6fd1b5f3d37c180d7d6e9755b1d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 15/36] fix: saved configs describe the genesis and persistence
 functions in use

---
 yuca/ca/continuous.py | 72 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 5cc9aa7..905de8b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -137,8 +137,11 @@ class CCA(CA):
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
         self.initialize_neighborhood_layer()
 
-        self.add_genesis_fn(config["genesis_config"])
-        self.add_persistence_fn(config["persistence_config"])
+        # one config for all, or a list with one for each internal channel
+        for genesis_config in self.as_list(config["genesis_config"]):
+            self.add_genesis_fn(genesis_config)
+        for persistence_config in self.as_list(config["persistence_config"]):
+            self.add_persistence_fn(persistence_config)
 
         self.genesis_fn_config = config["genesis_config"]
         self.persistence_fn_config = config["persistence_config"]
@@ -183,6 +186,47 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def as_list(self, fn_config):
+
+        return fn_config if type(fn_config) is list else [fn_config]
+
+    def update_fn_config(self, fn_config, fn):
+        """
+        a copy of fn_config with the current parameters of fn 
+        """
+
+        fn_config = copy.deepcopy(fn_config)
+        params = [param.detach().cpu().numpy().ravel() \
+                for param in fn.parameters()]
+
+        if fn_config["name"] in ["Gaussian", "DoGaussian", "DoubleGaussian"]:
+            for key, value in zip(["mu", "sigma"], params):
+                fn_config[key] = value.item() if value.size == 1 else value
+
+        elif fn_config["name"] == "GaussianMixture":
+            amplitudes = fn.amplitudes.cpu().numpy()
+
+            # lists of (mu, sigma) with lengths divisible by 3 would be
+            # mistaken for lists of (amplitude, mu, sigma)
+            if len(params) % 3 == 0 or (amplitudes != 1.0).any():
+                for ii in range(len(amplitudes)):
+                    params.insert(3 * ii, amplitudes[ii:ii+1])
+
+            fn_config["parameters"] = np.concatenate(params)
+
+        elif fn_config["name"] == "Polynomial":
+            fn_config["coefficients"] = params[0]
+
+        return fn_config
+
+    def update_fn_configs(self, fn_configs, fns):
+
+        if type(fn_configs) is not list:
+            return self.update_fn_config(fn_configs, fns[0])
+
+        return [self.update_fn_config(fn_config, fn) \
+                for fn_config, fn in zip(fn_configs, fns)]
+
     def make_config(self):
 
         config = {}
@@ -225,12 +269,8 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
-
-        #if "parameters" in genesis_config.keys():
-
-        #    genesis_config["parameters"] = self.get_genesis_params()
+            genesis_config = self.update_fn_configs(\
+                    self.genesis_fn_config, self.genesis_fns)
             
         # persistence
         if self.persistence_fn_config is None:
@@ -241,12 +281,8 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
-
-        #if "parameters" in persistence_config.keys():
-
-        #    persistence_config["parameters"] = self.get_persistence_params()
+            persistence_config = self.update_fn_configs(\
+                    self.persistence_fn_config, self.persistence_fns)
             
         config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
@@ -303,6 +339,9 @@ class CCA(CA):
         self.initialize_weight_layer()
 
         if self.ca_mode == "functional" or self.ca_mode == "neurofunctional":
+            self.genesis_fn_config = []
+            self.persistence_fn_config = []
+
             for pp in range(self.internal_channels):
                 
                 if (pp < 8):
@@ -358,7 +397,12 @@ class CCA(CA):
 
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
+                self.genesis_fn_config.append(genesis_config)
+                self.persistence_fn_config.append(persistence_config)
 
+            if self.internal_channels == 1:
+                self.genesis_fn_config = self.genesis_fn_config[0]
+                self.persistence_fn_config = self.persistence_fn_config[0]
 
         self.set_dt(0.1)
 
-- 
2.43.0


From 36ae1f15886fff9f04ac54dc89881a919c85f40f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 16/36] fix: saved configs describe the neighborhood kernel in
 use

---
 yuca/ca/common.py     | 32 +++++++++++++++++++++++++-------
 yuca/ca/continuous.py | 16 +++++-----------
 yuca/ca/neural.py     | 28 ++++++----------------------
 3 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index f52ce93..f801a14 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -273,20 +273,38 @@ class CA(nn.Module):
 
     def update_kernel_params(self, kernel_kwargs):
 
-        self.kernel_params = None
+        # only kernels made of gaussians have adjustable parameters
+        param_keys = {"Gaussian": ["mu", "sigma"], \
+                "GaussianMixture": ["parameters"]}
+
+        self.kernel_params = np.array([])
 
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
+        for key in param_keys.get(self.neighborhood_kernel_config["name"], []):
+            if key in kernel_kwargs.keys():
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
 
+    def set_kernel_params(self, kernel_params):
+        """
+        replace the neighborhood kernel with a mixture of gaussians 
+        """
+
+        self.kernel_params = np.array(kernel_params)
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "radius": self.kernel_radius, \
+                "kernel_kwargs": {"parameters": self.kernel_params}}
+
+        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
+
+        self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
+
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 905de8b..cabf00e 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -130,8 +130,8 @@ class CCA(CA):
 
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -730,15 +730,9 @@ class CCA(CA):
 
                 param_start = param_stop
 
-        param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
-
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-        self.initialize_neighborhood_layer()
-        self.to_device(self.my_device)
+        if len(self.kernel_params):
+            param_stop = param_start + self.kernel_params.shape[0]
+            self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index a7a608a..3b23b0c 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -82,17 +82,6 @@ class NCA(CA):
 
         self.reset()
 
-    def update_kernel_params(self, kernel_kwargs):
-
-        self.kernel_params = None
-
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
-
     def default_init(self):
 
         self.add_identity_kernel()
@@ -127,10 +116,12 @@ class NCA(CA):
         self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
 
     def load_config(self, config):
 
@@ -365,16 +356,9 @@ class NCA(CA):
 
             param_start = param_stop
 
-        if self.kernel_params is not None:
+        if len(self.kernel_params):
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
-
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
-
-            self.add_neighborhood_kernel(nbhd_kernel)
-            self.initialize_neighborhood_layer()
-            self.to_device(self.my_device)
+            self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
-- 
2.43.0


From 22e449c9276d0fec85de3dec42c474947786c8b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 17/36] fix: zoo entries are stored exclusively, completely and
 verbatim

---
 yuca/zoo/librarian.py | 90 ++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..5b562b9 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -1,8 +1,9 @@
+import csv
 import os
 
 import numpy as np
 
-from yuca.utils import query_kwargs
+from yuca.utils import query_kwargs, save_npy
 
 
 class Librarian():
@@ -28,18 +29,8 @@ class Librarian():
 
         pattern_names = os.listdir(self.directory)
 
-        remove_list = []
-        for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
-                remove_list.append(elem)
-                
-        for elem in remove_list:
-            pattern_names.remove(elem)
-
-        pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names]
+        pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names \
+                if elem.endswith(".npy")]
 
         pattern_names.sort()
 
@@ -53,7 +44,7 @@ class Librarian():
         counter = 0
         file_path = os.path.join(self.directory, f"{pattern_name}{counter:03}.npy")
 
-        while os.path.exists(file_path):
+        while not self.claim(file_path):
             counter += 1
             file_path = os.path.join(self.directory, f"{pattern_name}{counter:03}.npy")
 
@@ -65,25 +56,48 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
-            else:
+        if config_name == "unspecified":
+            if ca_config != "unspecified":
                 config_name = ca_config
+            elif self.verbose:
+                print(f"warning, no config supplied for {pattern_name}")
 
-        with open(meta_path, "w") as f:
-            f.write(f"ca_config,{config_name}")
-            f.write(f"\ncommit_hash,{commit_hash}")
-            f.write(f"\nnotes, {notes}")
-            f.write(f"\nentry_point,{entry_point}")
-
-        np.save(file_path, pattern) 
+        # metadata goes first: a pattern is in the zoo once its .npy is there
+        try:
+            with open(meta_path, "w", newline="", encoding="utf-8") as f:
+                writer = csv.writer(f)
+                writer.writerow(["ca_config", str(config_name)])
+                writer.writerow(["commit_hash", str(commit_hash)])
+                writer.writerow(["notes", str(notes)])
+                writer.writerow(["entry_point", str(entry_point)])
+                f.flush()
+                os.fsync(f.fileno())
+
+            save_npy(file_path, pattern)
+        except Exception:
+            os.remove(meta_path)
+            raise
 
         if self.verbose:
             print(f"pattern {pattern_name} saved to {file_path}")
             print(f"pattern {pattern_name} metadata saved to {meta_path}")
 
 
+    def claim(self, file_path: str) -> bool:
+        """
+        reserve the name of a pattern file by creating its metadata file,
+        returns False if the name is in use (possibly by another process)
+        """
+
+        if os.path.exists(file_path):
+            return False
+
+        try:
+            with open(os.path.splitext(file_path)[0] + ".csv", "x"):
+                return True
+        except FileExistsError:
+            return False
+
     def load(self, pattern_name: str) -> tuple([np.array, str]):
         """
         load pattern from disk
@@ -95,25 +109,15 @@ class Librarian():
 
         pattern = np.load(file_path)
 
-        with open(meta_path) as f:
-            metadata = f.readlines()
-
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
+        # older entries may lack some rows, or have unquoted commas
+        with open(meta_path, newline="", encoding="utf-8") as f:
+            metadata = {row[0].strip(): ",".join(row[1:]) \
+                    for row in csv.reader(f) if len(row)}
 
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+        ca_config = metadata["ca_config"]
+        entry_point = metadata.get("entry_point", "none")
+        notes = metadata.get("notes", "")
+        commit_hash = metadata.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From f6d7a08ff662cae8ba3257e82daaf0020239f821 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 18/36] fix: animations of concurrent or repeated runs do not
 mix or overwrite each other

---
 yuca/utils.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index ebc61cb..9fbc6cb 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,6 @@
 import os
+import shutil
+import tempfile
 import uuid
 
 import time
@@ -201,19 +203,24 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     
     gif_id = int((time.time() % 1)*1000)
 
-    if os.path.exists(gif_path):
-        pass
-    else:
-        os.mkdir(gif_path)
-
-    gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
+    os.makedirs(gif_path, exist_ok=True)
 
-    first_frame.save(gif_path, format="GIF", append_images=frames, \
-            save_all=True, duration=42, loop=0)
+    # never write into a gif that is already there, or that another
+    # process is writing
+    gif_file = None
+    while gif_file is None:
+        try:
+            gif_file = open(os.path.join(gif_path, \
+                    f"gif_{tag}_{gif_id:04d}.gif"), "xb")
+        except FileExistsError:
+            gif_id += 1
 
-    rm_path = os.path.join(frames_path, "*png")
+    with gif_file:
+        first_frame.save(gif_file, format="GIF", append_images=frames[1:], \
+                save_all=True, duration=42, loop=0)
 
-    os.system(f"rm {rm_path}")
+    for frame in frames:
+        os.remove(frame.filename)
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -238,9 +245,13 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     # number of leading zeros
     leading = num_steps // 10 + 1
 
-    if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+    # the frames of each sequence go in a directory of their own, so that
+    # they don't get mixed up with those of other runs
+    frames_path = os.path.normpath(frames_path)
+    frames_parent = os.path.dirname(frames_path) or "."
+    os.makedirs(frames_parent, exist_ok=True)
+    frames_path = tempfile.mkdtemp(dir=frames_parent, \
+            prefix=f"{os.path.basename(frames_path)}_")
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -289,5 +300,5 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
     #ca.to_device(old_device)
-- 
2.43.0


From 7ad315273e2ca0edc78aa00f615e0a3acbe0318a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 19/36] fix: clones are saved as they were at their best, each
 under its own name

---
 yuca/clone.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 80e3123..e5e085c 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -35,8 +36,6 @@ def clone_from_ca(**kwargs):
     save_path = os.path.join(log_directory, save_name)
 
 
-    best_state_dict = None
-    
     ca_configs = query_kwargs("ca_config", "orbium", **kwargs)
     if type(ca_configs) == str:
         ca_configs = [ca_configs]
@@ -52,6 +51,7 @@ def clone_from_ca(**kwargs):
 
         iteration = 0
         best_error = float("Inf")
+        best_state_dict = None
 
         t0 = time.time()
         while iteration < max_iterations:
@@ -114,7 +114,8 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            # the optimizer goes on changing the params in place
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
@@ -149,14 +150,16 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
-        if "ca_config" in save_path:
-            config_name = os.path.splitext(ca_config)[0] 
-            save_path = save_path.replace("ca_config", config_name)
+        clone_path = save_path
+        if "ca_config" in save_name:
+            config_name = os.path.splitext(os.path.basename(ca_config))[0] 
+            clone_path = os.path.join(log_directory, \
+                    save_name.replace("ca_config", config_name))
 
-        msg += f"saving to {save_path}"
+        msg += f"saving to {clone_path}"
         print(msg)
 
-        atomic_write(save_path, lambda f: torch.save(best_state_dict, f))
+        atomic_write(clone_path, lambda f: torch.save(best_state_dict, f))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From af4f693720806df2c73c1889dbb3ec633c5b794b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 20/36] fix: step predictors train, evaluate and save
 themselves

---
 yuca/step_predictor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 6cbffb8..07ea99e 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -103,7 +103,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -127,7 +127,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -155,11 +155,11 @@ class StepPredictor(nn.Module):
                         "epochs": epochs,\
                         "val_loss": val_losses}
 
-                save_path = os.path.split(os.path.split(\
+                root_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
-                model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(root_path, "logs", f"{self.exp_tag}.npy")
+                model_save_path = os.path.join(root_path, "models", f"{self.exp_tag}_model.pt")
 
                 save_npy(save_path, progress)
                 atomic_write(model_save_path, \
@@ -176,7 +176,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From afcd75ff52b5bb92ffc3836f26dde37d561e4133 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 21/36] fix: analyses are saved next to the directory of
 configs

---
 yuca/analyze.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index d1065f5..d1f6c5f 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -377,12 +377,13 @@ class Phanes():
     def analyze_multiverse(self):
 
         abs_path = os.path.abspath(os.path.curdir)
-        my_directory = os.path.join(abs_path, self.input_directory)
+        my_directory = os.path.normpath(\
+                os.path.join(abs_path, self.input_directory))
 
         list_dir = os.listdir(my_directory)
 
         for filename in list_dir:
-            if "npy" in filename:
+            if filename.endswith(".npy"):
                 load_path = os.path.join(my_directory, filename)
 
                 ca_config = np.load(load_path, allow_pickle=True).reshape(1)[0]
@@ -418,9 +419,9 @@ class Phanes():
 
                 print(progress_msg)
 
-                save_directory = os.path.split(os.path.split(my_directory)[0])[0]
+                save_directory = os.path.split(my_directory)[0]
                 save_directory = os.path.join(save_directory, "ca_analysis")
-
+                os.makedirs(save_directory, exist_ok=True)
                 
                 save_name = os.path.splitext(filename)[0] \
                         + f"cppn{self.use_cppn}_analysis.npy"
-- 
2.43.0


From 1fa20235625b19c0a62fcd72120ec7138ee30d4a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 22/36] fix: the bokeh app runs, and keeps all its patterns

---
 gecco_bokeh_app/main.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index eadabaa..a1299d4 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -8,7 +8,7 @@ import torch
 import torch.nn as nn
 import torch.nn.functional as F
 
-from yuca.multiverse import CA
+from yuca.ca.continuous import CCA as CA
 from yuca.zoo.librarian import Librarian
 from yuca.cppn import CPPN
 
@@ -131,12 +131,13 @@ def reset_this_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
     grid = torch.zeros(1, 1, 96, 96) 
 
-    temp_pattern_name = lib.index.pop(-1)
+    temp_pattern_name = lib.index[-1]
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -144,8 +145,6 @@ def reset_this_pattern():
     commit_hash = pattern_meta["commit_hash"]
     notes = pattern_meta["notes"]
 
-    lib.index.append(temp_pattern_name)
-
     ca.restore_config(rule_string)
     place_h = (grid.shape[-2] - pattern.shape[-2]) // 2 - 3
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
@@ -175,12 +174,14 @@ def reset_next_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
     grid = torch.zeros(1, 1, 96, 96) 
 
     temp_pattern_name = lib.index.pop(0)
+    lib.index.append(temp_pattern_name)
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -195,8 +196,6 @@ def reset_next_pattern():
     grid[:,:, place_h:place_h+pattern.shape[-2], \
             place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
 
-    lib.index.append(temp_pattern_name)
-
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
     source.stream(new_data, rollover=0)
@@ -218,6 +217,7 @@ def reset_prev_pattern():
     global grid
     global lib
     global ca
+    global my_step
 
     my_step = 0
     
@@ -225,7 +225,7 @@ def reset_prev_pattern():
 
     temp_pattern_name = lib.index.pop(-1)
     lib.index.insert(0, temp_pattern_name)
-    temp_pattern_name = lib.index.pop(-1)
+    temp_pattern_name = lib.index[-1]
 
     pattern, pattern_meta =lib.load(temp_pattern_name)
     rule_string = pattern_meta["ca_config"]
@@ -240,8 +240,6 @@ def reset_prev_pattern():
     grid[:,:, place_h:place_h+pattern.shape[-2], \
             place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
 
-    lib.index.append(temp_pattern_name)
-            
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
     source.stream(new_data, rollover=0)
-- 
2.43.0


From 9b2440be3c8a6d06433d5a51c53626fdd9f1eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 23/36] fix: reaction-diffusion universes take the kernel
 radius of the config they load

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 7723d18..ee6a879 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -93,6 +93,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From 1444f3d4b6b4eb1b5aef710470c314544886d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 24/36] fix: the bokeh app shows patterns stored as 2-d arrays

geminium000, geminium_hydrogeminium_natans000 and gol_25P3H1V0_1000 are
stored without batch and channel dimensions; selecting one of them raised
IndexError and left an empty universe behind.
---
 gecco_bokeh_app/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gecco_bokeh_app/main.py b/gecco_bokeh_app/main.py
index a1299d4..debb2fb 100644
--- a/gecco_bokeh_app/main.py
+++ b/gecco_bokeh_app/main.py
@@ -50,7 +50,7 @@ place_h = (grid.shape[-2] - pattern.shape[-2]) // 2 - 3
 place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
 grid[:,:, place_h:place_h+pattern.shape[-2], place_w:place_w+pattern.shape[-1]] = \
-        torch.tensor(pattern[:,:,:,:])
+        torch.tensor(pattern)
 
 ca.restore_config(rule_string)
 
@@ -150,7 +150,7 @@ def reset_this_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
@@ -194,7 +194,7 @@ def reset_next_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
@@ -238,7 +238,7 @@ def reset_prev_pattern():
     place_w = (grid.shape[-1] - pattern.shape[-1]) // 2 - 3
 
     grid[:,:, place_h:place_h+pattern.shape[-2], \
-            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern[:,:,:,:])
+            place_w:place_w+pattern.shape[-1]] = torch.tensor(pattern)
 
     new_data = dict(my_image=[(grid.squeeze()).cpu().numpy()])
     
-- 
2.43.0


From a944702fdaf28360506e60d49ce30cce73d754a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 25/36] fix: an adaptive step that fails leaves time and step
 size as they were

---
 yuca/code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index 7ad59b0..3448b04 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -102,11 +102,13 @@ class CODE(CCA):
                 pass
                 #print(f"{step_mse} does meet error threshold, using {ca.dt}")
 
+        grid = self.get_new_grid(grid)
+
+        # only a step that was taken counts
         self.nmse = step_mse            
         self.t_count += self.dt #min([self.dt, self.static_dt - total_step])
         self.prev_dt = self.dt
 
-        grid = self.get_new_grid(grid)
 #        if self.static_dt -total_step > self.dt:
 #            total_step += self.dt
 #            grid = self.get_new_grid(grid)
-- 
2.43.0


From c5e9df9d726dcfcf94f7d8a2984c330d1908678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 26/36] fix: a MetaCA step that fails leaves the growth of its
 cells as it was

---
 yuca/metaca.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yuca/metaca.py b/yuca/metaca.py
index 896310c..a48ab05 100644
--- a/yuca/metaca.py
+++ b/yuca/metaca.py
@@ -65,9 +65,12 @@ class MetaCA(CCA):
 
         update_update = self.update_universe(identity, neighborhoods)
 
-        self.dgrid = self.dgrid + self.ddt * update_update
+        dgrid = self.dgrid + self.ddt * update_update
         
-        new_grid = torch.clamp(grid + self.dt * self.dgrid, 0, 1.0)
+        new_grid = torch.clamp(grid + self.dt * dgrid, 0, 1.0)
+
+        # only a step that was taken counts
+        self.dgrid = dgrid
         
         return new_grid
 
-- 
2.43.0


From eda757c733a2cc6c3d5d92e125c6cedcc2c07ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 27/36] fix: frames show the living cells only, as steps do

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index f801a14..f8ad4a0 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -355,6 +355,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index cabf00e..8a5fc7e 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -620,6 +620,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From bcf958c5ba93885053c20d87f8ee2e0b18b705f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 28/36] fix: universes keep time across step sizes of different
 shapes

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 2 +-
 yuca/ca/reaction_diffusion.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index f8ad4a0..60fee6c 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -349,7 +349,7 @@ class CA(nn.Module):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 8a5fc7e..0a7d963 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -614,7 +614,7 @@ class CCA(CA):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
         #new_universe = self.weights_layer(new_universe)
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index ee6a879..6435c27 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -377,7 +377,7 @@ class RxnDfn(CA):
         new_universe = universe + self.dt * update 
         new_universe = torch.clamp(new_universe,0,1.)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
-- 
2.43.0


From b305cf6d1e242745725891e5422e8d99e3246941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 29/36] fix: agents keep their own copy of their params

---
 yuca/params_agent.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/yuca/params_agent.py b/yuca/params_agent.py
index 4c8a4a2..dc112b0 100644
--- a/yuca/params_agent.py
+++ b/yuca/params_agent.py
@@ -17,7 +17,7 @@ class ParamsAgent():
         #        0.2, .015, 0.295, 0.015]) 
 
         if "ca_params" in kwargs.keys():
-            self.params = kwargs["ca_params"]
+            self.params = np.array(kwargs["ca_params"])
             self.num_params = self.get_params().shape[0]
         
         elif "num_params" in kwargs.keys():
@@ -27,8 +27,8 @@ class ParamsAgent():
         else:
 
             default_params = np.array([0.15, 0.015, 0.15, 0.020]) #, \
-            self.params = query_kwargs("params", default_params, 
-                    **kwargs)
+            self.params = np.array(query_kwargs("params", default_params, 
+                    **kwargs))
             self.num_params = self.params.shape[0]
 
 
@@ -45,7 +45,8 @@ class ParamsAgent():
 
     def get_params(self):
 
-        return self.params
+        # callers may reuse arrays, agents keep their own
+        return np.array(self.params)
 
     def set_params(self, params):
 
@@ -58,7 +59,7 @@ class ParamsAgent():
             params = np.clip(params, 0.0001, 1.0)
             #params[2] = np.clip(params[2], 0.005, 1.0)
 
-        self.params = params
+        self.params = np.array(params)
 
     def to_device(self, device):
 
-- 
2.43.0


From 6e4c97f0991f8d5e469f1d6ff0a1061109264ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 30/36] fix: pattern networks for any number of channels

---
 yuca/cppn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index a4759b7..af20c64 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -139,9 +139,9 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        # the same inputs and falloff for every channel
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From de5ba8c6e26dc5b09fe0db5066ab6fc00928192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 31/36] fix: agents give out copies of their params as actions

---
 yuca/params_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/params_agent.py b/yuca/params_agent.py
index dc112b0..0ecece2 100644
--- a/yuca/params_agent.py
+++ b/yuca/params_agent.py
@@ -41,7 +41,7 @@ class ParamsAgent():
             # filters for evolving universes with gaussian update functions
             self.params = np.abs(self.params)
 
-        return self.params
+        return np.array(self.params)
 
     def get_params(self):
 
-- 
2.43.0


From f7f6ece149396176852cbfef45bf52ad0a2769ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 32/36] fix: a universe keeps its own copy of the step sizes
 and diffusion rates it is given

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/reaction_diffusion.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 60fee6c..8355bf0 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -311,7 +311,7 @@ class CA(nn.Module):
     def set_dt(self, new_dt):
         
         if type(new_dt) is torch.Tensor:
-            self.dt = new_dt.to(self.my_device)
+            self.dt = new_dt.clone().to(self.my_device)
         else:
             self.dt = torch.tensor(new_dt).to(self.my_device)
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 6435c27..50f87ff 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -56,21 +56,21 @@ class RxnDfn(CA):
     def set_dx(self, new_dx):
 
         if type(new_dx) is torch.Tensor:
-            self.dx = new_dx.to(self.my_device)
+            self.dx = new_dx.clone().to(self.my_device)
         else:
             self.dx = torch.tensor(new_dx).to(self.my_device)
 
     def set_diffusion_u(self, new_diffusion_u):
 
         if type(new_diffusion_u) is torch.Tensor:
-            self.diffusion_u = new_diffusion_u.to(self.my_device)
+            self.diffusion_u = new_diffusion_u.clone().to(self.my_device)
         else:
             self.diffusion_u = torch.tensor(new_diffusion_u).to(self.my_device)
 
     def set_diffusion_v(self, new_diffusion_v):
 
         if type(new_diffusion_v) is torch.Tensor:
-            self.diffusion_v = new_diffusion_v.to(self.my_device)
+            self.diffusion_v = new_diffusion_v.clone().to(self.my_device)
         else:
             self.diffusion_v = torch.tensor(new_diffusion_v).to(self.my_device)
 
-- 
2.43.0


From eeb3ec80a0b5cd4a9201323e0c8134d1f27dbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 33/36] fix: a clone senses its neighborhood with the kernels
 of the universe it is cloned from

---
 yuca/clone.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index e5e085c..044d847 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -60,8 +60,14 @@ def clone_from_ca(**kwargs):
 
             nca = NCA(internal_channels=internal_channels,\
                     external_channels=external_channels,\
-                    hidden_channels=hidden_channels)
+                    hidden_channels=hidden_channels, \
+                    kernel_radius=ca.kernel_radius, \
+                    conv_mode=ca.conv_mode)
+            # the clone senses what the universe being cloned senses
+            nca.add_identity_kernel(kernel=ca.id_kernel)
+            nca.initialize_id_layer()
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From f985e54b9eeb3a9383b9ad596e8fb361258c851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 34/36] fix: the kernel radius of a universe that never had a
 kernel config can be set

---
 yuca/ca/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 8355bf0..668ce33 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -263,6 +263,12 @@ class CA(nn.Module):
         and therefore changing the spatial resolution of the system. 
         """
 
+        if self.neighborhood_kernel_config is None:
+            # kernel made from params, as there was no config for one yet
+            self.kernel_radius = radius
+            self.set_kernel_params(self.kernel_params)
+            return
+
         self.neighborhood_kernel_config["radius"] = radius
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         self.add_neighborhood_kernel(nbhd_kernel)
-- 
2.43.0


From e44bc585f5d1a6a9535ca65d5ae76db77ee71968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 35/36] fix: DoubleGaussian takes single values, as its
 defaults are

---
 yuca/activations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..19c6713 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -301,6 +301,9 @@ class DoubleGaussian(nn.Module):
         if type(sigma) is not torch.Tensor:
             sigma = torch.tensor(sigma)
 
+        # a single value (such as the defaults) goes for both bells
+        mu, sigma = mu.reshape(-1), sigma.reshape(-1)
+
         if mu.shape[0] == 1:
             mu = torch.cat([mu, mu])
         if sigma.shape[0] == 1:
-- 
2.43.0


From 1223486627201f723be4e7dad245f693e41188e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 36/36] fix: the smoothlife glider can be loaded from any
 working directory

---
 yuca/patterns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/patterns.py b/yuca/patterns.py
index 5fd4121..2634524 100644
--- a/yuca/patterns.py
+++ b/yuca/patterns.py
@@ -345,7 +345,8 @@ def get_ltl_spaceship():
 
 def get_smooth_glider():
     # SmoothLife glider
-    found_glider = np.load("data/s_mn_glider.npy")
+    my_path = os.path.split(os.path.realpath(__file__))[0]
+    found_glider = np.load(os.path.join(my_path, "..", "data", "s_mn_glider.npy"))
     return found_glider 
 
 
-- 
2.43.0

