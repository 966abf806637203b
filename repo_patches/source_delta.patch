From 96434b9dbaa42c827355ff3f082ea67bf36a33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 01/67] fix: DLGA.train_NN shuffles copies, not the caller's
 arrays

---
 kd/model/dlga.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..4989c2e 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -118,7 +118,9 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies so that the caller's arrays keep their order
+        X = np.array(X, copy=True)
+        y = np.array(y, copy=True)
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From c157902b4340a48071b0e21a81af11610cfa6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 02/67] fix: advertise only names that kd and kd.dataset
 provide

---
 kd/__init__.py         |  2 +-
 kd/dataset/__init__.py | 18 ------------------
 2 files changed, 1 insertion(+), 19 deletions(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index bb56d26..7785a13 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -8,7 +8,7 @@ __version__ = '1.0.0'
 
 __pkg_name__ = 'KD'
 
-from .dataset import load_burgers_equation, load_mat_file
+from .dataset import load_burgers_equation, load_kdv_equation, load_mat_file
 
 _submodules = [
     'dataset',
diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..10620f6 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -162,23 +162,5 @@ __all__ = [
     "load_pde_dataset",
     "list_available_datasets",  # 新增辅助函数
     "get_dataset_sym_true",  # 新增辅助函数
-    "Burgers_equation_shock",
-    "KdV_equation",
-    "KdV_equation_sine",
-    "Chaffee_Infante_equation",
-    "KG_equation",
-    "Allen_Cahn_equation",
-    "Convection_diffusion_equation_solution",
-    "Convection_diffusion_equation_simulation",
-    "Wave_equation",
-    "KS_equation",
-    "Beam_equation",
-    "Heat_equation",
-    "Heat_equation_sin",
-    "Diffusion_equation",
-    "Parametric_convection_diffusion",
-    "Parametric_Burgers_equation",
-    "Parametric_wave_equation",
-    "Burgers_2D",
     "load_regression",
 ]
-- 
2.43.0


From 2740f48ed3eda06174fb88cc27c09e68b8f7970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 03/67] fix: merging a user configuration works on current
 Python

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From 53432ee097240e3d65bee4c249aabd9c1ff52d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 04/67] fix: importing KD_DLGA no longer imports kd.viz
 halfway, which lost its plotting adapter

---
 kd/model/dlga.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 4989c2e..bc645cf 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -17,7 +17,6 @@ from tqdm import tqdm
 import pickle
 import matplotlib.pyplot as plt
 
-from ..viz import equation_renderer
 
 class BaseGa(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for genetic algorithm based models."""
@@ -589,6 +588,9 @@ class DLGA(BaseGa):
             print(f"equation form: {equation}")
 
 
+            # Imported here: kd.viz registers adapters that need this package.
+            from ..viz import equation_renderer
+
             if equation_renderer: # 检查导入是否成功
                 self.eq_latex = equation_renderer.dlga_eq2latex(
                     chromosome=Chrom,
-- 
2.43.0


From 811367128ae43975a81645a161fb86b1f0508461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 05/67] fix: web app imports the DISCOVER models from where
 they live

---
 app.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..996f839 100644
--- a/app.py
+++ b/app.py
@@ -162,8 +162,8 @@ def _get_model_capabilities(model):
         return []
     caps = list(list_capabilities(model))
     # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
-    if not isinstance(model, KD_DSCV_SPR):
+    from kd.model.kd_discover import KD_Discover_SPR
+    if not isinstance(model, KD_Discover_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
 
@@ -293,8 +293,8 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
-                model = KD_DSCV(
+                from kd.model.kd_discover import KD_Discover
+                model = KD_Discover(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
@@ -304,8 +304,8 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
-                model = KD_DSCV_SPR(
+                from kd.model.kd_discover import KD_Discover_SPR
+                model = KD_Discover_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
                     n_samples_per_batch=int(dscv_batch),
-- 
2.43.0


From 16b47c8440d70ae692244d924eda751c98d6db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 06/67] fix: KD_Discover accepts a configuration file path

---
 kd/model/kd_discover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..e9e8554 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -25,7 +25,6 @@ from .discover.task import set_task
 from .discover.controller import Controller
 from .discover.dso.prior import make_prior
 from .discover.program import Program,from_str_tokens,from_tokens
-from .discover.config import load_config
 from .discover.state_manager import make_state_manager as manager_make_state_manager
 from .discover.pinn import PINN_model
 from .discover.utils import safe_merge_dicts
@@ -278,7 +277,8 @@ class KD_Discover(BaseRL):
             config: Configuration dictionary or path.
         """
         if isinstance(config, str):
-            config = load_config(config)
+            with open(config, encoding='utf-8') as f:
+                config = json.load(f)
         elif config is None:
             config = {}
 
-- 
2.43.0


From dab26f2c9ef7f312af69ed9285a51ceef330350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 07/67] fix: kd.viz is reachable as an attribute of kd (its
 lazy import recursed)

---
 kd/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/__init__.py b/kd/__init__.py
index 7785a13..2dec0f7 100644
--- a/kd/__init__.py
+++ b/kd/__init__.py
@@ -31,8 +31,8 @@ __all__ = _submodules + [
 
 def __getattr__(name: str):
     if name == "viz":
-        from . import viz as _viz
-        return _viz
+        import importlib
+        return importlib.import_module(".viz", __name__)
     if name in {"DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"}:
         from . import model as _model
         return getattr(_model, name)
-- 
2.43.0


From 2a6df5d63d4cdf1a08b558111425c4c4b7fc01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 08/67] fix: importing models no longer changes warning
 filters, environment, sys.path and numpy's error callback

---
 kd/model/discover/pinn.py                |  2 -
 kd/model/discover/searcher.py            |  3 --
 kd/model/discover/stridge.py             |  5 +--
 kd/model/eqgpt/continue_train_GPT_all.py |  3 --
 kd/model/kd_discover.py                  |  3 --
 kd/model/sga/sgapde/pde.py               |  3 --
 kd/model/sga/sgapde/solver.py            | 48 ++++++++++++------------
 7 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..e11cd26 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -2,8 +2,6 @@
 
 import sys
 import os
-# print(os.path.abspath('.'))
-sys.path.append(os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
 import numpy as np
 import matplotlib, os, math, sys
 #matplotlib.use('Agg')
diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..bafb6e7 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -16,9 +16,6 @@ from .plotter import Plotter
 from .utils import criterion
 from .ga_utils import drop_duplicates
 
-# Ignore TensorFlow warnings
-os.environ['TF_CPP_MIN_LOG_LEVEL'] = '2'
-
 def quantile_select(actions, obs, priors,programs, r, epsilon):
     """
     Risk-seeking policy gradient: select epsilon quantile of training samples according to rewards
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..7f8fee6 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -39,7 +39,6 @@ class InvalidLog():
 
 
 invalid_log = InvalidLog()
-np.seterrcall(invalid_log) # Tells numpy to call InvalidLog.write() when encountering a warning
 
 # Define closure for execute function
 def unsafe_execute(traversal, u, x):
@@ -48,14 +47,14 @@ def unsafe_execute(traversal, u, x):
     and the appropriate nan/inf value is returned. It's up to the task's
     reward function to decide how to handle nans/infs."""
 
-    with np.errstate(all='log'):
+    with np.errstate(all='log', call=invalid_log):
         y = python_execute(traversal, u,x)
         invalid, error_node, error_type = invalid_log.update()
         return y, invalid, error_node, error_type
     
 def unsafe_execute_torch(traversal, u, x):
     
-    with np.errstate(all='log'):
+    with np.errstate(all='log', call=invalid_log):
         y = python_execute_torch(traversal, u,x)
         if y is None:
             invalid_log.write("bad_diff bad_diff bad_diff")
diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..4d6f6ea 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -31,9 +31,6 @@ def set_random_seeds(rand_seed=348, np_rand_seed=2345):
     np.random.seed(np_rand_seed)
 
 #set_random_seeds()
-# 忽略UserWarning
-warnings.filterwarnings("ignore", category=FutureWarning)
-
 def get_sub_set(nums):
     sub_sets = [[]]
     for i in range(len(nums)):
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index e9e8554..0af3f4f 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -31,9 +31,6 @@ from .discover.utils import safe_merge_dicts
 from .discover.searcher import Searcher
 from ..data import SparseData, RegularData
 
-warnings.filterwarnings('ignore', category=FutureWarning)
-os.environ['TF_CPP_MIN_LOG_LEVEL'] = '2'
-
 
 class BaseRL(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for reinforcement learning based models."""
diff --git a/kd/model/sga/sgapde/pde.py b/kd/model/sga/sgapde/pde.py
index 96242c7..e189a87 100644
--- a/kd/model/sga/sgapde/pde.py
+++ b/kd/model/sga/sgapde/pde.py
@@ -11,9 +11,6 @@ import numpy as np
 from .tree import *
 from .PDE_find import Train
 
-import warnings
-warnings.filterwarnings('ignore')
-
 
 _LOGGER = logging.getLogger(__name__)
 _DIVISION_STRATEGY_ENV = "KD_SGA_DIVIDE_MODE"
diff --git a/kd/model/sga/sgapde/solver.py b/kd/model/sga/sgapde/solver.py
index f4db79e..50586b7 100644
--- a/kd/model/sga/sgapde/solver.py
+++ b/kd/model/sga/sgapde/solver.py
@@ -10,8 +10,6 @@ import warnings
 from .pde import evaluate_mse
 from .equation import extract_equation_details
 
-warnings.filterwarnings('ignore')
-
 from kd.utils.debug_utils import profile, print_obj_profile
 
 class SGAPDE_Solver:
@@ -52,30 +50,34 @@ class SGAPDE_Solver:
         # This is a temporary measure during refactoring
         # self._inject_context_to_modules(context)
         
-        # Initialize the SGA algorithm
-        sga = SGA(
-            context=context,
-            num=self.config.num,
-            depth=self.config.depth,
-            width=self.config.width,
-            p_var=self.config.p_var,
-            p_mute=self.config.p_mute,
-            p_rep=self.config.p_rep,
-            p_cro=self.config.p_cro,
-            pde_lib=self.pde_lib,
-            err_lib=self.err_lib
-        )
+        # Candidate equations overflow and divide by zero routinely; keep that quiet
+        with warnings.catch_warnings():
+            warnings.simplefilter('ignore')
+
+            # Initialize the SGA algorithm
+            sga = SGA(
+                context=context,
+                num=self.config.num,
+                depth=self.config.depth,
+                width=self.config.width,
+                p_var=self.config.p_var,
+                p_mute=self.config.p_mute,
+                p_rep=self.config.p_rep,
+                p_cro=self.config.p_cro,
+                pde_lib=self.pde_lib,
+                err_lib=self.err_lib
+            )
         
-        # Run the genetic algorithm
-        best_eq, best_mse = sga.run(self.config.sga_run)
+            # Run the genetic algorithm
+            best_eq, best_mse = sga.run(self.config.sga_run)
 
-        try:
-            self.best_equation_details_ = extract_equation_details(best_eq, context)
-        except Exception:  # pragma: no cover - defensive to avoid breaking legacy flows
-            self.best_equation_details_ = None
+            try:
+                self.best_equation_details_ = extract_equation_details(best_eq, context)
+            except Exception:  # pragma: no cover - defensive to avoid breaking legacy flows
+                self.best_equation_details_ = None
 
-        # Return the best PDE and its score
-        return best_eq.visualize(), best_mse
+            # Return the best PDE and its score
+            return best_eq.visualize(), best_mse
 
 class SGA:
     """Genetic Algorithm for PDE discovery (refactored from original sga.py)."""
-- 
2.43.0


From ad9a398a409de0bd6911f628fa26566be1039452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 09/67] fix: importing the search model or kd.viz no longer
 changes matplotlib's style

---
 kd/model/discover/plotter.py | 30 ++++++++++++------------------
 kd/model/discover/utils.py   | 18 ++++++++----------
 kd/viz/discover_viz.py       |  4 ----
 3 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/kd/model/discover/plotter.py b/kd/model/discover/plotter.py
index 16d5d7d..f77f2da 100644
--- a/kd/model/discover/plotter.py
+++ b/kd/model/discover/plotter.py
@@ -6,24 +6,16 @@ import pandas as pd
 import numpy as np
 
 from matplotlib import rc,rcParams
-# plt.style.use(['seaborn'])
-# plt.style.use(['ggplot'])
-plt.rcParams["ytick.minor.visible"]=False
-plt.rcParams["xtick.minor.visible"]=False
-plt.rcParams["axes.spines.left"]=True
-plt.rcParams["axes.spines.bottom"]=True
-plt.rcParams["axes.spines.top"]=False
-plt.rcParams["axes.spines.right"]=False
-plt.rcParams["font.family"]=['Arial']
-# plt.rcParams['axes.linewidth'] = 1.5
-plt.rcParams["mathtext.fontset"]='stix'
-# plt.rcParams["font.weight"] = "bold" 
-# plt.rcParams['font.serif']=['SimHei']
-# plt.rcParams["mathtext.fontset"]='Camt'
-# plt.rcParams['axes.unicode_minus']=False
-# plt.rcParams['font.size']=16
-# plt.rcParams['xtick.labelsize'] = 14
-# plt.rcParams['ytick.labelsize'] = 14
+PLOT_STYLE = {
+    "ytick.minor.visible": False,
+    "xtick.minor.visible": False,
+    "axes.spines.left": True,
+    "axes.spines.bottom": True,
+    "axes.spines.top": False,
+    "axes.spines.right": False,
+    "font.family": ['Arial'],
+    "mathtext.fontset": 'stix',
+}
 
 
 class ExpressionTree:
@@ -84,6 +76,7 @@ class Plotter:
 
 
 
+    @plt.rc_context(PLOT_STYLE)
     def evolution_plot(self,rewards):
 
         # print(rewards.shape)
@@ -107,6 +100,7 @@ class Plotter:
         # plt.savefig(out_path,dpi =dpi,bbox_inches='tight')
         plt.show()
 
+    @plt.rc_context(PLOT_STYLE)
     def density_plot(self, r_all, epoches = None):
     
         f, ax = plt.subplots(figsize=(5,3))
diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 20d3e45..d9732f6 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -16,16 +16,13 @@ import math
 
 
 
-plt.style.use(['ggplot'])
-plt.rcParams["ytick.minor.visible"]=False
-plt.rcParams["xtick.minor.visible"]=False
-plt.rcParams["font.family"]=['Arial']
-# plt.rcParams['axes.linewidth'] = 2.0
-# plt.rcParams["font.weight"] = "bold" 
-# plt.rcParams['font.serif']=['SimHei']
-plt.rcParams["mathtext.fontset"]='stix'
-# plt.rcParams['axes.unicode_minus']=False
-plt.rcParams['font.size']=14
+PLOT_STYLE = ['ggplot', {
+    "ytick.minor.visible": False,
+    "xtick.minor.visible": False,
+    "font.family": ['Arial'],
+    "mathtext.fontset": 'stix',
+    'font.size': 14,
+}]
 
 
 def criterion(mse, cv, type='multiply'):
@@ -45,6 +42,7 @@ def criterion(mse, cv, type='multiply'):
     else:
         assert False, "wrong type"
     
+@plt.style.context(PLOT_STYLE)
 def draw_criterion(criter , name, save_path):
     length = len(criter[0])
     fig = plt.figure(figsize=(10,5))
diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..351a56e 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -47,10 +47,6 @@ def plot_density(model, epoches=None, output_dir: str = None):
 
 
 
-# Set font that supports both English and Chinese characters
-plt.rcParams['font.sans-serif'] = ['SimHei', 'DejaVu Sans', 'Arial Unicode MS', 'Arial']
-plt.rcParams['axes.unicode_minus'] = False  # Fix minus sign display
-
 PLOT_STYLE = {
     'font.size': 12,
     'figure.titlesize': 14,
-- 
2.43.0


From ca8ac2d74af2346cd1b08f8e71306133164b2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 10/67] fix: built-in DISCOVER data sets are found from any
 working directory

---
 kd/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/data.py b/kd/data.py
index b52483e..d906f2d 100644
--- a/kd/data.py
+++ b/kd/data.py
@@ -9,6 +9,7 @@ The module supports both regular grid data (RegularData) and sparse sampling dat
 """
 
 from abc import ABC, abstractmethod
+from pathlib import Path
 import pandas as pd
 import numpy as np
 import scipy.io as scio
@@ -135,7 +136,7 @@ class RegularData(BaseDataHandler):
         Raises:
             ValueError: If dataset is not supported.
         """
-        folder_name = './kd/data_file'
+        folder_name = Path(__file__).resolve().parent / 'dataset' / 'data'
         if self.source == 'chafee-infante':  # 301*200
             u = np.load(f"{folder_name}/chafee_infante_CI.npy")
             x = np.load(f"{folder_name}/chafee_infante_x.npy").reshape(-1,1)
@@ -150,7 +151,7 @@ class RegularData(BaseDataHandler):
             self.sym_true = 'add,mul,u1,diff,u1,x1,diff2,u1,x1'
 
         elif self.source == 'Kdv':      
-            data = scio.loadmat('./discover/task/pde/data_new/Kdv.mat')
+            data = scio.loadmat(f"{folder_name}/Kdv.mat")
             u = data.get("uu")
             n,m = u.shape  # 512x201
             x = np.squeeze(data.get("x")).reshape(-1,1)
-- 
2.43.0


From aba48438c6b7e914cfa4a3d993dfc7e9de674099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 11/67] fix: load_pde applies a given domain, and further
 dataset options, for every built-in dataset

---
 kd/dataset/__init__.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index 10620f6..36e52b2 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -41,6 +41,8 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         PDEDataset: The loaded dataset instance.
     """
     info = get_dataset_info(name)
+    domain = kwargs.pop('domain', info.get('domain'))
+    epi = kwargs.pop('epi', 1e-3)
     
     # 处理不同文件格式
     if 'files' in info:  # 多文件情况（如chafee-infante）
@@ -56,8 +58,9 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
             equation_name=name,
             pde_data=None,
             x=x, t=t, usol=u,
-            domain=info.get('domain'),
-            epi=kwargs.get('epi', 1e-3)
+            domain=domain,
+            epi=epi,
+            **kwargs
         )
         return _tag_dataset(dataset, name)
     elif info.get('file', '').endswith('.npy'):
@@ -75,9 +78,9 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
                 data = data.reshape(target_shape)
         shape = data.shape
 
-        domain = info.get('domain') or {'x': (0.0, 1.0), 't': (0.0, 1.0)}
-        x_bounds = domain.get('x', (0.0, 1.0))
-        t_bounds = domain.get('t', (0.0, 1.0))
+        grid = info.get('domain') or {'x': (0.0, 1.0), 't': (0.0, 1.0)}
+        x_bounds = grid.get('x', (0.0, 1.0))
+        t_bounds = grid.get('t', (0.0, 1.0))
 
         nx, nt = shape
         x = np.linspace(x_bounds[0], x_bounds[1], nx)
@@ -87,15 +90,17 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
             equation_name=name,
             pde_data=None,
             x=x, t=t, usol=data,
-            domain=domain,
-            epi=kwargs.get('epi', 1e-3)
+            domain=domain or grid,
+            epi=epi,
+            **kwargs
         )
         return _tag_dataset(dataset, name)
     else:  # 单mat文件情况
         dataset = load_pde_dataset(
             info['file'],
             equation_name=name,
-            domain=info.get('domain'),
+            domain=domain,
+            epi=epi,
             **info.get('keys', {}),
             **kwargs)
         return _tag_dataset(dataset, name)
-- 
2.43.0


From 3a98726b58c3762e32a6be39788ca0996aabfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 12/67] fix: load_kdv_equation declares a domain inside its
 data

---
 kd/dataset/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..dc091d8 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -693,7 +693,7 @@ def load_kdv_equation():
         x = pde_data['x'],
         t = pde_data['tt'],
         usol = pde_data['uu'],
-        domain = {'x': (-16, 16), 't': (5, 35)},
+        domain = {'x': (-0.8, 0.8), 't': (0.125, 0.875)},
         epi = 1e-3
     )
 
-- 
2.43.0


From d2415f2aaa9ee22c10863379664758cd928890b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 13/67] fix: web app offers the DISCOVER models (model keys as
 in the dataset registry)

---
 app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index 996f839..c46ec68 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
-- 
2.43.0


From b872c6bb1272c3fe7ca3126aaaacd0df18bade12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 14/67] fix: constructor parameters of KD_DLGA and DLGA can be
 read back

---
 kd/model/dlga.py    |  1 +
 kd/model/kd_dlga.py | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index bc645cf..1109538 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -97,6 +97,7 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..bc06817 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -15,14 +15,20 @@ class KD_DLGA(DLGA):
     with KD's dataset and visualization utilities.
     """
 
-    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
-        self.user_operators = operators
-        self.library_size = len(operators)
+    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, max_iter: int = 50000):
+        self.operators = operators
         self.verbose = verbose
-        super().__init__(epi=epi, input_dim=input_dim, **kwargs)
+        super().__init__(epi=epi, input_dim=input_dim, max_iter=max_iter)
         self.equations_ = None
         self.best_equation_ = None
 
+    @property
+    def user_operators(self):
+        return self.operators
+
+    @property
+    def library_size(self):
+        return len(self.operators)
 
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
-- 
2.43.0


From 451022449ef2686b5437f4b74ba2493bc086b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 15/67] fix: constructor parameters of the DISCOVER estimators
 can be read back

---
 kd/model/kd_discover.py            | 36 ++++++++++++++++++++++++------
 kd/model/kd_discover_regression.py | 33 ++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 0af3f4f..a2ed129 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -91,15 +91,22 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
-        self.operator = binary_operators + unary_operators
+        self.binary_operators = binary_operators
+        self.unary_operators = unary_operators
         self.out_path = out_path
          
         self.dataset = None
         self.seed = seed
         self.core_num = core_num
+        self.config_out = config_out
         self.base_config_file = "./discover/config/config_pde.json"
         self.set_config(config_out)
 
+    @property
+    def operator(self):
+        """Operators the user selected for the search (empty: use the configured ones)."""
+        return list(self.binary_operators) + list(self.unary_operators)
+
     def setup(self):
         """Setup model components.
         
@@ -470,15 +477,30 @@ class KD_Discover_SPR(KD_Discover):
     equation discovery in sparse data settings.
     """
 
-    def __init__(self, *args, config_out=None, **kwargs):
+    def __init__(self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path='./log/',
+        core_num=1,
+        config_out=None,
+        seed=0,
+        ):
         """Initialize KD_Discover_SPR model.
 
-        Args:
-            *args: Positional arguments for KD_Discover.
-            config_out: Optional output configuration.
-            **kwargs: Keyword arguments for KD_Discover.
+        The arguments are those of :class:`KD_Discover`.
         """
-        super().__init__(*args, config_out=None, **kwargs)
+        super().__init__(
+            n_iterations=n_iterations,
+            n_samples_per_batch=n_samples_per_batch,
+            binary_operators=binary_operators,
+            unary_operators=unary_operators,
+            out_path=out_path,
+            core_num=core_num,
+            seed=seed,
+        )
+        self.config_out = config_out
         self.base_config_file = "./discover/config/config_pde_pinn.json"
         self.set_config(config_out)
         self.is_realtime = False
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..33116ad 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -27,8 +27,27 @@ class _RegressionArrayData:
 class KD_Discover_Regression(KD_Discover):
     """Discover wrapper for generic symbolic regression on tabular data."""
 
-    def __init__(self, *args, config_out=None, **kwargs):
-        super().__init__(*args, config_out=None, **kwargs)
+    def __init__(
+        self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path='./log/',
+        core_num=1,
+        config_out=None,
+        seed=0,
+    ):
+        super().__init__(
+            n_iterations=n_iterations,
+            n_samples_per_batch=n_samples_per_batch,
+            binary_operators=binary_operators,
+            unary_operators=unary_operators,
+            out_path=out_path,
+            core_num=core_num,
+            seed=seed,
+        )
+        self.config_out = config_out
         self.base_config_file = "./discover/config/config_regression.json"
         self.set_config(config_out)
         self.best_program_ = None
@@ -107,10 +126,12 @@ class KD_Discover_Regression(KD_Discover):
         self.result_ = result
         return result
 
-    def set_task(self):
-        if self.operator and "const" not in self.operator:
-            self.operator = list(self.operator) + ["const"]
-        super().set_task()
+    @property
+    def operator(self):
+        operators = super().operator
+        if operators and "const" not in operators:
+            operators.append("const")
+        return operators
 
     def predict(self, X):
         if self.best_program_ is None:
-- 
2.43.0


From 8f927cf159d355b77eb95d614dcb9283a7728b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 16/67] fix: a GPU job that ended with an error result is shown
 as failed

---
 app.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/app.py b/app.py
index c46ec68..b1aa11a 100644
--- a/app.py
+++ b/app.py
@@ -416,6 +416,16 @@ def check_gpu_status(job_id, request: gr.Request = None):
         result_data, save_dir = download_result(job_id, request)
         equation = result_data.get("equation", "(unknown)")
 
+        if result_data.get("status") == "error":
+            reason = result_data.get("error") or equation
+            return (
+                f"Job {job_id} failed:\n{reason}",
+                None, None, gr.update(),
+                None,
+                gr.update(visible=True, value=f"Job {job_id}: Failed"),
+                gr.update(visible=False),
+            )
+
         eq_fig = None
         eq_img = os.path.join(save_dir, "equation.png")
         if os.path.exists(eq_img):
-- 
2.43.0


From 6f332672841180f17605aa3fbcbebaef33811f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 17/67] fix: a plot that fails does not leave its figure open

---
 kd/viz/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..7c778e8 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -93,8 +93,18 @@ def render(request: VizRequest, *, backend: str = 'matplotlib') -> VizResult:
             metadata={'capabilities': sorted(capabilities)},
         )
 
-    with style_context(request.options.get('style')):
-        return adapter.render(request, ctx)
+    import matplotlib.pyplot as plt
+
+    already_open = set(plt.get_fignums())
+    try:
+        with style_context(request.options.get('style')):
+            return adapter.render(request, ctx)
+    except BaseException:
+        # The caller gets no result, so nobody else could close these.
+        for number in plt.get_fignums():
+            if number not in already_open:
+                plt.close(number)
+        raise
 
 
 def list_capabilities(target: Any) -> Iterable[str]:
-- 
2.43.0


From 718b0a73e6d799079962ca989fe07311fb5d64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 18/67] fix: PDEDataset.plot_solution releases its figure

---
 kd/dataset/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index dc091d8..878a462 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -626,7 +626,7 @@ class PDEDataset(MetaData):
         """
         Generates a heatmap visualization of the solution `usol` over (x, t) dimensions.
         """
-        plt.figure(figsize=(8, 6))
+        fig = plt.figure(figsize=(8, 6))
         plt.imshow(self.usol, aspect='auto', origin='lower',
                    extent=[self.t.min(), self.t.max(), self.x.min(), self.x.max()])
         plt.colorbar(label='Solution u(x, t)')
@@ -634,6 +634,7 @@ class PDEDataset(MetaData):
         plt.ylabel('Space (x)')
         plt.title(f"Solution of {self.equation_name}")
         plt.show()
+        plt.close(fig)
 
     def __repr__(self) -> str:
         """ Returns a string representation of the dataset. """
-- 
2.43.0


From 2e85e3f5004d3ed403923950ab3fa816a2a6a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 19/67] fix: the evolution plot of KD_Discover releases its
 figure

---
 kd/model/discover/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/discover/plotter.py b/kd/model/discover/plotter.py
index f77f2da..d14279e 100644
--- a/kd/model/discover/plotter.py
+++ b/kd/model/discover/plotter.py
@@ -99,6 +99,7 @@ class Plotter:
         axes.legend(loc='best',frameon=False)
         # plt.savefig(out_path,dpi =dpi,bbox_inches='tight')
         plt.show()
+        plt.close(fig)
 
     @plt.rc_context(PLOT_STYLE)
     def density_plot(self, r_all, epoches = None):
-- 
2.43.0


From 1f789004e5eb91f079e6752485e70d67f4f51395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 20/67] fix: an equation image that could not be rendered is
 not reported as written

---
 kd/viz/_adapters/discover.py |  1 +
 kd/viz/_adapters/dlga.py     | 16 ++++++++++------
 kd/viz/_adapters/pysr.py     |  1 +
 kd/viz/_adapters/sga.py      |  2 ++
 kd/viz/equation_renderer.py  |  3 +++
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..107c00d 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -229,6 +229,7 @@ class DiscoverVizAdapter:
                 output_path=str(path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
+                raise_errors=True,
             )
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..7f98854 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -208,12 +208,16 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
-            latex,
-            output_path=str(path),
-            font_size=ctx.options.get('font_size', 16),
-            show=False,
-        )
+        try:
+            render_latex_to_image(
+                latex,
+                output_path=str(path),
+                font_size=ctx.options.get('font_size', 16),
+                show=False,
+                raise_errors=True,
+            )
+        except Exception as exc:
+            return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index 8218b36..1ad7ba2 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -108,6 +108,7 @@ class PySRVizAdapter:
                 output_path=str(path),
                 font_size=ctx.options.get("font_size", 18),
                 show=False,
+                raise_errors=True,
             )
         except Exception as exc:
             return VizResult(
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..261ee8a 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -81,12 +81,14 @@ class SGAVizAdapter:
                 output_path=str(output_path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
+                raise_errors=True,
             )
             render_latex_to_image(
                 structure_plain,
                 output_path=str(structure_path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
+                raise_errors=True,
             )
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..1e38901 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -27,6 +27,7 @@ def render_latex_to_image(
     base_figsize_height=2,
     *,
     show=True,
+    raise_errors=False,
 ):
     try:
         latex_str = _ensure_math_mode(str(latex_str))
@@ -51,6 +52,8 @@ def render_latex_to_image(
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
+        if raise_errors:
+            raise
     finally:
         if 'fig' in locals():
             try:
-- 
2.43.0


From a7fa24edb690e71151c552bbbee69417f886ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 21/67] fix: a repeated DLGA field comparison replaces the
 previous image

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 7f98854..ef41859 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
-- 
2.43.0


From c14ba37d4a5221f51f5728fc78d1b890c1bb1dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 22/67] fix: configure(save_dir=None) forgets the output
 directory again

---
 kd/viz/_style.py | 7 ++++---
 kd/viz/core.py   | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_style.py b/kd/viz/_style.py
index 2e9dc11..fc10ee0 100644
--- a/kd/viz/_style.py
+++ b/kd/viz/_style.py
@@ -28,19 +28,20 @@ class VizConfig:
 
 
 _CONFIG = VizConfig()
+KEEP: Any = object()  # "leave this setting as it is"; None is a value of its own
 
 
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     if style is not None:
         _CONFIG.style = dict(DEFAULT_STYLE)
         _CONFIG.style.update(style)
-    if save_dir is not None:
-        _CONFIG.save_dir = Path(save_dir)
+    if save_dir is not KEEP:
+        _CONFIG.save_dir = None if save_dir is None else Path(save_dir)
     if backend is not None:
         matplotlib.use(backend, force=True)
         _CONFIG.backend = backend
diff --git a/kd/viz/core.py b/kd/viz/core.py
index 7c778e8..61b7afc 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -17,7 +17,7 @@ from ._contracts import (
     TimeSliceComparisonData,
 )
 from ._helpers import resolve_output_path
-from ._style import VizConfig, configure as configure_style, get_config, style_context
+from ._style import KEEP, VizConfig, configure as configure_style, get_config, style_context
 
 
 @dataclass
@@ -57,7 +57,7 @@ class VizContext:
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = KEEP,
     backend: Optional[str] = None,
 ) -> VizConfig:
     return configure_style(style=style, save_dir=save_dir, backend=backend)
-- 
2.43.0


From 056003fda6010a053b55eb3d23a305e696a0816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 23/67] fix: the runner resets the plot directory when no plot
 could be made

---
 kd/runner.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/kd/runner.py b/kd/runner.py
index 5555677..b01f123 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -156,24 +156,25 @@ def save_viz(output_dir, model):
         import matplotlib.pyplot as plt
         from kd.viz.core import VizRequest, render, configure, list_capabilities
 
-        configure(save_dir=output_dir)
-        caps = set(list_capabilities(model))
-
-        for viz_type in ("equation", "search_evolution", "training_curve"):
-            if viz_type not in caps and viz_type != "equation":
-                continue
-            try:
-                vr = render(VizRequest(viz_type, model))
-                if vr.figure is not None:
-                    vr.figure.savefig(
-                        os.path.join(output_dir, f"{viz_type}.png"),
-                        dpi=150, bbox_inches="tight",
-                    )
-                    plt.close(vr.figure)
-            except Exception:
-                pass
-
-        configure(save_dir=None)
+        try:
+            configure(save_dir=output_dir)
+            caps = set(list_capabilities(model))
+
+            for viz_type in ("equation", "search_evolution", "training_curve"):
+                if viz_type not in caps and viz_type != "equation":
+                    continue
+                try:
+                    vr = render(VizRequest(viz_type, model))
+                    if vr.figure is not None:
+                        vr.figure.savefig(
+                            os.path.join(output_dir, f"{viz_type}.png"),
+                            dpi=150, bbox_inches="tight",
+                        )
+                        plt.close(vr.figure)
+                except Exception:
+                    pass
+        finally:
+            configure(save_dir=None)
     except Exception as e:
         print(f"[runner] Viz generation skipped: {e}")
 
-- 
2.43.0


From 1701d9aaceb38484c1c0d2eb0d857c631a4e81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 24/67] fix: kd.utils.FiniteDiff returned minus the third
 derivative

---
 kd/utils/utils_fd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..08391da 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -61,7 +61,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From cc91e0a6294db782de73c434269ff347d167489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 25/67] fix: fourth difference inconsistent on the two boundary
 rows

---
 kd/model/discover/task/pde/utils_fd.py | 3 +++
 kd/model/discover/task/pde/utils_v1.py | 3 +++
 kd/utils/solver.py                     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..0eb9927 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -117,6 +117,9 @@ def Diff4(u, dxt, dim, name='x'):
     if name == 'x':
         uxt=Diff2(u,dxt,dim,name)
         uxt = Diff2(uxt,dxt, dim, name)
+        # two one-sided passes are not consistent at the edges: use the nearest centred stencil
+        uxt[:2,:] = uxt[2,:]
+        uxt[n-2:,:] = uxt[n-3,:]
     else:
         assert False
         NotImplementedError()
diff --git a/kd/model/discover/task/pde/utils_v1.py b/kd/model/discover/task/pde/utils_v1.py
index c99795a..57c8b06 100644
--- a/kd/model/discover/task/pde/utils_v1.py
+++ b/kd/model/discover/task/pde/utils_v1.py
@@ -118,6 +118,9 @@ def Diff4(u, dxt, dim, name='x'):
     if name == 'x':
         uxt=Diff2(u,dxt,dim,name)
         uxt = Diff2(uxt,dxt, dim, name)
+        # two one-sided passes are not consistent at the edges: use the nearest centred stencil
+        uxt[:2,:] = uxt[2,:]
+        uxt[n-2:,:] = uxt[n-3,:]
     else:
         assert False
         NotImplementedError()
diff --git a/kd/utils/solver.py b/kd/utils/solver.py
index d94818d..aadee00 100644
--- a/kd/utils/solver.py
+++ b/kd/utils/solver.py
@@ -47,6 +47,9 @@ class FiniteDifferenceOperator:
         temp = FiniteDifferenceOperator(self.ux, self.dx, self.dim)
         temp._finite_diff_2nd()  # Apply second-order difference to the second derivative
         self.ux = temp.ux
+        # two one-sided passes are not consistent at the edges: use the nearest centred stencil
+        self.ux[:2, :] = self.ux[2, :]
+        self.ux[self.n-2:, :] = self.ux[self.n-3, :]
 
     def compute(self, order):
         """
-- 
2.43.0


From f70f1d9623c0c6cdc91ad4bfbd1b341c5a30e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 26/67] fix: EqGPT terms uyyt, sint, (u^2)xx and (u(u^2)xx)xx
 evaluated another expression

---
 kd/model/eqgpt/calculate_terms.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..7285ef7 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -54,7 +54,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx.cpu().data.numpy()
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx.cpu().data.numpy()
     if word=='(uux)x':
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -336,7 +336,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx
     if word=='(uux)x':
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 3c5c97ecf10be7bdc2f21d2f1346ea5b8d1967ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 27/67] fix: PDEDataset.get_derivative ignored the grid spacing

---
 kd/dataset/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 878a462..30f1feb 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -597,9 +597,9 @@ class PDEDataset(MetaData):
         :return: The computed derivative array.
         """
         if axis == 'x':
-            return np.gradient(self.usol, axis=0)
+            return np.gradient(self.usol, self.x, axis=0)
         elif axis == 't':
-            return np.gradient(self.usol, axis=1)
+            return np.gradient(self.usol, self.t, axis=1)
         else:
             raise ValueError("Invalid axis name, must be 'x' or 't'.")
 
-- 
2.43.0


From b9a8dcc9f395faa5dbae0568bb8cdfc47ec13d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 28/67] fix: 2-D Laplace operator could not be compiled and
 always failed

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 0eb9927..255dd61 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -195,7 +195,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From c667f54d91d1f67e37f1c0ab47a66bfcb45b580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 29/67] fix: plotted third and fourth derivatives were wrong at
 the grid edges

---
 kd/viz/discover_viz.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 351a56e..d6d6ab5 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -109,6 +109,11 @@ def _finite_difference_nd(y: np.ndarray, dx: float, order: int = 1, axis: int =
     result = y
     for _ in range(order):
         result = np.gradient(result, dx, axis=axis, edge_order=2)
+    if order > 2 and result.shape[axis] > 2 * order:
+        # 单侧差分的复合在三阶及以上不相容: 靠近边界的行取最近的全中心差分行的值
+        rows = np.moveaxis(result, axis, 0)
+        rows[:order] = rows[order]
+        rows[-order:] = rows[-order - 1]
     return result
 
 
-- 
2.43.0


From ae12f2928801c5708a718e99903205cf382a6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 30/67] fix: max and min are binary operators but were
 announced with one operand

---
 kd/model/discover/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/functions.py b/kd/model/discover/functions.py
index 8c6e57e..a499644 100644
--- a/kd/model/discover/functions.py
+++ b/kd/model/discover/functions.py
@@ -110,8 +110,8 @@ unprotected_ops = [
     Token(np.square, "n2", arity=1, complexity=2),
     Token(np.negative, "neg", arity=1, complexity=1),
     Token(np.abs, "abs", arity=1, complexity=2),
-    Token(np.maximum, "max", arity=1, complexity=4),
-    Token(np.minimum, "min", arity=1, complexity=4),
+    Token(np.maximum, "max", arity=2, complexity=4),
+    Token(np.minimum, "min", arity=2, complexity=4),
     Token(np.tanh, "tanh", arity=1, complexity=4),
     Token(np.reciprocal, "inv", arity=1, complexity=2),
 
-- 
2.43.0


From a06d81ab8e7889128d668537b12d597a9033e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 31/67] fix: sub and other operators with a u in their name
 were never switched to torch

---
 kd/model/discover/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/library.py b/kd/model/discover/library.py
index c4ff158..ac026cf 100644
--- a/kd/model/discover/library.py
+++ b/kd/model/discover/library.py
@@ -134,7 +134,7 @@ class Library():
         self.names = [t.name for t in tokens]
         self.name_arites = { t.name : t.arity for t in tokens}
 
-        self.np_names = [t.name for t in tokens if t.name not in ['const'] and ('u' not in t.name or t.name=='mul') and t.input_var is None and t.param_var is None]
+        self.np_names = [t.name for t in tokens if t.arity > 0]
         #sub child of operator
         self.arities = np.array([t.arity for t in tokens], dtype=np.int32)
 
-- 
2.43.0


From 903216c3d52c10338d179d0bf486801d72ff0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 32/67] fix: lap, neg, inv and parameter names were spelled out
 letter by letter in DISCOVER equations

---
 kd/model/discover/stridge.py |  4 ++++
 kd/viz/discover_eq2latex.py  | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 7f8fee6..5421d96 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -117,6 +117,10 @@ class Node(object):
             return f"Add({child_sympy_strings[0]}, Mul({child_sympy_strings[1]}, -1))"
         elif base_op_name == "div": # div(a,b) 对应 SymPy 的 Mul(a, Pow(b, -1))
             return f"Mul({child_sympy_strings[0]}, Pow({child_sympy_strings[1]}, -1))"
+        elif base_op_name == "neg":
+            return f"Mul({child_sympy_strings[0]}, -1)"
+        elif base_op_name == "inv":
+            return f"Pow({child_sympy_strings[0]}, -1)"
         elif base_op_name == "n2": # n2(a) 对应 SymPy 的 Pow(a, 2)
             return f"Pow({child_sympy_strings[0]}, 2)"
         elif base_op_name == "n3": # n3(a) 对应 SymPy 的 Pow(a, 3)
diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..35e07fa 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -132,6 +132,18 @@ def _expand_first_order_compound_derivatives(
 # Node → LaTeX (with optional expansion)
 # ---------------------------------------------------------------------------
 
+def _symbols_for(node, symbols: dict) -> dict:
+    """Add a symbol for every named leaf, so that no leaf is read as something else."""
+    children = getattr(node, "children", None)
+    name = getattr(node, "val", None)
+    if children:
+        for child in children:
+            symbols = _symbols_for(child, symbols)
+    elif isinstance(name, str) and name.isidentifier() and name not in symbols:
+        symbols = {**symbols, name: sympy.Symbol(name)}
+    return symbols
+
+
 def _discover_term_node_to_latex_expanded(
     term_node_obj,
     local_sympy_symbols=None,
@@ -150,8 +162,7 @@ def _discover_term_node_to_latex_expanded(
     sympy_expr_str = term_node_obj.to_sympy_string()
     parsed = parse_expr(
         sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
+        local_dict=_symbols_for(term_node_obj, local_sympy_symbols),
     )
 
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
@@ -182,8 +193,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
 
         parsed_sympy_expr = parse_expr(
             sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
+            local_dict=_symbols_for(term_node_obj, local_sympy_symbols),
         )
         if DEBUG_RENDERER_MODE:
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
-- 
2.43.0


From 7db105f724cf4bc99bc6421e3c3b8b540797a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 33/67] fix: the derivative of an operator's value lost the
 operand in DISCOVER equations

---
 kd/viz/discover_eq2latex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 35e07fa..1a9fd1c 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -27,6 +27,7 @@ _SYMBOL_DISPLAY = {
 
 # Function-based symbols for Leibniz mode (produces \partial instead of d)
 _x1, _x2, _x3 = sympy.symbols('x1 x2 x3')
+_LEIBNIZ_VARS = (_x1, _x2, _x3)
 _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
     'u1': sympy.Function('u1')(_x1, _x2, _x3),
     'x1': _x1, 'x2': _x2, 'x3': _x3,
@@ -42,7 +43,7 @@ class _SubscriptLatexPrinter(LatexPrinter):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
             func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
-        elif hasattr(func, 'func') and hasattr(func.func, 'name'):
+        elif hasattr(func, 'func') and hasattr(func.func, 'name') and all(a in _LEIBNIZ_VARS for a in func.args):
             # Applied function like u1(x1, x2): func.func has .name
             func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
         else:
-- 
2.43.0


From 9b5b0af331a7fcb2aec030399f82807d7f60220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 34/67] fix: the product rule ignored parameter fields in
 expanded DISCOVER derivatives

---
 kd/viz/discover_eq2latex.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 1a9fd1c..012db1d 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -102,27 +102,27 @@ def _expand_first_order_compound_derivatives(
     # Symbol → Function substitution
     sym_to_fn: dict = {}
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
+    # Parameter fields vary in space too, so the product rule applies to them as well.
+    field_names = set(_FUNC_SYMBOL_NAMES) | {
+        s.name for s in expr.free_symbols if s.name not in _VAR_SYMBOL_NAMES and s.name != 'c'
+    }
+    for name in sorted(field_names):
         sym = sympy.Symbol(name)
         fn = sympy.Function(name)(*var_syms)
         sym_to_fn[sym] = fn
 
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
+    expr_fn = expr.xreplace(sym_to_fn)
 
     expanded = expr_fn.doit()
 
-    # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    # Function → Symbol substitution (reverse), derivatives and functions in one go:
+    # a derivative of a Symbol that is touched again is evaluated to zero.
+    fn_to_sym = {fn: sym for sym, fn in sym_to_fn.items()}
+    back: dict = dict(fn_to_sym)
+    for deriv in expanded.atoms(sympy.Derivative):
+        if deriv.expr in fn_to_sym:
+            back[deriv] = sympy.Derivative(fn_to_sym[deriv.expr], *deriv.variable_count)
+    expanded = expanded.xreplace(back)
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
-- 
2.43.0


From 3ad1f804f81ac50eda57b7c5cad5509423e203fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 35/67] fix: SGA LaTeX attached powers and derivatives to the
 last factor only

---
 kd/model/sga/sgapde/equation.py | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..ee531b0 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import re
 from dataclasses import dataclass
 from typing import Iterable, Literal, Sequence
 
@@ -282,14 +283,14 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         return f"{base}^{{3}}"
     if name == 'd':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _ensure_atom(children[0])
         if notation == "subscript":
             merged = _merge_subscript(operand, var)
             return merged if merged is not None else f"{operand}_{{{var}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _ensure_atom(children[0])
         if notation == "subscript":
             merged = _merge_subscript(operand, var + var)
             return merged if merged is not None else f"{operand}_{{{var}{var}}}"
@@ -336,15 +337,41 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
 
 
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    """Wrap *expr* in parentheses unless a superscript can follow it as it is."""
+    if _is_parenthesised(expr):
         return expr
     if expr.startswith('\\frac'):
         return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
+    if any(ch in expr for ch in [' ', '+', '-', '^']):
         return f"({expr})"
     return expr
 
 
+_ATOM = re.compile(r'\\?[A-Za-z0-9]+(_\{[^{}]*\})?')
+
+
+def _ensure_atom(expr: str) -> str:
+    """Wrap *expr* in parentheses unless a derivative can refer to all of it as it is."""
+    if _ATOM.fullmatch(expr) or _is_parenthesised(expr):
+        return expr
+    base, sep, sub = expr.rpartition('_{')
+    if sep and sub.endswith('}') and '{' not in sub and _is_parenthesised(base):
+        return expr
+    return f"({expr})"
+
+
+def _is_parenthesised(expr: str) -> bool:
+    """Whether one pair of parentheses encloses the whole of *expr*."""
+    if not (expr.startswith('(') and expr.endswith(')')):
+        return False
+    depth = 0
+    for i, ch in enumerate(expr):
+        depth += (ch == '(') - (ch == ')')
+        if depth == 0:
+            return i == len(expr) - 1
+    return False
+
+
 __all__ = [
     'SGAEquationTerm',
     'SGAEquationDetails',
-- 
2.43.0


From 1eec7d5556645b7e7bdeb3279d517c3a0bdcdc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:01 +0000
Subject: [PATCH 36/67] fix: SGA equations were always printed for u and t,
 whatever was fitted

---
 kd/model/sga/sgapde/context.py  | 2 +-
 kd/model/sga/sgapde/equation.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..941ae12 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1053,7 +1053,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index ee531b0..af4368b 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -40,11 +40,13 @@ class SGAEquationDetails:
 
 def _infer_lhs_label(config) -> str:
     raw = getattr(config, 'left_side', None)
-    if not raw:
-        return 'u_t'
     if isinstance(raw, str) and '=' in raw:
         return raw.split('=', 1)[1].strip() or 'u_t'
-    return 'u_t'
+    field = getattr(config, 'target_field', None)
+    axis = getattr(config, 'lhs_axis', None)
+    field = field if isinstance(field, str) and field else 'u'
+    axis = axis if isinstance(axis, str) and axis else 't'
+    return f"{field}_{axis}" if len(axis) == 1 else f"{field}_{{{axis}}}"
 
 
 def extract_equation_details(pde, context, *, coefficient_tol: float = _DEFAULT_TOL) -> SGAEquationDetails:
-- 
2.43.0


From e06461c07bc6f2b399a419edb8305af75d1dbd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 37/67] fix: DISCOVER plots failed on equations with exp, log,
 sqrt, abs, tanh, max or min

---
 kd/viz/discover_viz.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index d6d6ab5..4b2f404 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -196,6 +196,16 @@ def _evaluate_term_recursively(
     elif op_name == 'sin': return np.sin(child_values[0])
     elif op_name == 'cos': return np.cos(child_values[0])
     elif op_name == 'tan': return np.tan(child_values[0])
+    elif op_name == 'tanh': return np.tanh(child_values[0])
+    elif op_name == 'exp': return np.exp(child_values[0])
+    elif op_name == 'expneg': return np.exp(-child_values[0])
+    elif op_name == 'log': return np.log(child_values[0])
+    elif op_name == 'logabs': return np.log(np.abs(child_values[0]))
+    elif op_name == 'sqrt': return np.sqrt(child_values[0])
+    elif op_name == 'abs': return np.abs(child_values[0])
+    elif op_name == 'sigmoid': return 1.0 / (1.0 + np.exp(-child_values[0]))
+    elif op_name == 'max': return np.maximum(child_values[0], child_values[1])
+    elif op_name == 'min': return np.minimum(child_values[0], child_values[1])
 
     # --- 1D derivatives (legacy) ---
     elif op_name == 'diff': return _finite_difference(child_values[0], x_coords, order=1)
-- 
2.43.0


From cc0a8537f8412ec42cdaa9f77d610a818daefa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 38/67] fix: named regression expressions mixed up variables
 with names like x1

---
 kd/model/kd_discover_regression.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 33116ad..6b47f61 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass
 from typing import Sequence
 
@@ -77,10 +78,12 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        def named(match):
+            index = int(match.group(1))
+            return var_names[index - 1] if 1 <= index <= len(var_names) else match.group(0)
+
+        # In one pass: a name that looks like another variable must not be renamed again.
+        return re.sub(r"\bx(\d+)\b", named, expression)
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From 15cf3cc2a536ff7dbc7e30226ec8ba5d65cb7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 39/67] fix: DLGA LaTeX named the terms of a custom operator
 list after the default one

---
 kd/viz/dlga_eq2latex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..342073a 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,10 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    # Names used in the operator lists of KD_DLGA
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +174,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +182,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name,
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From 1fd38f134c159001d959baaedcd9c77ae21acaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 40/67] fix: an unknown KD_DLGA operator was skipped and
 shifted the names of the others

---
 kd/model/kd_dlga.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index bc06817..ba3d36c 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -60,10 +60,11 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
-        theta_columns = []
-        for op_name in self.user_operators:
-            if op_name in available_ops:
-                theta_columns.append(available_ops[op_name])
+        unknown = [op_name for op_name in self.user_operators if op_name not in available_ops]
+        if unknown:
+            # A skipped column would shift every later gene onto the wrong operator.
+            raise ValueError(f"Unknown operators {unknown}; available: {sorted(available_ops)}")
+        theta_columns = [available_ops[op_name] for op_name in self.user_operators]
         self.Theta = torch.concatenate(theta_columns, axis=1) if theta_columns else torch.empty(X.shape[0], 0).to(self.device)
 
         # 2. metadata 则存储所有计算出的项，使其成为一个完整的“数据源”
-- 
2.43.0


From de034e5bedd0ebd5293843f62090831a9eaa3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 41/67] fix: sympy_expr of a program differentiated bare
 symbols to zero

---
 kd/model/discover/program.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..f260640 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -767,6 +767,12 @@ def convert_to_sympy(node):
         node.val = "Pow"
         node.children.append(Node("4"))
 
+    elif node.val in ("diff", "diff2", "diff3", "diff4"):
+        # SymPy's own diff() would differentiate the bare symbol
+        order = int(node.val[4:] or 1)
+        node.val = "Derivative"
+        node.children += [Node(node.children[1].val) for _ in range(order - 1)]
+
     for child in node.children:
         convert_to_sympy(child)
 
-- 
2.43.0


From 215740195b1d8a9dab8d2c78b52c91a54acad64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 42/67] fix: the coefficient of a DISCOVER LaTeX term applied
 to its first summand only

---
 kd/viz/discover_eq2latex.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 012db1d..1c485ba 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -145,6 +145,13 @@ def _symbols_for(node, symbols: dict) -> dict:
     return symbols
 
 
+def _as_factor(expr: sympy.Basic, latex: str) -> str:
+    """Group *latex* unless a coefficient can stand directly before it."""
+    if expr.is_Add or (expr != 1 and expr.as_coeff_Mul()[0] != 1):
+        return f"\\left({latex}\\right)"
+    return latex
+
+
 def _discover_term_node_to_latex_expanded(
     term_node_obj,
     local_sympy_symbols=None,
@@ -173,7 +180,7 @@ def _discover_term_node_to_latex_expanded(
     else:
         latex_output = sympy.latex(expanded)
 
-    return factor, latex_output
+    return factor, _as_factor(expanded, latex_output)
 
 
 # Node -> LaTeX
@@ -203,7 +210,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
             latex_output = sympy.latex(parsed_sympy_expr)
-        return latex_output
+        return _as_factor(parsed_sympy_expr, latex_output)
     except Exception as e:
         import traceback
         error_repr = repr(term_node_obj) if term_node_obj else "None"
-- 
2.43.0


From 47f691fe4b31f9dc2e24da72990f8bd644204e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 43/67] fix: spline samples are given in the order of their
 coordinates

---
 kd/dataset/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 30f1feb..7c203f0 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -546,7 +546,7 @@ class PDEDataset(MetaData):
             t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
             spline = interp2d(self.t, self.x, self.usol, kind='cubic')
             usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
+            x_samples, t_samples = np.meshgrid(x_new, t_new, indexing='ij')
             sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
             sampled_usol = usol_new.flatten()
 
-- 
2.43.0


From 3178c78b0219c41e86a45681f45a7e2d6b11c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 44/67] fix: DLGA validation error compares each prediction
 with its own target

---
 kd/model/dlga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 1109538..c367c09 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -138,6 +138,8 @@ class DLGA(BaseGa):
             + int(X.shape[0] * self.valid_ratio)
         ]
 
+        y_valid = y_valid.reshape(-1, 1)
+
         # Convert to tensors
         X_train = torch.from_numpy(X_train.astype(np.float32)).to(self.device)
         y_train = torch.from_numpy(y_train.astype(np.float32)).to(self.device)
-- 
2.43.0


From 3304cfb88220ec901a0adf72884c6a0ebda5cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 45/67] fix: cut_quantile cuts parameter fields along with the
 field

---
 kd/model/discover/adapter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..86401dc 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -340,6 +340,7 @@ class DiscoverSparseAdapter:
                 )
             )
 
+        x_full, t_full = x, t
         x, t, u = self._apply_cut_quantile(x, t, u)
 
         if self.spline_sample:
@@ -408,13 +409,14 @@ class DiscoverSparseAdapter:
         result['u_star'] = u.reshape(-1, 1)
         result['shape'] = u.shape
 
-        # Parameter fields — raw arrays, not sampled.
+        # Parameter fields — not sampled, cut to the same region as ``u``.
         param_fields = getattr(self.dataset, "param_fields", None) or {}
         if param_fields:
             param_data_list: List[np.ndarray] = []
             param_names: List[str] = []
             for name, arr in param_fields.items():
-                param_data_list.append(np.asarray(arr, dtype=float))
+                _, _, arr = self._apply_cut_quantile(x_full, t_full, np.asarray(arr, dtype=float))
+                param_data_list.append(arr)
                 param_names.append(name)
             result["param_data"] = param_data_list
             result["n_param_var"] = len(param_data_list)
-- 
2.43.0


From 639fcad13b6cd27a95b42551a115be2d883fa4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 46/67] fix: N-D Discover plots keep the order of the
 coordinates

---
 kd/viz/discover_viz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 4b2f404..fa9ac99 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -325,18 +325,20 @@ def _calculate_pde_fields_nd(
     spatial_dxs = []
     for dim_idx in range(n_input_dim):
         coord_1d = np.asarray(data_dict['X'][dim_idx]).flatten()
-        coord_unique = np.unique(coord_1d)
-        if coord_unique.size < 2:
+        if coord_1d.size != u_trimmed.shape[dim_idx + 1]:
+            coord_1d = np.unique(coord_1d)  # coordinates of a full mesh
+        if np.unique(coord_1d).size < 2:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has fewer than 2 unique "
                 f"coordinate values"
             )
-        dx = float(coord_unique[1] - coord_unique[0])
+        # keep the order of the samples: the field is stored along it
+        dx = float(coord_1d[1] - coord_1d[0])
         if dx == 0.0:
             raise ValueError(
                 f"Spatial dimension {dim_idx} has zero grid spacing"
             )
-        spatial_coords_list.append(coord_unique)
+        spatial_coords_list.append(coord_1d)
         spatial_dxs.append(dx)
 
     num_timesteps = u_trimmed.shape[0]
-- 
2.43.0


From 04ec28f5fc78b04ae57632a9b6c8a2b11644b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 47/67] fix: SGA field comparison crops the original field like
 the coordinates

---
 kd/model/sga/sgapde/context.py | 1 +
 kd/viz/_adapters/sga.py        | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 941ae12..2fe7743 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -415,6 +415,7 @@ class ProblemContext:
         slicer[x_index] = slice(n_slice_start, n_slice_end)
         slicer = tuple(slicer)
 
+        self.edge_slicer = slicer
         new_fields = {name: field[slicer] for name, field in self.fields.items()}
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 261ee8a..7c0de53 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -394,6 +394,10 @@ class SGAVizAdapter:
 
         metadata_field = np.asarray(metadata_field)
         original_field = np.asarray(original_field)
+        edge_slicer = getattr(context, 'edge_slicer', None)
+        if edge_slicer is not None and original_field.shape != metadata_field.shape:
+            # delete_edges cropped the working field and its coordinates
+            original_field = original_field[edge_slicer]
 
         # --- N-D 路径：有 axis_order / coords_1d ---
         axis_order = getattr(context, 'axis_order', None)
-- 
2.43.0


From 539b8e848f10d4786737ed9c8000ed79d60b8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 48/67] fix: a dataset whose coordinate array is missing was
 accepted when the axis has one sample

---
 kd/dataset/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 7c203f0..94a9875 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -380,6 +380,9 @@ class PDEDataset(MetaData):
     ) -> None:
         """Initialize in legacy 2D mode."""
         if pde_data is not None:
+            missing = [k for k in ("x", "t", "usol") if pde_data.get(k) is None]
+            if missing:
+                raise ValueError(f"pde_data must provide 'x', 't' and 'usol'; missing: {missing}")
             self.x = np.asarray(pde_data.get("x"), dtype=float).flatten()
             self.t = np.asarray(pde_data.get("t"), dtype=float).flatten()
             self.usol = np.real(np.asarray(pde_data.get("usol")))
@@ -411,6 +414,10 @@ class PDEDataset(MetaData):
         if axis_order is None:
             raise ValueError("axis_order is required for N-D mode.")
 
+        missing = [k for k, v in coords_1d.items() if v is None]
+        if missing:
+            raise ValueError(f"coords_1d has no values for axes: {missing}")
+
         # Convert to numpy arrays
         fields_data = {k: np.asarray(v) for k, v in fields_data.items()}
         coords_1d = {k: np.asarray(v).flatten() for k, v in coords_1d.items()}
-- 
2.43.0


From 37a9f7435afd4479c4956e347fdf7d5ca4e0abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 49/67] fix: SGA mutation redrew forever when the data has a
 single derivative axis not called x

---
 kd/model/sga/sgapde/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..e1d6b35 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -121,6 +121,8 @@ class Tree: #对应于pde中的一个term
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
+                            if parent.name in {'d', 'd^2'} and len(context.den) == 1 and node[0] == context.den[0][0]: # 唯一可求导的轴，没有其他选择，否则死循环
+                                break
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
                                     var=node[2], full=node, child_num=int(node[1]), child_st=None)
-- 
2.43.0


From fbf1f56623fd1a89fdcdfa7c2cb5c38c66a64d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:47 +0000
Subject: [PATCH 50/67] fix: EqGPT ranked candidates that cannot be evaluated
 first (NaN reward)

---
 kd/model/eqgpt/continue_train_GPT_all.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 4d6f6ea..7248ff1 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -308,7 +308,8 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        # no surrogate could evaluate the candidate: the mean of nothing is NaN, which topk ranks first
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From 6b082bcf6cfeb5d2906c4c33a0a7e23d08ae6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 51/67] fix: DLGA could lose the best chromosome of its first
 population

---
 kd/model/dlga.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index c367c09..c344cf0 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -511,6 +511,10 @@ class DLGA(BaseGa):
             gene_translate, length_penalty_coef = DLGA.translate_DNA(self, intial_genome)
             coef, MSE, MSE_true, name = DLGA.get_fitness(self, gene_translate, length_penalty_coef)
             self.Fitness.append(MSE)
+        # The generations keep the first chromosome as their elite
+        best = self.Fitness.index(min(self.Fitness))
+        for population in (self.Chrom, self.Fitness):
+            population[0], population[best] = population[best], population[0]
         DLGA.delete_duplicates(self)
 
         # Create results directory
-- 
2.43.0


From c4a125494ebedb5a898d23f47ec6285db2170e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 52/67] fix: DLGA crossover used the number of generations as
 the population size

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index c344cf0..1e3ceeb 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -328,7 +328,7 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom, size_pop = self.Chrom, self.pop_size
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
         for i in range(int(size_pop / 2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
-- 
2.43.0


From dcd9607dde10b70117873485ea52d8b4f9d27bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:36 +0000
Subject: [PATCH 53/67] fix: an ancestor with several operands covers all of
 them in the search constraints

---
 kd/model/discover/dso/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..b5f24d9 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,7 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        threshold = dangling - arity # Value once all operands are complete
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From 68e92d90385fe8149e398c4853228b15c3cb6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:36 +0000
Subject: [PATCH 54/67] fix: building the state manager no longer consumes the
 caller's configuration

---
 kd/model/discover/state_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..38e994d 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -67,8 +67,7 @@ def make_state_manager(config):
         "grammar": GrammarStateManager
     }
 
-    if config is None:
-        config = {}
+    config = dict(config or {})
 
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
-- 
2.43.0


From b18b4ae91f93091777bf1612640ed77d045d5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:58 +0000
Subject: [PATCH 55/67] fix: controller weights of DISCOVER are drawn after the
 user's seed is set

---
 kd/model/kd_discover.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index a2ed129..0cc5a2b 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -124,6 +124,8 @@ class KD_Discover(BaseRL):
                 
         # initialize
         self.set_task()
+        # The controller takes its initial weights from torch's generator.
+        self.set_seeds(self.seed)
         self.prior = self.make_prior()
         self.state_manager = self.make_state_manager()
         self.controller = self.make_controller()
-- 
2.43.0


From 05703c597573f15886cb022ca9f2e3f10758157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:58 +0000
Subject: [PATCH 56/67] fix: the sparse split and collocation points follow
 random_state

---
 kd/data.py                   | 21 +++++++++++++++++++--
 kd/model/discover/adapter.py |  4 ++--
 kd/model/kd_discover.py      |  2 +-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/kd/data.py b/kd/data.py
index d906f2d..8810789 100644
--- a/kd/data.py
+++ b/kd/data.py
@@ -217,18 +217,35 @@ class SparseData(BaseDataHandler):
         
         self.colloc_num = 20000
         
-    def process_data(self, domains):
+    def process_data(self, domains, random_state=None):
         """Process sparse data.
         
         Args:
             domains (tuple): (lower_bound, upper_bound) for the domain
+            random_state (int, optional): Seed of the random draws. With
+                ``None`` they come from numpy's global generator.
             
         The processing includes:
             1. Train/validation split (80/20)
             2. Latin Hypercube Sampling for collocation points
         """
         super().process_data()
-        
+
+        if random_state is None:
+            self._split_and_sample(domains)
+            return
+        # lhs can only draw from numpy's global generator: seed it for these
+        # draws and hand it back as it was.
+        seed = int(np.random.default_rng(random_state).integers(2**32))
+        state = np.random.get_state()
+        np.random.seed(seed)
+        try:
+            self._split_and_sample(domains)
+        finally:
+            np.random.set_state(state)
+
+    def _split_and_sample(self, domains):
+        """Draw the train/validation split and the collocation points."""
         # 1. train test split
         Split_TrainVal = 0.8
         Num_d = self.u.shape[0]
diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 86401dc..80f6812 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -366,7 +366,7 @@ class DiscoverSparseAdapter:
         else:
             lb, ub = default_lb, default_ub
 
-        sparse.process_data((lb, ub))
+        sparse.process_data((lb, ub), random_state=self.random_state)
 
         result = dict(sparse.get_data())
         if self.cut_quantile is not None:
@@ -522,7 +522,7 @@ class DiscoverSparseAdapter:
         sparse = LegacySparseData(xt, sampled_values)
         if self.colloc_num is not None:
             sparse.colloc_num = int(self.colloc_num)
-        sparse.process_data((lb, ub))
+        sparse.process_data((lb, ub), random_state=self.random_state)
 
         result = dict(sparse.get_data())
         result['n_input_dim'] = n_spatial
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 0cc5a2b..42b82a0 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -748,7 +748,7 @@ class KD_Discover_SPR(KD_Discover):
             data_type (str): Type of data.
         """
         self.data_class = SparseData(x, y)
-        self.data_class.process_data(domains)    
+        self.data_class.process_data(domains, random_state=self.seed)
 
     def fit(self, x, y, domains, n_epochs=20, verbose=True, data_type='Sparse'):
         """Fit model to data.
-- 
2.43.0


From b6ab5a2419ea345de3e2b8b880d10000fff35bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 57/67] fix: KD_DLGA.predict refuses to answer with the
 untrained network

---
 kd/model/kd_dlga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ba3d36c..df5a069 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -271,6 +271,8 @@ class KD_DLGA(DLGA):
         
     def predict(self, mesh_data):
         """Predict the solution field on a given mesh."""
+        if getattr(self, "best_epoch", None) is None:
+            raise RuntimeError("KD_DLGA.predict was called before fit(X, y).")
         X_tensor = torch.from_numpy(mesh_data.astype(np.float32)).to(self.device)  # Convert to tensor and predict
         with torch.no_grad():
             u_pred = self.Net(X_tensor).cpu().numpy()
-- 
2.43.0


From 930e87c64d59a370b1e31bbb80b754c11a47ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 58/67] fix: sparse DISCOVER data refuse an empty or too large
 sample and a field that is not finite

---
 kd/model/discover/adapter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index 80f6812..7f6db21 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -309,6 +309,8 @@ class DiscoverSparseAdapter:
 
         if not isinstance(self.dataset, PDEDataset):
             raise TypeError("DiscoverSparseAdapter expects a PDEDataset instance")
+        if self.sample is not None and self.sample < 1:
+            raise ValueError(f"Requested {self.sample} samples; at least one is needed")
 
         self._data = self._prepare()
 
@@ -340,6 +342,9 @@ class DiscoverSparseAdapter:
                 )
             )
 
+        if not np.all(np.isfinite(u)):
+            raise ValueError("Input field u contains NaN or Inf values")
+
         x_full, t_full = x, t
         x, t, u = self._apply_cut_quantile(x, t, u)
 
@@ -588,6 +593,10 @@ class DiscoverSparseAdapter:
         total_space = len(x)
 
         if self.sample is not None:
+            if self.sample > total_time * total_space:
+                raise ValueError(
+                    f"Requested {self.sample} samples, but only {total_time * total_space} points available"
+                )
             num_x = max(1, int(self.sample / total_time))
         else:
             num_x = max(1, int(total_space * ratio))
-- 
2.43.0


From e5e2bac4fa58b6839af6a5a6766f574d7d3acff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:00 +0000
Subject: [PATCH 59/67] fix: PDEDataset.sample refuses a request for no points

---
 kd/dataset/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 94a9875..9cae252 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -529,6 +529,8 @@ class PDEDataset(MetaData):
 
         if n_samples > total_points:
             raise ValueError(f"Requested {n_samples} samples, but only {total_points} points available.")
+        if n_samples < 1:
+            raise ValueError(f"Requested {n_samples} samples; at least one is needed.")
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-- 
2.43.0


From ca83d520faf2a9c11e8a7eb7c1f33168e1ab5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:55 +0000
Subject: [PATCH 60/67] fix: KD_SGA accepts target_field and lhs_axis together
 with N-D data

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..0539000 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        dataset_target_field = solver_kwargs.pop("target_field", None)
+        dataset_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or dataset_target_field or "u"
+        final_lhs_axis = self.lhs_axis or dataset_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 75318b43b381beb85c6fc14c20019087bbc7d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:46 +0000
Subject: [PATCH 61/67] fix: keep a reused DISCOVER estimator's output below
 the user's directory

Importing a second dataset joined the new file name onto the previous run's
file, and each SPR training renamed out_path once more, so a reused estimator
wrote to discover_a_0_5.csv/discover_b_0.csv instead of the chosen directory.
---
 kd/model/kd_discover.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 42b82a0..af16348 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -138,6 +138,17 @@ class KD_Discover(BaseRL):
         print("Library: ", Program.task.library)
         self.controller.prior.report_constraint_counts()
         
+    def _set_out_path(self, name):
+        """Point ``out_path`` at this run's file in the directory the user chose."""
+        if self.out_path is None:
+            return
+        if self.out_path != getattr(self, "_run_out_path", None):
+            self._out_dir = self.out_path
+        self._run_out_path = os.path.join(
+            self._out_dir, "discover_{}_{}.csv".format(name, self.seed)
+        )
+        self.out_path = self._run_out_path
+
     def import_inner_data(self, dataset, data_type='regular'):
         """Import data from predefined datasets.
 
@@ -150,10 +161,7 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_out_path(dataset)
         self.setup()
 
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
@@ -186,11 +194,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_path(resolved_name)
 
         self.setup()
         return self
@@ -574,11 +578,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_path(resolved_name)
 
         self.setup()
         return self
@@ -670,7 +670,6 @@ class KD_Discover_SPR(KD_Discover):
         last = False    
         last_best_p = None
         best_tokens = []
-        prefix, _ = os.path.splitext(self.out_path)
         iter_num = self.config_pinn["iter_num"]
         eq_num = self.config_task.get('eq_num', 1)
         
@@ -682,7 +681,6 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From ac078f4b602fb2f43a82c657d7a14953e338d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:46 +0000
Subject: [PATCH 62/67] fix: start every DISCOVER search afresh unless the
 history is kept

A search that queued no program left its best program, reward and counters
behind for the next search with keep_history=False.
---
 kd/model/discover/searcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index bafb6e7..cd67e8b 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -253,7 +253,7 @@ class Searcher:
             self.n_iterations=n_epochs
         
         # whether keep priority queue
-        if not keep_history and len(self.pq)>0:
+        if not keep_history and self.total_epoch > 0:
             self.set_up()
             
         pbar = tqdm(range(n_epochs), desc='Progress', ncols=100)
-- 
2.43.0


From ab9e19aa0cbe81f164efcf6c23ec4b585341a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:54 +0000
Subject: [PATCH 63/67] fix: start a refit of KD_DLGA from its initial network
 and empty histories

A second fit kept training the previous fit's network and appended to the
previous fit's histories, so its result depended on the earlier data.
---
 kd/model/dlga.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 1e3ceeb..3c048e7 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -5,6 +5,7 @@ to discover governing equations of PDEs. It uses neural networks to fit the data
 genetic algorithms to search for the symbolic form of equations.
 """
 
+import copy
 import os
 import random
 from abc import ABCMeta, abstractmethod
@@ -97,6 +98,8 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self._initial_weights = copy.deepcopy(self.Net.state_dict())
+
         self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
@@ -118,6 +121,18 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
+        # A second fit starts where the first one did
+        if getattr(self, "best_epoch", None) is not None:
+            self.Net.load_state_dict(self._initial_weights)
+        for history in (
+            "fitness_history",
+            "train_loss_history",
+            "val_loss_history",
+            "evolution_history",
+            "complexity_history",
+        ):
+            setattr(self, history, [])
+
         # Shuffle copies so that the caller's arrays keep their order
         X = np.array(X, copy=True)
         y = np.array(y, copy=True)
-- 
2.43.0


From a4c010cbb842a00d4f3cd77f441db24e2dd8a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:39 +0000
Subject: [PATCH 64/67] fix: SPR training leaves the configured training
 options as they were

callIterPINN overwrote training.n_samples in the estimator's configuration, so
a later run was configured by the number of iterations of an earlier one.
---
 kd/model/kd_discover.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index af16348..14f13a8 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -676,8 +676,6 @@ class KD_Discover_SPR(KD_Discover):
         for i in range(iter_num):
             if i > 0:
                 self.reset_up(reset_controller=False)
-                bsz = self.config_training['batch_size']
-                self.config_training['n_samples'] = 10*bsz
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-- 
2.43.0


From 99ebc00b44968f29a8c9545cae0a82b7e8d9e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:31 +0000
Subject: [PATCH 65/67] fix: DLGA time slices are titled with the moment drawn

---
 kd/viz/_adapters/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index ef41859..6b51937 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -155,11 +155,11 @@ class DLGAVizAdapter:
         if not isinstance(axes, np.ndarray):
             axes = np.asarray([axes])
 
-        for ax, idx, t_val in zip(axes, indices, slice_times):
+        for ax, idx in zip(axes, indices):
             ax.plot(data.x_coords, data.true_field[:, idx], 'b-', linewidth=2, label='Exact')
             ax.plot(data.x_coords, data.predicted_field[:, idx], 'r--', linewidth=2, label='Prediction')
             ax.set_xlabel(ctx.options.get('space_label', 'Space'))
-            ax.set_title(f't = {t_val:.3f}')
+            ax.set_title(f't = {t_coords[idx]:.3f}')
             ax.grid(True, linestyle='--', alpha=0.5)
 
         axes[0].set_ylabel(ctx.options.get('field_label', 'u(x, t)'))
-- 
2.43.0


From f6d5182df0a500d1d754c924aef5222c5c2dc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:31 +0000
Subject: [PATCH 66/67] fix: SPR field comparison is drawn with space upwards
 and time across

---
 kd/viz/discover_viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index fa9ac99..072b342 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -741,7 +741,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制左图：真实场
     ax0 = axes[0]
-    im0 = ax0.imshow(grid_ut.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im0 = ax0.imshow(grid_ut, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im0, ax=ax0, label='Value')
     ax0.set_title("True Field ($u_t$)")
@@ -750,7 +750,7 @@ def plot_spr_field_comparison(model, best_program, output_dir: str = None):
 
     # 绘制右图：预测场
     ax1 = axes[1]
-    im1 = ax1.imshow(grid_yhat.T, extent=(min(t),max(t),min(x),max(x)), origin='lower',
+    im1 = ax1.imshow(grid_yhat, extent=(min(t),max(t),min(x),max(x)), origin='lower',
                      aspect='auto', cmap='viridis', vmin=vmin, vmax=vmax)
     fig.colorbar(im1, ax=ax1, label='Value')
     ax1.set_title("Predicted Field (RHS)")
-- 
2.43.0


From 82bf6250d4fde1fb40dbc997305801d6ffd11b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:29 +0000
Subject: [PATCH 67/67] fix: reward density labels each curve with its own
 epoch when a requested epoch is absent

---
 kd/viz/_adapters/discover.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 107c00d..85727ec 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -141,7 +141,8 @@ class DiscoverVizAdapter:
             epoches = list(range(0, len(history), step))
             if (len(history) - 1) not in epoches:
                 epoches.append(len(history) - 1)
-        data = history if epoches is None else [history[i] for i in epoches if i < len(history)]
+        drawn = list(range(len(history))) if epoches is None else [i for i in epoches if i < len(history)]
+        data = [history[i] for i in drawn]
         if not data:
             return VizResult(intent='density', warnings=['No data available for requested epochs.'])
 
@@ -150,7 +151,7 @@ class DiscoverVizAdapter:
             sns.kdeplot(
                 np.asarray(rewards),
                 ax=ax,
-                label=f'Epoch {epoches[idx] if epoches else idx}',
+                label=f'Epoch {drawn[idx]}',
                 fill=False,
             )
 
-- 
2.43.0

