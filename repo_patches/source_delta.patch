From 5bb30729e3cbe89ad6cb81334605ed85100943ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:32 +0000
Subject: [PATCH 01/34] fix: reject illegal log-uniform bounds and empty
 triangular ranges

---
 src/SALib/util/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 47e73bc..25ea1a3 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -187,7 +187,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 )
 
             # checking for correct parameters
-            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start > b1:
+            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start >= b1:
                 raise ValueError(
                     """Triangular distribution bound error: Scale must be
                     greater than zero; peak on interval [0,1], triangular
@@ -208,6 +208,12 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 conv_params[:, i] = params[:, i] * (b2 - b1) + b1
 
         elif dists[i] == "logunif":
+            if b1 <= 0 or b1 >= b2:
+                raise ValueError(
+                    """Log-uniform distribution: bounds must be > 0 and the
+                    lower bound must be less than upper bound"""
+                )
+
             conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
 
         elif dists[i] == "norm":
-- 
2.43.0


From eb22430c44582b464cdc91ae7522ccee558c1649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 02/34] fix: honour seed=0 in the analysers and any seed in
 hdmr

---
 src/SALib/analyze/delta.py         | 2 +-
 src/SALib/analyze/dgsm.py          | 2 +-
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/fast.py          | 2 +-
 src/SALib/analyze/ff.py            | 2 +-
 src/SALib/analyze/hdmr.py          | 6 +++---
 src/SALib/analyze/pawn.py          | 2 +-
 src/SALib/analyze/sobol.py         | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..1ad85af 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -14,7 +14,7 @@ import pandas as pd
 from scipy import stats, special, interpolate
 
 from . import common_args
-from ..util import read_param_file, ResultDict, handle_seed
+from ..util import read_param_file, ResultDict
 
 from SALib.plotting.hdmr import plot as hdmr_plot
 from SALib.util.problem import ProblemSpec
@@ -177,8 +177,8 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
-        rng = handle_seed(seed)  # noqa
+    if seed is not None:
+        np.random.seed(seed)
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..1ed661a 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -110,7 +110,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From b8c23388746c1e2e30a5e4eb4eb6df3318c0b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 03/34] fix: accept NumPy integers as seeds in handle_seed

---
 src/SALib/util/util_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 601624d..76edaea 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -190,7 +190,8 @@ def handle_seed(
         # Spawn a Generator that we can own and reset.
         rng = seed.spawn(1)[0]
     elif isinstance(
-        seed, (np.random.BitGenerator, np.random.SeedSequence, int, type(None))
+        seed,
+        (np.random.BitGenerator, np.random.SeedSequence, int, np.integer, type(None)),
     ):
         rng = np.random.default_rng(seed)
     elif isinstance(seed, (list, tuple, np.ndarray)):
-- 
2.43.0


From 9e963eec99daa85b3f34d982d221e6a66ef005e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 04/34] fix: pass --seed and --skip-values of the sobol sampler
 command line on

---
 src/SALib/sample/sobol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..2865990 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -221,9 +221,9 @@ def cli_parse(parser):
         "--skip-values",
         type=int,
         required=False,
-        default=None,
-        help="Number of sample points to skip (default: next largest power of"
-        " 2 from `samples`). Not recommended (use `scramble` instead).",
+        default=0,
+        help="Number of sample points to skip (default: 0)."
+        " Not recommended (use `scramble` instead).",
     )
 
     return parser
@@ -242,6 +242,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=args.skip_values,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From 33009b3a688eb210f91c7dfb615b21616c6dd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 05/34] fix: read False as false for the Morris --local and
 --scaled options

---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/sample/morris/morris.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..e32a805 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -630,7 +630,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: (str(x).lower() not in ("", "0", "false", "no")),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..048955e 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,7 +445,7 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
+        type=lambda x: (str(x).lower() not in ("", "0", "false", "no")),
         required=True,
         default=False,
         help="Use the local optimisation method \
-- 
2.43.0


From ab918f4bb62ac041de38b0312e39271dc4062fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 06/34] fix: pass --seed of the HDMR analyser command lines on

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 src/SALib/analyze/hdmr.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..93ff99f 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1690,6 +1690,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 1ad85af..c93ca7f 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -1089,6 +1089,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From 343663d212aea6bf4e66e66484ff283d90cbb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 07/34] fix: give the optional pawn and rsa command-line
 options their documented defaults

---
 src/SALib/analyze/pawn.py | 7 ++++++-
 src/SALib/analyze/rsa.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..8e9c749 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -181,7 +181,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..4470ffd 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -250,6 +250,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -258,6 +259,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
-- 
2.43.0


From e6242f887f0c3cb723aa5b6e41daca28e2e487dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 08/34] fix: analyse single-parameter input files from the
 command line

---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..c33b84b 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -132,7 +132,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 8e9c749..8bdd2ce 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -193,7 +193,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..0d9168e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -177,7 +177,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 4470ffd..d452051 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -268,7 +268,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From e957a38bc90780a949a1b67f84022ecf97258962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 09/34] fix: regional sensitivity analysis with groups

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index d452051..340cef2 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -112,11 +112,11 @@ def analyze(
     groups = _check_groups(problem)
     var_names, n_groups = extract_group_names(problem)
     if groups:
-        groups = np.array(var_names)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From 07f162a3222e7b4b783eb7cf415d9f9f0e8b65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 10/34] fix: use exactly the requested number of bins in
 regional sensitivity analysis

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 340cef2..b2fd3a9 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -124,7 +124,7 @@ def analyze(
 
     Si = ResultDict([(g, results[:, i]) for i, g in enumerate(var_names)])
     Si["names"] = var_names
-    Si["bins"] = np.arange(0.0, 1.0, (1.0 / bins))
+    Si["bins"] = np.linspace(0.0, 1.0, bins, endpoint=False)
     Si["target"] = target
 
     # Attach object methods specific to this sensitivity method to ResultDict.
@@ -142,7 +142,7 @@ def rsa(X: np.ndarray, y: np.ndarray, bins: int = 10, target="X") -> np.ndarray:
     N, D = X.shape
 
     # Pre-allocated arrays to store data/results
-    seq = np.append(np.arange(0.0, 1.0, (1 / bins)), 1.0)
+    seq = np.linspace(0.0, 1.0, bins + 1)
     X_di = np.empty(N)  # store of factor values
     r_s = np.full((bins, D), np.nan)  # results
 
-- 
2.43.0


From 98bdda7b9b068e44ee6416d5e6d6b57e4f609eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 11/34] fix: label grouped discrepancy indices with the group
 names

---
 src/SALib/analyze/discrepancy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index c33b84b..567e004 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -112,7 +112,7 @@ def analyze(
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = unique_grps if groups is not False else problem["names"]
 
     Si["s_discrepancy"] = s_discrepancy
 
-- 
2.43.0


From 1f2decdd8c14d01805cb674fb203e29fa5bcc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 12/34] fix: PAWN slices for every number of slices

---
 src/SALib/analyze/pawn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 8bdd2ce..2a110c9 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -112,9 +112,8 @@ def analyze(
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
 
-    step = 1 / S
+    seq = np.linspace(0, 1, S + 1)
     for d_i in range(D):
-        seq = np.arange(0, 1 + step, step)
         X_di = X[:, d_i]
         X_q = np.nanquantile(X_di, seq)
 
-- 
2.43.0


From 553674808282379e73b579ff338acd177db9347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 13/34] fix: include the largest parameter value in the last
 PAWN slice

---
 src/SALib/analyze/pawn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 2a110c9..70f46fb 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -118,7 +118,9 @@ def analyze(
         X_q = np.nanquantile(X_di, seq)
 
         for s in range(S):
-            Y_sel = Y[(X_di >= X_q[s]) & (X_di < X_q[s + 1])]
+            # the last slice includes the largest value
+            upper = (X_di <= X_q[s + 1]) if s == S - 1 else (X_di < X_q[s + 1])
+            Y_sel = Y[(X_di >= X_q[s]) & upper]
             if len(Y_sel) == 0:
                 # no available samples
                 continue
-- 
2.43.0


From 4be5f4327c10dc27630743b073823e14de4ae2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 14/34] fix: judge each HDMR term with the number of
 coefficients of its own order

---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c93ca7f..c8945b6 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -647,9 +647,9 @@ def f_test(Y, f0, Y_em, R, alpha, m1, m2, m3, n1, n2, n3, n):
         Y_res1 = Y_res0 - Y_em[:, i]
 
         # Number of parameters of proposed model (order dependent)
-        if i <= n1:
+        if i < n1:
             p1 = m1  # 1st order
-        elif n1 < i <= (n1 + n2):
+        elif i < (n1 + n2):
             p1 = m2  # 2nd order
         else:
             p1 = m3  # 3rd order
-- 
2.43.0


From 18e5fd54e1dbb70c8ccd8de1fab9d1ed9332907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 15/34] fix: keep finite differences of unbounded distributions
 off their parameters

---
 src/SALib/sample/finite_diff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SALib/sample/finite_diff.py b/src/SALib/sample/finite_diff.py
index 368286f..4b76be8 100644
--- a/src/SALib/sample/finite_diff.py
+++ b/src/SALib/sample/finite_diff.py
@@ -56,6 +56,7 @@ def sample(
 
     D = problem["num_vars"]
     bounds = problem["bounds"]
+    dists = problem.get("dists") or ["unif"] * D
 
     # Create base sequence - could be any type of sampling
     base_sequence = sobol_sequence.sample(N + skip_values, D)
@@ -76,8 +77,12 @@ def sample(
             bnd_j = bounds[j]
             temp[j] = base_sequence[i, j] * delta
             dgsm_sequence[index, :] = base_sequence[i, :] + temp
-            dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
-            dgsm_sequence[index, j] = max(dgsm_sequence[index, j], bnd_j[0])
+            # bounds of other distributions hold their parameters, not a range
+            if dists[j] in ("unif", "logunif", "truncnorm") or (
+                dists[j] == "triang" and len(bnd_j) == 3
+            ):
+                dgsm_sequence[index, j] = min(dgsm_sequence[index, j], bnd_j[1])
+                dgsm_sequence[index, j] = max(dgsm_sequence[index, j], bnd_j[0])
             index += 1
 
     return dgsm_sequence
-- 
2.43.0


From 2ee9fcf359eb1c34b48484e724933b746c25452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 16/34] fix: keep the resamples of a parallel Sobol analysis

---
 src/SALib/analyze/sobol.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 1ed661a..cbb4d7b 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -280,16 +280,24 @@ def separate_output_values(Y, D, N, calc_second_order):
 
 
 def sobol_parallel(Z, A, AB, BA, B, r, tasks):
+    """Compute the given tasks (name of index, parameter 1, parameter 2).
+
+    First and total order confidence tasks return the resampled indices along
+    with the confidence interval.
+    """
     sobol_indices = []
     for d, j, k in tasks:
         if d == "S1":
             s = first_order(A, AB[:, j], B)
-        elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
-        elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
+        elif d in ("S1_conf", "ST_conf"):
+            order = first_order if d == "S1_conf" else total_order
+            conf_j = order(A[r], AB[r, j], B[r])
+            if np.ptp(np.r_[A[r], B[r]]) != 0.0:
+                s = (Z * conf_j.std(ddof=1), conf_j)
+            else:
+                s = (0.0, conf_j)
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
@@ -354,7 +362,11 @@ def Si_list_to_dict(
         L += list
 
     for s in L:  # First order (+conf.)
-        if s[2] is None:
+        if s[0] in ("S1_conf", "ST_conf"):
+            S[s[0]][s[1]], conf_j = s[3]
+            if keep_resamples:
+                S[s[0] + "_all"][:, s[1]] = conf_j
+        elif s[2] is None:
             S[s[0]][s[1]] = s[3]
         else:
             S[s[0]][s[1], s[2]] = s[3]
-- 
2.43.0


From 696f29b5da5bca2b9118684424b8fe4b70b70f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 17/34] fix: fractional factorial designs for more than 512
 parameters

---
 src/SALib/sample/ff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..0d8c0c8 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -26,9 +26,11 @@ def find_smallest(num_vars):
     x : int
         Smallest exponent of two greater than `num_vars`
     """
-    for x in range(10):
-        if num_vars <= 2**x:
-            return x
+    x = 0
+    while num_vars > 2**x:
+        x += 1
+
+    return x
 
 
 def extend_bounds(problem):
-- 
2.43.0


From aed18558d8128cfb1c00aca474374eca9a9c804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 18/34] fix: leave the caller's problem unpadded in fractional
 factorial methods

---
 src/SALib/sample/ff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0d8c0c8..5f088da 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -47,8 +47,10 @@ def extend_bounds(problem):
     num_dummy_variables = num_ff_vars - num_vars
 
     bounds = list(problem["bounds"])
-    names = problem["names"]
+    names = list(problem["names"])
     if num_dummy_variables > 0:
+        # Leave the given problem as it is
+        problem = dict(problem)
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
         names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
         problem["bounds"] = bounds
@@ -122,9 +124,10 @@ def sample(problem, seed: Optional[Union[int, np.random.Generator, None]] = None
 
     contrast = generate_contrast(problem)
     sample = np.array((contrast + 1.0) / 2, dtype=float)
-    problem = extend_bounds(problem)
+    extended = extend_bounds(problem)
 
-    sample = scale_samples(sample, problem)
+    sample = scale_samples(sample, extended)
+    problem["sample_scaled"] = True
     return sample
 
 
-- 
2.43.0


From 9c7de3023059ef36c3ca7b78eb971ab49c3ed140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 19/34] fix: drop analyses of replaced samples or results

---
 src/SALib/util/problem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..a32b03f 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -73,8 +73,9 @@ class ProblemSpec(dict):
 
         self._samples = vals
 
-        # Clear results to avoid confusion
+        # Clear results and analyses to avoid confusion
         self._results = None
+        self._analysis = None
 
     @property
     def results(self):
@@ -102,6 +103,9 @@ class ProblemSpec(dict):
 
         self._results = vals
 
+        # Analyses of older results no longer apply
+        self._analysis = None
+
     @property
     def analysis(self):
         return self._analysis
-- 
2.43.0


From 5c78a0c9f78468bd51be815b5db0be701339e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 20/34] fix: refuse to evaluate before sampling

---
 src/SALib/util/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index a32b03f..340a0ca 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -184,6 +184,9 @@ class ProblemSpec(dict):
         if nprocs > 1:
             return self.evaluate_parallel(func, *args, nprocs=nprocs, **kwargs)
 
+        if self._samples is None:
+            raise RuntimeError("Sampling not yet conducted")
+
         self.results = func(self._samples, *args, **kwargs)
 
         return self
@@ -299,6 +302,9 @@ class ProblemSpec(dict):
             " may not work."
         )
 
+        if self._samples is None:
+            raise RuntimeError("Sampling not yet conducted")
+
         workers = pp_Pool(nprocs, servers=servers)
 
         # Split into even chunks
-- 
2.43.0


From e0befd263cdf530aa6f13de276285782b99955ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 21/34] fix: pass extra arguments on in distributed evaluation

---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 340a0ca..1fb7274 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -310,7 +310,7 @@ class ProblemSpec(dict):
         # Split into even chunks
         chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
 
-        tmp_f = self._wrap_func(func)
+        tmp_f = self._wrap_func(func, *args, **kwargs)
 
         res = list(workers.map(tmp_f, chunks))
 
-- 
2.43.0


From 8e9f41b0262d5798a7f6c4f31611fc5382750996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:07 +0000
Subject: [PATCH 22/34] fix: refuse to analyse a single group

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 1fb7274..46bbd48 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -346,7 +346,9 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len("groups") == 1):
+        if self["num_vars"] == 1 or (
+            self["groups"] and len(set(self["groups"])) == 1
+        ):
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
-- 
2.43.0


From 6afcde5323f4ae47f33c10ca38f1e80d5c1bd220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 23/34] fix: analyse a single group like the samplers sample
 it, as no groups

---
 src/SALib/util/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 25ea1a3..a9bc884 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -309,10 +309,8 @@ def extract_group_names(p: Dict) -> Tuple:
     -------
     tuple : names, number of groups
     """
-    if "groups" not in p or not p["groups"]:
-        groups = p["names"]
-    else:
-        groups = p["groups"]
+    # As in sampling, a single group is the same as no groups
+    groups = _check_groups(p) or p["names"]
 
     names = list(pd.unique(np.array(groups)))
     number = len(names)
-- 
2.43.0


From c90b94747cd21a7426f0abf2d5f266174bd3ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 24/34] fix: keep enhanced HDMR terms out of the caller's
 parameter names

---
 src/SALib/analyze/enhanced_hdmr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 93ff99f..8ae7795 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -258,6 +258,9 @@ def _check_args(
     N, d = X.shape
     y_row = Y.shape[0]
 
+    # Leave the given problem as it is
+    problem = dict(problem)
+
     # If parameter names are not defined
     if "names" not in problem:
         problem["names"] = [f"x_{i}" for i in range(d)]
@@ -588,7 +591,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
-- 
2.43.0


From 3b4887789ac3fe27575c41d79a715ca3b758e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 25/34] fix: total indices of first- and third-order enhanced
 HDMR

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 8ae7795..27f59eb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1439,13 +1439,13 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From 35ca89902194ff2429e14e53ce8e6fa3e80d494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 26/34] fix: confidence of the summed HDMR indices over
 bootstrap runs

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 src/SALib/analyze/hdmr.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 27f59eb..20b4497 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1454,9 +1454,9 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     Si["Sa_conf"] = mult * np.std(Si["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(Si["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(Si["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"], axis=0))
 
     # Assign Bootstrap Results to Si Dict
     Si["Sa"] = np.mean(Si["Sa"], axis=1)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c8945b6..9793ba0 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -792,9 +792,9 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["Sa_conf"] = mult * np.std(SA["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(SA["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(SA["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
     Si["select"] = Em["select"].flatten()
-- 
2.43.0


From 6b5dc8a6df969303548ac09330c59e32e62d363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 27/34] fix: count the selections of each HDMR term

---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 9793ba0..c6aa2c7 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -797,7 +797,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
-    Si["select"] = Em["select"].flatten()
+    Si["select"] = np.sum(Em["select"], axis=1)
 
     Si["names"] = Si["Term"]
 
-- 
2.43.0


From 322c97605e94ca445332b03ebfecca1d6cfe09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 28/34] fix: keep the parameter names of a problem
 specification in HDMR

---
 src/SALib/analyze/hdmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c6aa2c7..16bee5b 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -818,7 +818,8 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     if not isinstance(problem, ProblemSpec):
         Si.problem = problem
     else:
-        problem.update(Si)
+        # Leave the parameter names as they are
+        problem.update({k: v for k, v in Si.items() if k != "names"})
         problem.emulate = MethodType(emulate, problem)
 
     return Si
-- 
2.43.0


From 7e72cced2c5110edcf579819a451dcb8883a6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 29/34] fix: leave the caller's problem unchanged in the Morris
 analysis

---
 src/SALib/analyze/morris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index e32a805..2440228 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -135,7 +135,8 @@ def analyze(
 
     rng = handle_seed(seed)
 
-    _define_problem_with_groups(problem)
+    # Leave the given problem as it is
+    problem = _define_problem_with_groups(dict(problem))
 
     _check_if_array_of_floats(X)
     _check_if_array_of_floats(Y)
-- 
2.43.0


From f9fc8247df5a3dcb1ed18a32ffe6e2412c0d060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 30/34] fix: refuse incomplete Morris trajectories

---
 src/SALib/analyze/morris.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 2440228..251dc3e 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -147,6 +147,12 @@ def analyze(
     groups, unique_group_names = compute_groups_matrix(problem["groups"])
     number_of_groups = len(unique_group_names)
 
+    if Y.size % (number_of_groups + 1) != 0:
+        raise ValueError(
+            "Number of samples in model output file must be a multiple of"
+            " (G+1), where G is the number of groups."
+        )
+
     num_trajectories = int(Y.size / (number_of_groups + 1))
     trajectory_size = int(Y.size / num_trajectories)
 
-- 
2.43.0


From 808c1f13e623103f25ae8489d71bd0f575f4c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 31/34] fix: refuse illegal confidence levels in FAST and
 RBD-FAST

---
 src/SALib/analyze/fast.py     | 3 +++
 src/SALib/analyze/rbd_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 2511db2..74b0f2a 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -79,6 +79,9 @@ def analyze(
         """
         raise ValueError(msg)
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     # Recreate the vector omega used in the sampling
     omega_0 = math.floor((N - 1) / (2 * M))
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 0d9168e..44c3da1 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -85,6 +85,9 @@ def analyze(
     """
     rng = handle_seed(seed)
 
+    if not 0 < conf_level < 1:
+        raise RuntimeError("Confidence level must be between 0-1.")
+
     D = problem["num_vars"]
     N = Y.size
 
-- 
2.43.0


From 0533ce5cc4cc0b39ebeb059c4efa7f0ab92cf56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 32/34] fix: draw all resamples of the delta analysis when the
 last bin is empty

---
 src/SALib/analyze/delta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 788cbc7..4d95627 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -488,6 +488,8 @@ def obtain_resampled_subset(
         init_indices, final_indices = obtain_bins_indices(
             bin_edges, X_select, min_class_size
         )
+        # A bin without any samples cannot be drawn from
+        final_indices = [bin_idx for bin_idx in final_indices if len(bin_idx) > 0]
         n_bins = len(final_indices)
         n_per_bin = binselectionsize // n_bins
         remaining = binselectionsize - (n_per_bin * n_bins)
-- 
2.43.0


From 7c406f6e8e2221af41230a7a01ae9de93f84639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 33/34] fix: third-order enhanced HDMR without extended base

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 20b4497..2c9daac 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -876,6 +876,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
-- 
2.43.0


From 555b6e00f3b4f5fa9db086640090f1308b602c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 34/34] fix: collect the results of a parallel evaluation shown
 with a progress bar

p_imap returns a generator, which _collect_results indexes.
---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 46bbd48..0b8b7d4 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -242,7 +242,7 @@ class ProblemSpec(dict):
 
         if ptqdm_available:
             # Display progress bar if available
-            res = p_imap(tmp_f, chunks, num_cpus=nprocs)
+            res = list(p_imap(tmp_f, chunks, num_cpus=nprocs))
         else:
             with Pool(nprocs) as pool:
                 res = list(pool.imap(tmp_f, chunks))
-- 
2.43.0

