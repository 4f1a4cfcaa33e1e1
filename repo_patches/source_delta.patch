From 4be499773a730439b63dab1e02ca4504e09645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 01/20] fix: keep the parity measurement ancilla distinct from
 all circuit qubits inside repeat blocks

The ancilla was recomputed from the loop body's own qubit count, so a body not touching the
highest qubits made the ancilla collide with a data qubit.
---
 src/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..7049e91 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,14 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self,
+                      circuit: stim.Circuit,
+                      *,
+                      qs: Optional[Set[int]] = None,
+                      ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = max(circuit.num_qubits, max(qs or {-1}) + 1)
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +169,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From 077b220c391000367b919d9d5356173e7ee0d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 02/20] fix: keep inverted results when rewriting parity
 measurements with correlated noise

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 7049e91..95f65bb 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -280,6 +280,7 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From c6dd1d828b19a1df23b1c2bdb2fc5f3bcfced5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 03/20] fix: keep the first edge when parallel errors disagree
 on the frame change

The comment promises the first is kept, but add_edge overwrote it with the last.
---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..c1e8311 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -244,9 +244,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 95ad6db30967dc584f0fed20832020aba3430b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 04/20] fix: predict every observable even when some never
 appear on a matching edge

pymatching 2 ignores the huge-weight spandrel edge carrying the observable ids, so predictions were
too narrow: a crash, or one observable's prediction broadcast to all of them.
---
 src/decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index c1e8311..95dd4f5 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -275,4 +275,7 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_edge(k, num_detectors + 1, weight=9999999999)
     g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
 
-    return pymatching.Matching(g)
+    m = pymatching.Matching(g)
+    # Newer versions of pymatching drop edges with huge weights, so the spandrels don't guarantee this.
+    m.ensure_num_fault_ids(num_observables)
+    return m
-- 
2.43.0


From 399e37535172fd22a9ac00be6ae3f8940811f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 05/20] fix: take at least min_shots samples even when batches
 are smaller than that

---
 src/collect_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..453c4ea 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -185,10 +185,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 529191359e06136bdd7c12ecafc07097b6d70ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 06/20] fix: compute log likelihoods in double precision

Single precision made likelihood differences meaningless for large shot counts, giving wrong error bars.
---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From 374203447e73998943f164f77084b48614bdd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 07/20] fix: legend label of noisy layouts raised ValueError

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From e2391e77d10285dd6cad55e25adb0783fa796ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:59 +0000
Subject: [PATCH 08/20] fix: apply measurement noise to measurements with
 inverted results instead of raising

---
 src/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 95f65bb..8a2c212 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,7 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From be17691b6abcb0b6e3a05e301d4aa0585b94faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:18 +0000
Subject: [PATCH 09/20] fix: never sample more than max_shots, even when that
 is below min_shots

E.g. main_collect_all.py --max_shots 10 took 25 shots per problem.
---
 src/collect_data.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 453c4ea..cf6eddc 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
-- 
2.43.0


From a25ebdb67b8781a109034b9344a23d1858081f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:37 +0000
Subject: [PATCH 10/20] fix: write the CSV header when the output file exists
 but is empty

An empty file (e.g. left by a run killed while creating it) got records without a header, making
them unreadable.
---
 src/collect_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index cf6eddc..121c685 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -138,7 +138,8 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        path = pathlib.Path(out_path)
+        if discard_previous_data or not path.exists() or path.is_file() and path.stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
@@ -198,7 +199,8 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        path = pathlib.Path(out_path)
+        if discard_previous_data or not path.exists() or path.is_file() and path.stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
-- 
2.43.0


From 00461bca855105a7e6e2ebde3225f72a2d470732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:48 +0000
Subject: [PATCH 11/20] fix: do not run out of markers and colors when plotting
 many curves

---
 src/paper/main_render_detection_fraction_figure.py | 4 ++--
 src/paper/main_render_lambda_figure.py             | 4 ++--
 src/plotting.py                                    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/paper/main_render_detection_fraction_figure.py b/src/paper/main_render_detection_fraction_figure.py
index 949bcf3..553b5dd 100644
--- a/src/paper/main_render_detection_fraction_figure.py
+++ b/src/paper/main_render_detection_fraction_figure.py
@@ -50,8 +50,8 @@ def plot_detection_fraction(all_data: ProblemShotData) -> plt.Figure:
     nrows = 1
     gs = fig.add_gridspec(ncols=ncols + 1, nrows=nrows, hspace=0.05, wspace=0.1)
     axs = gs.subplots(sharex=True, sharey=True)
-    markers = "ov*sp^<>8P+xXDd|"
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    markers = "ov*sp^<>8P+xXDd|" * 100
+    colors = list(mcolors.TABLEAU_COLORS) * 160
     for col, style in enumerate(styles):
         ax: plt.Axes = axs[col]
         style_data = all_groups.get(style, ProblemShotData({})).grouped_by(lambda e: e.noise)
diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..2a2d799 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -125,8 +125,8 @@ def plot_lambda_line_fits_combo(all_data: ProblemShotData, focus: bool) -> Tuple
             axs[row][col].set_title(name)
 
             groups = LambdaGroup.groups_from_data(style_data)
-            markers = "ov*sp^<>8P+xXDd|"
-            colors = list(mcolors.TABLEAU_COLORS) * 3
+            markers = "ov*sp^<>8P+xXDd|" * 100
+            colors = list(mcolors.TABLEAU_COLORS) * 160
             lambda_xs = []
             lambda_ys = []
             for noise in sorted(groups.keys()):
diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..1b657fd 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 180
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0


From 37b98dd19c53531ef24a919cfb7131c71452f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:05 +0000
Subject: [PATCH 12/20] fix: graph export used a removed networkx function and
 an import that only worked from src

---
 src/paper/write_honeycomb_networkx_graph.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/paper/write_honeycomb_networkx_graph.py b/src/paper/write_honeycomb_networkx_graph.py
index ec657a1..a7d2ab3 100644
--- a/src/paper/write_honeycomb_networkx_graph.py
+++ b/src/paper/write_honeycomb_networkx_graph.py
@@ -1,10 +1,7 @@
 import pathlib
+import pickle
 import sys
 
-import networkx as nx
-
-from paper.main_collect_all import surface_code_circuit
-
 sys.path.append(str(pathlib.Path(__file__).resolve().parents[1]))  # Non-package import directory hack.
 
 from decoding import detector_error_model_to_nx_graph
@@ -22,7 +19,8 @@ def main():
         obs="H",
     ))
     g = detector_error_model_to_nx_graph(c.detector_error_model(decompose_errors=True))
-    nx.readwrite.gpickle.write_gpickle(g, path="test.graph")
+    with open("test.graph", "wb") as f:
+        pickle.dump(g, f, pickle.HIGHEST_PROTOCOL)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 5f806f5a1b2fad2a00c96b311c895c4de01679ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:57 +0000
Subject: [PATCH 13/20] fix: fits through a point or with a given slope stopped
 far from the optimum for large values

---
 src/probability_util.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 5d4ebc0..1aebe19 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -3,7 +3,6 @@ from typing import Union, Callable, Sequence, Tuple
 
 import numpy as np
 from scipy.stats import linregress
-from scipy.optimize import leastsq
 from scipy.stats._stats_mstats_common import LinregressResult
 
 
@@ -114,20 +113,14 @@ def least_squares_cost(*, xs: np.ndarray, ys: np.ndarray, intercept: float, slop
 def least_squares_through_point(*, xs: np.ndarray, ys: np.ndarray, required_x: float, required_y: float) -> LinregressResult:
     xs2 = xs - required_x
     ys2 = ys - required_y
-
-    def err(slope: float) -> float:
-        return least_squares_cost(xs=xs2, ys=ys2, intercept=0, slope=slope)
-
-    (best_slope,), _ = leastsq(func=err, x0=0.0)
+    denominator = np.sum(xs2 * xs2)
+    best_slope = np.sum(xs2 * ys2) / denominator if denominator else 0.0
     intercept = required_y - required_x * best_slope
     return LinregressResult(best_slope, intercept, None, None, None, intercept_stderr=False)
 
 
 def least_squares_with_slope(*, xs: np.ndarray, ys: np.ndarray, required_slope: float) -> LinregressResult:
-    def err(intercept: float) -> float:
-        return least_squares_cost(xs=xs, ys=ys, intercept=intercept, slope=required_slope)
-
-    (best_intercept,), _ = leastsq(func=err, x0=0.0)
+    best_intercept = np.mean(ys - required_slope * xs)
     return LinregressResult(required_slope, best_intercept, None, None, None, intercept_stderr=False)
 
 
-- 
2.43.0


From 69b3d602e04c25cf88cb98dc7699e27796a9b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:21 +0000
Subject: [PATCH 14/20] fix: refuse negative numbers of sub rounds instead of
 generating a bogus circuit

---
 src/honeycomb_circuit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/honeycomb_circuit.py b/src/honeycomb_circuit.py
index e05f6ff..a678b58 100644
--- a/src/honeycomb_circuit.py
+++ b/src/honeycomb_circuit.py
@@ -121,8 +121,8 @@ def fault_tolerant_measurement(lay: HoneycombLayout, mtrack: MeasurementTracker)
 def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     result = stim.Circuit()
-    if n == 0:
-        raise NotImplementedError("Zero rounds.")
+    if n <= 0:
+        raise NotImplementedError("Need at least one sub round.")
     elif n == 1:
         # For a single sub round there's no time to pipeline.
         result += _sub_round_resets(lay, 0)
@@ -186,8 +186,8 @@ def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
-        raise NotImplementedError("Zero rounds.")
+    if n <= 0:
+        raise NotImplementedError("Need at least one sub round.")
     k = 0
     while k < n + 2:
         circuit = stim.Circuit()
@@ -236,8 +236,8 @@ def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_em3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
-        raise NotImplementedError("Zero rounds.")
+    if n <= 0:
+        raise NotImplementedError("Need at least one sub round.")
 
     k = 0
     while k < n:
@@ -296,8 +296,8 @@ def generate_cycle_SI1000(subround: int, lay: HoneycombLayout, mtrack: Measureme
 
 def generate_rounds_SI1000(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
-    if n == 0:
-        raise NotImplementedError("Zero rounds.")
+    if n <= 0:
+        raise NotImplementedError("Need at least one sub round.")
     if n % 3 != 0:
         raise NotImplementedError(n)
 
-- 
2.43.0


From 66b5c2e73ca8041f099ac27b5515ebb60e92e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 15/20] fix: refuse empty and negative layout sizes

---
 src/honeycomb_layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index 4b2a5fd..3a76d3e 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -106,10 +106,10 @@ class HoneycombLayout:
     noise: float
 
     def __post_init__(self):
-        if self.data_width % 2 != 0:
-            raise NotImplementedError("need data_width % 2 == 0")
-        if self.data_height % 6 != 0:
-            raise NotImplementedError("need data_height % 6 == 0")
+        if self.data_width <= 0 or self.data_width % 2 != 0:
+            raise NotImplementedError("need data_width > 0 and data_width % 2 == 0")
+        if self.data_height <= 0 or self.data_height % 6 != 0:
+            raise NotImplementedError("need data_height > 0 and data_height % 6 == 0")
 
     @functools.cached_property
     def noise_model(self) -> NoiseModel:
-- 
2.43.0


From 4f26faddf30ac239304dc15511c6ef27ec057163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:28 +0000
Subject: [PATCH 16/20] fix: refuse references to future measurements instead
 of returning the oldest one

---
 src/measure_tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/measure_tracker.py b/src/measure_tracker.py
index 89cf959..03d104d 100644
--- a/src/measure_tracker.py
+++ b/src/measure_tracker.py
@@ -52,6 +52,7 @@ class MeasurementTracker:
                 t += k.offset
                 k = k.v
             h = self.history[k]
+            assert t > 0, f"Can't refer to a future measurement of {k!r}"
             assert t <= len(h), f"Didn't add a dummy or an obstacle for {k!r}"
             v = self.history[k][-t]
             if v is None:
-- 
2.43.0


From 153439fc8f870ccd590a53d8dad2608eb62c9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 17/20] fix: collecting with no minimum or no shots at all
 divided by zero

min_shots=0 and max_shots=0 made the first batch empty, which wrote a record
of zero shots and then failed with a ZeroDivisionError.
---
 src/collect_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 121c685..0255ad2 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -148,9 +148,9 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min(min_shots, max_batch, max_shots)
+        num_next_shots = min(max(min_shots, 1), max_batch, max_shots)
         total_shots = 0
-        while True:
+        while total_shots < max_shots:
             t0 = time.monotonic()
             num_correct = sample_decode_count_correct(
                 num_shots=num_next_shots,
-- 
2.43.0


From 827e55f15fe75a76b62bb2cb12e50049bccaf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 18/20] fix: rounds of described problems were inexact beyond
 2**53 sub rounds

as_decoder_problem_desc divided as floating point before rounding up.
---
 src/honeycomb_layout.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index 3a76d3e..9404743 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -2,7 +2,6 @@
 
 import functools
 import dataclasses
-import math
 from typing import List, Dict, Iterable, Tuple
 
 import stim
@@ -141,7 +140,7 @@ class HoneycombLayout:
         return DecodingProblemDesc(
             data_width=self.data_width,
             data_height=self.data_height,
-            rounds=int(math.ceil(self.sub_rounds / 3)),
+            rounds=-(-self.sub_rounds // 3),
             noise=self.noise,
             circuit_style=f"honeycomb_{self.style}",
             preserved_observable=self.obs,
-- 
2.43.0


From a4bd8e042af79933ed159a5ce9332d2604a2b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 19/20] fix: collectors creating the same output file at once
 could erase each other's records

The header was written by truncating the file after finding that it did not exist or was empty; by
then another collector could have created it and appended records. Without discard_previous_data the
file is now never truncated.
---
 src/collect_data.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 0255ad2..caeef3d 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -93,6 +93,21 @@ class DecodingProblem:
     circuit_maker: Callable[[], stim.Circuit]
 
 
+def _start_out_file(out_path: str, discard_previous_data: bool):
+    """Makes sure the output file exists and begins with the CSV header."""
+    if discard_previous_data:
+        with open(out_path, "w") as f:
+            print(CSV_HEADER, file=f)
+        return
+    # Never truncate here: other collectors may be creating, or already be appending to, the same file.
+    with open(out_path, "a"):
+        pass
+    path = pathlib.Path(out_path)
+    if path.is_file() and path.stat().st_size == 0:
+        with open(out_path, "r+") as f:
+            print(CSV_HEADER, file=f)
+
+
 def collect_simulated_experiment_data(problems: List[DecodingProblem],
                                       *,
                                       min_shots: int,
@@ -138,10 +153,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        path = pathlib.Path(out_path)
-        if discard_previous_data or not path.exists() or path.is_file() and path.stat().st_size == 0:
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _start_out_file(out_path, discard_previous_data)
 
     if max_batch is None:
         max_batch = max_shots
@@ -199,10 +211,7 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        path = pathlib.Path(out_path)
-        if discard_previous_data or not path.exists() or path.is_file() and path.stat().st_size == 0:
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _start_out_file(out_path, discard_previous_data)
 
     for problem in problems:
         t0 = time.monotonic()
-- 
2.43.0


From ccf9b775c396a8abf288818a05b85cb4adfe4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 20/20] fix: start a new line when appending to a data file
 whose last line is unterminated

---
 src/collect_data.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/collect_data.py b/src/collect_data.py
index caeef3d..b4918b5 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -106,6 +106,16 @@ def _start_out_file(out_path: str, discard_previous_data: bool):
     if path.is_file() and path.stat().st_size == 0:
         with open(out_path, "r+") as f:
             print(CSV_HEADER, file=f)
+    elif path.is_file() and not _ends_with_newline(path):
+        # Keep the next record from becoming part of an unterminated last line.
+        with open(out_path, "a") as f:
+            print(file=f)
+
+
+def _ends_with_newline(path: pathlib.Path) -> bool:
+    with open(path, "rb") as f:
+        f.seek(max(path.stat().st_size - 1, 0))
+        return f.read().endswith(b"\n")
 
 
 def collect_simulated_experiment_data(problems: List[DecodingProblem],
-- 
2.43.0

