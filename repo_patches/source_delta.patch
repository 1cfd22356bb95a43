From 27436c754d528fa3ea0c7ae676840cf84638845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 01/28] fix: normalise random excursions probabilities so their
 expected counts total the cycles

---
 src/coinflip/_randtests/random_walk.py | 4 +++-
 src/coinflip/randtests_refimpl.py      | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c70ca96..7eb0fcc 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -163,7 +163,9 @@ def random_excursions(series, heads, tails, ctx):
     results = {}
     for state in states:
         probabilities = state_probabilities[abs(state)]
-        expected_bincounts = [ncycles * prob for prob in probabilities]
+        # tabulated probabilities are rounded, so may not total exactly one
+        prob_total = sum(probabilities)
+        expected_bincounts = [ncycles * prob / prob_total for prob in probabilities]
 
         bincounts = state_count_bins[state].values()
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 17f2499..136f535 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -447,7 +447,8 @@ def random_excursions(sequence: List[Literal[0, 1]]):
     pvalues = []
     for state in states:
         probabilities = state_probabilities[abs(state)]
-        expected_bincounts = [ncycles * prob for prob in probabilities]
+        prob_total = sum(probabilities)
+        expected_bincounts = [ncycles * prob / prob_total for prob in probabilities]
 
         bincounts = state_count_bins[state].values()
 
-- 
2.43.0


From ec3d0a307f7e985d69cd09dddfe5278455d29b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 02/28] fix: alternate the sign in the expected linear
 complexity with the blocksize

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index ccf4936..646667d 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -69,7 +69,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
 
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 136f535..04f8cb1 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -342,7 +342,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     probabilities = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
-- 
2.43.0


From 2ef279d237ebe6f0b384a8dc97da3276b7b45e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 03/28] fix: refuse sequences with missing values as non-binary

---
 src/coinflip/_randtests/common/core.py | 2 +-
 src/coinflip/cli/parsing.py            | 2 +-
 src/coinflip/cli/runner.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 8f985ac..e8efb27 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -87,7 +87,7 @@ def randtest(min_n=2):
             else:
                 series = pd.Series(sequence)
 
-            if series.nunique() != 2:
+            if series.nunique() != 2 or series.hasnans:
                 raise NonBinarySequenceError()
 
             n = len(series)
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 795297d..518a352 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -57,7 +57,7 @@ def parse_text(data_file) -> pd.Series:
         raise MultipleColumnsError(ncols)
     series = df.iloc[:, 0]
 
-    if series.nunique() != 2:
+    if series.nunique() != 2 or series.hasnans:
         raise NonBinarySequenceError()
 
     series = series.infer_objects()
diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 1850e7e..287ce41 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -80,7 +80,7 @@ def binary_check(func):
 
     @wraps(func)
     def wrapper(series, *args, **kwargs):
-        if series.nunique() != 2:
+        if series.nunique() != 2 or series.hasnans:
             raise NonBinarySequenceError()
 
         return func(series, *args, **kwargs)
-- 
2.43.0


From d80a629ddfa157b786f78a80640c3a51b67d699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 04/28] fix: stop caching faces, whose equal keys mix up values
 such as 1 and True

---
 src/coinflip/_randtests/common/core.py   | 2 --
 src/coinflip/_randtests/common/pprint.py | 2 --
 src/coinflip/_randtests/frequency.py     | 3 ---
 3 files changed, 7 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index e8efb27..bdd5fa5 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import lru_cache
 from functools import wraps
 from typing import Dict
 from typing import List
@@ -106,7 +105,6 @@ def randtest(min_n=2):
     return decorator
 
 
-@lru_cache()
 def infer_faces(unique_values: Tuple[Face, Face]) -> Tuple[Face, Face]:
     """Infers the `heads` and `tails` faces from a list of unique values
 
diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index abbd1ca..2b15f05 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Iterable
 from typing import Tuple
 
@@ -21,7 +20,6 @@ def make_warning(msg: str) -> Table:
     return grid
 
 
-@lru_cache()
 def determine_rep(heads, tails) -> Tuple[str, str]:
     """Determine single-character representations of each binary value
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 1a6c84e..5c1ed8d 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -1,6 +1,5 @@
 from collections import Counter
 from dataclasses import dataclass
-from functools import lru_cache
 from math import ceil
 from math import erfc
 from math import sqrt
@@ -38,12 +37,10 @@ class FaceCounts(NamedTuple):
     tails: FaceCount
 
     @property
-    @lru_cache()
     def max(self):
         return max(*self, key=attrgetter("count"))
 
     @property
-    @lru_cache()
     def min(self):
         return min(*self, key=attrgetter("count"))
 
-- 
2.43.0


From 1b2082727714ac2c14ef5de18d9d6b256115ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 05/28] fix: test a Series by position, whatever its index

---
 src/coinflip/_randtests/common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index bdd5fa5..c3d2f2b 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -82,7 +82,7 @@ def randtest(min_n=2):
         @wraps(func)
         def wrapper(sequence, ctx: Progress = None, **kwargs):
             if isinstance(sequence, pd.Series):
-                series = sequence
+                series = sequence.reset_index(drop=True)
             else:
                 series = pd.Series(sequence)
 
-- 
2.43.0


From 302797e0c30111862b4f41630bed3b1f19225a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 06/28] fix: name the length the matrix rank recommendation
 actually asks for

---
 src/coinflip/_randtests/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index e42c63a..a329a40 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -55,7 +55,7 @@ def binary_matrix_rank(
     failures = check_recommendations(
         ctx,
         {
-            "n ≥ 128": n >= 152,  # nblocks=38, blocksize=4
+            "n ≥ 152": n >= 152,  # nblocks=38, blocksize=4
             "n ≥ 38 * blocksize": n >= 38 * blocksize,
         },
     )
-- 
2.43.0


From 9f3ee3dc247c487185f57963db38a586f653b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 07/28] fix: check the degrees of freedom in the overlapping
 template recommendation

---
 src/coinflip/_randtests/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 328bf0f..00cf0f0 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -229,7 +229,7 @@ def overlapping_template_matching(
             "min(expected_tallies) > df": min(expected_tallies) > df,
             "λ ≈ 2": isclose(lambda_, 2),
             "len(template) ≈ log2(nblocks)": isclose(template_size, log2(nblocks)),
-            "df ≈ 2 * λ": isclose(template_size, 2 * lambda_),
+            "df ≈ 2 * λ": isclose(df, 2 * lambda_),
         },
     )
 
-- 
2.43.0


From e8be6a64f5bfa05193a3c0369363129d566f8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 08/28] fix: state the universal test's recommendations as
 checked, and as NIST has them

---
 src/coinflip/_randtests/universal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index e767f78..fc286a7 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -109,10 +109,10 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
         {
             "n ≥ 387840": n >= 387840,
             "6 ≤ blocksize ≤ 16": 6 <= blocksize <= 16,
-            "init_nblocks ≈ 10 * 2 ** segment_nblocks": intclose(
-                init_nblocks, 10 * 2 ** segment_nblocks
+            "init_nblocks ≈ 10 * 2 ** blocksize": intclose(
+                init_nblocks, 10 * 2 ** blocksize
             ),
-            "segment_nblocks ≈ ⌈n / blocksize⌉ - init_nblocks": isclose(
+            "segment_nblocks ≈ ⌊n / blocksize⌋ - init_nblocks": isclose(
                 segment_nblocks, floor(n / blocksize) - init_nblocks
             ),
         },
-- 
2.43.0


From 5cec8b388561e1e0a62e13f67253158910fd9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 09/28] fix: keep the universal test parameter that was given
 when the other is omitted

---
 src/coinflip/_randtests/universal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index fc286a7..73c5271 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -88,13 +88,16 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
 
     n = len(series)
 
-    if not blocksize or not init_nblocks:
+    if not blocksize and not init_nblocks:
         try:
             blocksize, init_nblocks = n_defaults[n]
         except KeyError:
-            blocksize = min(max(ceil(log(n)), 2), 16)  # largest blocksize_dists key
-            nblocks = n // blocksize
-            init_nblocks = max(nblocks // 100, 1)
+            pass
+    if not blocksize:
+        blocksize = min(max(ceil(log(n)), 2), 16)  # largest blocksize_dists key
+    if not init_nblocks:
+        nblocks = n // blocksize
+        init_nblocks = max(nblocks // 100, 1)
 
     init_n = init_nblocks * blocksize
     init_series, segment_series = series[:init_n], series[init_n:]
-- 
2.43.0


From 197504a13da8a9ad8137acdcced2d8b5b6aeed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 10/28] fix: scan for non-overlapping templates at every
 position, not only multiples of their size

---
 src/coinflip/_randtests/template.py | 12 +++++++-----
 src/coinflip/randtests_refimpl.py   |  9 ++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 00cf0f0..d52fd64 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -28,7 +28,6 @@ from coinflip._randtests.common.result import make_chisquare_table
 from coinflip._randtests.common.result import make_testvars_table
 from coinflip._randtests.common.result import plot_chi2_dist
 from coinflip._randtests.common.testutils import blocks
-from coinflip._randtests.common.testutils import rawblocks
 from coinflip._randtests.common.testutils import slider
 from coinflip._randtests.common.typing import Face
 from coinflip._randtests.common.typing import Float
@@ -61,8 +60,8 @@ def non_overlapping_template_matching(
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
 
-    nblocks_sub = blocksize // template_size
-    set_task_total(ctx, 1 + nblocks * (nblocks_sub + 1) + 1)
+    nwindows = blocksize - template_size + 1
+    set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
 
     failures = check_recommendations(
         ctx,
@@ -85,9 +84,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(blocks(series, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)  # where a template can be matched again
 
-        for window_tup in rawblocks(block, template_size):
-            matches[window_tup] += 1
+        for pos, window_tup in enumerate(slider(block, template_size)):
+            if pos >= next_pos[window_tup]:
+                matches[window_tup] += 1
+                next_pos[window_tup] = pos + template_size
 
             advance_task(ctx)
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 04f8cb1..26de43b 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -195,11 +195,14 @@ def non_overlapping_template_matching(
     )
 
     template_block_matches = defaultdict(lambda: defaultlist(int))
-    for i, block in enumerate(chunked(sequence, blocksize)):
+    for i, block in enumerate(chunked(sequence[: nblocks * blocksize], blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)
 
-        for window in windowed(block, template_size):
-            matches[window] += 1
+        for pos, window in enumerate(windowed(block, template_size)):
+            if pos >= next_pos[window]:
+                matches[window] += 1
+                next_pos[window] = pos + template_size
 
         for template, matches in matches.items():
             template_block_matches[template][i] = matches
-- 
2.43.0


From b039f1aa3a5b24b6ec9ca70f023182d7adcae836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 11/28] fix: announce the number of steps the serial and
 excursions variant tests take

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 src/coinflip/_randtests/serial.py      | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 7eb0fcc..0d27303 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -244,7 +244,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 4)
+    set_task_total(ctx, 3 + len(variant_states))
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 29b84d3..ef8192c 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -29,7 +29,9 @@ def serial(series, heads, tails, ctx, blocksize=None):
     if not blocksize:
         blocksize = max(floor(log2(n)) - 2 - 1, 2)
 
-    set_task_total(ctx, (1 + n) * 3 + 2)
+    window_sizes = [blocksize, blocksize - 1, blocksize - 2]
+    nsizes = sum(1 for window_size in window_sizes if window_size > 0)
+    set_task_total(ctx, (1 + n) * nsizes + 2)
 
     failures = check_recommendations(
         ctx, {"blocksize < ⌊log2(n) - 2⌋": blocksize < floor(log2(n)) - 2}
@@ -37,7 +39,7 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     permutation_counts = {}
     normalised_sums = {}
-    for window_size in [blocksize, blocksize - 1, blocksize - 2]:
+    for window_size in window_sizes:
         if window_size > 0:
             head = series[: window_size - 1]
             ouroboros = pd.concat([series, head])
-- 
2.43.0


From 8e3d476a17482127471d54e16595e6f3efb742f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/28] fix: plot the chi-square distributions the p-values are
 taken from

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/_randtests/entropy.py    | 2 +-
 src/coinflip/_randtests/matrix.py     | 2 +-
 src/coinflip/_randtests/runs.py       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 646667d..caa4685 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -154,7 +154,7 @@ class LinearComplexityTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.variance_bins))
+        return plot_chi2_dist(self.statistic, len(self.variance_bins) - 1)
 
 
 def berlekamp_massey(sequence: Sequence[Literal[0, 1]]) -> int:
diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 1ad45e4..dae0319 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -125,4 +125,4 @@ class ApproximateEntropyTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, 2 ** (self.blocksize - 1))
+        return plot_chi2_dist(self.statistic, 2 ** self.blocksize)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index a329a40..7c81594 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -185,7 +185,7 @@ class BinaryMatrixRankTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)))
+        return plot_chi2_dist(self.statistic, len(fields(self.rankcounts)) - 1)
 
 
 def matrix_rank(matrix: Iterable[Iterable[Literal[0, 1]]]) -> Integer:
diff --git a/src/coinflip/_randtests/runs.py b/src/coinflip/_randtests/runs.py
index 47190cd..42272ec 100644
--- a/src/coinflip/_randtests/runs.py
+++ b/src/coinflip/_randtests/runs.py
@@ -255,7 +255,7 @@ class LongestRunsTestResult(TestResult):
         return chart
 
     def plot_refdist(self):
-        return plot_chi2_dist(self.statistic, len(self.maxlen_bins))
+        return plot_chi2_dist(self.statistic, len(self.maxlen_bins) - 1)
 
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 65e45a30aea049ebda4615177497b86e801b2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 13/28] fix: refuse sequences too short for one block instead
 of answering NaN

---
 src/coinflip/_randtests/common/core.py | 1 +
 src/coinflip/_randtests/complexity.py  | 2 ++
 src/coinflip/_randtests/entropy.py     | 2 ++
 src/coinflip/_randtests/frequency.py   | 2 ++
 src/coinflip/_randtests/matrix.py      | 2 ++
 src/coinflip/_randtests/serial.py      | 2 ++
 src/coinflip/_randtests/template.py    | 9 +++++++++
 src/coinflip/_randtests/universal.py   | 2 ++
 8 files changed, 22 insertions(+)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index c3d2f2b..263b6e9 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -15,6 +15,7 @@ from coinflip._randtests.common.exceptions import TestInputError
 from coinflip._randtests.common.typing import Face
 
 __all__ = [
+    "MinimumInputError",
     "randtest",
     "set_task_total",
     "advance_task",
diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index caa4685..b5db70b 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -51,6 +51,8 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
             blocksize = max(floor(sqrt(n)), 2)
 
     nblocks = n // blocksize
+    if nblocks < 1:
+        raise MinimumInputError(n, blocksize)
 
     set_task_total(ctx, nblocks + 3)
 
diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index dae0319..76dc1d7 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -29,6 +29,8 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
 
     if not blocksize:
         blocksize = max(floor(log2(n)) - 5 - 1, 2)
+    if n < blocksize:
+        raise MinimumInputError(n, blocksize)
 
     set_task_total(ctx, (n + 2) * 2 + 1)
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 5c1ed8d..53bc892 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -135,6 +135,8 @@ def frequency_within_block(series, heads, tails, ctx, blocksize=None):
                 blocksize = n // 50
 
     nblocks = n // blocksize
+    if nblocks < 1:
+        raise MinimumInputError(n, blocksize)
 
     set_task_total(ctx, nblocks + 3)
 
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index 7c81594..8264eec 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -49,6 +49,8 @@ def binary_matrix_rank(
 
     blocksize = nrows * ncols
     nblocks = n // blocksize
+    if nblocks < 1:
+        raise MinimumInputError(n, blocksize)
 
     set_task_total(ctx, nblocks + 3)
 
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index ef8192c..cf9fdd3 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -28,6 +28,8 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     if not blocksize:
         blocksize = max(floor(log2(n)) - 2 - 1, 2)
+    if n < blocksize:
+        raise MinimumInputError(n, blocksize)
 
     window_sizes = [blocksize, blocksize - 1, blocksize - 2]
     nsizes = sum(1 for window_size in window_sizes if window_size > 0)
diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index d52fd64..f035e06 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -20,6 +20,7 @@ from scipy.stats import chisquare
 
 from coinflip._randtests.common.collections import defaultlist
 from coinflip._randtests.common.core import *
+from coinflip._randtests.common.exceptions import TestInputError
 from coinflip._randtests.common.pprint import pretty_subseq
 from coinflip._randtests.common.result import MultiTestResult
 from coinflip._randtests.common.result import SubTestResult
@@ -56,9 +57,13 @@ def non_overlapping_template_matching(
         if blocksize % 2 != 0:
             blocksize -= 1
     nblocks = n // blocksize
+    if nblocks < 1:
+        raise MinimumInputError(n, blocksize)
 
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
+    if template_size > blocksize:
+        raise TestInputError("Templates do not fit within the blocks")
 
     nwindows = blocksize - template_size + 1
     set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
@@ -203,9 +208,13 @@ def overlapping_template_matching(
     if not blocksize:
         blocksize = floor(sqrt(n))
     nblocks = n // blocksize
+    if nblocks < 1:
+        raise MinimumInputError(n, blocksize)
 
     if not template_size:
         template_size = min(max(floor(sqrt(blocksize)), 2), 12)
+    if template_size > blocksize:
+        raise TestInputError("Templates do not fit within the blocks")
     template = [heads for _ in range(template_size)]
 
     lambda_ = (blocksize - template_size + 1) / 2 ** template_size
diff --git a/src/coinflip/_randtests/universal.py b/src/coinflip/_randtests/universal.py
index 73c5271..20f2ef2 100644
--- a/src/coinflip/_randtests/universal.py
+++ b/src/coinflip/_randtests/universal.py
@@ -102,6 +102,8 @@ def maurers_universal(series, heads, tails, ctx, blocksize=None, init_nblocks=No
     init_n = init_nblocks * blocksize
     init_series, segment_series = series[:init_n], series[init_n:]
     segment_nblocks = (n - init_n) // blocksize
+    if segment_nblocks < 1:
+        raise MinimumInputError(n, init_n + blocksize)
 
     mean_expect, variance = blocksize_dists[blocksize]
 
-- 
2.43.0


From 2a60e29e4002a6847b236b6963376ccdc0c3c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 14/28] fix: offer and run nothing but the randomness tests by
 name

---
 src/coinflip/cli/commands.py | 2 +-
 src/coinflip/cli/runner.py   | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 012d3a9..acc02cc 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -11,6 +11,7 @@ from click import option
 from rich.text import Text
 
 from coinflip import generators
+from coinflip._randtests import __all__ as randtest_names
 from coinflip._randtests.common.exceptions import NonBinarySequenceError
 from coinflip._randtests.common.exceptions import TestError
 from coinflip.cli import console
@@ -19,7 +20,6 @@ from coinflip.cli.parsing import *
 from coinflip.cli.pprint import *
 from coinflip.cli.report import *
 from coinflip.cli.runner import *
-from coinflip.randtests import __all__ as randtest_names
 
 __all__ = ["run", "example_run", "read", "report"]
 
diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 287ce41..0785b20 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -154,10 +154,9 @@ def run_test(series: pd.Series, randtest_name, **kwargs) -> TestResult:
     TestError
         Errors raised when running ``randtest_name``
     """
-    try:
-        func = getattr(_randtests, randtest_name)
-    except AttributeError as e:
-        raise TestNotFoundError() from e
+    if randtest_name not in _randtests.__all__:
+        raise TestNotFoundError()
+    func = getattr(_randtests, randtest_name)
 
     with Progress(*columns, console=console, transient=True) as progress:
         abbrv = f_randtest_abbreviations[randtest_name]
-- 
2.43.0


From 0102cbcb47a6eb4c3762f6adf1044fe03493c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 15/28] fix: end a run on unusable data with an error message,
 not a traceback

---
 src/coinflip/cli/commands.py | 17 ++++++++---------
 src/coinflip/cli/parsing.py  | 10 +++++++++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index acc02cc..402e62b 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -64,15 +64,11 @@ def run(data, out, binary):
     also be used to generate an informational web document via the report
     command.
     """
-    if not binary:
-        try:
-            series = parse_text(data)
-        except (DataParsingError, NonBinarySequenceError) as e:
-            print_error(e)
-            exit(1)
-
-    else:
-        series = parse_binary(data)
+    try:
+        series = parse_binary(data) if binary else parse_text(data)
+    except (DataParsingError, NonBinarySequenceError) as e:
+        print_error(e)
+        exit(1)
 
     print_series(series)
 
@@ -126,6 +122,9 @@ def example_run(example, length, test):
 
     series = pd.Series(next(generator) for _ in range(length))
     series = series.infer_objects()
+    if series.nunique() != 2:
+        print_error(NonBinarySequenceError())
+        exit(1)
     print_series(series)
     console.print()
 
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 518a352..423da15 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -41,6 +41,8 @@ def parse_text(data_file) -> pd.Series:
 
     Raises
     ------
+    DataParsingError
+        If the data cannot be parsed
     MultipleColumnsError
         If inputted data contains multiple values per line
     NonBinarySequenceError
@@ -50,7 +52,10 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    df = pd.read_csv(data_file, header=None)
+    try:
+        df = pd.read_csv(data_file, header=None)
+    except ValueError as e:  # includes the parser's errors and undecodable text
+        raise DataParsingError(str(e)) from e
 
     ncols = len(df.columns)
     if ncols > 1:
@@ -77,4 +82,7 @@ def parse_binary(data_file) -> pd.Series:
 
     series = pd.Series(sequence)
 
+    if series.nunique() != 2:
+        raise NonBinarySequenceError()
+
     return series
-- 
2.43.0


From 7e978970c4285c73aeb0db4903dc98f14b888ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 16/28] fix: close results files, and keep the old one when
 results cannot be pickled

---
 src/coinflip/cli/report.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index fa0d7ac..9e74d1e 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -23,11 +23,14 @@ class Report:
 def store_results(series: pd.Series, results: Dict[str, BaseTestResult], out: str):
     report = Report(series, results)
 
-    pickle.dump(report, open(out, "wb"))
+    data = pickle.dumps(report)  # before touching what out might already hold
+    with open(out, "wb") as f:
+        f.write(data)
 
 
 def load_results(results_path: Path) -> Report:
-    report = pickle.load(open(results_path, "rb"))
+    with open(results_path, "rb") as f:
+        report = pickle.load(f)
 
     return report
 
-- 
2.43.0


From 455f8a79577a6df96c918368589ad5928d4389b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 17/28] fix: escape data in reports, and render them before
 opening the file

---
 src/coinflip/cli/report.py                    | 6 +++---
 src/coinflip/templates/index.html             | 3 ++-
 src/coinflip/templates/randtests/monobit.html | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/coinflip/cli/report.py b/src/coinflip/cli/report.py
index 9e74d1e..b6568e0 100644
--- a/src/coinflip/cli/report.py
+++ b/src/coinflip/cli/report.py
@@ -36,7 +36,7 @@ def load_results(results_path: Path) -> Report:
 
 
 templates_loader = PackageLoader("coinflip")
-templates_env = Environment(loader=templates_loader)
+templates_env = Environment(loader=templates_loader, autoescape=True)
 
 
 def write_report_doc(report: Report, out: Path):
@@ -52,6 +52,6 @@ def write_report_doc(report: Report, out: Path):
         except TemplateNotFound:
             print_warning(f"{template_file} not found")
 
-    with open(out, "w") as f:
-        report_html = doc.render(result_markups=result_markups)
+    report_html = doc.render(result_markups=result_markups)
+    with open(out, "w", encoding="utf-8") as f:
         f.write(report_html)
diff --git a/src/coinflip/templates/index.html b/src/coinflip/templates/index.html
index d632bc8..718530a 100644
--- a/src/coinflip/templates/index.html
+++ b/src/coinflip/templates/index.html
@@ -1,6 +1,7 @@
 <!DOCTYPE html>
 <html>
     <head>
+        <meta charset="utf-8">
         <title>Report</title>
         <script src="https://cdn.jsdelivr.net/npm/vega@5"></script>
         <script src="https://cdn.jsdelivr.net/npm/vega-lite@4"></script>
@@ -10,7 +11,7 @@
         <h1>Report</h1>
         <p>TODO describe data</p>
         {% for markup in result_markups %}
-        {{ markup }}
+        {{ markup | safe }}
         {% endfor %}
     </body>
 </html>
diff --git a/src/coinflip/templates/randtests/monobit.html b/src/coinflip/templates/randtests/monobit.html
index 74e8050..f167f40 100644
--- a/src/coinflip/templates/randtests/monobit.html
+++ b/src/coinflip/templates/randtests/monobit.html
@@ -15,9 +15,9 @@
 <p>Finding the cumulative likelihood a true RNG would have such a difference or greater comes to a p-value of {{ result.p | round(3) }}. The lower the p-value, the less confident we can say that this data is random.</p>
 
 <script type="text/javascript">
- var counts = {{ result.plot_counts().to_json() }}
+ var counts = {{ result.plot_counts().to_dict() | tojson }}
  vegaEmbed("#viz-monobit-counts", counts);
 
- var refdist = {{ result.plot_refdist().to_json() }}
+ var refdist = {{ result.plot_refdist().to_dict() | tojson }}
  vegaEmbed("#viz-monobit-refdist", refdist);
 </script>
-- 
2.43.0


From 479923d5297b3bd185b9b7eef092dc9dd6cf29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 18/28] fix: announce the number of rows actually omitted from
 a long sequence

---
 src/coinflip/cli/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/pprint.py b/src/coinflip/cli/pprint.py
index ad733d0..16b83b0 100644
--- a/src/coinflip/cli/pprint.py
+++ b/src/coinflip/cli/pprint.py
@@ -114,7 +114,7 @@ def pretty_sequence(series, ncols) -> RenderGroup:
                 yield l_arrow + pretty_row(row) + r_arrow
                 yield border
 
-            omit_msg = f"..omitting {nrows - 10} rows.."
+            omit_msg = f"..omitting {nrows - 8} rows.."
             omit_gap = ncols // 2 - len(omit_msg) // 2
             omit_pad = "".join(" " for _ in range(omit_gap))
 
-- 
2.43.0


From 536569996971ea7debe97dc848baa52b587c9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 19/28] fix: have the reference implementations agree with the
 tests on blocks and template probabilities

---
 src/coinflip/randtests_refimpl.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 26de43b..7294a57 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import accumulate
 from itertools import product
 from math import erfc
+from math import exp
 from math import floor
 from math import log
 from math import log2
@@ -17,6 +18,7 @@ from more_itertools import split_at
 from more_itertools import windowed
 from scipy.fft import fft
 from scipy.special import gammaincc
+from scipy.special import hyp1f1
 from scipy.stats import chisquare
 from scipy.stats import norm
 from typing_extensions import Literal
@@ -64,7 +66,7 @@ def frequency_within_block(sequence: List[Literal[0, 1]], blocksize: int):
     nblocks = n // blocksize
 
     deviations = []
-    for block in chunked(sequence, blocksize):
+    for block in chunked(sequence[: nblocks * blocksize], blocksize):
         ones = sum(1 for bit in block if bit == 1)
         prop = ones / blocksize
         dev = prop - 1 / 2
@@ -230,7 +232,12 @@ def overlapping_template_matching(
     nblocks = n // blocksize
     trunc_sequence = sequence[: nblocks * blocksize]
 
-    probabilities = [0.367879, 0.183939, 0.137954, 0.099634, 0.069935, 0.140656]
+    eta = (blocksize - template_size + 1) / 2 ** template_size / 2
+    probabilities = [exp(-eta)]
+    for matches in range(1, 5):
+        prob = ((eta * exp(-2 * eta)) / 2 ** matches) * hyp1f1(matches + 1, 2, eta)
+        probabilities.append(prob)
+    probabilities.append(1 - sum(probabilities))
     expected_tallies = [prob * nblocks for prob in probabilities]
 
     block_matches = []
-- 
2.43.0


From f0733a04ea57b081ed7fbbb869f105405f5f70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 20/28] fix: show both faces in the monobit counts, equally
 common or looking like markup

---
 src/coinflip/_randtests/frequency.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 53bc892..18cb0e4 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -9,6 +9,7 @@ from typing import NamedTuple
 
 import altair as alt
 import pandas as pd
+from rich.text import Text
 from scipy.special import gammaincc
 
 from coinflip._randtests.common.core import *
@@ -42,7 +43,7 @@ class FaceCounts(NamedTuple):
 
     @property
     def min(self):
-        return min(*self, key=attrgetter("count"))
+        return min(*reversed(self), key=attrgetter("count"))  # not max, when equal
 
     @classmethod
     def from_series(cls, series, heads, tails):
@@ -82,8 +83,8 @@ class MonobitTestResult(TestResult):
         yield self._pretty_result("normalised diff")
 
         counts = make_testvars_table("value", "count")
-        counts.add_row(str(self.counts.max.value), str(self.counts.max.count))
-        counts.add_row(str(self.counts.min.value), str(self.counts.min.count))
+        counts.add_row(Text(str(self.counts.max.value)), str(self.counts.max.count))
+        counts.add_row(Text(str(self.counts.min.value)), str(self.counts.min.count))
         yield counts
 
     def plot_counts(self):
-- 
2.43.0


From 3ec67d96cd6f437c50958dad964490cdbd331857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 21/28] fix: have linear complexity answer for blocks of over
 1023 bits, within the recommended range

---
 src/coinflip/_randtests/complexity.py | 2 +-
 src/coinflip/randtests_refimpl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index b5db70b..903304f 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -72,7 +72,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
diff --git a/src/coinflip/randtests_refimpl.py b/src/coinflip/randtests_refimpl.py
index 7294a57..74d05d1 100644
--- a/src/coinflip/randtests_refimpl.py
+++ b/src/coinflip/randtests_refimpl.py
@@ -353,7 +353,7 @@ def linear_complexity(sequence: List[Literal[0, 1]], blocksize: int):
     mean_expect = (
         blocksize / 2
         + (9 + (-1) ** (blocksize + 1)) / 36
-        - (blocksize / 3 + 2 / 9) / 2 ** blocksize
+        - (blocksize / 3 + 2 / 9) * 2.0 ** -blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
 
-- 
2.43.0


From 29588cc055823c2f6a464bad5ac6fa0c312abe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 22/28] fix: count the excursions variant test's last step in
 its announced total

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 0d27303..54d6fe5 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -244,7 +244,7 @@ variant_states = [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]
 def random_excursions_variant(series, heads, tails, ctx):
     n = len(series)
 
-    set_task_total(ctx, 3 + len(variant_states))
+    set_task_total(ctx, 4 + len(variant_states))
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-- 
2.43.0


From 241240196deac1c4ca5fd3c11fcad9c12358f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:15 +0000
Subject: [PATCH 23/28] fix: Bins keeps its intervals when they come from an
 iterator

---
 src/coinflip/_randtests/common/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 18a8eba..e7b3cb5 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -60,7 +60,7 @@ class Bins(MutableMapping):
         if any(count > 1 for count in counts.values()):
             raise ValueError("Duplicate intervals for binning were passed")
 
-        empty_bins = {interval: 0 for interval in intervals}
+        empty_bins = {interval: 0 for interval in counts}
         self._sdict = SortedDict(empty_bins)
 
     @property
-- 
2.43.0


From c00c3df7a1068c20829ebbd236efe203bf17f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:22 +0000
Subject: [PATCH 24/28] fix: sequences are displayed on terminals of eight
 columns or fewer

---
 src/coinflip/cli/pprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/cli/pprint.py b/src/coinflip/cli/pprint.py
index 16b83b0..1dde6e1 100644
--- a/src/coinflip/cli/pprint.py
+++ b/src/coinflip/cli/pprint.py
@@ -70,7 +70,7 @@ def pretty_sequence(series, ncols) -> RenderGroup:
 
     gap = 2
 
-    outer_w = ncols - 2 * gap
+    outer_w = max(ncols - 2 * gap, 2 * gap + 1)
     inner_w = outer_w - 2 * gap
 
     pad = Text("".join(" " for _ in range(gap)))
-- 
2.43.0


From b54431a4212f620617c461d65b4a6feae9957915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:06 +0000
Subject: [PATCH 25/28] fix: defaultlist.insert at a negative index inserts
 counting from the end

---
 src/coinflip/_randtests/common/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index e7b3cb5..4bb63e5 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -297,6 +297,8 @@ class defaultlist(MutableSequence):
 
     def insert(self, i: int, value: Any):
         """"""
+        i = self._actualise_index(i)
+
         larger_keys = [k for k in self._ddict.keys() if k >= i]
         reindexed_subdict = {k + 1: self._ddict[k] for k in larger_keys}
         for k in larger_keys:
-- 
2.43.0


From e7c0bae5fa9fdc745a1c921db9ed9a3e1129ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:06 +0000
Subject: [PATCH 26/28] fix: defaultlist slices with a negative step and open
 bounds start at the last element

---
 src/coinflip/_randtests/common/collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 4bb63e5..03b1692 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -266,12 +266,12 @@ class defaultlist(MutableSequence):
         step = slice_.step or 1
 
         if slice_.start is None:
-            start = 0 if step > 0 else len(self)
+            start = 0 if step > 0 else len(self) - 1
         else:
             start = self._actualise_index(slice_.start)
 
         if slice_.stop is None:
-            stop = len(self) if step > 0 else 0
+            stop = len(self) if step > 0 else -1
         else:
             stop = self._actualise_index(slice_.stop)
 
-- 
2.43.0


From 0f6ca06f13995315b04efa5fb371ca3d04845317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:06 +0000
Subject: [PATCH 27/28] fix: defaultlist slice deletion keeps gaps and handles
 negative steps

---
 src/coinflip/_randtests/common/collections.py | 39 ++++++-------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 03b1692..2875f80 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -5,7 +5,6 @@ from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
 from functools import lru_cache
-from itertools import chain
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -219,33 +218,19 @@ class defaultlist(MutableSequence):
             self._ddict.update(reindexed_subdict)
 
         elif isinstance(key, slice):
-            srange = self._determine_srange(key)
-            if srange:
-                for i in srange:
-                    try:
-                        del self._ddict[i]
-                    except KeyError:
-                        pass
-
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-
-                reindexed_subdict = {}
-
-                mid_keys = [
-                    k for k in self._ddict.keys() if srange_min <= k < srange_max
-                ]
-                for i, k in enumerate(sorted(mid_keys), start=srange_min):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k - len(srange)
-                    reindexed_subdict[i] = self._ddict[k]
+            deleted_keys = sorted(self._determine_srange(key))
+            for i in deleted_keys:
+                try:
+                    del self._ddict[i]
+                except KeyError:
+                    pass
 
-                for k in chain(mid_keys, larger_keys):
-                    del self._ddict[k]
-                self._ddict.update(reindexed_subdict)
+            # each remaining element moves by the number of deletions before it
+            reindexed_subdict = {
+                k - bisect_left(deleted_keys, k): v for k, v in self._ddict.items()
+            }
+            self._ddict.clear()
+            self._ddict.update(reindexed_subdict)
 
         else:
             defaultlist._raise_type_error(type(key))
-- 
2.43.0


From 8636ee721846e30139cf117154752c599acd673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:06 +0000
Subject: [PATCH 28/28] fix: defaultlist slice assignment moves what follows
 the slice

---
 src/coinflip/_randtests/common/collections.py | 54 ++++++++-----------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 2875f80..7a91bef 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -164,41 +164,33 @@ class defaultlist(MutableSequence):
 
         elif isinstance(key, slice):
             values = list(value) if isinstance(value, Iterable) else [value]
-            nvalues = len(values)
 
             srange = self._determine_srange(key)
-            if srange:
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-            else:
-                srange_min = srange_max = srange.start
-
-            for i in srange:
-                try:
-                    del self._ddict[i]
-                except KeyError:
-                    pass
-
-            diff = nvalues - len(srange)
-            if diff:
-                keys = list(self._ddict.keys())
-
-                threshold = srange_min + nvalues
-                reindexed_subdict = {}
-
-                mid_keys = [k for k in keys if srange_min <= k < srange_max]
-                for i, k in enumerate(sorted(mid_keys), start=threshold):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k + diff
-                    reindexed_subdict[i] = self._ddict[k]
-
+            if srange.step == 1:
+                start, stop = srange.start, max(srange.start, srange.stop)
+                diff = len(values) - (stop - start)
+
+                # elements after the slice move by the difference in length
+                reindexed_subdict = {
+                    k if k < start else k + diff: v
+                    for k, v in self._ddict.items()
+                    if k < start or k >= stop
+                }
+                self._ddict.clear()
                 self._ddict.update(reindexed_subdict)
 
-            for i, v in enumerate(values, start=srange_min):
-                self[i] = v
+                for i, v in enumerate(values, start=start):
+                    self._ddict[i] = v
+
+            else:
+                if len(values) != len(srange):
+                    raise ValueError(
+                        f"cannot assign {len(values)} values "
+                        f"to an extended slice of size {len(srange)}"
+                    )
+
+                for i, v in zip(srange, values):
+                    self._ddict[i] = v
 
         else:
             defaultlist._raise_type_error(type(key))
-- 
2.43.0

