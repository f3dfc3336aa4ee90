From 6e13e02191ff0539510e281b3ea7c23c8d0a8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 01/18] fix: results no longer depend on the faces of sequences
 tested earlier

infer_faces(), determine_rep() and FaceCounts cached by equality, so that
e.g. (True, False) was answered with the faces cached for (1, 0).
---
 src/coinflip/_randtests/common/core.py   | 2 --
 src/coinflip/_randtests/common/pprint.py | 2 --
 src/coinflip/_randtests/frequency.py     | 3 ---
 3 files changed, 7 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 8f985ac..4a41b97 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import lru_cache
 from functools import wraps
 from typing import Dict
 from typing import List
@@ -106,7 +105,6 @@ def randtest(min_n=2):
     return decorator
 
 
-@lru_cache()
 def infer_faces(unique_values: Tuple[Face, Face]) -> Tuple[Face, Face]:
     """Infers the `heads` and `tails` faces from a list of unique values
 
diff --git a/src/coinflip/_randtests/common/pprint.py b/src/coinflip/_randtests/common/pprint.py
index abbd1ca..2b15f05 100644
--- a/src/coinflip/_randtests/common/pprint.py
+++ b/src/coinflip/_randtests/common/pprint.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Iterable
 from typing import Tuple
 
@@ -21,7 +20,6 @@ def make_warning(msg: str) -> Table:
     return grid
 
 
-@lru_cache()
 def determine_rep(heads, tails) -> Tuple[str, str]:
     """Determine single-character representations of each binary value
 
diff --git a/src/coinflip/_randtests/frequency.py b/src/coinflip/_randtests/frequency.py
index 1a6c84e..5c1ed8d 100644
--- a/src/coinflip/_randtests/frequency.py
+++ b/src/coinflip/_randtests/frequency.py
@@ -1,6 +1,5 @@
 from collections import Counter
 from dataclasses import dataclass
-from functools import lru_cache
 from math import ceil
 from math import erfc
 from math import sqrt
@@ -38,12 +37,10 @@ class FaceCounts(NamedTuple):
     tails: FaceCount
 
     @property
-    @lru_cache()
     def max(self):
         return max(*self, key=attrgetter("count"))
 
     @property
-    @lru_cache()
     def min(self):
         return min(*self, key=attrgetter("count"))
 
-- 
2.43.0


From c7297ed661167afa0d0fef71097ae60afd67d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 02/18] fix: tests that oscillate or binarise the sequence
 handle booleans and categories

Series.map() with a dict keyed by numpy booleans yields NaN in pandas, and
keeps a categorical dtype that cannot be summed.
---
 src/coinflip/_randtests/complexity.py  | 3 ++-
 src/coinflip/_randtests/fourier.py     | 3 ++-
 src/coinflip/_randtests/matrix.py      | 3 ++-
 src/coinflip/_randtests/random_walk.py | 6 +++---
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index ccf4936..2828689 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -7,6 +7,7 @@ from typing import List
 from typing import Sequence
 
 import altair as alt
+import numpy as np
 import pandas as pd
 from scipy.stats import chisquare
 from typing_extensions import Literal
@@ -63,7 +64,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
         },
     )
 
-    binary = series.map({heads: 1, tails: 0})
+    binary = pd.Series(np.where(series == heads, 1, 0))
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/fourier.py b/src/coinflip/_randtests/fourier.py
index a187949..b90a67d 100644
--- a/src/coinflip/_randtests/fourier.py
+++ b/src/coinflip/_randtests/fourier.py
@@ -5,6 +5,7 @@ from math import sqrt
 from typing import List
 
 import altair as alt
+import numpy as np
 import pandas as pd
 from scipy.fft import fft
 
@@ -49,7 +50,7 @@ def spectral(series, heads, tails, ctx):
 
     advance_task(ctx)
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = pd.Series(np.where(series == heads, 1, -1))
     fourier = pd.Series(fft(oscillations))  # fft returns a ndarray
 
     advance_task(ctx)
diff --git a/src/coinflip/_randtests/matrix.py b/src/coinflip/_randtests/matrix.py
index e42c63a..2d86e9d 100644
--- a/src/coinflip/_randtests/matrix.py
+++ b/src/coinflip/_randtests/matrix.py
@@ -8,6 +8,7 @@ from typing import List
 from typing import Tuple
 
 import altair as alt
+import numpy as np
 import pandas as pd
 from scipy.stats import chisquare
 from typing_extensions import Literal
@@ -69,7 +70,7 @@ def binary_matrix_rank(
         full=0.2888 * nblocks,
     )
 
-    rankable_series = series.map({heads: 1, tails: 0})
+    rankable_series = pd.Series(np.where(series == heads, 1, 0))
 
     advance_task(ctx)
 
diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index c70ca96..d987ba2 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -35,7 +35,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
 
     failures = check_recommendations(ctx, {"n ≥ 100": n >= 100})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = pd.Series(np.where(series == heads, 1, -1))
     if reverse:
         oscillations = oscillations[::-1]
     cumulative_sums = oscillations.cumsum()
@@ -139,7 +139,7 @@ def random_excursions(series, heads, tails, ctx):
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = pd.Series(np.where(series == heads, 1, -1))
     cumulative_sums = oscillations.cumsum()
 
     advance_task(ctx)
@@ -246,7 +246,7 @@ def random_excursions_variant(series, heads, tails, ctx):
 
     failures = check_recommendations(ctx, {"n ≥ 1000000": n >= 1000000})
 
-    oscillations = series.map({heads: 1, tails: -1})
+    oscillations = pd.Series(np.where(series == heads, 1, -1))
     cumulative_sums = oscillations.cumsum()
 
     advance_task(ctx)
-- 
2.43.0


From cb8e7bdf62099a1240a1f43402bd308dd65ca7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 03/18] fix: tests are unaffected by the index of a passed
 Series

Blocks and windows are sliced by position, which pandas only does when the
index has no floats.
---
 src/coinflip/_randtests/common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index 4a41b97..bbf45d8 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -82,7 +82,7 @@ def randtest(min_n=2):
         @wraps(func)
         def wrapper(sequence, ctx: Progress = None, **kwargs):
             if isinstance(sequence, pd.Series):
-                series = sequence
+                series = sequence.reset_index(drop=True)  # we slice by position
             else:
                 series = pd.Series(sequence)
 
-- 
2.43.0


From 355a139234a7ce0e961245d8dc8cbf0cf8ad8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 04/18] fix: faces are the same objects that iterating the
 sequence gives

Series.unique() gives raw numpy values (e.g. datetime64) which do not always
match the boxed values found in windows, so templates were never matched.
---
 src/coinflip/_randtests/common/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index bbf45d8..c675f56 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -93,7 +93,7 @@ def randtest(min_n=2):
             if n < min_n:
                 raise MinimumInputError(n, min_n)
 
-            values = series.unique()
+            values = series.drop_duplicates()  # boxes values like series does
             heads, tails = infer_faces(tuple(values))
 
             result = func(series, heads, tails, ctx, **kwargs)
-- 
2.43.0


From 13459f9c93b3d3242220c468214ad5900caa63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 05/18] fix: sequences with missing values are not binary

nunique() ignores NaN, so a third (missing) value went unnoticed.
---
 src/coinflip/_randtests/common/core.py | 2 +-
 src/coinflip/cli/parsing.py            | 2 +-
 src/coinflip/cli/runner.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coinflip/_randtests/common/core.py b/src/coinflip/_randtests/common/core.py
index c675f56..3bea7cc 100644
--- a/src/coinflip/_randtests/common/core.py
+++ b/src/coinflip/_randtests/common/core.py
@@ -86,7 +86,7 @@ def randtest(min_n=2):
             else:
                 series = pd.Series(sequence)
 
-            if series.nunique() != 2:
+            if series.hasnans or series.nunique() != 2:
                 raise NonBinarySequenceError()
 
             n = len(series)
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 795297d..6e70cc9 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -57,7 +57,7 @@ def parse_text(data_file) -> pd.Series:
         raise MultipleColumnsError(ncols)
     series = df.iloc[:, 0]
 
-    if series.nunique() != 2:
+    if series.hasnans or series.nunique() != 2:
         raise NonBinarySequenceError()
 
     series = series.infer_objects()
diff --git a/src/coinflip/cli/runner.py b/src/coinflip/cli/runner.py
index 1850e7e..2adcfc8 100644
--- a/src/coinflip/cli/runner.py
+++ b/src/coinflip/cli/runner.py
@@ -80,7 +80,7 @@ def binary_check(func):
 
     @wraps(func)
     def wrapper(series, *args, **kwargs):
-        if series.nunique() != 2:
+        if series.hasnans or series.nunique() != 2:
             raise NonBinarySequenceError()
 
         return func(series, *args, **kwargs)
-- 
2.43.0


From a2f7cb352c5d19be73f48d00a7c5c55ee40bda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 06/18] fix: random excursions test no longer fails on every
 sequence

The rounded state probabilities did not sum to 1, so SciPy's chisquare()
raised a ValueError, which also crashed the run and example-run commands.
---
 src/coinflip/_randtests/random_walk.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index d987ba2..1ef1c69 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -119,15 +119,13 @@ class CusumTestResult(TestResult):
 states = [-4, -3, -2, -1, 1, 2, 3, 4]
 df = 5
 
-# TODO calculate these dynamically
+# See section 3.14, "Random Excursions Test", p. 83-85
+# Rounded probabilities would not sum to 1, which SciPy's chisquare() requires
 state_probabilities = {
-    1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
-    2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
-    3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
-    4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
-    5: [0.9000, 0.0100, 0.0090, 0.0081, 0.0073, 0.0656],
-    6: [0.9167, 0.0069, 0.0064, 0.0058, 0.0053, 0.0588],
-    7: [0.9286, 0.0051, 0.0047, 0.0044, 0.0041, 0.0531],
+    x: [1 - 1 / (2 * x)]
+    + [(1 - 1 / (2 * x)) ** (k - 1) / (4 * x ** 2) for k in range(1, df)]
+    + [(1 - 1 / (2 * x)) ** (df - 1) / (2 * x)]
+    for x in range(1, 8)
 }
 
 
-- 
2.43.0


From 9b09d4f2424de3b7079f1304e48b7fb65bfbe167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 07/18] fix: walks that end at zero do not have an extra cycle

Both random excursions tests counted an empty cycle after the last zero.
---
 src/coinflip/_randtests/random_walk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 1ef1c69..3bbada8 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -227,7 +227,8 @@ def ascycles(walk):
             cycle = [cusum]
         else:
             cycle.append(cusum)
-    yield cycle
+    if len(cycle) > 1:  # otherwise walk ended with a complete cycle
+        yield cycle
 
 
 # ------------------------------------------------------------------------------
@@ -256,6 +257,8 @@ def random_excursions_variant(series, heads, tails, ctx):
 
     state_counts = walk.value_counts()
     ncycles = state_counts.at[0]
+    if walk.iloc[-1] == 0:
+        ncycles -= 1  # walk ended with a complete cycle
 
     advance_task(ctx)
 
-- 
2.43.0


From 14919e9d43e1e547199bde8041fbff981fb2d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 08/18] fix: expected mean linear complexity of odd-sized
 blocks

---
 src/coinflip/_randtests/complexity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/complexity.py b/src/coinflip/_randtests/complexity.py
index 2828689..81a6fe9 100644
--- a/src/coinflip/_randtests/complexity.py
+++ b/src/coinflip/_randtests/complexity.py
@@ -70,7 +70,7 @@ def linear_complexity(series, heads, tails, ctx, blocksize=None):
 
     mean_expect = (
         blocksize / 2
-        + (9 + (-(1 ** (blocksize + 1)))) / 36
+        + (9 + (-1) ** (blocksize + 1)) / 36
         - (blocksize / 3 + 2 / 9) / 2 ** blocksize
     )
     expected_bincounts = [nblocks * prob for prob in probabilities]
-- 
2.43.0


From 289aa05ae96ce55daf7f1233fe5f33aefa3623e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 09/18] fix: serial and approximate entropy p-values are not
 NaN on rounding errors

---
 src/coinflip/_randtests/entropy.py | 3 ++-
 src/coinflip/_randtests/serial.py  | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/coinflip/_randtests/entropy.py b/src/coinflip/_randtests/entropy.py
index 1ad45e4..1ba1947 100644
--- a/src/coinflip/_randtests/entropy.py
+++ b/src/coinflip/_randtests/entropy.py
@@ -64,7 +64,8 @@ def approximate_entropy(series, heads, tails, ctx, blocksize=None):
         advance_task(ctx)
 
     approx_entropy = phis[blocksize] - phis[blocksize + 1]
-    chi2 = 2 * n * (log(2) - approx_entropy)
+    # rounding errors can otherwise go below 0, where gammaincc() is NaN
+    chi2 = max(2 * n * (log(2) - approx_entropy), 0)
     p = gammaincc(2 ** (blocksize - 1), chi2 / 2)
 
     advance_task(ctx)
diff --git a/src/coinflip/_randtests/serial.py b/src/coinflip/_randtests/serial.py
index 29b84d3..b4b25a2 100644
--- a/src/coinflip/_randtests/serial.py
+++ b/src/coinflip/_randtests/serial.py
@@ -63,13 +63,15 @@ def serial(series, heads, tails, ctx, blocksize=None):
 
     advance_task(ctx)
 
-    normsum_delta1 = normalised_sums[blocksize] - normalised_sums[blocksize - 1]
+    # rounding errors can otherwise go below 0, where gammaincc() is NaN
+    normsum_delta1 = max(normalised_sums[blocksize] - normalised_sums[blocksize - 1], 0)
     p1 = gammaincc(2 ** (blocksize - 2), normsum_delta1 / 2)
 
-    normsum_delta2 = (
+    normsum_delta2 = max(
         normalised_sums[blocksize]
         - 2 * normalised_sums[blocksize - 1]
-        + normalised_sums[blocksize - 2]
+        + normalised_sums[blocksize - 2],
+        0,
     )
     p2 = gammaincc(2 ** (blocksize - 3), normsum_delta2 / 2)
 
-- 
2.43.0


From 7aceaf27fae57adaf7d540c11648d4902a2a215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 10/18] fix: cusum p-value is within the unit interval

---
 src/coinflip/_randtests/random_walk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 3bbada8..18c1e0f 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -67,6 +67,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
             for k in np.arange(start2, stop, 1)
         )
     )
+    p = min(max(p, 0), 1)  # truncated series can slightly miss the unit interval
 
     advance_task(ctx)
 
-- 
2.43.0


From af05683bc9aea5a1356c55144bc46277c7ce3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 11/18] fix: template matching tests of tiny sequences do not
 have NaN p-values

The default blocksize was larger than the sequence, or smaller than the template.
---
 src/coinflip/_randtests/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 328bf0f..685fd99 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -53,7 +53,7 @@ def non_overlapping_template_matching(
     n = len(series)
 
     if not blocksize:
-        blocksize = max(ceil(0.01 * n), 6)
+        blocksize = min(max(ceil(0.01 * n), 6), n)
         if blocksize % 2 != 0:
             blocksize -= 1
     nblocks = n // blocksize
@@ -199,7 +199,7 @@ def overlapping_template_matching(
     df = matches_ceil  # there are matches_ceil + 1 independent scores
 
     if not blocksize:
-        blocksize = floor(sqrt(n))
+        blocksize = max(floor(sqrt(n)), 2)
     nblocks = n // blocksize
 
     if not template_size:
-- 
2.43.0


From 9871f951d828b67550bd36292787755c27210e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 12/18] fix: non-overlapping template matching scans every
 position of a block

---
 src/coinflip/_randtests/template.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/coinflip/_randtests/template.py b/src/coinflip/_randtests/template.py
index 685fd99..68a245b 100644
--- a/src/coinflip/_randtests/template.py
+++ b/src/coinflip/_randtests/template.py
@@ -28,7 +28,6 @@ from coinflip._randtests.common.result import make_chisquare_table
 from coinflip._randtests.common.result import make_testvars_table
 from coinflip._randtests.common.result import plot_chi2_dist
 from coinflip._randtests.common.testutils import blocks
-from coinflip._randtests.common.testutils import rawblocks
 from coinflip._randtests.common.testutils import slider
 from coinflip._randtests.common.typing import Face
 from coinflip._randtests.common.typing import Float
@@ -61,8 +60,8 @@ def non_overlapping_template_matching(
     if not template_size:
         template_size = max(min(blocksize // 3, 9), 2)
 
-    nblocks_sub = blocksize // template_size
-    set_task_total(ctx, 1 + nblocks * (nblocks_sub + 1) + 1)
+    nwindows = blocksize - template_size + 1
+    set_task_total(ctx, 1 + nblocks * (nwindows + 1) + 1)
 
     failures = check_recommendations(
         ctx,
@@ -85,9 +84,12 @@ def non_overlapping_template_matching(
     template_block_matches = defaultdict(lambda: defaultlist(int))
     for i, block in enumerate(blocks(series, blocksize)):
         matches = defaultdict(int)
+        next_pos = defaultdict(int)  # where matching resumes after a match
 
-        for window_tup in rawblocks(block, template_size):
-            matches[window_tup] += 1
+        for pos, window_tup in enumerate(slider(block, template_size)):
+            if pos >= next_pos[window_tup]:
+                matches[window_tup] += 1
+                next_pos[window_tup] = pos + template_size
 
             advance_task(ctx)
 
-- 
2.43.0


From 63f67119287e20a2a1ec80d63cb925ffce51d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 13/18] fix: sliding over every position of a long sequence
 takes seconds, not minutes

---
 src/coinflip/_randtests/common/testutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/testutils.py b/src/coinflip/_randtests/common/testutils.py
index 9ecfb16..fff7ee6 100644
--- a/src/coinflip/_randtests/common/testutils.py
+++ b/src/coinflip/_randtests/common/testutils.py
@@ -78,9 +78,10 @@ def rawblocks(*args, **kwargs) -> Iterator[Tuple[Any]]:
 
 def slider(series, window_size) -> Iterator[Tuple[Any]]:
     if window_size != 0:
-        boundary = len(series) - window_size + 1
+        elements = list(series)  # slicing a Series is too slow for every position
+        boundary = len(elements) - window_size + 1
         for pointer in range(0, boundary, 1):
-            window = series[pointer : pointer + window_size]
+            window = elements[pointer : pointer + window_size]
             window_tup = tuple(window)
 
             yield window_tup
-- 
2.43.0


From 0ff65b11d8f2e24d19a93cda345134e8b2d28cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 14/18] fix: defaultlist slices and insertions shift elements
 like a list's do

---
 src/coinflip/_randtests/common/collections.py | 86 +++++++------------
 1 file changed, 30 insertions(+), 56 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 18a8eba..135ddc1 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -5,7 +5,6 @@ from collections.abc import Mapping
 from collections.abc import MutableMapping
 from collections.abc import MutableSequence
 from functools import lru_cache
-from itertools import chain
 from numbers import Real
 from typing import Any
 from typing import Callable
@@ -168,38 +167,28 @@ class defaultlist(MutableSequence):
             nvalues = len(values)
 
             srange = self._determine_srange(key)
-            if srange:
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-            else:
-                srange_min = srange_max = srange.start
-
-            for i in srange:
-                try:
-                    del self._ddict[i]
-                except KeyError:
-                    pass
-
-            diff = nvalues - len(srange)
-            if diff:
-                keys = list(self._ddict.keys())
-
-                threshold = srange_min + nvalues
-                reindexed_subdict = {}
-
-                mid_keys = [k for k in keys if srange_min <= k < srange_max]
-                for i, k in enumerate(sorted(mid_keys), start=threshold):
-                    reindexed_subdict[i] = self._ddict[k]
+            if srange.step == 1:
+                del self[key]
 
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
+                start = srange.start
+                larger_keys = [k for k in self._ddict.keys() if k >= start]
+                reindexed_subdict = {k + nvalues: self._ddict[k] for k in larger_keys}
                 for k in larger_keys:
-                    i = k + diff
-                    reindexed_subdict[i] = self._ddict[k]
-
+                    del self._ddict[k]
                 self._ddict.update(reindexed_subdict)
 
-            for i, v in enumerate(values, start=srange_min):
-                self[i] = v
+                for i, v in enumerate(values, start=start):
+                    self[i] = v
+
+            else:
+                if nvalues != len(srange):
+                    raise ValueError(
+                        f"attempt to assign sequence of size {nvalues}"
+                        f" to extended slice of size {len(srange)}"
+                    )
+
+                for i, v in zip(srange, values):
+                    self[i] = v
 
         else:
             defaultlist._raise_type_error(type(key))
@@ -220,32 +209,15 @@ class defaultlist(MutableSequence):
 
         elif isinstance(key, slice):
             srange = self._determine_srange(key)
-            if srange:
-                for i in srange:
-                    try:
-                        del self._ddict[i]
-                    except KeyError:
-                        pass
-
-                srange_min = min(srange[0], srange[-1])
-                srange_max = max(srange[0], srange[-1])
-
-                reindexed_subdict = {}
+            removed_keys = sorted(srange)
 
-                mid_keys = [
-                    k for k in self._ddict.keys() if srange_min <= k < srange_max
-                ]
-                for i, k in enumerate(sorted(mid_keys), start=srange_min):
-                    reindexed_subdict[i] = self._ddict[k]
-
-                larger_keys = [k for k in self._ddict.keys() if k > srange_max]
-                for k in larger_keys:
-                    i = k - len(srange)
-                    reindexed_subdict[i] = self._ddict[k]
-
-                for k in chain(mid_keys, larger_keys):
-                    del self._ddict[k]
-                self._ddict.update(reindexed_subdict)
+            reindexed_dict = {
+                k - bisect_left(removed_keys, k): v
+                for k, v in self._ddict.items()
+                if k not in srange
+            }
+            self._ddict.clear()
+            self._ddict.update(reindexed_dict)
 
         else:
             defaultlist._raise_type_error(type(key))
@@ -266,12 +238,12 @@ class defaultlist(MutableSequence):
         step = slice_.step or 1
 
         if slice_.start is None:
-            start = 0 if step > 0 else len(self)
+            start = 0 if step > 0 else len(self) - 1
         else:
             start = self._actualise_index(slice_.start)
 
         if slice_.stop is None:
-            stop = len(self) if step > 0 else 0
+            stop = len(self) if step > 0 else -1
         else:
             stop = self._actualise_index(slice_.stop)
 
@@ -297,6 +269,8 @@ class defaultlist(MutableSequence):
 
     def insert(self, i: int, value: Any):
         """"""
+        i = self._actualise_index(i)
+
         larger_keys = [k for k in self._ddict.keys() if k >= i]
         reindexed_subdict = {k + 1: self._ddict[k] for k in larger_keys}
         for k in larger_keys:
-- 
2.43.0


From d0d440d96c2426dcd9a80cda5bc44cab23ea132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 15/18] fix: Bins of an iterator have its intervals

---
 src/coinflip/_randtests/common/collections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 135ddc1..5654ffb 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -55,6 +55,7 @@ class Bins(MutableMapping):
     """
 
     def __init__(self, intervals: Iterable[Real]):
+        intervals = tuple(intervals)  # an iterator could only be consumed once
         counts = Counter(intervals)
         if any(count > 1 for count in counts.values()):
             raise ValueError("Duplicate intervals for binning were passed")
-- 
2.43.0


From a5c0383ca0a9d3cf5949afeab4d8ebfcbffdc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 16/18] fix: empty FloorDict raises KeyError

---
 src/coinflip/_randtests/common/collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coinflip/_randtests/common/collections.py b/src/coinflip/_randtests/common/collections.py
index 5654ffb..64dec4d 100644
--- a/src/coinflip/_randtests/common/collections.py
+++ b/src/coinflip/_randtests/common/collections.py
@@ -319,8 +319,8 @@ class FloorDict(Mapping):
 
     def __getitem__(self, key):
         keys = iter(self._sdict.keys())
-        prevkey = next(keys)
-        if key < prevkey:
+        prevkey = next(keys, None)
+        if prevkey is None or key < prevkey:
             raise KeyError("Passed key smaller than all existing keys")
 
         for interval in keys:
-- 
2.43.0


From 9d843c0486cdf5be4346368c00a7634f8a1801ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 17/18] fix: data which is empty, ragged or constant is
 reported instead of crashing run

---
 src/coinflip/cli/commands.py | 14 +++++---------
 src/coinflip/cli/parsing.py  | 12 ++++++++++--
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/coinflip/cli/commands.py b/src/coinflip/cli/commands.py
index 012d3a9..0a4fe26 100644
--- a/src/coinflip/cli/commands.py
+++ b/src/coinflip/cli/commands.py
@@ -64,15 +64,11 @@ def run(data, out, binary):
     also be used to generate an informational web document via the report
     command.
     """
-    if not binary:
-        try:
-            series = parse_text(data)
-        except (DataParsingError, NonBinarySequenceError) as e:
-            print_error(e)
-            exit(1)
-
-    else:
-        series = parse_binary(data)
+    try:
+        series = parse_binary(data) if binary else parse_text(data)
+    except (DataParsingError, NonBinarySequenceError) as e:
+        print_error(e)
+        exit(1)
 
     print_series(series)
 
diff --git a/src/coinflip/cli/parsing.py b/src/coinflip/cli/parsing.py
index 6e70cc9..ccfd7ee 100644
--- a/src/coinflip/cli/parsing.py
+++ b/src/coinflip/cli/parsing.py
@@ -50,7 +50,12 @@ def parse_text(data_file) -> pd.Series:
     --------
     pandas.read_csv : The pandas method for reading ``data_file``
     """
-    df = pd.read_csv(data_file, header=None)
+    try:
+        df = pd.read_csv(data_file, header=None)
+    except pd.errors.EmptyDataError as e:
+        raise NonBinarySequenceError() from e
+    except pd.errors.ParserError as e:
+        raise DataParsingError(str(e)) from e
 
     ncols = len(df.columns)
     if ncols > 1:
@@ -75,6 +80,9 @@ def parse_binary(data_file) -> pd.Series:
 
             sequence += bits
 
-    series = pd.Series(sequence)
+    series = pd.Series(sequence, dtype=int)
+
+    if series.nunique() != 2:
+        raise NonBinarySequenceError()
 
     return series
-- 
2.43.0


From 2ed449c1d1e17f271e9138c9280956c42a4e1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 18/18] fix: cusum p-value is always a float

---
 src/coinflip/_randtests/random_walk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coinflip/_randtests/random_walk.py b/src/coinflip/_randtests/random_walk.py
index 18c1e0f..fc9e042 100644
--- a/src/coinflip/_randtests/random_walk.py
+++ b/src/coinflip/_randtests/random_walk.py
@@ -67,7 +67,7 @@ def cusum(series, heads, tails, ctx, reverse=False):
             for k in np.arange(start2, stop, 1)
         )
     )
-    p = min(max(p, 0), 1)  # truncated series can slightly miss the unit interval
+    p = min(max(p, 0.0), 1.0)  # truncated series can slightly miss the unit interval
 
     advance_task(ctx)
 
-- 
2.43.0

