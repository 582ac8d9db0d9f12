From afb73d3d490f28fd34313f53766a2f49b87c4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 01/24] fix: express = n_pixels - 1 no longer breaks the
 first-transfer schedule

The condition for separating the first transfers was re-evaluated after
n_pixels had been decremented, so the two halves could disagree and the
column sums were wrong (IndexError when n_pixels - 1 == express).
---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..a625af0 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -522,7 +522,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfers = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfers:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -548,7 +551,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfers:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From cbd573131dbb4c66722264c6ee7a3034dd25c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 02/24] fix: exact express schedule offsets when they are a
 whole number of pixels

k * (n / express) can round to just below a whole number, which left a
~1e-15 multiplier in the matrix that was counted as an active transfer.
---
 arcticpy/roe.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a625af0..68c1112 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -543,7 +543,13 @@ class ROE(ROEAbstract):
         express_matrix[:] = np.arange(1, n_pixels + offset + 1)
         # Offset each row to account for the pixels that have already been read out
         for express_index in range(express):
-            express_matrix[express_index] -= express_index * max_multiplier
+            if self.express_matrix_dtype == int:
+                express_matrix[express_index] -= express_index * max_multiplier
+            else:
+                # Divide last, so that whole numbers of pixels are exact
+                express_matrix[express_index] -= (
+                    express_index * (n_pixels + offset) / express
+                )
         # Truncate all values to between 0 and max_multiplier
         express_matrix[express_matrix < 0] = 0
         express_matrix[express_matrix > max_multiplier] = max_multiplier
-- 
2.43.0


From 9eb7a91b603ab78e986d503cd8373c2e39deb44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 03/24] fix: import the modules used by charge injection with
 integer express

ROEChargeInjection(express_matrix_dtype=int) raised a NameError.
---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 68c1112..78aa958 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From d2a1f38332f0ae4bd8d91d65d9cec1e0a490e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 04/24] fix: a charge injection ROE can be reused for images of
 different sizes

The default number of transfers was stored in the object the first time
it was used, and then applied to every later image.
---
 arcticpy/roe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 78aa958..6875b48 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -700,25 +700,26 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From a16957ec5128f4eb9b8547ca9a4f1de53a086cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 05/24] fix: charge injection respects the spatial window

The express matrix covered every row up to the end of the window instead of
only those in it, so the clocking loop ran past the window (IndexError).
---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 6875b48..2d2bd2d 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -732,7 +732,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From 51993c569b673fd4b1dfcd4e6641d6d405b1fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 06/24] fix: trap states saved between express passes with an
 offset or window

If the next express pass also started at the first row (as it does for the
first `offset` passes, or with a window) the traps were saved after that row,
so the next pass met its own charge again. A window of a single pixel raised
an UnboundLocalError.
---
 arcticpy/roe.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 2d2bd2d..270d342 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -627,11 +627,12 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
-                for row_index in range(n_pixels - 1):
-                    if express_matrix[express_index + 1, row_index + 1] > 0:
-                        break
-
-                save_trap_states_matrix[express_index, row_index] = True
+                # Save just before the first transfer of the next express pass.
+                # If that is the very first row, then there is nothing before it
+                # and the next pass starts from the same state as this one did.
+                rows_next = np.nonzero(np.asarray(express_matrix[express_index + 1]) > 0)[0]
+                if len(rows_next) > 0 and rows_next[0] > 0:
+                    save_trap_states_matrix[express_index, rows_next[0] - 1] = True
 
         return save_trap_states_matrix
 
-- 
2.43.0


From 1d7b85fc0487c341fe35b522eeadd843757a3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 07/24] fix: integer express multipliers for trap pumping are
 never zero or negative

Each multiplier was rounded and the last one absorbed the difference, which
made it zero or negative for e.g. 10 pumps with express=6.
---
 arcticpy/roe.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 270d342..e14f961 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -873,11 +873,12 @@ class ROETrapPumping(ROEAbstract):
             express_multipliers = [self.n_pumps / express] * express
         n_express = len(express_multipliers)
 
-        # Make sure all values are integers, but still add up to the desired
-        # number of pumps
+        # Make sure all values are (positive) integers, but still add up to the
+        # desired number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            express_multipliers = list(
+                map(int, np.diff(np.round(np.cumsum([0] + express_multipliers))))
+            )
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From 399050a01660ec0bb9bc8ccdb068220c19e5868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 08/24] fix: charge that moves forwards from the first pixel
 stays in the image array

Without wraparound, row index -1 (trap pumping in pixel 0, or clocking without
force_release_away_from_readout) wrote before the start of the image's memory
instead of in the zero padding that is added for it.
---
 arcticpy/main_utils.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..bd17d7a 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -10,7 +10,6 @@ from arcticpy.trap_managers import AllTrapManager
 
 @cython.boundscheck(False)
 @cython.nonecheck(False)
-@cython.wraparound(False)
 def cy_clock_charge_in_one_direction(
     image_in,
     ccd,
-- 
2.43.0


From 3d850961db4273c35208a66b2b6e5f89b8eab8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 09/24] fix: a time window does not change when trap states are
 saved

With empty_traps_for_first_transfers=False the states to carry over were chosen
from the time-windowed multipliers, in which the next pass need not start where
it starts monitoring the traps, so the parts of a readout split by time did not
add up to the whole.
---
 arcticpy/main_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index bd17d7a..b6434f0 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -125,7 +125,7 @@ def cy_clock_charge_in_one_direction(
     # ; and whether the trap occupancy states must be saved for the next express
     # pass rather than being reset (usually at the end of each express pass)
     save_trap_states_matrix = roe.save_trap_states_matrix_from_express_matrix(
-        express_matrix=express_matrix
+        express_matrix=np.asarray(monitor_traps_matrix)
     )
 
     # Decide in advance which steps need to be evaluated and which can be skipped
-- 
2.43.0


From f90edfd4e68b532e792d103655e3f94ed7018018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 10/24] fix: slow traps never capture more electrons than there
 are

With a cloud below the watermarks the net capture was compared with the free
electrons plus those just released, which are also part of the net capture, so
more electrons than the cloud contained could be taken.
---
 arcticpy/trap_managers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..318a6b0 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -720,6 +720,7 @@ class TrapManager(object):
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
+        n_free_electrons_initial = n_free_electrons
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
         )
@@ -820,11 +821,12 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
+        # Not enough available electrons to capture (the initial ones, since the
+        # released electrons are already included in the net increase)
+        enough = max(n_free_electrons_initial, 0) / (
             n_trapped_electrons_final - n_trapped_electrons_initial
         )
-        if 0 < enough < 1:
+        if 0 <= enough < 1 and n_trapped_electrons_final > n_trapped_electrons_initial:
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From a722140bae231496ce58e3b37f359325fe5f3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 11/24] fix: capture that runs out of electrons does not mix
 the trap levels

The completely full levels were merged, averaging their initial states, before
checking that there were enough electrons to fill them. If not, then lower
levels lost electrons to the upper ones without any release (and elapsed times,
which cannot be averaged, lost the number of electrons too).
---
 arcticpy/trap_managers.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 318a6b0..1be4402 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -807,11 +807,6 @@ class TrapManager(object):
             + (1 - fill_fractions_old) * fill_probabilities_from_empty
         )
 
-        # Collapse any redundant watermarks that are completely full
-        self.watermarks, watermarks_initial = self.collapse_redundant_watermarks(
-            watermarks=self.watermarks, watermarks_copy=watermarks_initial
-        )
-
         # Final number of electrons in traps
         n_trapped_electrons_final = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -1114,11 +1109,6 @@ class TrapManagerInstantCapture(TrapManager):
             : watermark_index_above_cloud + 1, 1:
         ] = self.filled_watermark_value
 
-        # Collapse any redundant watermarks that are completely full
-        self.watermarks, watermarks_initial = self.collapse_redundant_watermarks(
-            watermarks=self.watermarks, watermarks_copy=watermarks_initial
-        )
-
         # Final number of electrons in traps
         n_trapped_electrons_final = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
-- 
2.43.0


From b406d77f3148a57720d43727e86327756f2dc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 12/24] fix: released electrons can lift a cloud above all the
 watermarks

The re-calculated cloud volume was assumed to still be below the highest
watermark, which otherwise left a level with a negative volume above it.
---
 arcticpy/trap_managers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 1be4402..9fb15ff 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -648,7 +648,19 @@ class TrapManager(object):
         )
 
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        if watermark_index_above_cloud > max_watermark_index:
+            # The cloud now reaches above all the existing watermarks
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+
+            # Increment the index now that an extra watermark has been set
+            max_watermark_index += 1
+
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From 43b1e05a5baf0a49423c549771d696a68a212e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 13/24] fix: watermarks with no volume do not affect later
 transfers

A cloud that does not rise above the notch, or that reaches a watermark to
within rounding error, makes a level with zero volume. That hid the levels above
it, and its fill fractions were inherited as if full by the next new level.
---
 arcticpy/trap_managers.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 9fb15ff..420250c 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -365,6 +365,25 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def remove_watermarks_with_no_volume(self):
+        """ Remove any watermarks that contain no traps.
+
+        i.e. those with a zero (or, from rounding errors, negative) fractional 
+        volume, which would otherwise hide the watermarks above them, or leave
+        their fill fractions to be inherited by the next watermark created.
+        
+        Updates
+        -------
+        watermarks : np.ndarray
+            The updated watermarks. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        has_volume = self.watermarks[:, 0] > 0
+        n_watermarks = np.count_nonzero(has_volume)
+
+        self.watermarks[:n_watermarks] = self.watermarks[has_volume]
+        self.watermarks[n_watermarks:] = 0
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -729,6 +748,8 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.remove_watermarks_with_no_volume()
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
@@ -906,6 +927,8 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.remove_watermarks_with_no_volume()
+
         # Initial watermarks and number of electrons in traps
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -1050,6 +1073,8 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.remove_watermarks_with_no_volume()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From ca2d33250719ff9ac8adbfa86d4aa3b39b41d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 14/24] fix: the watermark array grows if more transfers than
 expected are monitored

With empty_traps_between_columns=False the levels of all the columns so far can
be present at once, but the array was only sized for one column. When it was
full the highest level was overwritten and the electrons in it were lost.
---
 arcticpy/trap_managers.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 420250c..8206619 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -384,6 +384,25 @@ class TrapManager(object):
         self.watermarks[:n_watermarks] = self.watermarks[has_volume]
         self.watermarks[n_watermarks:] = 0
 
+    def make_space_for_new_watermarks(self):
+        """ Extend the watermark array if the next transfer could fill it.
+
+        More than the initial max_n_transfers can be needed if the traps are not 
+        emptied, e.g. between columns.
+        
+        Updates
+        -------
+        watermarks : np.ndarray
+            The updated watermarks. See 
+            initial_watermarks_from_n_pixels_and_total_traps().
+        """
+        n_watermarks = np.count_nonzero(self.watermarks[:, 0])
+
+        if n_watermarks + self.n_watermarks_per_transfer >= len(self.watermarks):
+            self.watermarks = np.concatenate(
+                (self.watermarks, np.zeros_like(self.watermarks)), axis=0
+            )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -749,6 +768,7 @@ class TrapManager(object):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         self.remove_watermarks_with_no_volume()
+        self.make_space_for_new_watermarks()
 
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
@@ -928,6 +948,7 @@ class TrapManagerInstantCapture(TrapManager):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         self.remove_watermarks_with_no_volume()
+        self.make_space_for_new_watermarks()
 
         # Initial watermarks and number of electrons in traps
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
@@ -1074,6 +1095,7 @@ class TrapManagerInstantCapture(TrapManager):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         self.remove_watermarks_with_no_volume()
+        self.make_space_for_new_watermarks()
 
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
-- 
2.43.0


From d91f7df6f0f8693ffcc5cf7667a0eb25c0640658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 15/24] fix: time-tracking traps that run out of electrons to
 capture

The elapsed times were read from (and written to) the wrong columns, the parent
method was called with too many arguments (TypeError), and a level that has
never been filled was indistinguishable from one that is full.
---
 arcticpy/trap_managers.py | 50 ++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 8206619..fa3e3cf 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -264,6 +264,11 @@ class TrapManager(object):
         """
         return 1
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level that has never captured. """
+        return 0
+
     @property
     def n_watermarks_per_transfer(self):
         """ Each transfer can create up to 2 new watermark levels (at the other 
@@ -989,6 +994,7 @@ class TrapManagerInstantCapture(TrapManager):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = self.filled_watermark_value
@@ -1159,6 +1165,9 @@ class TrapManagerInstantCapture(TrapManager):
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
+            watermarks_initial[
+                watermark_index_above_cloud, 1:
+            ] = self.empty_watermark_value
 
         # Continue with capture having prepared the new watermark at the cloud
         # and released from any watermarks above the cloud
@@ -1279,6 +1288,11 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         """ The value for a filled watermark level, here 0 is an elapsed time """
         return 0
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here an endless elapsed time """
+        return np.inf
+
     def watermarks_converted_to_fill_fractions_from_elapsed_times(self, watermarks):
         """ Convert the watermark values to fill fractions.
 
@@ -1363,34 +1377,26 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
-        # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
-
         # Update the fill fractions in the standard way
-        watermarks = super(
-            TrapManagerTrackTime, self
-        ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
-            watermarks_initial=watermarks_initial,
+        fill_fractions = super().updated_watermarks_from_capture_not_enough(
+            watermarks=self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+                watermarks
+            ),
+            watermarks_initial=self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+                watermarks_initial
+            ),
             enough=enough,
         )
 
-        # Convert back to elapsed times
+        # Convert back to elapsed times, where they have changed
         for level in range(np.argmax(watermarks[:, 0] == 0)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
+                if watermarks[level, 1 + i_trap] != watermarks_initial[level, 1 + i_trap]:
+                    watermarks[
+                        level, 1 + i_trap
+                    ] = trap.time_elapsed_from_fill_fraction(
+                        fill_fraction=fill_fractions[level, 1 + i_trap]
+                    )
 
         return watermarks
 
-- 
2.43.0


From e6a2ddf39bb1d43cf941d87bc286a332e6379ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 16/24] fix: elapsed time of a continuum of lifetimes for any
 fill fraction

fsolve from a fixed starting point did not converge (AssertionError) for a few
percent of ordinary fill fractions, e.g. median 1.5, sigma 2 and fill 0.98.
---
 arcticpy/traps.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..a8306d2 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -315,13 +315,24 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         time_elapsed : float
             The time elapsed, in the same units as the trap timescales.
         """
-        # Crudely iterate to find the time that gives the required fill fraction
+        # Iterate to find the time that gives the required fill fraction
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        if fill_fraction <= 0:
+            return np.inf
+        if find_time(0) <= 0:
+            return 0.0
+
+        # The fill fraction always decreases, so bracket then find the solution
+        time_elapsed_max = self.release_timescale_mu
+        while find_time(time_elapsed_max) > 0:
+            time_elapsed_max *= 2
+        time_elapsed = optimize.brentq(
+            find_time, 0, time_elapsed_max, xtol=1e-12 * self.release_timescale_mu
+        )
 
-        # Check solution (seems to be slightly unreliable for very small sigmas)
+        # Check solution
         assert abs(find_time(time_elapsed)) < 1e-7
 
         return time_elapsed
-- 
2.43.0


From 692957e7747b3dcfaa4951135c40e5c6746696fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 17/24] fix: a continuum of lifetimes that is narrow in the
 chosen units of time

The integrals over all lifetimes could miss the peak of the distribution, e.g.
with median 0.05 and sigma 0.05 the traps were empty as soon as they were
filled, although the same traps in other units were fine.
---
 arcticpy/traps.py | 73 ++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index a8306d2..0bde9fd 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -269,6 +269,37 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         self.release_timescale_mu = release_timescale_mu
         self.release_timescale_sigma = release_timescale_sigma
 
+    def _average_over_lifetimes(self, function):
+        """ Integrate a function over the distribution of release lifetimes.
+
+        Parameters
+        ----------
+        function : func
+            A function of the release_timescale.
+
+        Returns
+        -------
+        average : float
+            The average of the function for the traps.
+        """
+        mu = self.release_timescale_mu
+
+        # Use units of mu, so the results are independent of the units of time
+        def integrand(x):
+            return (
+                mu
+                * self.distribution_of_traps_with_lifetime(
+                    mu * x, mu, self.release_timescale_sigma
+                )
+                * function(mu * x)
+            )
+
+        # Split the integral at mu, so a narrow peak there cannot be missed
+        return (
+            integrate.quad(integrand, 0, 1)[0]
+            + integrate.quad(integrand, 1, np.inf)[0]
+        )
+
     def fill_fraction_from_time_elapsed(self, time_elapsed):
         """ Calculate the fraction of filled traps after a certain time_elapsed.
     
@@ -284,23 +315,9 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The fraction of filled traps.
         """
 
-        def integrand(release_timescale, time_elapsed, mu, sigma):
-            return self.distribution_of_traps_with_lifetime(
-                release_timescale, mu, sigma
-            ) * np.exp(-time_elapsed / release_timescale)
-
-        fill_fraction = integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-        return fill_fraction
+        return self._average_over_lifetimes(
+            lambda release_timescale: np.exp(-time_elapsed / release_timescale)
+        )
 
     def time_elapsed_from_fill_fraction(self, fill_fraction):
         """ Calculate the total time elapsed from the fraction of filled traps.
@@ -356,24 +373,10 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The number of released electrons.
         """
 
-        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
-            return (
-                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
-                * np.exp(-time_elapsed / release_timescale)
-                * (1 - np.exp(-dwell_time / release_timescale))
-            )
-
-        return integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                dwell_time,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
+        return self._average_over_lifetimes(
+            lambda release_timescale: np.exp(-time_elapsed / release_timescale)
+            * (1 - np.exp(-dwell_time / release_timescale))
+        )
 
 
 class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-- 
2.43.0


From 1d13568800399b18cd71e66ffd8e2bc0fd7b2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 18/24] fix: Poisson draws of trap densities keep the rest of
 the trap species

The capture timescale (and the type of the trap) was lost, so slow-capture or
continuum species silently became instant-capture ones.
---
 arcticpy/traps.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 0bde9fd..e7ec417 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -189,11 +189,9 @@ class Trap(object):
         poisson_trap = []
         for densities in poisson_densities:
             for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
+                poisson_trap_i = deepcopy(trap_i)
+                poisson_trap_i.density = float(densities[i])
+                poisson_trap.append(poisson_trap_i)
 
         return poisson_trap
 
-- 
2.43.0


From 72697f88cd7ded603797fca4444124814e8a7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 19/24] fix: remove_cti() accepts images of integers, as
 add_cti() does

---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index bfd1388..b7e206f 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -296,7 +296,7 @@ def remove_cti(
         )
 
         # Improved estimate of image with CTI trails removed
-        image_remove_cti += image - image_add_cti
+        image_remove_cti = image_remove_cti + image - image_add_cti
 
     # TODO : Implement as decorator
 
-- 
2.43.0


From bd827347c01916a1189ae0922f58dd9164679b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 20/24] fix: the default bloom level of each phase is its full
 well depth, not the list of all of them

---
 arcticpy/ccd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..64875d6 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -160,8 +160,9 @@ class CCD(object):
             self._well_bloom_level = value
         else:
             if value is None:
-                value = self.full_well_depth
-            self._well_bloom_level = [value] * self.n_phases
+                self._well_bloom_level = list(self.full_well_depth)
+            else:
+                self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
         self, n_electrons, phase=0, surface=False
-- 
2.43.0


From 1f713c5217d83b080cf40a167fd8c1fad043b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 21/24] fix: remove_cti() of 16-bit images overflowed

---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index b7e206f..85980d3 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -296,7 +296,7 @@ def remove_cti(
         )
 
         # Improved estimate of image with CTI trails removed
-        image_remove_cti = image_remove_cti + image - image_add_cti
+        image_remove_cti = image_remove_cti + (image - image_add_cti)
 
     # TODO : Implement as decorator
 
-- 
2.43.0


From 40c273828fe1c9252e5ae2bdd9f21fc018cd5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 22/24] fix: trap pumping of more than one pixel

---
 arcticpy/main_utils.pyx | 4 ++++
 arcticpy/roe.py         | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index b6434f0..e1a21ef 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -248,6 +248,10 @@ def cy_clock_charge_in_one_direction(
                 # Save the trap occupancy states for the next express pass
                 if save_trap_states_matrix[express_index, row_index]:
                     trap_managers.save()
+                elif isinstance(roe, ROETrapPumping):
+                    # Finished with this pixel, so the next one starts afresh
+                    trap_managers.empty_all_traps()
+                    trap_managers.save()
 
         # Reset the watermarks for the next column, effectively setting the trap
         # occupancies to zero
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e14f961..e73107a 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -903,8 +903,11 @@ class ROETrapPumping(ROEAbstract):
         Trap states must be saved after every pump sequence of the same trap
         until the final one.
         """
-        (n_express, n_pixels) = express_matrix.shape
-        save_trap_states_matrix = np.zeros((n_express, n_pixels), dtype=bool)
+        (n_rows, n_pixels) = express_matrix.shape
+        save_trap_states_matrix = np.zeros((n_rows, n_pixels), dtype=bool)
+
+        # Each pixel has its own set of express passes
+        n_express = n_rows // n_pixels
 
         for j in range(n_pixels):
             for i in range(n_express):
-- 
2.43.0


From 973467f78a371a7845782f89ac4ab93f74cc9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 23/24] fix: fraction of the surface reached by a cloud of
 electrons

---
 arcticpy/ccd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 64875d6..c6e2061 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -250,8 +250,11 @@ class CCD(object):
                 return 0
 
             if surface:
-                empty = self.blooming_level[phase]
+                empty = self.well_bloom_level[phase]
                 beta = 1
+                # No blooming is possible (the default)
+                if empty >= self.full_well_depth[phase]:
+                    return 0
             else:
                 empty = self.well_notch_depth[phase]
                 beta = self.well_fill_power[phase]
-- 
2.43.0


From 2ebefb904b36884cb498958760002ecb7d710487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 24/24] fix: refusal of the wrong number of trap densities

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index fa3e3cf..9d0051e 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -295,7 +295,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0

