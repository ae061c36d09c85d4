From d01104ec36e5c69fd6cf623ea8e3258e07769b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 01/22] fix: native terrain fill must sweep the last row and
 column too

The compiled sweeps treated torow/tocol as exclusive while the Python sweeps treat
them as inclusive. A pass which left all but its last row and column unchanged ended
the iteration, so the result was not always depressionless, and rasters with
exactly three rows or columns were rejected.
---
 malstroem/algorithms/speedups/_fill.pyx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..c790c86 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,23 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
+    # torow and tocol are inclusive (as in the pure Python version)
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
+
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +74,23 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
+    # torow and tocol are inclusive (as in the pure Python version)
+    cdef unsigned int endrow = <unsigned int>(torow + rowstep)
+    cdef unsigned int endcol = <unsigned int>(tocol + colstep)
+
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != endrow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != endcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From 0de790dd6d7feac0acd67890446ed29280a09003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 02/22] fix: filling a raster with a single row or column must
 not fail

Such a raster consists of edge cells only. The sweeps addressed row (or column) 1
and -1 and raised IndexError (Python) or OverflowError (native).
---
 malstroem/algorithms/fill.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malstroem/algorithms/fill.py b/malstroem/algorithms/fill.py
index 2002ce4..5b77d67 100644
--- a/malstroem/algorithms/fill.py
+++ b/malstroem/algorithms/fill.py
@@ -132,6 +132,9 @@ def fill_terrain(dtm):
 
     """
     filled = _initialize_filled(dtm, DTYPE_FILL)
+    if min(dtm.shape) < 3:
+        # Edge cells only. Nothing to fill
+        return filled
 
     keep_going = True
     iteration = 1
@@ -193,6 +196,9 @@ def fill_terrain_no_flats(dtm, short=0, diag=0):
 
     """
     filled = _initialize_filled(dtm, DTYPE_FILLNOFLAT)
+    if min(dtm.shape) < 3:
+        # Edge cells only. Nothing to fill
+        return filled
 
     keep_going = True
     iteration = 1
-- 
2.43.0


From 67dcb03db38b0aca72f6fc0229399fbf2a2d0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 03/22] fix: native flow directions must break ties like the
 Python version

Multiplying by a rounded 1/sqrt(2) and dividing by sqrt(2) round differently, so on
filled flats (where slopes are equal by construction) the two implementations picked
different flow directions for the same terrain.
---
 malstroem/algorithms/speedups/_flow.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..b9c2321 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -91,7 +91,6 @@ AGNPS_UPLEFT_DELTA.r = -1
 AGNPS_UPLEFT_DELTA.c = -1
 
 cdef DTYPE_t_FILLNOFLAT SQRT2 = 2**0.5
-cdef DTYPE_t_FILLNOFLAT INV_SQRT2 = 1 / SQRT2
 
 # See http://sourceforge.net/p/saga-gis/code-0/HEAD/tree/tags/release-2-0-1/saga_2/src/modules_terrain_analysis/terrain_analysis/ta_channels/D8_Flow_Analysis.cpp#l166
 # and http://www.saga-gis.org/saga_api_doc/html/grid__operation_8cpp_source.html#l01060
@@ -137,7 +136,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_UP
             # UpRight
-            dz = (z - terrain[up, right]) * INV_SQRT2
+            dz = (z - terrain[up, right]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_UPRIGHT
@@ -147,7 +146,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_RIGHT
             # DownRight
-            dz = (z - terrain[down, right]) * INV_SQRT2
+            dz = (z - terrain[down, right]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_DOWNRIGHT
@@ -157,7 +156,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_DOWN
             # DownLeft
-            dz = (z - terrain[down, left]) * INV_SQRT2
+            dz = (z - terrain[down, left]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_DOWNLEFT
@@ -167,7 +166,7 @@ def terrain_flow(DTYPE_t_FILLNOFLAT[:,:] terrain):
                 dzmax = dz
                 i = AGNPS_LEFT
             # UpLeft
-            dz = (z - terrain[up, left]) * INV_SQRT2
+            dz = (z - terrain[up, left]) / SQRT2
             if dz > dzmax:
                 dzmax = dz
                 i = AGNPS_UPLEFT
-- 
2.43.0


From 863651fc52837c9a8130354ce4411ab0c6b8d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 04/22] fix: accumulated flow must stop at cells without flow
 direction

The Python version raised TypeError at NODIR cells and the native version continued
in an uninitialised direction.
---
 malstroem/algorithms/flow.py            | 3 +++
 malstroem/algorithms/speedups/_flow.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..ce98d1b 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,9 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            # Water does not leave this cell
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index b9c2321..b94c356 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -243,6 +243,9 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction == AGNPS_NODIR:
+            # Water does not leave this cell
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From 4a205c3557042d87963ff76e80cf28914bd2fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 05/22] fix: substitute nodata also when the nodata value is 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From b28d276b1c76b8d58aa7da712320b450313dbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 06/22] fix: BluespotTool must work without a filter function

labeled, nlabels and bluespot_stats were only assigned when filtering.
---
 malstroem/bluespots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..d45455f 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,8 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels, bluespot_stats = raw_labeled, raw_nlabels, raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 904946f1ffc3182e982d2740e4ef08a4475ca151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 07/22] fix: hypsometric histogram must cover all cells of the
 bluespot

int() rounds towards zero, so for negative elevations the lower bound was above zmin
and cells were silently dropped from the histogram. The same happened when rounding
put min_scaled * resolution just above zmin (eg. zmin=0.3, resolution=0.1).
---
 malstroem/hyps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..624dd8c 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -88,11 +88,18 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    # Round down (int() rounds negative values up)
+    min_scaled = int(np.floor(zmin * scale))
+    max_scaled = int(np.floor(zmax * scale))
+    # Rounding errors must not leave zmin or zmax outside the bounds
+    if min_scaled * resolution > zmin:
+        min_scaled -= 1
     num_bins = max_scaled - min_scaled + 1
     lower_bound = min_scaled * resolution
     upper_bound = lower_bound + num_bins * resolution
+    if upper_bound < zmax:
+        num_bins += 1
+        upper_bound = lower_bound + num_bins * resolution
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
 
-- 
2.43.0


From 969f30c0bb8d632a567ef9ea257a8f8c5dd453ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 08/22] fix: nodata substitute must not wrap around in unsigned
 rasters

Substituting nodata with -999 in a uint8 raster gave 25.
---
 malstroem/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..2e25e29 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -77,6 +77,8 @@ class RasterReader(object):
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            # The data type must be able to represent the substitute (eg. -999 does not fit in uint8)
+            data = data.astype(np.promote_types(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
             data[mask] = self.nodatasubst
         return data
 
-- 
2.43.0


From a9cb8eada0e27348074cca86aa2bfe19829110d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 09/22] fix: initvolumes must accept -mm 0

---
 malstroem/scripts/initvolume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index 99b2134..e909007 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -58,9 +58,9 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     For documentation of OGR features (format, dsco and lco) see http://www.gdal.org/ogr_formats.html
     """
     # Validate one and only one
-    if mm and pr:
+    if mm is not None and pr:
         raise click.UsageError("-mm and -pr are mutually exclusive")
-    if not mm and not pr:
+    if mm is None and not pr:
         raise click.UsageError("One of -mm and -pr must be specified")
 
     nodes_layer = nodes_layer
@@ -71,7 +71,7 @@ def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_lay
     nodes_reader = io.VectorReader(nodes, nodes_layer)
     volumes_writer = io.VectorWriter(format, out, out_layer, None, ogr.wkbPoint, nodes_reader.crs, dsco, lco) 
 
-    if mm:
+    if mm is not None:
         logger.info(f"Processing initial volumes using evenly distributed rain event of {mm}mm")
         rain_tool = raintool.SimpleVolumeTool(nodes_reader, volumes_writer, out_attribute, mm)
         rain_tool.process()
-- 
2.43.0


From 53bf2eedbf923adf881285eeeff3139bd6dc04cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 10/22] fix: VectorWriter must be able to write an empty layer

CommitTransaction failed when no feature had been written, eg. when vectorizing
a raster without bluespots.
---
 malstroem/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 2e25e29..3ff7fba 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -345,7 +345,9 @@ class VectorWriter(object):
             raise Exception('Error while writing to layer {}'.format(self.layername))
 
     def close(self):
-        self._lyr.CommitTransaction()
+        if self.fieldsinitialized:
+            # The transaction is started with the first feature
+            self._lyr.CommitTransaction()
         self._lyr = None
         self._ds = None
 
-- 
2.43.0


From 8cc095737c2f60721f4bc742b316d1840f1e4332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 11/22] fix: native label_data must honour the background
 argument

---
 malstroem/algorithms/speedups/_label.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..1cf3dd4 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -193,12 +193,13 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -215,12 +216,13 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -236,12 +238,13 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
     
+    background_lbl = background
     # Collect data per label
     for r in range(0, data.shape[0]):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From cf9a13af0cc9f7f21301200b0bc25175d6033788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 12/22] fix: accept DEMs which are not float32 throughout

DemTool converts its input, but the filled, depths, flowdir and pourpts commands and
BluespotTool did not: with speedups these failed on any float64 or integer DEM (so did
complete without -accum).
---
 malstroem/bluespots.py        |  4 ++--
 malstroem/scripts/bluespot.py |  4 ++--
 malstroem/scripts/dem.py      | 10 ++++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index d45455f..20bd359 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -15,7 +15,7 @@ from __future__ import (absolute_import, division, print_function) #, unicode_li
 from builtins import *
 
 from .vector import transform_cell_to_world, vectorize_labels_file
-from .algorithms import label, flow, fill, speedups
+from .algorithms import label, flow, fill, speedups, dtypes
 import numpy as np
 import logging
 
@@ -203,7 +203,7 @@ class BluespotTool(object):
             del accum
         elif self.input_dem:
             self.logger.info("Calculating pour points at min filled")
-            dem = self.input_dem.read()
+            dem = self.input_dem.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
             short, diag = fill.minimum_safe_short_and_diag(dem)
             filled_no_flats = fill.fill_terrain_no_flats(dem, short, diag)
             pp_pix = label.label_min_index(filled_no_flats, labeled, nlabels)
diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..6c48132 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -25,7 +25,7 @@ from malstroem import io
 from malstroem.bluespots import filterbluespots, assemble_pourpoints
 from malstroem.vector import vectorize_labels_file_io
 from ._utils import parse_filter
-from malstroem.algorithms import label, flow, fill
+from malstroem.algorithms import label, flow, fill, dtypes
 from osgeo import ogr
 
 @click.command('bspots')
@@ -131,7 +131,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     if accum:
         pp_pix = label.label_max_index(data_reader.read(), labeled_data)
     elif dem:
-        dem_data = data_reader.read()
+        dem_data = data_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
         short, diag = fill.minimum_safe_short_and_diag(dem_data)
         filled_no_flats = fill.fill_terrain_no_flats(dem_data, short, diag)
         pp_pix = label.label_min_index(filled_no_flats, labeled_data)
diff --git a/malstroem/scripts/dem.py b/malstroem/scripts/dem.py
index c186b2e..529faa7 100644
--- a/malstroem/scripts/dem.py
+++ b/malstroem/scripts/dem.py
@@ -18,7 +18,7 @@ import click
 import click_log
 
 from malstroem import io
-from malstroem.algorithms import fill, flow
+from malstroem.algorithms import fill, flow, dtypes
 
 NODATASUBST = -999
 
@@ -32,7 +32,8 @@ def process_filled(dem, out):
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
     filled_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    filled_data = fill.fill_terrain(dem_reader.read())
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
+    filled_data = fill.fill_terrain(dem_data)
     filled_writer.write(filled_data)
 
 @click.command('depths')
@@ -49,7 +50,8 @@ def process_depths(dem, filled, out):
     filled_reader = io.RasterReader(filled, nodatasubst=NODATASUBST)
     depths_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    depths_data = filled_reader.read() - dem_reader.read()
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
+    depths_data = filled_reader.read() - dem_data
 
     depths_writer.write(depths_data)
 
@@ -78,7 +80,7 @@ def process_flowdir(dem, out):
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
     flowdir_writer = io.RasterWriter(out, dem_reader.transform, dem_reader.crs, NODATASUBST)
 
-    dem_data = dem_reader.read()
+    dem_data = dem_reader.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
     short, diag = fill.minimum_safe_short_and_diag(dem_data)
     filled_no_flats = fill.fill_terrain_no_flats(dem_data, short=short, diag=diag)
     del dem_data
-- 
2.43.0


From 4c33df143f40f2125aa0242363e156f250668fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 13/22] fix: pourpts must substitute nodata in the DEM

All other commands (and complete) substitute nodata values in the DEM. pourpts used
them as elevations, so pour points were wrong or missing (eg. NaN nodata).
---
 malstroem/scripts/bluespot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 6c48132..6f22ac7 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill, dtypes
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,7 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    data_reader = io.RasterReader(data, nodatasubst=None if accum else NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From dcb54a560c7a39f966fba65f84984fdb1d97260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 14/22] fix: water levels must be interpolated towards the
 spill level

A full bluespot has its water level at zmin + max depth. The histogram curve paired the
full volume with zmax (the highest terrain cell), so partially filled bluespots got too
low levels (zmin for bluespots where all cells share the same elevation) regardless of
the histogram resolution, and the level jumped when the bluespot became full.
---
 malstroem/approx.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..f0ff9f5 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -48,7 +48,6 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
         h = parse_hyps_feature(hyps_index[bsid])
 
         zmin = h["hyps"].zmin
-        zmax = h["hyps"].zmax
         max_vol = h["max_vol"]
         water_level = None
         if max_vol == 0 or final_vol / max_vol > 0.9999:
@@ -60,9 +59,9 @@ def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
             cum_vol = _cumulative_volume(h["hyps"].zhistogram, h["cell_area"])
             # Z value of centre of each histogram bin
             binsz = _bin_waterlevel_z(h["hyps"].zhistogram.bins)
-            # Replace bounds with acutal values. Zero volume at zmin and max_volume at zmax
+            # Replace bounds with acutal values. Zero volume at zmin and max_volume at the maximum water level
             volumes = np.concatenate(([0.0], cum_vol[1:-1], [max_vol]))
-            z = np.concatenate(([zmin], binsz[1:-1], [zmax])) 
+            z = np.concatenate(([zmin], binsz[1:-1], [zmin + h["max_depth"]]))
             # Now interpolate for final_vol
             water_level = np.interp([final_vol], volumes, z)[0]
         assert water_level is not None, "Water level calculation failed"
-- 
2.43.0


From 1dce767f0fdef72aafd4be12e6d4e12e0e804b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 15/22] fix: filter expressions which are not a condition must
 be rejected

Words and characters were only checked one by one, so for instance
"area > 0 or oror > 1", "area > 0 or area(3)" or "area" were accepted and
the wrong part went unnoticed whenever it was not evaluated.
---
 malstroem/scripts/_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index c4841d4..deb4fff 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -12,8 +12,27 @@
 # see http://www.gnu.org/licenses/.
 # -------------------------------------------------------------------------------------------------
 
+import ast
+
+
+def _is_condition(node):
+    """True if node is a comparison of measures and numbers or an and/or combination of comparisons"""
+    if isinstance(node, ast.BoolOp):
+        return all(_is_condition(v) for v in node.values)
+    if isinstance(node, ast.Compare):
+        return all(_is_operand(n) for n in [node.left] + node.comparators)
+    return False
+
+
+def _is_operand(node):
+    if isinstance(node, ast.Name):
+        return node.id in ('area', 'maxdepth', 'volume')
+    # Numeric literals are the only other literals which can get this far
+    return type(node).__name__ in ('Constant', 'Num') and isinstance(ast.literal_eval(node), (int, float))
+
 
 def check_filter(filter):
+    expression = filter
     # TODO: Stupid check mechanism. Could be done better
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
@@ -24,6 +43,9 @@ def check_filter(filter):
     filter = filter.strip()
     if filter:
         raise Exception('Unsupported filter statement. Illegal parts: {}'.format(filter))
+    # Parts which are legal on their own must also form a condition. Otherwise they may go unnoticed until evaluated
+    if not _is_condition(ast.parse(expression.strip(), mode='eval').body):
+        raise Exception('Unsupported filter statement. Not a condition: {}'.format(expression))
 
 
 def parse_filter(filter):
-- 
2.43.0


From 2aac8258309887584a0b93ef30d7bd643691603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 16/22] fix: toggling speedups must also affect hypsometry

---
 malstroem/hyps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 624dd8c..15c7001 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -15,7 +15,7 @@ import logging
 from collections import namedtuple
 
 from malstroem.algorithms import speedups
-from malstroem.algorithms.label import label_stats, label_data
+from malstroem.algorithms import label as label_algorithms
 
 logger = logging.getLogger(__name__)
 
@@ -59,10 +59,10 @@ def bluespot_hypsometry_stats(bluespotlabels, dem, resolution, labels_max = None
         labels_max = np.max(bluespotlabels)
 
     logger.debug("Calculate z stats for each bluespot")
-    label_z_stats = label_stats(dem, bluespotlabels, labels_max)
+    label_z_stats = label_algorithms.label_stats(dem, bluespotlabels, labels_max)
 
     logger.debug("Collecting label data values")
-    label_data_values = label_data(dem, bluespotlabels, labels_max, background=background)
+    label_data_values = label_algorithms.label_data(dem, bluespotlabels, labels_max, background=background)
 
     logger.debug("Calculating histograms")
     for label, data in enumerate(label_data_values):
-- 
2.43.0


From 1fbb13d41f0c0009bec722cc3582120251d09297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 17/22] fix: rivers with many nested junctions must not exceed
 the recursion limit

---
 malstroem/algorithms/net.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/malstroem/algorithms/net.py b/malstroem/algorithms/net.py
index 4d688da..d5e369c 100644
--- a/malstroem/algorithms/net.py
+++ b/malstroem/algorithms/net.py
@@ -126,14 +126,16 @@ def _untangle(nodes, next_available_label):
     -------
 
     """
-    for group in _split_into_common_flow_groups(nodes, 2):
+    # Explicit stack. A long river may have more nested junctions than the recursion limit allows
+    unhandled_groups = list(reversed(_split_into_common_flow_groups(nodes, 2)))
+    while unhandled_groups:
+        group = unhandled_groups.pop()
         if len(group) > 1:
             # Group of nodes with common flow
             untangled_nodes, new_node = _prune_common_flow(group, next_available_label)
             next_available_label = next_available_label + 1
             yield new_node, next_available_label
-            for n, next_available_label in _untangle(untangled_nodes, next_available_label):
-                yield n, next_available_label
+            unhandled_groups.extend(reversed(_split_into_common_flow_groups(untangled_nodes, 2)))
         else:
             # This node doesnt have common flow with other nodes
             yield group[0], next_available_label
-- 
2.43.0


From 5438bfdfe8761e7d13b4fd97efae782aa870a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 18/22] fix: final depths must be 0 outside the bluespots at
 any elevation

---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index f0ff9f5..fb2ec84 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -165,7 +165,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float('-inf')):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 6063ce9713c78879ce4f852d8d62a20411538c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 19/22] fix: creation options -dsco and -lco must reach OGR

The options were declared with nargs=0 and could not be given a value, and
hyps did not pass them on.
---
 malstroem/scripts/bluespot.py   | 8 ++++----
 malstroem/scripts/finalstate.py | 8 ++++----
 malstroem/scripts/hyps.py       | 6 +++---
 malstroem/scripts/initvolume.py | 4 ++--
 malstroem/scripts/stream.py     | 4 ++--
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 6f22ac7..f023799 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -96,8 +96,8 @@ def process_wsheds(bluespots, flowdir, out):
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='pourpoints', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
     """Determine pour points.
 
@@ -151,8 +151,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
 @click.option('-out', required=True, type=str, help='Output OGR datasource')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR format. See OGR documentation')
 @click.option('-layername', type=str, default='polygonized', show_default=True, help='Output layer name')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 def process_polys(raster, out, format, layername, dsco, lco):
     """Polygonize ID raster.
 
diff --git a/malstroem/scripts/finalstate.py b/malstroem/scripts/finalstate.py
index cfd639e..0fe21ab 100644
--- a/malstroem/scripts/finalstate.py
+++ b/malstroem/scripts/finalstate.py
@@ -33,8 +33,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_layer', default='finalvolumes', show_default=True, help='Layer name of output final state volumes layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
     """Bluespot fill and stream network volumes in the final state of an event.
@@ -69,8 +69,8 @@ def process_net(inputvolumes, inputvolumes_layer, attribute, out, out_layer, for
 @click.option('-out', required=True, help='Output OGR datasource (output is nongeometric)')
 @click.option('-out_layer', default='finallevels', show_default=True, help='Layer name of output final state bluespot water level info')
 @click.option('-format', type=str, default='geojson', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
     """Approximate water levels of bluespots in the final state.
diff --git a/malstroem/scripts/hyps.py b/malstroem/scripts/hyps.py
index 5050d2a..4b4946d 100644
--- a/malstroem/scripts/hyps.py
+++ b/malstroem/scripts/hyps.py
@@ -27,8 +27,8 @@ NODATASUBST = -999
 @click.option('-out', required=True, help='Output OGR datasource')
 @click.option('-out_hyps_layer', default='hyps', show_default=True, help='Layer name of output hypsometry layer')
 @click.option('-format', type=str, default='CSV', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
     """Statistical terrain elevation measures for each bluespot.
@@ -48,6 +48,6 @@ def process_hypsometry(bluespots, dem, pourpoints, pourpoints_layer, zresolution
     dem_reader = io.RasterReader(dem, nodatasubst=NODATASUBST)
 
     ogr_format = str(format)
-    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs)
+    hyps_writer = io.VectorWriter(ogr_format, out, out_hyps_layer, None, ogr.wkbNone, dem_reader.crs, dsco, lco)
 
     hyps.bluespot_hypsometry_io(labeled_reader, dem_reader, pourpoints_reader, zresolution, hyps_writer)
\ No newline at end of file
diff --git a/malstroem/scripts/initvolume.py b/malstroem/scripts/initvolume.py
index e909007..fe7951c 100644
--- a/malstroem/scripts/initvolume.py
+++ b/malstroem/scripts/initvolume.py
@@ -42,8 +42,8 @@ logger = logging.getLogger(__name__)
 @click.option('-out_layer', default='initvolumes', show_default=True, help='Calculated model input volumes in [m3]')
 @click.option('-out_attribute', default='inputv', show_default=True, help='Name of output attribute')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_volumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
     """Set up initial water volumes for each watershed.
diff --git a/malstroem/scripts/stream.py b/malstroem/scripts/stream.py
index ac5cc7c..a4ae8a5 100644
--- a/malstroem/scripts/stream.py
+++ b/malstroem/scripts/stream.py
@@ -35,8 +35,8 @@ from malstroem import io, streams
 @click.option('-out_nodes_layer', default='nodes', show_default=True, help='Layer name of output nodes layer')
 @click.option('-out_streams_layer', default='streams',show_default=True, help='Layer name of output streams layer')
 @click.option('-format', type=str, default='ESRI shapefile', help='OGR driver. See OGR documentation')
-@click.option('-dsco', multiple=True, type=str, nargs=0, help='OGR datasource creation options. See OGR documentation')
-@click.option('-lco', multiple=True, type=str, nargs=0, help='OGR layer creation options. See OGR documentation')
+@click.option('-dsco', multiple=True, type=str, help='OGR datasource creation options. See OGR documentation')
+@click.option('-lco', multiple=True, type=str, help='OGR layer creation options. See OGR documentation')
 @click_log.simple_verbosity_option()
 def process_network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
     """Calculate stream network between bluespots.
-- 
2.43.0


From c583bac1bf47e59c1205d7ace80518227c3d6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 20/22] fix: text attributes that look like dates stay text
 when features are written

---
 malstroem/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 3ff7fba..756aa7b 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -321,8 +321,8 @@ class VectorWriter(object):
                 else:
                     json.dump(geojsonfeatures, f)
             # NOW read the tmp file back in 
-            drv = ogr.GetDriverByName('GeoJSON')
-            ds = drv.Open(str(tmpfilepath))
+            # Text is text, also if it looks like a date
+            ds = gdal.OpenEx(str(tmpfilepath), gdal.OF_VECTOR, allowed_drivers=['GeoJSON'], open_options=['DATE_AS_STRING=YES'])
             assert ds is not None, f"Malformed geojson file: {tmpfilepath}"
             lyr = ds.GetLayerByIndex(0)
             f = lyr.GetNextFeature()
-- 
2.43.0


From 3f0268d08475b8195e9ced047cc7cdecdab3ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:03 +0000
Subject: [PATCH 21/22] fix: integer cells close to a large nodata value are no
 nodata

---
 malstroem/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 756aa7b..4f6e941 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -76,7 +76,13 @@ class RasterReader(object):
         """
         data = self._bnd.ReadAsArray()
         if self.nodata is not None and self.nodatasubst is not None:
-            mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
+            if np.isnan(self.nodata):
+                mask = np.isnan(data)
+            elif data.dtype.kind == 'f':
+                mask = np.isclose(data, self.nodata)
+            else:
+                # Integers are exact. There are ordinary values close to a large nodata value
+                mask = data == self.nodata
             # The data type must be able to represent the substitute (eg. -999 does not fit in uint8)
             data = data.astype(np.promote_types(data.dtype, np.min_scalar_type(self.nodatasubst)), copy=False)
             data[mask] = self.nodatasubst
-- 
2.43.0


From 979a8bed40b10ceddbab6ac2ef0e06e4e5102d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:57 +0000
Subject: [PATCH 22/22] fix: nodes get the ids of their pour points, also when
 the layer is not sorted by id

---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0

