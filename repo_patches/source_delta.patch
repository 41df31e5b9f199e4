From 4931b5d00a9c077310f383113c3e8b971bc52173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:32 +0000
Subject: [PATCH 01/60] fix: support numba >= 0.59, where generated_jit was
 removed

setup.py accepts any numba >= 0.49.0, but africanus.util.numba imported
generated_jit unconditionally, so that averaging, calibration, coordinates,
dft, rime, perleypolyhedron, shape, spectral, spi and wsclean could not be
imported at all.
---
 africanus/util/numba.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/africanus/util/numba.py b/africanus/util/numba.py
index 9574e6d..8ed7c60 100644
--- a/africanus/util/numba.py
+++ b/africanus/util/numba.py
@@ -26,9 +26,36 @@ if on_rtd():
     overload = _fake_decorator
     register_jitable = _fake_decorator
 else:
-    from numba import cfunc, jit, njit, generated_jit, stencil  # noqa
+    from numba import cfunc, jit, njit, stencil  # noqa
     from numba.extending import overload, register_jitable  # noqa
 
+    try:
+        from numba import generated_jit  # noqa
+    except ImportError:
+        # generated_jit was removed in numba 0.59.0
+        from numba.core.dispatcher import _GeneratedFunctionCompiler
+        from numba.core.registry import CPUDispatcher
+
+        class GeneratedDispatcher(CPUDispatcher):
+            """ Dispatcher compiling the functions returned by py_func """
+            def __init__(self, *args, **kwargs):
+                super().__init__(*args, **kwargs)
+                c = self._compiler
+                self._compiler = _GeneratedFunctionCompiler(
+                    c.py_func, c.targetdescr, c.targetoptions,
+                    c.locals, c.pipeline_class)
+
+        def generated_jit(cache=False, **options):
+            def decorator(fn):
+                disp = GeneratedDispatcher(fn, targetoptions=options)
+
+                if cache:
+                    disp.enable_caching()
+
+                return disp
+
+            return decorator
+
 
 def is_numba_type_none(arg):
     """
-- 
2.43.0


From 3723828e96095320da6718c7031cb26c7ffac88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:40 +0000
Subject: [PATCH 02/60] fix: do not use the aliases numpy 1.24 removed
 (np.object, np.float, np.complex)

---
 africanus/averaging/dask.py                   | 20 +++++++++----------
 .../examples/apply_phase_screen_to_ms.py      |  2 +-
 africanus/gridding/nifty/dask.py              |  4 ++--
 africanus/linalg/geometry.py                  |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 6eba313..bcb01fe 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -54,7 +54,7 @@ def chan_metadata(row_chan_arrays, chan_arrays, chan_bin_size):
               for i, c in enumerate(chan_chunks)}
     graph = HighLevelGraph.from_collections(name, layers, ())
     chunks = (chan_chunks,)
-    chan_mapper = da.Array(graph, name, chunks, dtype=np.object)
+    chan_mapper = da.Array(graph, name, chunks, dtype=object)
 
     return chan_mapper
 
@@ -70,8 +70,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                         flag_row, None if flag_row is None else ("row",),
                         adjust_chunks={"row": lambda x: np.nan},
                         time_bin_secs=time_bin_secs,
-                        meta=np.empty((0,), dtype=np.object),
-                        dtype=np.object)
+                        meta=np.empty((0,), dtype=object),
+                        dtype=object)
 
 
 def _getitem_row(avg, idx, array, dims):
@@ -125,8 +125,8 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
                        adjust_chunks={"row": lambda x: np.nan},
-                       meta=np.empty((0,)*len(rd), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,)*len(rd), dtype=object),
+                       dtype=object)
 
     # ant1, ant2, time_centroid, exposure, uvw, weight, sigma
     out_args = [(a, dims) for out, a, dims in args if out is True]
@@ -149,7 +149,7 @@ def _getitem_row_chan(avg, idx, dtype):
 
     graph = HighLevelGraph.from_collections(name, layers, (avg,))
     return da.Array(graph, name, avg.chunks,
-                    meta=np.empty((0,)*len(dim), dtype=np.object),
+                    meta=np.empty((0,)*len(dim), dtype=object),
                     dtype=dtype)
 
 
@@ -191,8 +191,8 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                        align_arrays=False,
                        adjust_chunks=adjust_chunks,
                        meta=np.empty((0,)*len(_row_chan_avg_dims),
-                                     dtype=np.object),
-                       dtype=np.object)
+                                     dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_row_chan(avg, i, a.dtype)
                   for i, a in enumerate([vis, flag,
@@ -234,8 +234,8 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                        effective_bw, None if effective_bw is None else cdim,
                        resolution, None if resolution is None else cdim,
                        adjust_chunks=adjust_chunks,
-                       meta=np.empty((0,), dtype=np.object),
-                       dtype=np.object)
+                       meta=np.empty((0,), dtype=object),
+                       dtype=object)
 
     tuple_gets = (None if a is None else _getitem_chan(avg, i, a.dtype)
                   for i, a in enumerate([chan_freq, chan_width,
diff --git a/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py b/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
index b03efe3..55a5c82 100755
--- a/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
+++ b/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
@@ -229,7 +229,7 @@ def calibrate(args, jones, alphas):
     lm = radec_to_lm(radec, radec0)
 
     # get model visibilities
-    model = np.zeros((n_row, n_freq, n_dir, 2), dtype=np.complex)
+    model = np.zeros((n_row, n_freq, n_dir, 2), dtype=complex)
     stokes = np.asarray(stokes)
     ref_freqs = np.asarray(ref_freqs)
     spi = np.asarray(spi)
diff --git a/africanus/gridding/nifty/dask.py b/africanus/gridding/nifty/dask.py
index 675d77b..a3e0ba8 100644
--- a/africanus/gridding/nifty/dask.py
+++ b/africanus/gridding/nifty/dask.py
@@ -310,7 +310,7 @@ def grid(vis, uvw, flags, weights, frequencies, grid_config,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     if len(frequencies.chunks[0]) != 1:
         raise ValueError("Chunking in channel unsupported")
@@ -492,7 +492,7 @@ def degrid(grid, uvw, flags, weights, frequencies,
     baselines = da.blockwise(_nifty_baselines, ("row",),
                              uvw, ("row", "uvw"),
                              frequencies, ("chan",),
-                             dtype=np.object)
+                             dtype=object)
 
     gc = grid_config.object
     vis_chunks = []
diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 934e735..c452316 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -304,7 +304,7 @@ class BoundingConvexHull(object):
         unique_pxls_flatten, paint_count = np.unique(
             allmasks_flatten, return_counts=True
         )
-        paint_count = paint_count.astype(np.float)
+        paint_count = paint_count.astype(float)
 
         if only_overlapped_regions:
             sel = paint_count > 1
-- 
2.43.0


From 0dec3f2465a6fb3661b1ca3c713383478d8dc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 03/60] fix: start every averaging time bin at its own first
 sample

bin_low was only set for the first bin of a baseline, so each later bin was
measured from the start of the first one and held a single sample, whatever
time_bin_secs was.
---
 africanus/averaging/time_and_channel_mapping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..1f8909f 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,8 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    # The current sample starts the new bin
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 3ac5f4346320a4304975b1a61658d3485fc3f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 04/60] fix: report averaged channel chunks and allow no
 channel arrays in dask averaging

chan_average was called without chan_bin_size, so that the dask arrays for
CHAN_FREQ, CHAN_WIDTH, EFFECTIVE_BW and RESOLUTION claimed the unaveraged
number of channels. With no channel arrays at all, building its empty result
raised a TypeError.
---
 africanus/averaging/dask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index bcb01fe..0ce6507 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -219,7 +219,7 @@ def chan_average(chan_meta, chan_freq=None, chan_width=None,
                  effective_bw=None, resolution=None, chan_bin_size=1):
 
     if chan_meta is None:
-        return ChannelAverageOutput(None, None)
+        return ChannelAverageOutput(None, None, None, None)
 
     adjust_chunks = {
         "chan": lambda c: (c + chan_bin_size - 1) // chan_bin_size
@@ -314,7 +314,8 @@ def time_and_channel(time, interval, antenna1, antenna2,
                              chan_freq=chan_freq,
                              chan_width=chan_width,
                              effective_bw=effective_bw,
-                             resolution=resolution)
+                             resolution=resolution,
+                             chan_bin_size=chan_bin_size)
 
     # Merge output tuples
     return AverageOutput(_getitem_row(row_meta, 1, time, ("row",)),
-- 
2.43.0


From dcade5217779f73ae06eb4be59167f0d5ab3d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:28 +0000
Subject: [PATCH 05/60] fix: keep every chunk of UVW, WEIGHT and SIGMA in dask
 averaging

Only the first chunk along the coordinate or correlation axis reached the
averager, the others were silently dropped.
---
 africanus/averaging/dask.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 0ce6507..685d8de 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -92,16 +92,6 @@ def _getitem_row(avg, idx, array, dims):
                     dtype=array.dtype)
 
 
-def _row_average_wrapper(row_meta, ant1, ant2, flag_row,
-                         time_centroid, exposure, uvw,
-                         weight, sigma):
-    return np_row_average(row_meta, ant1, ant2, flag_row,
-                          time_centroid, exposure,
-                          uvw[0] if uvw is not None else None,
-                          weight[0] if weight is not None else None,
-                          sigma[0] if sigma is not None else None)
-
-
 def row_average(row_meta, ant1, ant2, flag_row=None,
                 time_centroid=None, exposure=None, uvw=None,
                 weight=None, sigma=None):
@@ -121,9 +111,10 @@ def row_average(row_meta, ant1, ant2, flag_row=None,
             (True, weight, None if weight is None else rcd),
             (True, sigma, None if sigma is None else rcd)]
 
-    avg = da.blockwise(_row_average_wrapper, rd,
+    avg = da.blockwise(np_row_average, rd,
                        *(v for pair in args for v in pair[1:]),
                        align_arrays=False,
+                       concatenate=True,
                        adjust_chunks={"row": lambda x: np.nan},
                        meta=np.empty((0,)*len(rd), dtype=object),
                        dtype=object)
-- 
2.43.0


From 848e1cc3954976fe2a128003857ab8cd21fb751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 06/60] fix: do not modify the caller's time_bin_indices in the
 calibration kernels

The kernels subtracted the minimum in place. The caller's array changed, and
with the threaded dask scheduler tasks for different channel chunks raced on
the shared chunk.
---
 africanus/calibration/phase_only/phase_only.py         | 6 +++---
 africanus/calibration/utils/compute_and_corrupt_vis.py | 2 +-
 africanus/calibration/utils/correct_vis.py             | 2 +-
 africanus/calibration/utils/corrupt_vis.py             | 2 +-
 africanus/calibration/utils/residual_vis.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..c4063bc 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From c77e9583e85fe87876aa97af1e1ccd836b584cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 07/60] fix: do not overwrite the caller's vis and model in
 phase-only gauss_newton

---
 africanus/calibration/phase_only/phase_only.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index c4063bc..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
-- 
2.43.0


From 55507b4987185714ec3d911e82ef30f8fcfcec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 08/60] fix: drop the unused corr2 axis from dask calibration
 graphs, correct jhj/jhr metadata

With diagonal visibilities the corr2 axis is not part of the output, and any
further operation on the result failed with KeyError: 'corr2' when dask fused
the graphs. compute_jhj and compute_jhr claimed row chunks for their time axis,
and compute_jhj claimed a complex dtype for its real result.
---
 africanus/calibration/phase_only/dask.py | 10 ++++------
 africanus/calibration/utils/dask.py      |  8 ++++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..0a57e8c 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,8 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     adjust_chunks={"row": jones.chunks[0]},
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +61,8 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     adjust_chunks={"row": jones.chunks[0]},
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..c0e8144 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -66,7 +66,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=model.dtype,
                      align_arrays=False)
 
@@ -127,7 +127,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      freq, ("chan",),
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=model.dtype,
                      align_arrays=False)
 
@@ -172,7 +172,7 @@ def correct_vis(time_bin_indices, time_bin_counts, antenna1,
                      vis, out_shape,
                      flag, out_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=vis.dtype,
                      align_arrays=False)
 
@@ -223,7 +223,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                      flag, out_shape,
                      model, model_shape,
                      adjust_chunks={"row": antenna1.chunks[0]},
-                     new_axes={"corr2": 2},
+                     new_axes={"corr2": 2} if "corr2" in out_shape else {},
                      dtype=vis.dtype,
                      align_arrays=False)
 
-- 
2.43.0


From 7f0b1671ca1af15d4c4f2b1db6b01d245d01b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 09/60] fix: declare the dtype dask compute_and_corrupt_vis
 produces

---
 africanus/calibration/utils/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index c0e8144..76acf6c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2} if "corr2" in out_shape else {},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From 4247a4a61be6a834f93eb42400f8672ee5a54de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 10/60] fix: resolve the quadrant of the right ascension in
 lm_to_radec and lmn_to_radec

arctan is off by pi for every source on the far side of the pole.
---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From af1ad9c80f7e068a718ba05ada9566935d22d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:45 +0000
Subject: [PATCH 11/60] fix: rotate both source coordinates by the parallactic
 angle

transform_sources computed the rotated m from the already rotated l.
---
 africanus/rime/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..25ce571 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -24,11 +24,11 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
             pa_cos = math.cos(parallactic_angles[t, a])
 
             for s in range(nsrc):
-                l, m = lm[s]
+                l0, m0 = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l = l0*pa_cos - m0*pa_sin  # noqa
+                m = l0*pa_sin + m0*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From a7fe72f22d4ea3eba52001f757948653a76ac1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:03 +0000
Subject: [PATCH 12/60] fix: consider base_vis in the dtype of dask predict_vis

Predicting from base_vis alone raised an exception, and the declared dtype
was wrong if base_vis had the widest type.
---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 2c0eed8e2ebe78fe226e22d4a5564f88c7f415dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:53 +0000
Subject: [PATCH 13/60] fix: fit spectral indices to every channel chunk in the
 dask wrapper

Only the first chunk along the channel axis reached the fit, the others were
silently dropped.
---
 africanus/model/spi/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/model/spi/dask.py b/africanus/model/spi/dask.py
index 55bd194..bd213d4 100644
--- a/africanus/model/spi/dask.py
+++ b/africanus/model/spi/dask.py
@@ -17,13 +17,13 @@ else:
 
 def _fit_spi_components_wrapper(data, weights, freqs, freq0,
                                 alphai, I0i, beam, tol, maxiter):
-    return np_fit_spi_components(data[0],
-                                 weights[0],
-                                 freqs[0],
+    return np_fit_spi_components(data,
+                                 weights,
+                                 freqs,
                                  freq0,
                                  alphai,
                                  I0i,
-                                 beam[0] if beam is not None else beam,
+                                 beam,
                                  tol=tol,
                                  maxiter=maxiter)
 
@@ -44,6 +44,7 @@ def fit_spi_components(data, weights, freqs, freq0,
                      tol, None,
                      maxiter, None,
                      new_axes={"vars": 4},
+                     concatenate=True,
                      dtype=data.dtype)
 
 
-- 
2.43.0


From 80137efcf0419ae361182ce3b2c9f263f650b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:56 +0000
Subject: [PATCH 14/60] fix: declare the dtype the dask spectral models produce

---
 africanus/model/spectral/dask.py | 7 ++++++-
 africanus/model/wsclean/dask.py  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..19da303 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -6,6 +6,8 @@ from africanus.model.spectral.spec_model import (
                                         SPECTRAL_MODEL_DOC)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -23,6 +25,9 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
     if len(spi.chunks[1]) != 1:
         raise ValueError("Chunking along the spi dimension unsupported")
 
+    dtype = np.result_type(*(a.dtype for a in (stokes, spi,
+                                               ref_freq, frequencies)))
+
     pol_dim = () if stokes.ndim == 1 else ("pol",)
 
     return da.blockwise(_wrapper, ("source", "chan",) + pol_dim,
@@ -31,7 +36,7 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=dtype)
 
 
 try:
diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..6f73101 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -5,6 +5,8 @@ from africanus.model.wsclean.spec_model import (spectra as np_spectra,
                                                 SPECTRA_DOCS)
 from africanus.util.requirements import requires_optional
 
+import numpy as np
+
 try:
     import dask.array as da
 except ImportError as e:
@@ -20,6 +22,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
+    dtype = np.result_type(*(a.dtype for a in (stokes, spi,
+                                               ref_freq, frequency)))
+
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
     return da.blockwise(_wrapper, ("source", "chan") + corrs,
@@ -28,7 +33,7 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=dtype)
 
 
 try:
-- 
2.43.0


From 44a591fcea13fdf988119993c5e224fe4f8ccc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 15/60] fix: do not write outside the grid in the nearest
 neighbour gridding policy

---
 .../perleypolyhedron/policies/convolution_policies.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
index b0308a9..0f6f050 100644
--- a/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/convolution_policies.py
@@ -139,9 +139,10 @@ def convolve_nn_scatter(scaled_u, scaled_v, scaled_w, npix, grid, vis, r, c,
     disc_u = int(np.round(offset_u))
     disc_v = int(np.round(offset_v))
     cw = 1.0
-    grid[disc_v, disc_u] += \
-        scp.corr2stokes(vis[r, c, :],
-                        stokes_conversion_policy)
+    if disc_v >= 0 and disc_v < npix and disc_u >= 0 and disc_u < npix:
+        grid[disc_v, disc_u] += \
+            scp.corr2stokes(vis[r, c, :],
+                            stokes_conversion_policy)
     return cw
 
 
-- 
2.43.0


From c7a49b9eb1c260b057dde02dea522b24c6258072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:57 +0000
Subject: [PATCH 16/60] fix: rotate all three baseline coordinates in
 uvw_rotate, do not read past them

---
 .../policies/baseline_transform_policies.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..83b56db 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,12 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u = uvw[0]
+    v = uvw[1]
+    w = uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 624f6a97cc37be0e50509b7d1368bc988b952451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:46 +0000
Subject: [PATCH 17/60] fix: do not overwrite the caller's uvw and vis in the
 perleypolyhedron (de)gridders

The degridder also sampled the facet at baselines rotated the wrong way, and
derived the facet's phase from the rotated baselines.
---
 africanus/gridding/perleypolyhedron/degridder.py | 11 +++++++----
 africanus/gridding/perleypolyhedron/gridder.py   |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..33f5df0 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -38,12 +38,15 @@ def degridder_row_kernel(uvw,
                          r=0):
     ra0, dec0 = phase_centre
     ra, dec = image_centre
-    btp.policy(uvw[r, :], ra, dec, ra0, dec0,
+    # the policy works in place: leave the caller's coordinates alone,
+    # the phase policy needs them as well
+    facet_uvw = uvw[r, :].copy()
+    btp.policy(facet_uvw, ra0, dec0, ra, dec,
                baseline_transform_policy)
     for c in range(nvischan):
-        scaled_u = uvw[r, 0] * scale_factor / wavelengths[c]
-        scaled_v = uvw[r, 1] * scale_factor / wavelengths[c]
-        scaled_w = uvw[r, 2] * scale_factor / wavelengths[c]
+        scaled_u = facet_uvw[0] * scale_factor / wavelengths[c]
+        scaled_v = facet_uvw[1] * scale_factor / wavelengths[c]
+        scaled_w = facet_uvw[2] * scale_factor / wavelengths[c]
         grid = gridstack[chanmap[c], :, :]
         cp.policy(scaled_u,
                   scaled_v,
diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..2953fda 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -72,6 +72,10 @@ def gridder(uvw,
     if nvischan != wavelengths.size:
         raise ValueError("Chanmap must correspond to visibility channels")
 
+    # the transform policies work in place: leave the caller's data alone
+    uvw = uvw.copy()
+    vis = vis.copy()
+
     gridstack = np.zeros((nband, npix, npix), dtype=grid_dtype)
 
     # scale the FOV using the simularity theorem
-- 
2.43.0


From 995617283fec714b1cb4fcf382c0650508c54189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:46 +0000
Subject: [PATCH 18/60] fix: make the wlinapprox baseline policy usable

---
 .../perleypolyhedron/policies/baseline_transform_policies.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index 83b56db..ada10f4 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -1,4 +1,4 @@
-from africanus.util.numba import jit, overload
+from africanus.util.numba import overload
 from numpy import cos, sin
 
 
@@ -52,7 +52,6 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
-@jit(nopython=True, nogil=True, fastmath=True, parallel=False)
 def uvw_planarwapprox(uvw, ra0, dec0, ra, dec, policy_type):
     '''
         Implements the coordinate uv transform associated with taking a planar
-- 
2.43.0


From 99bd60b221b6d39794009eb18ebc16f7db1e5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:33 +0000
Subject: [PATCH 19/60] fix: use every facet, its own centre and every channel
 chunk in the dask perleypolyhedron wrappers

---
 africanus/gridding/perleypolyhedron/dask.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..3347701 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -34,7 +34,6 @@ def __degrid(uvw,
              convolution_policy=None,
              vis_dtype=np.complex128,
              rowparallel=False):
-    image_centres = image_centres[0][0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image centres, "
@@ -42,10 +41,8 @@ def __degrid(uvw,
         )
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
-    uvw = uvw[0]
     if uvw.ndim != 2 or uvw.shape[1] != 3:
         raise ValueError("UVW array must be nrow x 3")
-    gridstack = gridstack[0][0][0][0]
     if gridstack.ndim != 4:
         raise ValueError("Gridstack must be nfacet x nband x ny x nx")
     lambdas = lambdas
@@ -67,7 +64,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
@@ -163,6 +160,7 @@ def degridder(uvw,
         cell=cell,
         phase_centre=phase_centre,
         vis_dtype=vis_dtype,
+        concatenate=True,
         new_axes={
             "corr":
             stokes_conversion_policies.ncorr_outpy(
@@ -193,7 +191,6 @@ def __grid(uvw,
            phase_centre=None,
            grid_dtype=np.complex128,
            do_normalize=False):
-    image_centres = image_centres[0]
     if image_centres.ndim != 2:
         raise ValueError(
             "Image centres for DASK wrapper expects list of image "
@@ -202,10 +199,6 @@ def __grid(uvw,
     if image_centres.shape[1] != 2:
         raise ValueError("Image centre must be a list of tuples")
 
-    uvw = uvw[0]
-    vis = vis[0][0]
-    lambdas = lambdas[0]
-    chanmap = chanmap[0]
     grid_stack = np.zeros(
         (1, image_centres.shape[0], 1, np.max(chanmap) + 1, npix, npix),
         dtype=grid_dtype)
@@ -300,6 +293,7 @@ def gridder(uvw,
         phase_centre=phase_centre,
         grid_dtype=grid_dtype,
         do_normalize=do_normalize,
+        concatenate=True,
         # goes to one set of grids per row chunk
         adjust_chunks={"row": 1},
         new_axes={
-- 
2.43.0


From a3818f5e4204b2212a11db8a0b8142ed5c74b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 20/60] fix: do not overflow on kronecker factors with more
 than 127 rows or columns

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From 4962721c3a223dadb9cc7dd40170756c45b72368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 21/60] fix: keep the imaginary part in kron_matmat and
 kron_tensormat

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 235ab38..d8bdec9 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -119,7 +119,7 @@ def kron_matmat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_matvec(A, B[:, i])
     return C
@@ -148,7 +148,7 @@ def kron_tensormat(A, B):
     M = B.shape[1]  # the product of Np_1 x Np_2 x ... x Np_3
 
     N = kron_N(A)
-    C = np.zeros([N, M])
+    C = np.zeros([N, M], dtype=np.result_type(B, *A))
     for i in range(M):
         C[:, i] = kron_tensorvec(A, B[:, i])
     return C
-- 
2.43.0


From ecbdd422a74a65da216d2a6fefbd03584e32c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 22/60] fix: normalise every separating axis in overlaps_with

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index c452316..c47bbc7 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -420,7 +420,7 @@ class BoundingConvexHull(object):
         # get the projection axes
         normals = np.vstack([self.lnormals, other.lnormals])
         norms = np.linalg.norm(normals, axis=1)
-        normals = normals / norms[None, 2]
+        normals = normals / norms[:, None]
 
         # compute vectors to corners from origin
         vecs_reg1 = self.corners
-- 
2.43.0


From 56a10a3bfa9af04ac1a88424ee0f06207f0676e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 23/60] fix: compare the region with the matching image axes,
 honour oob_value in regional_data

---
 africanus/linalg/geometry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index c47bbc7..e327a79 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -198,8 +198,8 @@ class BoundingConvexHull(object):
         pad_top = max(0, maxy - data_cube.shape[axes[0]] + 1)
 
         if (
-            minx > data_cube.shape[axes[0]]
-            or miny > data_cube.shape[axes[1]]
+            minx >= data_cube.shape[axes[1]]
+            or miny >= data_cube.shape[axes[0]]
             or maxy < 0
             or maxx < 0
         ):
@@ -232,9 +232,8 @@ class BoundingConvexHull(object):
         new_shape[axes[1]] = maxx - minx + 1
 
         if any(np.array([pad_left, pad_bottom, pad_right, pad_top]) > 0):
-            padded_data = (
-                np.zeros(tuple(new_shape), dtype=selected_data.dtype)
-                * oob_value
+            padded_data = np.full(
+                tuple(new_shape), oob_value, dtype=selected_data.dtype
             )
             padded_data[tuple(slc_padded)] = selected_data.copy()
         else:
-- 
2.43.0


From 353aedcc4ff53983598a74ef3729a64ea65940fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 24/60] fix: do not mix up pixels with a negative x in
 normalize_masks

---
 africanus/linalg/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index e327a79..35de393 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -295,9 +295,10 @@ class BoundingConvexHull(object):
 
         # flatten for faster comparisons
         allmasks = np.array(allmasks)
+        minx = np.min(allmasks[:, 1])
         maxx = np.max(allmasks[:, 1])
-        nx = maxx + 1
-        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1]
+        nx = maxx - minx + 1
+        allmasks_flatten = allmasks[:, 0] * nx + allmasks[:, 1] - minx
 
         # now count the number of times a pixel is painted onto
         unique_pxls_flatten, paint_count = np.unique(
@@ -312,7 +313,7 @@ class BoundingConvexHull(object):
 
         # with the reduced number of overlap pixels unflatten
         unique_pxls = np.vstack(
-            [unique_pxls_flatten // nx, unique_pxls_flatten % nx]
+            [unique_pxls_flatten // nx, unique_pxls_flatten % nx + minx]
         ).T
         unique_pxls = list(map(tuple, unique_pxls))
         paint_count[...] = 1.0 / paint_count
-- 
2.43.0


From 88591a83cef61860fd3e4a463a6dedf1c66751a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 25/60] fix: do not emit an empty leading chunk when the first
 chunk exceeds the maximum

---
 africanus/util/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/util/shapes.py b/africanus/util/shapes.py
index 4566d90..9871317 100644
--- a/africanus/util/shapes.py
+++ b/africanus/util/shapes.py
@@ -51,7 +51,8 @@ def aggregate_chunks(chunks, max_chunks):
             if chunk_scratch[ci] > max_chunks[ci]:
                 aggregate = True
 
-        if aggregate:
+        # there is nothing to emit before the first chunk
+        if aggregate and di > 0:
             for ci, chunk in enumerate(chunks):
                 agg_chunks[ci].append(agg_chunk_counts[ci])
                 agg_chunk_counts[ci] = chunk[di]
-- 
2.43.0


From 23d92fbef999de07933dfd3db577a9ce6bb43a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 26/60] fix: report an unknown output instead of failing with
 UnboundLocalError in convert

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From c5a4a9f9cfe4ce7c947cdb6e687f34ee6f2dca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:26 +0000
Subject: [PATCH 27/60] fix: order averaged rows by (TIME, ANTENNA1, ANTENNA2),
 not (TIME, ANTENNA2, ANTENNA1)

---
 africanus/averaging/support.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/africanus/averaging/support.py b/africanus/averaging/support.py
index d5e15f6..c9e5d47 100644
--- a/africanus/averaging/support.py
+++ b/africanus/averaging/support.py
@@ -79,18 +79,19 @@ def unique_baselines(ant1, ant2):
         # and cast to int64
         bl_32bit = np.empty((ant1.shape[0], 2), dtype=np.int32)
 
-        # Copy data
+        # Copy data. The second half is the most significant one
+        # in the (little endian) int64, so ant1 takes precedence in the sort
         for r in range(ant1.shape[0]):
-            bl_32bit[r, 0] = ant1[r]
-            bl_32bit[r, 1] = ant2[r]
+            bl_32bit[r, 0] = ant2[r]
+            bl_32bit[r, 1] = ant1[r]
 
         # Cast to int64 for the unique operation
         bl = bl_32bit.view(np.int64).reshape(ant1.shape[0])
 
         ret, idx, inv, counts = _unique_internal(bl)
 
-        # Recast to int32 and reshape
-        ubl = ret.view(np.int32).reshape(ret.shape[0], 2)
+        # Recast to int32 and reshape, ant1 first
+        ubl = ret.view(np.int32).reshape(ret.shape[0], 2)[:, ::-1].copy()
 
         return ubl, idx, inv, counts
 
-- 
2.43.0


From f2a981b81b7024010e2f17cb0276b11719e0b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:26 +0000
Subject: [PATCH 28/60] fix: treat every non-zero FLAG_ROW value as flagged
 when averaging

---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From 46ad5b09866e8d7ff41ca8ab191283e47f14d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:42 +0000
Subject: [PATCH 29/60] fix: do not read past the end of the solution in
 solve_trid_system

---
 africanus/averaging/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..3451a52 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -64,7 +64,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
-- 
2.43.0


From ca01804c65d17509afd011e00f5331753f011f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:42 +0000
Subject: [PATCH 30/60] fix: eliminate the lower diagonal by its ratio to the
 pivot in solve_trid_system

---
 africanus/averaging/splines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 3451a52..82cedbd 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,7 +34,8 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        diag[0, C] = 0.0
+        v[0] = left_value
     elif left_type == 1:
         diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
@@ -56,7 +57,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
-- 
2.43.0


From 1c3ebb3ef0a1ff337b4ee407929d9bfe6c2cca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 31/60] fix: first derivative end conditions and the last
 knot's slope of cubic splines

---
 africanus/averaging/splines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 82cedbd..8ca4b0d 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -37,8 +37,8 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
         diag[0, C] = 0.0
         v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
@@ -48,9 +48,9 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
         diag[n-1, B] = 2.0
         diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
@@ -85,7 +85,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
-- 
2.43.0


From 03243a9e203761065eecbb5af267dbc62e833509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 32/60] fix: allow channel arrays without row and channel
 arrays in dask averaging

---
 africanus/averaging/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/dask.py b/africanus/averaging/dask.py
index 685d8de..bb0d477 100644
--- a/africanus/averaging/dask.py
+++ b/africanus/averaging/dask.py
@@ -153,7 +153,7 @@ def row_chan_average(row_meta, chan_meta, flag_row=None, weight=None,
                      chan_bin_size=1):
     """ Average (row,chan,corr)-based dask arrays """
 
-    if chan_meta is None:
+    if all(a is None for a in (vis, flag, weight_spectrum, sigma_spectrum)):
         return RowChanAverageOutput(None, None, None, None)
 
     # We don't know how many rows are in each row chunk,
-- 
2.43.0


From 92370c6f1458cacae91cc4701abfa7809ceb9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 33/60] fix: use every chunk of spectral coefficients in the
 dask wsclean spectra

---
 africanus/model/wsclean/dask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 6f73101..e1dd333 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -16,7 +16,7 @@ else:
 
 
 def _wrapper(stokes, spi, log_si, ref_freq, frequency):
-    return np_spectra(stokes, spi[0], log_si, ref_freq, frequency)
+    return np_spectra(stokes, spi, log_si, ref_freq, frequency)
 
 
 @requires_optional('dask.array', opt_import_error)
@@ -33,6 +33,7 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
+                        concatenate=True,
                         dtype=dtype)
 
 
-- 
2.43.0


From 40fcab9626dde740cbad1eddeeb1f33b988c1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 34/60] fix: use every chunk of uvw, lm, coefficients and
 shapes in the dask wsclean_predict

---
 africanus/rime/dask_predict.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..cf1aa86 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -457,13 +457,13 @@ def predict_vis(time_index, antenna1, antenna2,
 
 
 def wsclean_spectrum_wrapper(flux, coeffs, log_poly, ref_freq, frequency):
-    return wsclean_spectra(flux, coeffs[0], log_poly, ref_freq, frequency)
+    return wsclean_spectra(flux, coeffs, log_poly, ref_freq, frequency)
 
 
 def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
                          frequency, spectrum, dtype_):
-    return wsclean_predict_body(uvw[0], lm[0], source_type,
-                                gauss_shape[0], frequency, spectrum,
+    return wsclean_predict_body(uvw, lm, source_type,
+                                gauss_shape, frequency, spectrum,
                                 dtype_)[None, :]
 
 
@@ -480,6 +480,7 @@ def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                             log_poly, ("source",),
                             ref_freq, ("source",),
                             frequency, ("chan",),
+                            concatenate=True,
                             dtype=spectrum_dtype)
 
     out_dtype = np.result_type(uvw.dtype, lm.dtype, frequency.dtype,
@@ -495,6 +496,7 @@ def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                        out_dtype, None,
                        adjust_chunks={"source": 1},
                        new_axes={"corr": 1},
+                       concatenate=True,
                        dtype=out_dtype)
 
     return vis.sum(axis=0)
-- 
2.43.0


From bd8bfd2c48618cb1d8ad9b3bcfba7c1a6cdf63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 35/60] fix: use every chunk of polynomials in the dask
 zernike_dde

---
 africanus/rime/dask.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/africanus/rime/dask.py b/africanus/rime/dask.py
index 6502b65..efd016c 100644
--- a/africanus/rime/dask.py
+++ b/africanus/rime/dask.py
@@ -148,10 +148,7 @@ def beam_cube_dde(beam, beam_lm_extents, beam_freq_map,
 
 
 def _zernike_wrapper(coords, coeffs, noll_index):
-    # coords loses "three" dim
-    # coeffs loses "poly" dim
-    # noll_index loses "poly" dim
-    return np_zernike_dde(coords[0], coeffs[0], noll_index[0])
+    return np_zernike_dde(coords, coeffs, noll_index)
 
 
 @requires_optional('dask.array', da_import_error)
@@ -167,6 +164,8 @@ def zernike_dde(coords, coeffs, noll_index):
                              ("ant", "chan") + corr_dims + ("poly",),
                              noll_index,
                              ("ant", "chan") + corr_dims + ("poly",),
+                             # "three" and "poly" are contracted
+                             concatenate=True,
                              dtype=coeffs.dtype)
 
 
-- 
2.43.0


From 96258d83ed129a73f6447fb1361bedbb4f76255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:24 +0000
Subject: [PATCH 36/60] fix: do not read past chunked coordinates in the dask
 beam_cube_dde

---
 africanus/rime/dask.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/africanus/rime/dask.py b/africanus/rime/dask.py
index efd016c..11ed784 100644
--- a/africanus/rime/dask.py
+++ b/africanus/rime/dask.py
@@ -108,10 +108,10 @@ def _beam_cube_dde_wrapper(beam, beam_lm_extents, beam_freq_map,
                            lm, parallactic_angles,
                            point_errors, antenna_scaling,
                            frequencies):
-    return np_beam_cube_dde(beam[0][0][0], beam_lm_extents[0][0],
-                            beam_freq_map[0], lm[0],
-                            parallactic_angles, point_errors[0],
-                            antenna_scaling[0], frequencies)
+    return np_beam_cube_dde(beam, beam_lm_extents,
+                            beam_freq_map, lm,
+                            parallactic_angles, point_errors,
+                            antenna_scaling, frequencies)
 
 
 @requires_optional('dask.array', da_import_error)
@@ -144,6 +144,7 @@ def beam_cube_dde(beam, beam_lm_extents, beam_freq_map,
                              point_errors, ("time", "ant", "chan", "pt-comp"),
                              antenna_scaling, ("ant", "chan", "scale-comp"),
                              frequencies, ("chan",),
+                             concatenate=True,
                              dtype=beam.dtype)
 
 
-- 
2.43.0


From e650facbe0171aba04cc6535367823d703378a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:24 +0000
Subject: [PATCH 37/60] fix: give every chunk of polarisations its own bases in
 the dask spectral_model

---
 africanus/model/spectral/dask.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 19da303..d899f03 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -25,6 +25,16 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
     if len(spi.chunks[1]) != 1:
         raise ValueError("Chunking along the spi dimension unsupported")
 
+    if isinstance(base, list) and stokes.ndim > 1 and stokes.numblocks[1] > 1:
+        # Each chunk of polarisations has its own bases
+        bounds = np.cumsum((0,) + stokes.chunks[1])
+        base = base + [base[-1]] * (stokes.shape[1] - len(base))
+
+        return da.concatenate([
+            spectral_model(stokes[:, s:e], spi[:, :, s:e],
+                           ref_freq, frequencies, base=base[s:e])
+            for s, e in zip(bounds[:-1], bounds[1:])], axis=2)
+
     dtype = np.result_type(*(a.dtype for a in (stokes, spi,
                                                ref_freq, frequencies)))
 
-- 
2.43.0


From b2cfc4c267de6e73b8db3c1031b11f87be9507b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:23 +0000
Subject: [PATCH 38/60] fix: allow the base to be omitted in spectral_model

---
 africanus/model/spectral/spec_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index 07e7454..f5e520a 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
-from numba import types
+from numba import types, typeof
 import numpy as np
 
 from africanus.util.numba import generated_jit, njit
@@ -99,6 +99,10 @@ def spectral_model(stokes, spi, ref_freq, frequency, base=0):
                        in (stokes, spi, ref_freq, frequency))
     dtype = np.result_type(*arg_dtypes)
 
+    # Use the type of the default, if base was omitted
+    if isinstance(base, types.misc.Omitted):
+        base = typeof(base.value)
+
     if isinstance(base, types.containers.List):
         is_base_list = True
         base = base.dtype
-- 
2.43.0


From 0e5d9c0fc82c859a07f42fd5bb5b2980126af2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:59 +0000
Subject: [PATCH 39/60] fix: convert chunked correlations in the dask coherency
 conversion

---
 africanus/model/coherency/dask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/africanus/model/coherency/dask.py b/africanus/model/coherency/dask.py
index 7014236..f7b711e 100644
--- a/africanus/model/coherency/dask.py
+++ b/africanus/model/coherency/dask.py
@@ -31,6 +31,8 @@ def convert(input, input_schema, output_schema):
                                                         output_schema)
 
     n_free_dims = len(input.shape) - len(in_shape)
+    # A conversion needs every correlation
+    input = input.rechunk({i: -1 for i in range(n_free_dims, input.ndim)})
     free_dims = tuple("dim-%d" % i for i in range(n_free_dims))
     in_corr_dims = tuple("icorr-%d" % i for i in range(len(in_shape)))
     out_corr_dims = tuple("ocorr-%d" % i for i in range(len(out_shape)))
-- 
2.43.0


From 47fbf04b9e541465a86e579ceb9f7d6124aa8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:11 +0000
Subject: [PATCH 40/60] fix: fit spectral indices to float32 data

---
 africanus/model/spi/component_spi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/model/spi/component_spi.py b/africanus/model/spi/component_spi.py
index b09e5c8..4e3f1e6 100644
--- a/africanus/model/spi/component_spi.py
+++ b/africanus/model/spi/component_spi.py
@@ -17,8 +17,8 @@ def _fit_spi_components_impl(data, weights, freqs, freq0, out,
     for comp in range(ncomps):
         eps = 1.0
         k = 0
-        alphak = out[0, comp]
-        i0k = out[2, comp]
+        alphak = np.float64(out[0, comp])
+        i0k = np.float64(out[2, comp])
         b = beam[comp]
         while eps > tol and k < maxiter:
             alphap = alphak
-- 
2.43.0


From 784542c766885c0fa3c1a4dd5e56f9021a322518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:32 +0000
Subject: [PATCH 41/60] fix: refuse jones chunked over antenna in dask
 compute_jhj and compute_jhr

---
 africanus/calibration/phase_only/dask.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index 0a57e8c..4616d77 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -24,6 +24,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
@@ -49,6 +52,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
     if mode != DIAG_DIAG:
         raise NotImplementedError("Only DIAG-DIAG case has been implemented")
 
+    if jones.chunks[1][0] != jones.shape[1]:
+        raise ValueError("Cannot chunk jones over antenna")
+
     jones_shape = ('row', 'ant', 'chan', 'dir', 'corr')
     vis_shape = ('row', 'chan', 'corr')
     model_shape = ('row', 'chan', 'dir', 'corr')
-- 
2.43.0


From 5a91c29b18d7a1e898a4348804b222f46ecb2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 42/60] fix: do not serve the filled mask and weights of a
 replaced sparse mask

---
 africanus/linalg/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 35de393..6c51faa 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -131,6 +131,7 @@ class BoundingConvexHull(object):
         else:
             self._mask = copy.deepcopy(mask)
         self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @property
     def mask(self, dtype=np.float64):
@@ -570,7 +571,8 @@ class BoundingBox(BoundingConvexHull):
                 ),
             )
             self._mask = sparse_mask[sel]
-            self._mask_weights = np.ones(len(self._mask))
+        self._mask_weights = np.ones(len(self._mask))
+        self._cached_filled_mask = None
 
     @classmethod
     def project_regions(
-- 
2.43.0


From fd5ca7b64754f651615f49c657a44801fbb6fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 43/60] fix: do not overwrite the caller's data in
 project_regions

---
 africanus/linalg/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 6c51faa..7263624 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -624,7 +624,7 @@ class BoundingBox(BoundingConvexHull):
 
         combined_mask = []
         for f, freg in zip(regional_data_list, regions_list):
-            f[np.isnan(f)] = 0
+            f = np.where(np.isnan(f), 0, f)
             xl = max(0, global_offsetx + np.min(freg.corners[:, 0]))
             xu = min(global_offsetx + np.max(freg.corners[:, 0]) + 1, npxx)
             yl = max(0, global_offsety + np.min(freg.corners[:, 1]))
-- 
2.43.0


From 0b6360ba013d44af52debb4a9a8bf4f39f1332a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 44/60] fix: square and padded bounding boxes contain what they
 bound

---
 africanus/linalg/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/geometry.py b/africanus/linalg/geometry.py
index 7263624..899baba 100644
--- a/africanus/linalg/geometry.py
+++ b/africanus/linalg/geometry.py
@@ -675,7 +675,9 @@ class BoundingBoxFactory(object):
             )  # inclusive
             boxdiam = max(nx, ny)
             boxrad = boxdiam // 2
-            cx, cy = convex_hull_object.centre
+            # centre of the extents, the barycentre may be anywhere inside
+            cx = np.min(convex_hull_object.corners[:, 0]) + nx // 2
+            cy = np.min(convex_hull_object.corners[:, 1]) + ny // 2
             xl = cx - boxrad
             xu = cx + boxdiam - boxrad - 1
             yl = cy - boxrad
@@ -779,7 +781,8 @@ class BoundingBoxFactory(object):
         pad_right = desired_nx - pad_left - 1
         pad_bottom = desired_ny // 2
         pad_top = desired_ny - pad_bottom - 1
-        cx, cy = bounding_box_object.centre
+        cx = np.min(bounding_box_object.corners[:, 0]) + nx // 2
+        cy = np.min(bounding_box_object.corners[:, 1]) + ny // 2
         xl = cx - pad_left
         xu = cx + pad_right
         yl = cy - pad_bottom
-- 
2.43.0


From e0e1b14ecc0cb94db7e75a5d2ea638f16f1193f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 45/60] fix: raise the intended errors for unsupported power
 spectra

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From a7577dba48381e00a7bd774d69808c0e41fcd210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:38 +0000
Subject: [PATCH 46/60] fix: progress bar thread races with the end of a
 computation and forgets its estimate

---
 africanus/util/dask_util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..66fb884 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -98,7 +98,7 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
     # If we've completed some new tasks, update our estimate
     # otherwise use previous estimate. This prevents jumps
     # relative to the elapsed time
-    if completed != prev_completed:
+    if completed != prev_completed and time_guess > 0.0:
         estimated = estimated * elapsed / time_guess
     else:
         estimated = prev_estimated
@@ -128,11 +128,12 @@ def update_bar(elapsed, prev_completed, prev_estimated, pb):
 
 def timer_func(pb):
     start = default_timer()
+    running = pb.running
+    prev_completed = 0
+    prev_estimated = 0.0
 
-    while pb.running.is_set():
+    while running.is_set():
         elapsed = default_timer() - start
-        prev_completed = 0
-        prev_estimated = 0.0
 
         if elapsed > pb._minimum:
             prev_completed, prev_estimated = update_bar(elapsed,
@@ -207,8 +208,10 @@ class EstimatingProgressBar(Callback):
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From c035fe25f9654b0674c8ffbb9999d6e8884ea2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:38 +0000
Subject: [PATCH 47/60] fix: accept beam axes without a CTYPE

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..c99bf79 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [str(header.get('CTYPE%d' % n, n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From 9e80f906e18de1d8bc3b52cc3f59fad6ef3b6646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:06 +0000
Subject: [PATCH 48/60] fix: extrapolate splines beyond their knots, not beyond
 the first and last point asked for

---
 africanus/averaging/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 8ca4b0d..c7e88cf 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -100,7 +100,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -108,9 +108,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -120,9 +120,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -131,9 +131,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0


From 19f6aec189bf7464679c46413d5d09bc328f9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:34 +0000
Subject: [PATCH 49/60] fix: perform at most niter iterations in hogbom_clean

---
 africanus/deconv/hogbom/clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..88554c3 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -185,7 +185,7 @@ def hogbom_clean(dirty, psf,
         # Increment counter
         i += 1
         # Warn if niter exceeded
-        if i > niter:
+        if i >= niter:
             logging.warn("Number of iterations exceeded")
             logging.warn("Minimum residuals = %s", residuals.max())
 
-- 
2.43.0


From 9f8b537be0fb8656eda24c20b30888b18cf9272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:27 +0000
Subject: [PATCH 50/60] fix: name every lane of the warp in the shuffle mask of
 the CUDA predict

---
 africanus/rime/cuda/predict.cu.j2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.cu.j2 b/africanus/rime/cuda/predict.cu.j2
index b1f8c62..d9d81a8 100644
--- a/africanus/rime/cuda/predict.cu.j2
+++ b/africanus/rime/cuda/predict.cu.j2
@@ -96,7 +96,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + is_odd_corr;
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __ballot_sync(0xFFFFFFFF, 1);
 
         T shfl_K;
         shfl_K.x = __shfl_sync(mask, K.x, shfl_idx, WARP_SIZE);
@@ -138,7 +138,7 @@ public:
         int base_vis_idx = CORRS*(lane_id/CORRS);
         int is_odd_corr = lane_id & 0x1;
         int shfl_idx = base_vis_idx + 1 + int(is_odd_corr == 0);
-        int mask = __ballot_sync(WARP_SIZE - 1, 1);
+        int mask = __ballot_sync(0xFFFFFFFF, 1);
 
         // Load in the correlation to multiply.
         T shfl_K;
-- 
2.43.0


From 6899ba97caecc63afe104757765d7737bc980415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:27 +0000
Subject: [PATCH 51/60] fix: load the whole beam frequency map, and no more, in
 every block

---
 africanus/rime/cuda/beam_freq_interp.cu.j2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/rime/cuda/beam_freq_interp.cu.j2 b/africanus/rime/cuda/beam_freq_interp.cu.j2
index 5c72bfb..2db9c40 100644
--- a/africanus/rime/cuda/beam_freq_interp.cu.j2
+++ b/africanus/rime/cuda/beam_freq_interp.cu.j2
@@ -18,9 +18,9 @@ extern "C" __global__ void {{kernel_name}}(
         {{beam_freq_type}} beam_freqs[beam_nud_limit];
     } shared;
 
-    // Load in beam frequency map across
-    if(chan < beam_nud_limit)
-        { shared.beam_freqs[threadIdx.x] = beam_freq_map[chan]; }
+    // Each block loads in the beam frequency map
+    if(threadIdx.x < nud)
+        { shared.beam_freqs[threadIdx.x] = beam_freq_map[threadIdx.x]; }
 
     __syncthreads();
 
-- 
2.43.0


From 07348ebd67f55d8b4ca31aa628467f81a11b8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:09 +0000
Subject: [PATCH 52/60] fix: load the beam extents when there are fewer than
 four channels and correlations

---
 africanus/rime/cuda/beam.cu.j2 | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.cu.j2 b/africanus/rime/cuda/beam.cu.j2
index 93fb1fc..d455607 100644
--- a/africanus/rime/cuda/beam.cu.j2
+++ b/africanus/rime/cuda/beam.cu.j2
@@ -92,20 +92,18 @@ extern "C" __global__ void {{kernel_name}}(
 
     // Shared memory loads
 
-    // Use first four threads to load beam extents into shared memory
-    if(threadIdx.x < 4)
-        { shared.lm_ext[threadIdx.x] = beam_lm_ext[threadIdx.x]; }
-
     {{lm_ext_type}} & lower_l = shared.lm_ext[0];
     {{lm_ext_type}} & upper_l = shared.lm_ext[1];
     {{lm_ext_type}} & lower_m = shared.lm_ext[2];
     {{lm_ext_type}} & upper_m = shared.lm_ext[3];
 
-    // Use first thread to precompute l and m scaling factors in shared memory
-    // Because a warp is 32 threads, the lm_ext's
-    // should be loaded at this point
+    // Use first thread, the only one sure to be within the grid, to load
+    // beam extents and precompute scaling factors in shared memory
     if(threadIdx.z == 0 && threadIdx.y == 0 && threadIdx.x == 0)
     {
+        for(int e=0; e < 4; ++e)
+            { shared.lm_ext[e] = beam_lm_ext[e]; }
+
         shared.lscale = {{beam_freq_type}}(beam_lw - 1) / (upper_l - lower_l);
         shared.mscale = {{beam_freq_type}}(beam_mh - 1) / (upper_m - lower_m);
     }
-- 
2.43.0


From 3a12e94e7b934713b4d1a5c489f01787f6fe6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:11 +0000
Subject: [PATCH 53/60] fix: single precision CUDA prediction when a term is
 missing

---
 africanus/rime/cuda/predict.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/rime/cuda/predict.py b/africanus/rime/cuda/predict.py
index 38ff4d4..69d8436 100644
--- a/africanus/rime/cuda/predict.py
+++ b/africanus/rime/cuda/predict.py
@@ -63,8 +63,11 @@ def _generate_kernel(time_index, antenna1, antenna2,
     name = "predict_vis"
 
     # Complex output type
-    out_dtype = np.result_type(dde1_jones, source_coh, dde2_jones,
-                               die1_jones, base_vis, die2_jones)
+    # (None arguments would be interpreted as np.float64)
+    out_dtype = np.result_type(*(a for a in (dde1_jones, source_coh,
+                                             dde2_jones, die1_jones,
+                                             base_vis, die2_jones)
+                                 if a is not None))
 
     ncorrs = reduce(mul, corrs, 1)
 
-- 
2.43.0


From 5e7bbe1a99915ead37223326fbb4d7ea96540277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:51 +0000
Subject: [PATCH 54/60] fix: leave the examples as they were

---
 .../calibration/utils/examples/apply_phase_screen_to_ms.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py b/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
index 55a5c82..b03efe3 100755
--- a/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
+++ b/africanus/calibration/utils/examples/apply_phase_screen_to_ms.py
@@ -229,7 +229,7 @@ def calibrate(args, jones, alphas):
     lm = radec_to_lm(radec, radec0)
 
     # get model visibilities
-    model = np.zeros((n_row, n_freq, n_dir, 2), dtype=complex)
+    model = np.zeros((n_row, n_freq, n_dir, 2), dtype=np.complex)
     stokes = np.asarray(stokes)
     ref_freqs = np.asarray(ref_freqs)
     spi = np.asarray(spi)
-- 
2.43.0


From 741584543d5c9304d56e4f4bac75a79a95304483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 55/60] fix: phase-only calibration accepts weights without a
 channel axis, as documented

---
 africanus/calibration/phase_only/phase_only.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 21c890a..deb427e 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -157,6 +157,10 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
                  antenna2, jones, vis, flag, model,
                  weight, tol=1e-4, maxiter=100):
 
+    # duplicate weights for each channel if the channel axis is missing
+    if weight.ndim == vis.ndim - 1:
+        weight = weight[:, None]
+
     # whiten data
     sqrtweights = np.sqrt(weight)
     vis = vis * sqrtweights
-- 
2.43.0


From e4a04af6892a451ce265cfee2a032f140e435f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 56/60] fix: directions at the celestial poles no longer become
 NaN through rounding

---
 africanus/coordinates/coordinates.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index accd9a4..c028d7c 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -123,7 +123,15 @@ def lmn_to_radec(lmn, phase_centre=None):
         for s in range(radec.shape[0]):
             l, m, n = lmn[s]
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # Rounding may take this beyond the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+
+            if sin_dec > 1.0:
+                sin_dec = 1.0
+            elif sin_dec < -1.0:
+                sin_dec = -1.0
+
+            radec[s, 1] = np.arcsin(sin_dec)
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
@@ -154,7 +162,15 @@ def lm_to_radec(lm, phase_centre=None):
             l, m = lm[s]
             n = np.sqrt(1.0 - l**2 - m**2)
 
-            radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
+            # Rounding may take this beyond the poles
+            sin_dec = m*cos_pc_dec + n*sin_pc_dec
+
+            if sin_dec > 1.0:
+                sin_dec = 1.0
+            elif sin_dec < -1.0:
+                sin_dec = -1.0
+
+            radec[s, 1] = np.arcsin(sin_dec)
             radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
-- 
2.43.0


From e3356189aec0e6bac562f08acc8ea9b1e43a4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:19 +0000
Subject: [PATCH 57/60] fix: give every singleton class one instance of its
 own, falsy ones too

---
 africanus/util/code.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/util/code.py b/africanus/util/code.py
index 3b3d78c..21e5715 100644
--- a/africanus/util/code.py
+++ b/africanus/util/code.py
@@ -15,9 +15,12 @@ class SingletonMixin(object):
 
     @classmethod
     def instance(cls):
-        if not cls.__singleton_instance:
+        # Each class has an instance of its own, which may be falsy
+        name = "_SingletonMixin__singleton_instance"
+
+        if cls.__dict__.get(name) is None:
             with cls.__singleton_lock:
-                if not cls.__singleton_instance:
+                if cls.__dict__.get(name) is None:
                     cls.__singleton_instance = cls()
 
         return cls.__singleton_instance
-- 
2.43.0


From 3b705bc848650a61e2f248c4f518031736624afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:19 +0000
Subject: [PATCH 58/60] fix: check the size of the beam cube on every call of
 the CUDA beam

---
 africanus/rime/cuda/beam.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/africanus/rime/cuda/beam.py b/africanus/rime/cuda/beam.py
index 97d9222..bc5a8c7 100644
--- a/africanus/rime/cuda/beam.py
+++ b/africanus/rime/cuda/beam.py
@@ -74,13 +74,6 @@ def _generate_main_kernel(beam, beam_lm_ext, beam_freq_map,
                           lm, parangles, pointing_errors,
                           antenna_scaling, frequencies,
                           dde_dims, ncorr):
-
-    beam_lw, beam_mh, beam_nud = beam.shape[:3]
-
-    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
-        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
-                         "to linearly interpolate")
-
     # Create template
     render = jinja_env.get_template(str(_MAIN_TEMPLATE_PATH)).render
     name = "beam_cube_dde"
@@ -148,6 +141,13 @@ def beam_cube_dde(beam, beam_lm_ext, beam_freq_map,
 
     corrs = beam.shape[3:]
 
+    # Checked on every call as the kernels are memoised
+    beam_lw, beam_mh, beam_nud = beam.shape[:3]
+
+    if beam_lw < 2 or beam_mh < 2 or beam_nud < 2:
+        raise ValueError("(beam_lw, beam_mh, beam_nud) < 2 "
+                         "to linearly interpolate")
+
     if beam.shape[2] >= BEAM_NUD_LIMIT:
         raise ValueError("beam_nud exceeds %d" % BEAM_NUD_LIMIT)
 
-- 
2.43.0


From 2d21d16bf8dd1a4c8ae2d7430bd45d6d36b577cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:33 +0000
Subject: [PATCH 59/60] fix: allow sources that are not contiguous in
 spectral_model

stokes and spi without a polarisation axis were reshaped, which numba
refuses for strided arrays.
---
 africanus/model/spectral/spec_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/spectral/spec_model.py b/africanus/model/spectral/spec_model.py
index f5e520a..36f80c2 100644
--- a/africanus/model/spectral/spec_model.py
+++ b/africanus/model/spectral/spec_model.py
@@ -88,7 +88,7 @@ def add_pol_dim_factory(have_pol_dim):
             return array
     else:
         def impl(array):
-            return array.reshape(array.shape + (1,))
+            return np.expand_dims(array, array.ndim)
 
     return njit(nogil=True, cache=True)(impl)
 
-- 
2.43.0


From b006e280ca870665751f7bb6862f9c20c8a53e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:33 +0000
Subject: [PATCH 60/60] fix: allow beam cubes in any memory layout in
 beam_cube_dde

The cube was reshaped, which numba refuses for strided and Fortran ordered
arrays, e.g. transposed FITS data.
---
 africanus/rime/fast_beam_cubes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/fast_beam_cubes.py b/africanus/rime/fast_beam_cubes.py
index e3ceb6b..8366118 100644
--- a/africanus/rime/fast_beam_cubes.py
+++ b/africanus/rime/fast_beam_cubes.py
@@ -90,7 +90,8 @@ def beam_cube_dde(beam, beam_lm_extents, beam_freq_map,
     zero = ex_dtype.type(0)
 
     # Flatten the beam on correlation
-    fbeam = beam.reshape((beam_lw, beam_mh, beam_nud, ncorrs))
+    fbeam = np.ascontiguousarray(beam).reshape((beam_lw, beam_mh,
+                                                beam_nud, ncorrs))
 
     # Allocate output array with correlations flattened
     fjones = np.empty((nsrc, ntime, nants, nchan, ncorrs), dtype=beam.dtype)
-- 
2.43.0

