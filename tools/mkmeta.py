#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by
hand when the table changes; no check reads this file)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AF = "africanus/"
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",),
         note="", state=None, observe=None, tech=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(
            files=[AF + f for f in files],
            mechanism=[dict(name=n, where=AF + w) for n, w in mech],
            observe_at=observe or ["the public functions, at the caller"],
            hook_needed=None)), note, tech))


prop("A01", "Time averaging partitions the rows",
     "Averaging assigns every input row to exactly one output row: each "
     "output row averages rows of a single baseline that follow each other "
     "in time, spans at most the requested interval measured from its own "
     "first sample, and no row is lost, duplicated or moved to another "
     "baseline. Flagged rows only contribute to output rows that hold "
     "nothing else, output rows are ordered by time, then baseline, and "
     "invalid input (repeated samples, contradictory flags) is rejected.",
     "every set of rows: any baselines, order, gaps, intervals, bin sizes "
     "and flags",
     "The tests average two small regular observations; the partition must "
     "hold for every irregular, gappy, flagged and unsorted set of rows.",
     ["averaging/time_and_channel_mapping.py",
      "averaging/time_and_channel_avg.py"],
     [("row map", "averaging/time_and_channel_mapping.py"),
      ("bin finalisation", "averaging/time_and_channel_mapping.py")])
prop("A02", "Averaged values are the (weighted) means and sums of their bins",
     "Every averaged quantity is the documented reduction of exactly the "
     "samples in its bin: means of coordinates, centroids and intervals, "
     "sums of exposures and weights, weighted means of visibilities with "
     "errors propagated accordingly, and frequencies and widths over the "
     "channel bins. Flagged samples do not contribute unless a bin holds "
     "nothing but flagged samples, in which case the output is flagged.",
     "every combination of supplied columns, precisions, flags, weights and "
     "bin sizes, including bins of one sample and ragged last bins",
     "The tests cover a few column combinations on regular data; the "
     "reductions are specialised per combination and must hold for each "
     "input.",
     ["averaging/time_and_channel_avg.py", "averaging/support.py"],
     [("row and channel averaging kernels",
       "averaging/time_and_channel_avg.py")])
prop("A03", "Chunked averaging averages every chunk as if it stood alone",
     "Averaging a chunked dataset yields, chunk by chunk, exactly the result "
     "of averaging that chunk's rows and channels alone, for every chunking, "
     "execution schedule and set of columns. The declared dimensions and "
     "types are those of the computed result.",
     "all chunkings of rows, channels and trailing axes, all task orders",
     "The tests compare one chunking on the threaded scheduler; lost or "
     "misaligned chunks show only for other chunkings and schedules.",
     ["averaging/dask.py"],
     [("chunked row and channel averaging graphs", "averaging/dask.py")],
     over=("inputs", "schedules", "configurations"))
prop("R01", "Predicted visibilities obey the measurement equation",
     "Predicted visibilities equal G_p (B + sum_s E_ps X_pqs E_qs^H) G_q^H "
     "for every row and channel, with whichever of the direction dependent, "
     "coherency, direction independent and base terms are supplied. Gains "
     "are looked up by the row's own time and antennas, one or two "
     "correlations multiply element by element and 2x2 ones as matrices, "
     "and one-sided or mismatched terms are rejected.",
     "every combination of terms, correlations, precisions, sizes and row "
     "orders",
     "Each combination of present terms compiles to different code; tests "
     "sample each with one random array of fixed shape and tolerance.",
     ["rime/predict.py"],
     [("term specialisation and sums", "rime/predict.py")])
prop("R02", "Chunked prediction is independent of chunking and schedule",
     "Predicting from chunked arrays gives the visibilities of the "
     "measurement equation for every aligned chunking of rows and times, "
     "sources and channels, either source summation strategy and every "
     "execution order, with truthful metadata. Chunkings that would give "
     "wrong answers are rejected.",
     "all aligned chunkings, both reductions, all task orders",
     "The tests use one regular chunking per case on one scheduler; "
     "reductions and streams depend on the chunk structure and task order.",
     ["rime/dask_predict.py", "rime/dask.py"],
     [("fan and linear reductions, coherency streams",
       "rime/dask_predict.py")],
     over=("inputs", "schedules", "configurations"))
prop("R03", "Phase delays and direct transforms evaluate the Fourier sums",
     "Phase delays are exp(-/+2 pi i f/c (ul + vm + w(n-1))) under the "
     "stated sign convention, to rounding, for every direction, baseline and "
     "frequency. The direct transforms evaluate the corresponding sums, are "
     "adjoint to each other, ignore flagged samples, and give the same "
     "answer in chunks.",
     "every direction in the hemisphere, baseline, frequency, convention, "
     "precision and chunking",
     "The tests compare a handful of directions at loose tolerance and one "
     "convention; sign, precision and flag errors hide in the rest.",
     ["rime/phase.py", "dft/kernels.py", "dft/dask.py", "rime/dask.py"],
     [("phase kernel", "rime/phase.py"), ("DFT kernels", "dft/kernels.py")],
     over=("inputs", "schedules"))
prop("R04", "Primary beams interpolate the beam cube",
     "The beam seen by a source is the cube interpolated linearly in both "
     "sky coordinates and frequency, amplitude and phase separately, after "
     "rotating by the parallactic angle, adding pointing errors and scaling "
     "per antenna and channel. Sources outside the cube see its edge, "
     "frequencies outside it the first or last plane at coordinates scaled "
     "by the frequency ratio, sources on cube points see exactly "
     "the cube's value, and chunking changes nothing.",
     "every cube, extent, source position, frequency, precision and chunking",
     "The tests check a few points on coarse grids; indices, edges and "
     "weights matter at every position.",
     ["rime/fast_beam_cubes.py", "rime/dask.py"],
     [("grid lookup and trilinear sum", "rime/fast_beam_cubes.py")],
     over=("inputs", "schedules"))
prop("R05", "Feed rotation, parallactic angles and beam coordinates",
     "Feed rotations are the unitary matrices of the given angles for either "
     "feed type, parallactic angles are those of the field seen from each "
     "antenna at each time, and source coordinates are rotated, offset and "
     "scaled as documented. Zernike beams are the sums of the named "
     "polynomials inside the unit disk and zero outside; all are unaffected "
     "by chunking, schedule and concurrent use.",
     "all angles, array layouts, times, fields, polynomials, chunkings and "
     "concurrent callers",
     "The tests check few angles and one observatory from one thread; the "
     "reference frames are shared mutable state.",
     ["rime/feeds.py", "rime/parangles_casa.py", "rime/parangles.py",
      "rime/transform.py", "rime/zernike.py", "rime/dask.py"],
     [("feed matrices", "rime/feeds.py"),
      ("measures frames", "rime/parangles_casa.py"),
      ("Zernike sums", "rime/zernike.py")],
     over=("inputs", "schedules"))
prop("M01", "Source spectra and shapes follow their models",
     "Spectra evaluate the documented polynomial in the chosen base (linear, "
     "natural or decadic logarithm) per polarisation, ordinary and "
     "logarithmic component spectra evaluate theirs, and every spectrum "
     "passes through the reference flux at the reference frequency. Gaussian "
     "sources have the visibility of an elliptical Gaussian of the given "
     "axes and orientation, and chunking changes none of it.",
     "every base or mixture of bases, polarisation shape, number of "
     "coefficients, precision and chunking",
     "The tests sample one shape per base; mixtures, missing bases and "
     "chunked coefficients are not reached.",
     ["model/spectral/spec_model.py", "model/spectral/dask.py",
      "model/wsclean/spec_model.py", "model/wsclean/dask.py",
      "model/shape/gaussian_shape.py", "model/shape/dask.py"],
     [("spectral polynomials", "model/spectral/spec_model.py"),
      ("component spectra", "model/wsclean/spec_model.py"),
      ("Gaussian shape", "model/shape/gaussian_shape.py")],
     over=("inputs", "schedules"))
prop("M02", "Component lists load faithfully and predict their sky",
     "Loading a component list yields for every component exactly the name, "
     "type, position, flux, spectral terms and shape written in it, with "
     "the header's defaults where a value is missing, in any column order; "
     "malformed lists are rejected. The visibilities predicted for such a "
     "list are the sum over its points and Gaussians of flux times shape "
     "times phase, however the list is chunked.",
     "every well-formed list and its malformed neighbours; every model, "
     "coordinates and chunking",
     "The tests parse one literal file and predict one model.",
     ["model/wsclean/file_model.py", "rime/wsclean_predict.py",
      "rime/dask.py"],
     [("header and row parser", "model/wsclean/file_model.py"),
      ("source loop", "rime/wsclean_predict.py")],
     over=("inputs", "schedules"))
prop("M03", "Spectral index fits minimise the weighted misfit",
     "For bright components the fitted spectral index and reference flux are "
     "those of the weighted least squares power law, with variances "
     "consistent with its curvature, whatever the initial guess, precision "
     "and channel layout. Each component's fit depends on nothing but its "
     "own data and is unaffected by chunking.",
     "every set of bright components, channels, weights, guesses, chunks",
     "The tests fit noise free data at one layout.",
     ["model/spi/component_spi.py", "model/spi/dask.py"],
     [("Gauss-Newton fit", "model/spi/component_spi.py")],
     over=("inputs", "schedules"))
prop("M04", "Stokes and correlation conversion is the exact linear map",
     "Converting between Stokes parameters and linear or circular "
     "correlations evaluates the defining linear combination for every "
     "requested output, in the requested order and nesting, identified by "
     "name or number. Converting Stokes parameters to correlations and back "
     "returns them, chunking changes nothing, and outputs that cannot be "
     "formed from the given inputs are rejected.",
     "every subset, order and nesting of inputs and outputs, dtype, leading "
     "shape and chunking",
     "The tests cover full sets in natural order.",
     ["model/coherency/conversion.py", "model/coherency/dask.py"],
     [("conversion tables and schema resolution",
       "model/coherency/conversion.py")],
     over=("inputs", "schedules"))
prop("C01", "Sky coordinate conversions name the same direction",
     "Converting celestial coordinates to direction cosines, and back, "
     "relative to a phase centre (the origin when omitted) names the same "
     "direction, to rounding and in the right quadrant, anywhere in the "
     "hemisphere around the phase centre, poles and wrap-around included. "
     "Results keep the precision of their input and are unaffected by "
     "chunking, and coordinates with the wrong number of components are "
     "rejected.",
     "every phase centre and direction in its hemisphere, precision and "
     "chunking",
     "The tests convert ten random directions near one phase centre.",
     ["coordinates/coordinates.py", "coordinates/dask.py"],
     [("conversion kernels", "coordinates/coordinates.py")],
     over=("inputs", "schedules"))
prop("K01", "Gains are applied, inverted and subtracted per baseline and time",
     "Corrupting forms sum_s G_ps M_s G_qs^H with the gains of the row's own "
     "antennas, time bin and channel for scalar, diagonal and full gains; "
     "the residual is the data minus that, correcting applies the exact "
     "inverse and undoes corruption, and a model computed from moving "
     "sources matches the corrupted sum of their phases. Samples with any "
     "flagged correlation are zero, time bins partition the rows in order, "
     "and incompatible or direction dependent gains are rejected where they "
     "cannot be used.",
     "every set of rows, bins, gains, directions, flags, and gain kind",
     "The tests use complete regular baselines and one ordering.",
     ["calibration/utils/corrupt_vis.py", "calibration/utils/correct_vis.py",
      "calibration/utils/residual_vis.py",
      "calibration/utils/compute_and_corrupt_vis.py",
      "calibration/utils/utils.py"],
     [("gain kernels", "calibration/utils/corrupt_vis.py"),
      ("time bins", "calibration/utils/utils.py")])
prop("K02", "Phase-only calibration finds the stationary point",
     "The phase-only solver returns unit gains at which the weighted misfit "
     "is stationary to the requested tolerance, recovers the true phases of "
     "noise free data up to a common phase, and reports the iterations used. "
     "Its Hessian diagonal and projected residual are the derivatives they "
     "claim to be, and flagged data never influence any of it.",
     "all observations with determined antennas, flags, weights, guesses",
     "The tests solve one noise free data set; stationarity, weights and "
     "flags are not checked.",
     ["calibration/phase_only/phase_only.py"],
     [("Gauss-Newton iteration", "calibration/phase_only/phase_only.py")])
prop("K03", "Chunked calibration equals unchunked calibration",
     "Corrupting, correcting, subtracting and differentiating in chunks of "
     "whole times and channels yields the unchunked result for every "
     "chunking and execution order, with truthful metadata. Chunkings over "
     "antennas or directions that would need sums across chunks are "
     "rejected.",
     "all time and channel chunkings, all task orders",
     "The tests use one chunking on one scheduler.",
     ["calibration/utils/dask.py", "calibration/phase_only/dask.py"],
     [("blockwise graphs", "calibration/utils/dask.py")],
     over=("inputs", "schedules", "configurations"))
prop("G01", "w-gridding evaluates the measurement operator to the accuracy asked",
     "Dirty images, model visibilities, residual images and Hessian products "
     "equal the direct sums over pixels and samples to the requested "
     "accuracy, per imaging band, with weights, flags, rectangular pixels "
     "and with or without w-correction. Degridding is the adjoint of "
     "gridding, the Hessian is symmetric, bands and unselected samples do "
     "not influence others, and the number of threads does not matter.",
     "all image shapes, cells, bands, weights, flags, accuracies, precisions",
     "The tests never pass an accuracy, flags, rectangular cells or disable "
     "w-correction, and judge one geometry at 1e-3.",
     ["gridding/wgridder/im2vis.py", "gridding/wgridder/vis2im.py",
      "gridding/wgridder/im2residim.py", "gridding/wgridder/hessian.py"],
     [("band loop around ducc", "gridding/wgridder/vis2im.py")],
     over=("inputs", "configurations"))
prop("G02", "Chunked w-gridding equals the direct sums",
     "Dirty and residual images, model visibilities and Hessian products of "
     "chunked observations equal the direct sums to the requested accuracy "
     "for every chunking of rows and of whole bands and every execution "
     "order, with every option reaching the computation and truthful "
     "metadata.",
     "all row and band chunkings, options and task orders",
     "The tests use equal chunks and default options.",
     ["gridding/wgridder/dask.py"],
     [("blockwise graphs and row sums", "gridding/wgridder/dask.py")],
     over=("inputs", "schedules", "configurations"))

prop("G03", "Faceted gridding and degridding convolve at the right place",
     "The polyhedron gridder adds every in-band visibility, convolved with "
     "the supplied kernel and phase rotated to the facet, to exactly the "
     "cells around its position, and the degridder reads the same cells; "
     "samples that do not fit on the grid leave it alone and nothing outside "
     "the arrays is touched. All Stokes policies, baseline policies, packed "
     "and unpacked kernels, serial and parallel loops agree, and the chunked "
     "drivers combine chunks and facets accordingly.",
     "every baseline, frequency, band map, kernel, facet centre, policy and "
     "chunking",
     "The tests image one point source with one policy.",
     ["gridding/perleypolyhedron/gridder.py",
      "gridding/perleypolyhedron/degridder.py",
      "gridding/perleypolyhedron/kernels.py",
      "gridding/perleypolyhedron/dask.py"],
     [("scatter and gather", "gridding/perleypolyhedron/policies/"
       "convolution_policies.py"),
      ("baseline and phase policies", "gridding/perleypolyhedron/policies/"
       "baseline_transform_policies.py"),
      ("dask drivers", "gridding/perleypolyhedron/dask.py")],
     over=("inputs", "schedules", "configurations"))
prop("G04", "Parallel NIFTY gridding handles every sample exactly once",
     "The chunked NIFTY drivers hand every selected sample of every "
     "correlation to the gridder exactly once, with its own flags, weights, "
     "w range and configuration, and combine the partial grids into the "
     "grid of the whole, for any number of row chunks and streams. Images, "
     "model grids and degridded visibilities follow the same order of "
     "correlations and rows.",
     "all row and correlation chunkings, stream counts, flags, w ranges and "
     "task orders",
     "The gridder is not installed, so its tests are skipped.",
     ["gridding/nifty/dask.py"],
     [("stream and final reductions", "gridding/nifty/dask.py")],
     over=("inputs", "schedules", "configurations"),
     note="Held on the executions the run reports. nifty_gridder is not "
          "installed: a recording stand-in (vf/fake_nifty.py) replaces it, "
          "so the numerical gridding itself is not judged.",
     tech="runtime monitoring: the real drivers around a recording stand-in "
          "of the missing library, call log and results judged, schedules "
          "randomised with injected delays")
prop("D01", "CLEAN conserves the image and stops when told",
     "At every stopping point the dirty image equals the residual plus the "
     "clean components seen through the point spread function, the "
     "components are those of successively removing the gain times the "
     "highest peak, and cleaning stops at the threshold or the iteration "
     "limit. The restored image is the residual plus the components "
     "convolved with the fitted beam, and estimated cell sizes sample every "
     "baseline or are refused for the grid.",
     "every image, point spread function, gain, threshold and iteration "
     "limit; every set of baselines and wavelengths",
     "There is no test of the deconvolution and none that varies its "
     "parameters.",
     ["deconv/hogbom/clean.py", "gridding/util.py"],
     [("clean loop", "deconv/hogbom/clean.py"),
      ("cell size estimate", "gridding/util.py")])
prop("L01", "Kronecker tools equal the full product",
     "Products of Kronecker structured matrices with vectors and matrices "
     "equal those of the fully formed Kronecker product, whatever the number, "
     "size, shape and type of the factors, and the Cholesky factor of the "
     "product is the product of the factors. Distance and covariance "
     "matrices hold the pairwise values.",
     "every list of factors, right hand side and set of points",
     "There are no tests of these functions.",
     ["linalg/kronecker_tools.py", "gps/kernels.py", "gps/utils.py"],
     [("kronecker products", "linalg/kronecker_tools.py"),
      ("covariance functions", "gps/kernels.py")])
prop("L02", "Image regions, masks and their stitching are exact",
     "A hull contains exactly the pixels inside or on its outline, masks, "
     "boxes, splits and paddings preserve them, and two regions overlap "
     "exactly if no line separates them by more than the tolerance. "
     "Extracted data hold the image inside the region and the fill value "
     "elsewhere; after normalisation the weights of every pixel sum to one, "
     "so that extracted regions stitch back to the image.",
     "all integer corner sets, boxes, masks, images and axes, including "
     "regions across and beyond image edges",
     "One test checks one handful of regions.",
     ["linalg/geometry.py"],
     [("hulls and masks", "linalg/geometry.py"),
      ("box factories", "linalg/geometry.py")],
     over=("inputs", "histories"))
prop("U01", "Chunk, type, progress and shared-state helpers do as documented",
     "Aggregated chunks are consecutive runs of the input chunks, as large "
     "as the maxima allow and equal in number for all arrays; inferred "
     "types, correlation shapes and Stokes codes are the documented ones. "
     "Singletons and memoised values are made once however many threads ask, "
     "functions with missing packages fail with that message when called, "
     "and a progress bar accounts for every task without affecting the "
     "computation.",
     "all chunkings, types and thread interleavings",
     "Thread interleavings and arbitrary chunkings are not sampled by tests.",
     ["util/shapes.py", "util/dask_util.py", "util/code.py",
      "util/type_inference.py", "util/requirements.py",
      "util/casa_types.py"],
     [("chunk aggregation", "util/shapes.py"),
      ("progress bar", "util/dask_util.py"),
      ("memoisation", "util/code.py")],
     over=("inputs", "schedules"))
prop("U02", "Cubic splines interpolate with the requested end conditions",
     "A fitted spline passes through its knots, has continuous slope and "
     "curvature and meets the requested first or second derivatives at its "
     "ends; values and derivatives at any points, in any order, are those of "
     "that unique spline, continued beyond the knots by the end parabola.",
     "all knots, values, end conditions and evaluation points",
     "One test evaluates one parabola at its knots and midpoints.",
     ["averaging/splines.py"],
     [("tridiagonal solve", "averaging/splines.py"),
      ("evaluation", "averaging/splines.py")])
prop("U03", "Beam cube descriptions agree with the FITS headers and files",
     "The grids along the l, m and frequency axes are those described by "
     "the header, in radians and Hz, whatever the order of axes, reference "
     "pixel, units or irregular frequencies, and inverted on request. File "
     "names expand the schema for every correlation and part, and headers or "
     "schemas that cannot be understood are refused.",
     "all headers, schemas and correlations",
     "The tests use one header; any order, unit or missing key is possible.",
     ["util/beams.py", "testing/beam_factory.py"],
     [("axes and grids", "util/beams.py"),
      ("file name schema", "util/beams.py")])
prop("U04", "Assignment strings evaluate as Python and execute nothing else",
     "A string of assignments of literals and slices yields exactly the "
     "variables Python would assign; anything else is refused without "
     "executing any part of it.",
     "all assignment strings, including hostile ones",
     "There are no tests of the parser.",
     ["util/cmdline.py"],
     [("statement evaluation", "util/cmdline.py")])

prop("X01", "Compiled kernels stay within the arrays they are given",
     "No compiled kernel reads or writes outside the arrays it is given or "
     "allocates, for any input that satisfies the documented shapes and "
     "index ranges: any sizes (one and odd ones included), dimensions, "
     "correlations, precisions and option combinations.",
     "all inputs of the averaging, RIME, model, calibration, DFT, "
     "coordinate, spline, deconvolution and gridding kernels",
     "The kernels are compiled without bounds checks, so a read beyond an "
     "array usually returns plausible numbers and the tests pass.",
     ["averaging/time_and_channel_avg.py",
      "averaging/time_and_channel_mapping.py", "rime/predict.py",
      "rime/fast_beam_cubes.py", "gridding/perleypolyhedron/gridder.py",
      "gridding/perleypolyhedron/degridder.py", "dft/kernels.py",
      "calibration/phase_only/phase_only.py"],
     [("every numba kernel", "averaging/time_and_channel_avg.py")],
     over=("inputs", "configurations"),
     tech="sanitizer: numba bounds checking compiled into every kernel, "
          "under the generated workloads of the other properties, with a "
          "self-test that the checker is armed")
prop("X02", "Functions are pure: inputs kept, results repeatable in any thread",
     "Calling any of the numerical functions leaves the caller's arrays "
     "unchanged. The result depends on the arguments alone: calling again, "
     "with other contents of fresh memory, or from several threads at once "
     "gives the same result up to rounding, and no task of a chunked "
     "computation changes what another one reads.",
     "all inputs and all interleavings of concurrent calls",
     "The tests call every function once on fresh arrays from one thread "
     "and never look at the inputs afterwards; dask calls them from many "
     "threads on shared chunks.",
     ["averaging/time_and_channel_avg.py", "rime/predict.py",
      "rime/fast_beam_cubes.py", "rime/parangles.py",
      "model/spectral/spec_model.py", "model/spi/component_spi.py",
      "calibration/utils/correct_vis.py", "gridding/wgridder/im2vis.py",
      "linalg/kronecker_tools.py", "deconv/hogbom/clean.py"],
     [("every public numerical function", "rime/predict.py")],
     over=("inputs", "schedules"),
     tech="runtime monitoring: a monitor around every call fingerprints the "
          "inputs before and after, and repeats the call with other heap "
          "contents and from four threads at once, comparing the results")

prop("X03", "Results depend on values, not on how arrays are stored",
     "The numerical functions accept arrays of any memory layout (Fortran "
     "ordered, strided or reversed views, read-only buffers) and give the "
     "same result, up to rounding, as for contiguous copies of them.",
     "all inputs and memory layouts",
     "The tests hand over freshly made contiguous arrays; users hand over "
     "slices, transposes, memory maps and the read-only buffers that dask "
     "ships between processes.",
     ["averaging/time_and_channel_avg.py", "averaging/support.py",
      "rime/predict.py", "rime/fast_beam_cubes.py", "rime/zernike.py",
      "rime/feeds.py", "model/spectral/spec_model.py",
      "model/coherency/conversion.py", "linalg/kronecker_tools.py",
      "calibration/utils/correct_vis.py", "gridding/wgridder/im2vis.py",
      "gridding/perleypolyhedron/gridder.py", "dft/kernels.py"],
     [("every public numerical function", "rime/predict.py")],
     tech="runtime monitoring: a monitor around every call of the other "
          "workloads repeats it with the same values stored differently and "
          "compares the results")

prop("V01", "The CUDA and JAX variants compute what the CPU functions compute",
     "For every input they accept, the CUDA kernels for the phase delay, the "
     "feed rotation, the beam cube, the prediction of visibilities and the "
     "conversion of correlations give the results of their CPU "
     "counterparts, up to rounding, whatever the array sizes and the order "
     "in which threads of a block run. They touch no memory outside their "
     "arrays and leave no element of the result unwritten. The JAX phase "
     "delay agrees as well.",
     "all inputs, block and grid shapes, precisions, thread orders",
     "There is no GPU where the tests run, so the kernel templates are never "
     "even rendered by them.",
     ["rime/cuda/phase.py", "rime/cuda/phase.cu.j2", "rime/cuda/feeds.py",
      "rime/cuda/feeds.cu.j2", "rime/cuda/beam.py", "rime/cuda/beam.cu.j2",
      "rime/cuda/beam_freq_interp.cu.j2", "rime/cuda/macros.j2",
      "rime/cuda/predict.py", "rime/cuda/predict.cu.j2",
      "model/coherency/cuda/conversion.py",
      "model/coherency/cuda/conversion.cu.j2", "rime/jax/phase.py",
      "util/jinja2.py", "util/cuda.py"],
     [("the CUDA kernels", "rime/cuda/predict.cu.j2")],
     over=("inputs", "configurations", "schedules"),
     note="Held on the executions the run reports. The kernels run on an "
          "emulated device: the rendered CUDA source is compiled with g++ "
          "and UBSan, arrays end at guard pages, threads of a block run in "
          "random order between barriers and warp shuffles. Trusts that "
          "emulation (vf/cuda_emu.h, vf/fake_cupy.py); nvcc, cub and trove "
          "are replaced.",
     tech="sanitizer and runtime monitoring: the real CUDA templates run on "
          "an emulated device under UBSan with guard pages and random "
          "thread orders, results compared with the CPU functions")

# --- more (appended by hand)


NA = []

if __name__ == "__main__":
    have = {f[:-3] for f in os.listdir(os.path.join(HERE, "props"))
            if f[1:3].isdigit()}
    ids = {p[0]["id"] for p in P}
    assert ids - {n["property"] for n in NA} == have, ids ^ have
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        for f in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note, tech in P:
        i = p["id"]
        if i not in have:
            continue
        checks.append(dict(
            property=i,
            quick_cmd="python3 run_check.py %s --tier quick" % i,
            thorough_cmd="python3 run_check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=tech or (
                "runtime monitoring: the real code under generated "
                "workloads, every execution judged online by a reference "
                "oracle" + (
                    ", schedules randomised with injected delays"
                    if "schedules" in p["quantifier"]["over"] else "")),
            level="exploration",
            level_note=note or (
                "Held on the executions the run reports (evidence file: "
                "cases, monitor events, task orders); nothing beyond. "
                "Trusts the reference oracle in props/%s.py and numpy." % i)))
    m = dict(
        version=1,
        setup_cmd="true",
        hooks=dict(guard="none", enable="no hooks: the monitors observe the "
                   "public interface of the unmodified code, freshly "
                   "compiled in a scratch cache on every run",
                   source_commits=[]),
        checks=checks, not_applicable=NA,
        notes="Every check imports /repo's working tree and compiles it anew "
              "(private NUMBA_CACHE_DIR); exit 2 means no verdict. Replay a "
              "violation: python3 run_check.py <id> --replay <file>.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
