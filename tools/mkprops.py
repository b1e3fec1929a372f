#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe or [], hook_needed=None)))


U, IO, TR, IT, CLI = ("raytools/utility.py", "raytools/io.py", "raytools/translate.py",
                      "raytools/imagetools.py", "raytools/cli.py")
MB, MA, MV, MS = ("raytools/mapper/mapper.py", "raytools/mapper/angularmixin.py",
                  "raytools/mapper/viewmapper.py", "raytools/mapper/solidviewmapper.py")
EB, EM, EC, EP, ER, EG = ("raytools/evaluate/basemetricset.py", "raytools/evaluate/metricset.py",
                          "raytools/evaluate/colormetricset.py", "raytools/evaluate/positionindex.py",
                          "raytools/evaluate/retina.py", "raytools/evaluate/hvsgsm.py")

prop("C01", "A parallel map gives exactly the sequential result, whatever the schedule",
     "pool_call returns one result per argument, in argument order, each equal to what a plain loop calling the function with (argument, fixed arguments, keyword arguments) gives, with every argument evaluated exactly once, for process, thread and no workers, any cap and any order in which calls finish. "
     "If calls raise, the caller receives the exception of the first failing argument in argument order. "
     "With process workers, as many calls as the cap allows run at the same time and never more; thread workers and none run the calls in the caller's process.",
     ["schedules", "inputs"], "all argument lists, worker kinds, caps, sets of failing calls and all orders in which concurrent calls finish",
     "The test maps a few arguments with a fast function, so only one completion order is ever seen and no failing call, empty-looking result, or full/limited pool is exercised.",
     [U], [("pool_call submits in order and gathers futures in order", "pool_call"), ("worker pool selection and size", "TStqdm.__init__")],
     [("futures", "submitted calls in argument order", "pool_call")], ["return value / exception of pool_call", "side effects of the mapped function"])
prop("C02", "The process cap is set, cleared and honoured across any sequence of calls",
     "After any sequence of set_nproc/unset_nproc calls and external changes of RAYTOOLS_PROC_CAP, get_nproc() is the last positive cap that was set, or the CPU count when none is set or the variable holds no integer, and an explicit argument always wins. "
     "set_nproc(None) changes nothing, values below 1 clear the cap, and a non-integer raises ValueError and changes nothing. "
     "Process pools (including those of the command line's -n option) use exactly that many workers.",
     ["histories", "inputs"], "all histories of set/unset/get calls, environment contents and command line caps",
     "The test walks one short sequence; the state machine over the environment variable has histories no single walk covers.",
     [IO, U, CLI], [("environment variable as the single state", "get_nproc/set_nproc/unset_nproc"), ("pool size", "TStqdm.__init__"), ("-n option", "cli.main")],
     [("RAYTOOLS_PROC_CAP", "current cap", "os.environ")])
prop("C03", "HDR images read back the pixels that were written, in place and channel",
     "Writing a non-negative array with array2hdr/carray2hdr and reading it with hdr2array/hdr2carray gives an array of the same (x, y) shape whose every pixel and channel equals the Radiance RGBE quantisation of the written value (relative error below 1% of the largest channel), with no transposition, mirroring or channel exchange. "
     "Gray images read as three equal channels, a vlambda-weighted read is the weighted sum of the channels, rewriting what was read changes nothing further, and reading from a stream equals reading from the file. Exposures given in the header are undone by every way of reading. "
     "Radiance and luminance (179 times radiance) of RGB values are their weighted sum, and the bytes of RGBE pixels, in any integer type, have the luminance of the values they stand for.",
     ["inputs"], "all array shapes (non-square, single row/column), dynamic ranges, zeros, colours, dtypes and memory layouts",
     "The test writes one or two smooth arrays; a mirrored axis, exchanged channel or wrong scan line length can be invisible on symmetric or square data.",
     [IO], [("pvalue options and axis flips on write", "array2hdr/carray2hdr/_array2hdr"), ("shape parsing and axis flips on read", "hdr2array/hdr2carray/_hdr_in")])
prop("C04", "Header lines survive writing, verbatim and in order, with any file name",
     "Every header line passed when writing an image (any non-empty printable text including quotes, backslashes and shell characters, other than a format line or file signature) appears verbatim and in the given order when the header of the file is read back, and reading a header with the header option returns the same lines as hdr_header. "
     "Reading, writing and inspecting work for any legal file name, including names with spaces and quotes.",
     ["inputs"], "all header lines of printable text and all file names",
     "The tests only use plain header lines and plain file names.",
     [IO, IT], [("getinfo -a appends the lines", "_array2hdr"), ("getinfo reads them", "hdr_header"), ("command construction", "_hdr_in, hdr2vm, img_size")])
prop("C05", "Header cleaning keeps every item, drops only noise, and is stable",
     "Cleaning a header keeps every item of the input that is not a pvalue command, a FORMAT line or a view (adjacent lines with the same key are one wrapped item), shows a repeated line once, moved to just outside the file section it first stood in, leaves items that are not repeated in the section they were in, replaces temporary stream names by <stdin>, and ends with exactly one VIEW line holding the last view of the input (none if there was none). "
     "Items that say what pixels mean (EXPOSURE, COLORCORR) never leave their section, so rewriting a picture with a clean header keeps its values. "
     "Looking up items returns the value of the key regardless of case, in the order asked, and '' for keys that do not occur; lines longer than the header width are wrapped so that lookup and cleaning again give the same; cleaning a clean header changes nothing.",
     ["inputs", "histories"], "all sequences of header lines with nested file sections, repeated keys, views and long values",
     "No test covers header cleaning at all beyond whole-image conversions that do not look at the header.",
     [IO], [("hierarchical preprocessing, promotion of repeated lines", "CleanHeader._preprocess/_pop_and_promote"), ("output formatting", "CleanHeader.text/_clean_up"), ("item lookup", "header_items")])
prop("C06", "Binary/text input round-trips and unreadable input is reported, never guessed",
     "Arrays written as bytes or byte files read back with the same values (to the stored precision), order and shape, for every supported dtype and shape, and append mode appends. "
     "Text loading returns what the file holds, and reports a missing file, an unparsable file and a non-path argument by FileNotFoundError, ValueError and TypeError; image readers report missing or malformed files by an exception rather than returning data; is_hdr is true exactly for files that start with the Radiance signature.",
     ["inputs", "fault_sequences"], "all arrays, dtypes, shapes and file contents, including missing, empty, truncated-header and binary files",
     "Tests cover one float array and three load_txt cases; is_hdr and reader errors are never called.",
     [IO], [("np2bytes/bytes2np", "raytools/io.py"), ("load_txt error mapping", "load_txt"), ("signature test", "is_hdr"), ("reader errors", "_hdr_in, hdr_header")])
prop("C07", "Square-to-direction mapping is a bijective, equal-area inverse pair",
     "uv2xyz maps every (u, v) in [0,2]x[0,1] to the unit direction of the Shirley-Chiu concentric equal-area map (u > 1 the opposite hemisphere), with the component order and x sign asked for, and uv2xy is the corresponding disk map. "
     "xyz2uv maps it back: with flipu it inverts xsign=-1 on both squares (the pair the mappers use), without it inverts xsign=1 on the first square (the sky) and mirrors the second one (u to 3-u); a direction always maps back to itself. "
     "Directions need not be normalised when normalisation is requested, and the mapping agrees at sector boundaries, the centre, the horizon and the poles.",
     ["inputs"], "all points of the double square and all directions, including the degenerate ones",
     "Tests sample a grid of interior points and a few vectors; sector boundaries and option combinations are not covered.",
     [TR], [("uv2xy", "translate.uv2xy"), ("uv2xyz", "translate.uv2xyz"), ("xyz2uv", "translate.xyz2uv")])
prop("C08", "Bin, index and direction numbering are mutually inverse bijections",
     "For every grid side, bins number the cells of the double square row by row (bin = i*side + j, the second square continuing after the first), bin2uv gives the cell's point at the requested offset, and uv2ij and uv2bin return the cell and bin that contain a point (the far edges close the last cells), so that every bin maps to a point and back to itself. "
     "Sky bins 0..side^2-1 number the upper hemisphere with the direction at the centre of their patch, all further bins are the ground and map to straight down, directions above the horizon map to their patch and those below to the ground (directions on the horizon to the outermost patch there or the ground); with a tolerance of up to one cell xyz2skybin gives, ascending and once each, the sky bins around the direction and none on the other side of the horizon. "
     "Mappers' flat sample indices map to a point of their cell (its centre, or within the jitter of it) and back to themselves. "
     "The rcalc cal-file strings compute the same bins (side^2 for the ground) and directions.",
     ["inputs"], "all sides, all bins, and points on cell edges and square edges",
     "Tests check a couple of sides; the second square, cell edges, ground bin and the cal strings are not tied together.",
     [TR], [("uv2ij/uv2bin/bin2uv", "raytools/translate.py"), ("xyz2skybin/skybin2xyz", "raytools/translate.py"), ("scbinscal/scxyzcal", "raytools/translate.py")])
prop("C09", "Angular conversions and rotations are exact inverses and preserve geometry",
     "Conversions between vectors and (theta, phi), (altitude in [-90, 90], azimuth in (-180, 180] from south towards west), chord length and angle, fisheye position and angles between vectors agree with their geometric definitions and invert each other on their domains, including at and next to the poles and at the +-180 degree seam. "
     "Rotation matrices are orthonormal with determinant one, rmtx_yp (one vector or many) carries its argument to +z by a yaw about z and a pitch about x (keeping source +z in the destination +y half plane), its transpose carries it back, and rotate_elem rotates by the given angle about the given axis, right handed; normalisation gives unit vectors in the same direction.",
     ["inputs"], "all directions (poles, axes, near-degenerate), all angles, batches of any length",
     "Tests use a handful of vectors; poles, seam and batched rotations are where the formulas change branch.",
     [TR], [("tp2xyz/xyz2tp/aa2xyz/xyz2aa/tpnorm", "raytools/translate.py"), ("rmtx_yp/rotate_elem/rmtx_elem", "raytools/translate.py"), ("norm/norm1/ctheta/radians/degrees/chord", "raytools/translate.py")])
prop("C10", "View projections and their inverses agree for every view direction and angle",
     "For every view direction, view angle (up to 180 degrees, or 360), history of turning the view and resolution, the ray of a pixel is seen at that pixel and the ray of an image or uv position projects back to it, in angular and equisolid mappers, and vectors turn between world and view space by the view's upright rotation only. "
     "Angular fisheye positions are equiangular: distance from the image centre proportional to the angle from the axis, +y up and +x to the right for somebody looking along the view direction with world z up (y up when looking along z), the edge at half the view angle for hemispherical views (for narrower ones scaled by the chord factor, so a little less); a 360 degree view continues on the image of the opposite hemisphere, one image to the right. "
     "The uv square is the equal-area map about the view direction, cut to the middle viewangle/180 of it; planar mappers place points in their bounding box and give them back; rays with stacked origin start at the origin and are otherwise the same.",
     ["inputs", "configurations"], "all view directions (including +-z and opposite ones), view angles in (0, 360], resolutions and points",
     "Tests look at two or three view directions and one resolution, mostly round trips on the horizon plane.",
     [MA, MB, MV, MS], [("xyz2vxy/vxy2xyz/xyz2uv/uv2xyz", "AngularMixin"), ("ray2pixel/pixel2ray/pixelrays", "Mapper"), ("solid_*", "ViewMapper/SolidViewMapper")])
prop("C11", "View membership and pixel solid angles match the view cone",
     "in_view reports exactly the vectors whose angle to the view direction is below the view's edge angle (half the view angle, rescaled by the chord factor below 180 degrees) plus the tolerance given in radians, as a mask or as equivalent indices, for any batch shape; planar mappers report exactly the vectors over their box. "
     "pixel2omega gives each pixel's solid angle in the equiangular projection, the pixels inside a hemispherical view sum to the view area, and the view area is that of the cone of the view angle (the box for planar mappers, which its pixels share); angle helpers report the angle to the view direction.",
     ["inputs", "configurations"], "all views, resolutions, tolerances and vectors including those next to the cone's edge",
     "Tests check one resolution at 180 degrees.",
     [MA, MV, MB], [("in_view", "AngularMixin.in_view"), ("pixel2omega", "AngularMixin.pixel2omega"), ("area", "ViewMapper.aspect setter")])
prop("C12", "Image initialisation and painting address exactly the right pixels",
     "init_img returns an all-zero image of the requested size with, for every pixel, the direction of that pixel's centre in the projection asked for (equisolid: hemispheres), masks selecting exactly the pixels inside the view in mask or index form and for one or several features, and a header naming the view, point and projection. "
     "add_vecs_to_img (and plot) sets exactly the pixels containing the given directions (restricted to the mask if given, leaving None channels alone, skipping directions off the image) to the channel values; growing then replaces every pixel by the sum over the square of the radius around it, and nothing else changes.",
     ["inputs", "configurations"], "all views, resolutions, projections, feature counts, mask forms, and sets of directions in and out of view",
     "One test paints two vectors and checks sums.",
     [MA, MV, MB], [("init_img", "AngularMixin/ViewMapper/Mapper"), ("add_vecs_to_img", "AngularMixin/Mapper")])
prop("C13", "Image reprojection moves every pixel to where its direction lies",
     "Converting angular to square images and back (views up to 180 degrees and full 2:1 views), and equisolid to equiangular and back, gives at every output pixel inside the view the input value at the pixel (nearest) or interpolated position (linear) in the direction of that output pixel, for gray and three-channel images alike and channel by channel, through arrays or files; pixels outside are black. "
     "Rotating turns the image about its centre (multiples of 90 degrees permute pixels, 0 without recentring is the identity), recentring puts the chosen pixel's direction upright at the image centre or at the chosen target, fill values apply outside the input, and an image's rays have each pixel's direction, solid angle and value.",
     ["inputs"], "all images, resolutions, angles, centres and interpolation modes",
     "Tests compare percentiles of one photograph, which mirrored, shifted or rotated results can pass.",
     [IT, MV], [("array_uv2ang/array_ang2uv", "raytools/imagetools.py"), ("array_rotate", "raytools/imagetools.py"), ("transform_to", "ViewMapper.transform_to")])
prop("C14", "The view written to a header or view file is the view read back",
     "A view mapper's header line, stored in an image or a view file, is read back as a view with the same direction, view angle and view point, also when several views are present (the last one counts), when options are missing (defaults: +y, origin) and when the view came from an rvu line; image size is reported as (x, y). "
     "Images without an angular fisheye view yield no view, unreadable images raise.",
     ["inputs", "histories"], "all views, header histories and file contents",
     "Tests read the view of one photograph.",
     [IT, MA, EG], [("hdr2vm/vf_to_vm/img_size", "raytools/imagetools.py"), ("header", "AngularMixin.header")])
prop("C15", "Photometric metrics equal their integral definitions over the rays in view",
     "For every set of rays (direction, solid angle, luminance) the metrics illum, avglum, maxlum, avgraylum, gcr, loggcr, pwavglum, pwgcr, logpwgcr, density, view_area and the per-channel irradiance equal their defining sums over the rays inside the view, scaled linearly by the scale factor, and do not depend on the order of the rays. "
     "Colour input with channel weights gives the same photometric metrics as the equivalent luminance input, for any number of channels.",
     ["inputs"], "all ray sets, view directions, scales, channel weights, including single rays, zeros and rays outside the view",
     "Tests evaluate one uniform ray set, on which weighting errors cancel.",
     [EB, EC, EM], [("metric properties", "BaseMetricSet"), ("colour conversion", "ColorMetricSet.__init__"), ("view selection", "BaseMetricSet.__init__")])
prop("C16", "Metric results are independent of history, order and other instances",
     "The value of a metric of a metric set does not depend on which metrics were evaluated before, how often, in which order, or on other metric sets that are alive, were evaluated in between or were discarded. "
     "Calling a metric set returns the values of the requested (or default) metrics in the order requested, equal to reading them one by one, and unknown names are rejected with AttributeError without affecting later calls. Lists of names are reduced to the known ones in order, and reported safe to sum over sources exactly when all are illum, avglum, density, pwsl2, srcillum or irradiance (those the class has).",
     ["histories"], "all interleavings of metric evaluations over several live metric sets",
     "Tests evaluate metrics once on one object at a time; the shared one-entry caches only matter across interleaved objects.",
     [EB, EM, EC], [("functools.lru_cache(1) on properties, shared by all instances", "all metric classes"), ("check_metrics", "BaseMetricSet.check_metrics")])
prop("C17", "Glare metrics follow their published formulas and source threshold",
     "Rays brighter than the threshold (fixed above 100, otherwise a factor of the mean luminance within the task radius of the view direction) and only those are sources, and srcillum, srcarea, backlum, backlum_true, tasklum, threshold, pwsl2, log_gc, dgp_t1, dgp_t2, dgp (capped at 1, with the low-light correction below 500 lux when enabled), ugr (never negative) and ugp equal their formulas over sources and background. "
     "The same holds for luminance and colour input.",
     ["inputs", "configurations"], "all ray sets, thresholds, scales, task radii, low-light settings and position index models",
     "Tests compare a few values for one scene, mostly far from every branch point.",
     [EM, EC], [("sources/background/threshold", "MetricSet"), ("dgp/ugr/ugp", "MetricSet")])
prop("C18", "Position index follows Guth/Iwata (or Kim) for any view and source direction",
     "The position index of a source direction equals the Guth formula above the line of sight and Iwata's below it, is 16 behind the viewer and never above 16, and 1 on the line of sight; when so configured it is the Kim formula instead. "
     "It depends only on the position of the source relative to the view (any view direction, either interface, any batch, unnormalised vectors), and is symmetric left/right.",
     ["inputs", "configurations"], "all view directions and source directions, including on-axis, on the horizon, behind, and vertical views",
     "Tests check a few directions for one view.",
     [EP], [("positions/_positions", "PositionIndex"), ("formulas", "_get_pidx_guth/_get_pidx_kim")])
prop("C19", "Rays at the view edge are included, clipped and corrected consistently",
     "When solid angles are corrected to the view, rays not overlapping the view edge keep their solid angle and those overlapping it share one factor such that the total equals the view area. "
     "A bright ray just outside the view whose disk overlaps the view is kept with the overlap area as solid angle and moved onto the overlap, independently of other such rays, all other outside rays are dropped, and none of the caller's arrays change.",
     ["inputs"], "all ray sets, edge-ray arrangements and numbers of simultaneous edge sources",
     "Tests only use ray sets wholly inside the view.",
     [EB], [("omega setter", "BaseMetricSet.omega"), ("stray handling", "BaseMetricSet.__init__")])
prop("C20", "Peak normalisation conserves energy and touches only the peak's pixels",
     "Consolidating the bright peak removes exactly the pixels attributed to the peak (bright, within the radius of the brightest pixel, in descending order up to the expected energy or the peak ratio), adds one source in their energy-weighted direction with their total energy, and leaves every other ray unchanged; without any pixel above the threshold nothing changes. "
     "Luminance and colour input select the same pixels and area and conserve energy per channel, blurring trades area against luminance at constant energy, and the option forms (parts, zeros kept, peak only, secondary sources) report that same consolidation.",
     ["inputs", "configurations"], "all pixel sets, peak positions, parameters and option combinations",
     "Tests compare totals for one photograph.",
     [IT, ER], [("find_peak/gather_strays", "raytools/imagetools.py"), ("normalize_peak", "raytools/imagetools.py"), ("blur_sun", ER)])
prop("C21", "GSS scores do not depend on what was computed before or alongside",
     "The glare sensation score of an image with given settings is the same whether computed by a fresh model, after any sequence of other images, resolutions and view changes on the same model, or in parallel with other images, and lists of images give scores in input order with the matching illuminance. "
     "Computing before an image is set raises ValueError.",
     ["histories", "schedules"], "all sequences of images, resolutions, views and computations on one model instance, and parallel batches",
     "Tests load two images on one object; stale per-resolution tables only show when view or resolution changes in between.",
     [EG], [("lum setter and resolution-keyed tables", "GSS.lum"), ("vm setter", "GSS.vm"), ("gss_compute/process_gss", EG)],
     [("_res,_vecs,_omega,_mask,_ctheta,_sigma_c", "tables derived from resolution and view", "GSS")])
prop("C22", "Each GSS stage computes its published formula",
     "Pupil size, retinal irradiance, point-spread coefficients, local adaptation, cone response, normalised field response and the final Minkowski sum equal their published formulas for every input and setting, each blur stage conserves a uniform field and total energy away from borders, and switched-off stages are skipped. "
     "Scores and responses are zero outside the view and eccentricity grows from centre to edge between its stated limits.",
     ["inputs", "configurations"], "all luminances, ages, pupil sizes, pigmentation, eccentricities and stage switches",
     "Tests only check that objects initialise and arrays have the right shape.",
     [EG], [("stage methods", "GSS.pupil ... GSS.gss")])
prop("C23", "Retinal density and peak blur functions follow their models and symmetries",
     "Ganglion cell (field) densities along a meridian follow its model (receptive fields) or interpolate its measurements (cells, constant beyond the last and at least one); elsewhere the two bounding meridians, temporal or nasal and superior (up) or inferior, are blended by direction for any model along the meridians. Densities are positive, averaged over both eyes, hence left/right symmetric, and defined at the fovea. "
     "The point-spread function is one at zero, one half at half width and inverted by its inverse, and the blur correction is the squared ratio of blurred to unblurred radius, at least one, growing with peak luminance between its limits (the minimum, and the luminance whose spread reaches the minimum one degree away).",
     ["inputs"], "all visual field positions, quadrants, luminances and solid angles",
     "Tests compare sums and one or two values.",
     [ER], [("densities", "rgcf_density*, rgc_density*, binocular_density"), ("hpsf/inv_hpsf/blur_sun", ER)])
prop("C24", "Duplicate culling and reflection are geometrically sound for any vectors",
     "Culling keeps at least one vector of every group of near-duplicates: no two kept vectors are closer than the tolerance to each other, every removed vector is within the tolerance of a kept one, isolated vectors are always kept, the first vector is kept, and arrays and prebuilt trees give the same mask, again and again. "
     "Reflection mirrors each ray about each normal (for unit normals preserving its length and undone by a second reflection), and reports or filters exactly the results that are unit vectors, for every combination of counts.",
     ["inputs"], "all vector sets, tolerances (including chains of near-duplicates) and batch sizes",
     "Tests use one small random set.",
     [TR], [("cull_vectors", TR), ("reflect", TR)])
prop("C25", "Array selection and resampling pick or average exactly the stated elements",
     "simple_take selects along each named axis, one after another, exactly the elements given by single indices, index lists, arrays, slices (all as in Python, counting from either end) or None, keeping the number of dimensions, and refuses positions and axes that are not there. "
     "Resampling up by whole factors without smoothing repeats each element, with smoothing convolves that with a Gaussian (by default of the factor less one, mirrored at the ends), which keeps constants and the mean; resampling down by whole factors gives the mean of each block; to the same shape gives the data, its Gaussian or its moving mean according to the radius. Data are floating point.",
     ["inputs"], "all array shapes, slice kinds, axes and whole-number factors",
     "Tests use one array per function.",
     [TR], [("simple_take", TR), ("resample", TR)])
prop("C26", "Weighted quantiles and non-uniform smoothing match their definitions",
     "Weighted quantiles interpolate the sorted data over cumulative weight, ignore data at or below the weight threshold, do not depend on the order of the data (but for which of several equal values comes first), are monotone in the quantile and within the data range, and the median is the 0.5 quantile; without weights they are plain quantiles. "
     "Gaussian smoothing of unevenly spaced data gives at each requested coordinate (or at each input coordinate, in input order) the Gaussian-weighted mean, median or quantile of each feature, with the given bandwidth (in samples), sigma (by default after Scott) and scale, and where no data are within reach the line between the neighbours; averages that make no sense raise ValueError.",
     ["inputs"], "all data, weights, quantiles, coordinate orders, bandwidths and averaging methods",
     "No test covers these functions.",
     [TR], [("weighted_quantile/weighted_median", TR), ("non_uniform_gaussian_filter", TR)])
prop("C27", "The command line reports each image's own metrics, in order, where it says",
     "raytools metric prints a header row of column labels and then one row per image, in the order given, whose values are those of the library call with the same options, whatever the number of processes, with gss and gssnb columns last. "
     "The image commands write the documented result file (or standard output) for each input, equal to the library result, and leave inputs untouched; smooth prints the resampled curve.",
     ["inputs", "configurations", "schedules"], "all lists of images, metrics, options and process caps",
     "The command line is not tested at all.",
     [CLI, IT, EG], [("metric/project/align/solid2ang/cleanheader/smooth commands", CLI), ("output naming", IT)])
prop("C28", "Library calls leave their inputs and global numerical state alone",
     "No coordinate, view, metric, peak, retina, resampling or image function changes the arrays passed to it (or views of them), and repeating a call with the same arguments gives the same result. "
     "No call changes the process-wide floating point error handling, working directory or random state.",
     ["histories", "inputs"], "all public functions, and all call sequences sharing argument arrays",
     "Tests use each array once, so in-place changes go unseen.",
     [TR, MA, MB, EB, IT, ER, EC], [("copies before in-place arithmetic", "all modules")])
prop("C29", "The Radiance search path is extended once, in order, without losing entries",
     "Importing raytools or calling set_raypath puts the current directory and the package's (sub)directory at the front of RAYPATH, keeps every existing entry exactly once and in order after them, and repeating the call changes nothing; without a RAYPATH it is just those two.",
     ["histories", "configurations"], "all initial RAYPATH contents and all sequences of set_raypath calls",
     "Tests never look at RAYPATH.",
     ["raytools/__init__.py"], [("set_raypath", "raytools/__init__.py")], [("RAYPATH", "search path", "os.environ")])
prop("C30", "Metrics of an image file are those of its pixels as seen by its view",
     "For every angular Radiance image and every choice of metrics and options, imgmetric returns, in the order asked, what a metric set gives for the rays of the image's pixels: directions and solid angles by the last view of the header (a hemisphere along y when there is none, twice the angle for 2:1 images), luminance by the channel weights given, else by three LuminanceRGB numbers of the header, else by the usual weights. "
     "Channels are kept when a metric needs colour, the peak is consolidated first exactly when asked and with the settings given, scale, threshold and low-light correction are passed on, and the file is left as it is.",
     ["inputs", "configurations"], "all images, headers (view and weights present, repeated, incomplete or absent), metric lists and options",
     "The tests look at sums of a few metrics of one image; headers without view or with weights never occur.",
     [IT, EB, EG, EC], [("imgmetric, hdr2vol, hdr2vm", IT), ("metric sets", "raytools/evaluate")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    print(len(P))
