VC_PY = 'contracts on the real Python functions, obligations by symbolic execution of their own code, z3'
VC_C = 'contracts on the real C functions, obligations from the clang AST with loop invariants, z3'
COMMON = ' Floating point is treated as real arithmetic and integers as mathematical; the contracts assumed of numpy/numexpr/ctypes are listed in the evidence. A bounded oracle on the rebuilt code validates the assumed contracts and supplies failing inputs; it is not counted as proof.'

prop('C01', 'The split of work over cores and chunks covers every slice exactly once',
     'For every axis length, number of cores and chunk size, the parts into which the work is split are non-empty, in order, do not overlap and together cover every index of the axis exactly once, with at least one and never more workers than indices or than were asked for. With a chunk size of zero every index is its own part, and without one there is at most one part per worker. Distributing a function over an array this way gives the same array as applying it to the parts serially.',
     ['inputs', 'configurations'], 'all axis lengths >= 1, all core counts, all chunk sizes (none, zero, any positive)',
     'Tests split a few small shapes on the cores of one machine; a lost or doubled slice shows only for particular remainders of length by cores and chunk.',
     [S + 'util/mproc.py', S + 'recon/algorithm.py', S + 'sim/project.py'],
     [('get_ncore_slices / get_ncore_nchunk', S + 'util/mproc.py'), ('distribute_jobs', S + 'util/mproc.py'),
      ('get_worker_ncore_slices', S + 'util/mproc.py')],
     VC_PY, 'Proved for all integers: partition, order, non-emptiness and worker count of the split; job distribution is checked by the bounded oracle.' + COMMON)
R_ = LT + 'recon/'
ALLRECON = [S + 'recon/algorithm.py', S + 'recon/vector.py', S + 'util/extern/recon.py'] + [R_ + f for f in ('utils.c', 'art.c', 'bart.c', 'fbp.c', 'grad.c', 'osem.c', 'ospml_hybrid.c', 'ospml_quad.c', 'tikh.c', 'tv.c', 'project.c', 'vector.c')] + [LT + 'gridrec/gridrec.c']
prop('C02', 'Every slice is reconstructed and projected on its own',
     'The reconstruction (every compiled method of recon: art, bart, fbp, gridrec, grad, mlem, osem, ospml_hybrid, ospml_quad, pml_hybrid, pml_quad, sirt, tikh, tv, and vector) or the projection (project, project2) of a slice depends only on that slice, its own rotation centre, its own initial image and the shared parameters: whatever the number of cores and chunks, the other slices in the stack (also when they hold NaN) or their order, each slice comes out as it does when it is processed alone, up to rounding.',
     ['inputs', 'configurations', 'schedules'], 'all stacks of slices, per-slice centers, initial images, core and chunk counts and slice orders',
     'Tests compare one stack with stored results; scratch carried over from one slice to the next, or a wrong chunk offset, shows only for particular neighbours, chunk borders or centers.',
     ALLRECON + [S + 'sim/project.py'],
     [('scratch reset and slice offsets', R_ + 'art.c, bart.c, ...'), ('_dist_recon / _run_recon', S + 'recon/algorithm.py'), ('project', S + 'sim/project.py')],
     VC_C, 'Proved for art, bart, fbp, grad, osem, ospml_hybrid, ospml_quad, tikh, tv, project, project2, vector: every access to an array that holds slices stays inside the slice of the running iteration, and nothing written while one slice is processed is read for another. gridrec (pairs slices) and the Python distribution are checked by the bounded oracle.' + COMMON)
prop('C03', 'The native code stays inside of its arrays and uses no unset values',
     'For every input that the public functions accept, the compiled code (reconstruction, projection, gridrec, median filter, inpainting, ring removal, down- and upsampling, background normalization, stripe removal and detection) reads and writes only inside of the arrays it is given and the memory it allocates, writes only to its output and work arrays, uses no value that was never set, divides no integer by zero, frees what it allocates exactly once, and its parallel loops share no work variable. Arguments that would lead out of bounds are refused with an exception.',
     ['inputs', 'configurations', 'schedules'], 'all array contents and shapes (down to length one), window sizes, centers, grids, subsets and thread counts',
     'Tests run comfortable sizes; a read past the end returns some value and an unset one is often zero, so nothing fails.',
     ALLRECON + [LT + 'misc/' + f for f in ('inpainter.c', 'median_filt3d.c', 'morph.c', 'remove_ring.c')] + [LT + 'prep/' + f for f in ('prep.c', 'stripe.c', 'stripes_detect3d.c')] + [S + 'util/extern/misc.py', S + 'util/extern/prep.py', S + 'util/extern/gridrec.py'],
     [('array accesses', LT + 'recon, misc, prep, gridrec'), ('argument validation', S + 'recon/algorithm.py, misc/corr.py, prep/stripe.py')],
     VC_C, 'Proved, with no bound, for 51 C functions (all of recon/, prep/, median_filt3d.c, inpainter.c, morph.c): bounds of every access, frames, definite initialisation, leaks and double frees, integer division, private variables of parallel loops. gridrec.c and remove_ring.c (arrays of row pointers) and the Python callers are covered by a bounded run under AddressSanitizer with NaN-filled memory.' + COMMON)
prop('C04', 'The projector computes the integrals along the rays',
     'project, project2 and project3 return, for every angle, slice and detector pixel, the integral of the object along the ray of that pixel: the sum over the pixels it crosses of the length of the crossing times the pixel value (its component along the ray for vector fields), in the geometry given by the angles, the rotation centre of the slice, the grid and the detector width, with emission/transmission, padding and the output order as requested. Rays that run along pixel edges or through pixel corners may be attributed to either neighbour.',
     ['inputs', 'configurations'], 'all objects, grids, angles, centers and detector widths',
     'Tests project one phantom at a few angles; an error in one quadrant, for non-square grids, off-centre axes or rays near the grid border is invisible there.',
     [S + 'sim/project.py', R_ + 'project.c', R_ + 'utils.c', S + 'util/extern/recon.py'],
     [('project, project2, project3', R_ + 'project.c'), ('ray geometry', R_ + 'utils.c'), ('geometry defaults and padding', S + 'sim/project.py')],
     VC_C, 'Proved for utils.c and project.c: the pixel edges, every crossing on the grid, sorted neighbours never both on an outer line, every pixel index valid, every length non-negative and initialised, every access in bounds. That the lengths are the exact ones is decided by the bounded oracle against an independent model.' + COMMON)
prop('C05', 'MLEM, OSEM and penalised-likelihood images stay non-negative and finite',
     'For non-negative data and a non-negative initial image (and positive penalty parameters) every image that mlem, osem, ospml_quad, ospml_hybrid, pml_quad and pml_hybrid return is non-negative and finite, whatever the data (zeros, empty or dark views included), grid (at least two pixels per axis for the penalised methods), angles, number of iterations, subsets and their order.',
     ['inputs', 'configurations'], 'all non-negative data and initial images, all subset choices and iteration counts, positive penalty parameters',
     'Tests compare one image; a division by an empty ray sum or a cancelled root shows only for particular zeros in the data.',
     [R_ + f for f in ('osem.c', 'ospml_quad.c', 'ospml_hybrid.c', 'utils.c')] + [S + 'recon/algorithm.py'],
     [('osem', R_ + 'osem.c'), ('ospml_quad', R_ + 'ospml_quad.c'), ('ospml_hybrid', R_ + 'ospml_hybrid.c')],
     VC_C, 'Non-negativity is proved for osem, ospml_quad and ospml_hybrid (mlem and pml_* call them with one block) over the reals, where x/0 is only assumed not to make a non-negative number negative; finiteness is checked by the bounded oracle.' + COMMON)
prop('C06', 'The iterative methods follow their update rules',
     'art, bart, sirt, mlem, osem, ospml_quad, ospml_hybrid, pml_quad, pml_hybrid, grad, tikh, tv and fbp (back-projection) return, up to rounding, the image that their documented update rule gives after the requested number of iterations from the given initial image: the same rays and lengths as the projector, the subsets of views in the given order (the first ones one view longer when they do not divide evenly), and the given regularization parameters and prior.',
     ['inputs', 'configurations'], 'all data, grids, angles, centers, initial images, iteration counts, subsets, orders and parameters (away from numerically degenerate ray geometry)',
     'Tests compare one square problem with stored results; wrong subsets, borders, non-square grids or parameters that only matter later stay hidden.',
     ALLRECON[:-1],
     [('update loops', R_ + 'art.c, bart.c, ...'), ('defaults and argument passing', S + 'recon/algorithm.py')],
     VC_C, 'Proved for all nine C functions: everything that an update reads has been initialised for this slice and iteration, the frame of the result, and the subset bookkeeping that keeps every access in bounds. The values of the updates are decided by the bounded oracle against an independent double precision implementation.' + COMMON)
MISC, PREP = S + 'misc/', S + 'prep/'
prop('C07', 'Down- and upsampling average and repeat blocks of 2**level elements',
     'downsample(arr, level, axis) returns along the axis the means of the consecutive groups of 2**level elements (elements that do not fill a group at the end are left out), and upsample repeats every element 2**level times along the axis; the other axes keep their length, order and values, for every axis and shape, type and layout of the input. Downsampling what was upsampled gives the original.',
     ['inputs'], 'all 3D arrays, axes and levels (with at least one full group)',
     'Tests compare one array per axis with stored values; a wrong stride shows only for axes of different lengths, an uneven rest only for lengths that are no power of two.',
     [MISC + 'morph.py', S + 'util/extern/misc.py', LT + 'misc/morph.c'],
     [('downsample, upsample', MISC + 'morph.py'), ('sample', LT + 'misc/morph.c')],
     VC_PY, 'Proved: the shape of the result, what the compiled function is given (types, sizes, contiguity, bin size against its C contract), that the C function stays in bounds, initialises its whole result and shares nothing between iterations. The values (mean, repetition) are decided by the bounded oracle.' + COMMON)
prop('C08', 'Normalization with flat and dark fields, and minus log, follow their formula',
     'normalize returns (data - dark) / (flat - dark) at every pixel, with dark and flat averaged over their images by the mean or the median as asked, the denominator raised to a small positive number where it is smaller, and values above the cutoff set to the cutoff. normalize_nf does so with the median of the group of flat fields nearest to the projection: group m of the flats was taken at projection flat_loc[m], and the projections change to the next group half-way between two locations, normalize_roi divides every projection by the mean of its own region of interest, and minus_log returns the negative natural logarithm of every element; with out= the result is put there. The number of cores does not matter.',
     ['inputs', 'configurations'], 'all projections, flat and dark fields, numbers of fields, locations, cutoffs, regions, types and layouts',
     'Tests use one data set; a wrong group, border between groups, order of clipping or single flat field shows only for other locations and counts.',
     [PREP + 'normalize.py'],
     [('normalize, normalize_nf, normalize_roi, minus_log', PREP + 'normalize.py')],
     VC_PY, 'Proved for all sizes and values: the formula at every pixel for normalize, normalize_roi, minus_log and normalize_nf (each projection and its group), types, out=, worker count, inputs unchanged; averages are uninterpreted functions of the averaged images.' + COMMON)
prop('C09', 'Background normalization divides by the line through the air on both sides',
     'normalize_bg(tomo, air) divides every row of every projection by the straight line that runs from the mean of its first `air` pixels to the mean of its last `air` pixels (a mean of zero counts as one), independently of all other rows and of the number of cores and chunks, and refuses numbers of pixels below one or above the width.',
     ['inputs', 'configurations'], 'all projections, widths of the air and worker counts',
     'Tests compare one small array; an off-by-one in the slope or a row offset shows only for other widths and rows.',
     [PREP + 'normalize.py', S + 'util/extern/prep.py', LT + 'prep/prep.c'],
     [('normalize_bg', PREP + 'normalize.py'), ('normalize_bg', LT + 'prep/prep.c')],
     VC_C, 'Proved: the call of the compiled function with the rows of every part, the refusal of wrong widths, and bounds, initialisation and independence of the rows in C. The values are decided by the bounded oracle.' + COMMON)
prop('C10', 'The filters compute their definition at every pixel, slice by slice',
     'median_filter, gaussian_filter and sobel_filter filter every slice along the axis by itself (as scipy does for a 2D image); remove_outlier replaces a pixel by the median of its neighbourhood in its slice exactly where it exceeds that median by at least dif, remove_outlier1d does the same along one axis; median_filter3d returns the median of the cube around every voxel and remove_outlier3d replaces a voxel by it exactly where it differs by at least dif; remove_nan and remove_neg replace exactly the NaN or negative elements; median_filter_nonfinite replaces exactly the non-finite elements by the median of the finite ones around them; adjust_range limits the values to the given range. Shape and axes keep their order and the number of cores does not matter.',
     ['inputs', 'configurations'], 'all 3D arrays (axes down to length one), axes, window sizes, thresholds, types, layouts and worker counts',
     'Tests compare one small array with stored values; borders, even windows, other axes and thresholds exactly met stay untested.',
     [MISC + 'corr.py', S + 'util/extern/misc.py', LT + 'misc/median_filt3d.c'],
     [('slice-wise filters and outliers', MISC + 'corr.py'), ('medianfilter_main_*', LT + 'misc/median_filt3d.c')],
     VC_PY, 'Proved for all sizes and values: each slice is filtered once by the given scipy filter and put in its place, the outlier formula, remove_neg and adjust_range at every element, types and arguments of the compiled 3D median, and bounds, initialisation and independence of its C code. scipy filters are uninterpreted; the median of the cube is decided by the bounded oracle.' + COMMON)
prop('C11', 'Inpainting fills the mask from known neighbours and leaves the rest alone',
     'inpainter_morph leaves every pixel outside of the mask exactly as it is. One iteration gives the masked pixels that have known neighbours in their window a value within the range of the known values in that window (their distance-weighted mean, a median or a random one of them), the others stay; with iterations=0 it goes on until every masked pixel that can be reached is filled. With an axis every slice is filled by itself as a 2D image, without one the 3D neighbourhood is used. Wrong shapes, types of mask and inpainting methods are refused.',
     ['inputs', 'configurations', 'schedules'], 'all 2D and 3D data, masks that leave something known, windows, methods and thread counts',
     'Tests compare one masked array; a changed known pixel or a value from outside of the window is invisible for other masks.',
     [MISC + 'corr.py', S + 'util/extern/misc.py', LT + 'misc/inpainter.c'],
     [('inpainter_morph', MISC + 'corr.py'), ('Inpainter_morph_main', LT + 'misc/inpainter.c')],
     VC_C, 'Proved: what the compiled function is given for every axis (slices, types, sizes), the refusal of wrong arguments, and bounds, initialisation, leaks and private variables of the C code. The values are decided by the bounded oracle.' + COMMON)
prop('C12', 'Stripe removal and detection treat every sinogram by itself, as defined',
     'Each stripe filter (remove_stripe_fw, _ti, _sf, _based_sorting, _based_filtering, _based_fitting, _based_interpolation, remove_large_stripe, remove_dead_stripe, remove_all_stripe) applies its algorithm to every sinogram by itself, with the given parameters and whatever the number of cores and chunks, keeps shape and type, and leaves sinograms without stripes as they are up to rounding. remove_stripe_sf adds to every column the difference between its smoothed and its own mean. stripes_detect3d returns weights that follow its ratio of gradients, and stripes_mask3d marks exactly the voxels whose weights are below the threshold after removing stripes that are too short, not deep enough and merging those that are too close. Wrong arguments are refused.',
     ['inputs', 'configurations'], 'all projections, parameters and worker counts',
     'Tests compare one data set with stored results; a parameter that is not passed on, or state shared between sinograms, only shows for other parameters or stacks.',
     [PREP + 'stripe.py', S + 'util/extern/prep.py', LT + 'prep/stripe.c', LT + 'prep/stripes_detect3d.c'],
     [('remove_stripe_*', PREP + 'stripe.py'), ('remove_stripe_sf', LT + 'prep/stripe.c'), ('stripes_detect3d, stripes_mask3d', LT + 'prep/stripes_detect3d.c')],
     VC_PY, 'Proved: every sinogram of every part goes once through its filter with the given parameters and comes back in place; calls of the compiled functions against their C contracts; bounds, initialisation and independence in C. The values of the filters are decided by the bounded oracle.' + COMMON)
prop('C13', 'Functions leave their inputs as they are and honour out=',
     'No function of tomopy.prep, misc, sim and recon changes the contents, shape or type of an array it is given (except those that are documented or known to work in place on float32 data: adjust_range, remove_nan, remove_neg, circ_mask, median_filter_nonfinite, scale, shift_images, add_jitter, add_gaussian, add_salt_pepper, and init_recon of recon), and the result does not share memory with an input. Where there is an out= argument the result is put into it, whatever its layout and also when it is the input itself, is the same as without it, and is returned.',
     ['inputs', 'histories'], 'all inputs, layouts and out arrays (new, strided, the input itself)',
     'Tests look at results; a changed input shows only when it is used again, an ignored out only when it is read.',
     [MISC + 'corr.py', MISC + 'morph.py', PREP + 'normalize.py', PREP + 'stripe.py', PREP + 'phase.py', PREP + 'alignment.py', S + 'util/mproc.py', S + 'recon/algorithm.py', S + 'sim/project.py'],
     [('copies and out=', MISC + 'corr.py, morph.py, ' + PREP + 'normalize.py'), ('shared copies', S + 'util/mproc.py')],
     VC_PY, 'Proved for the functions under contract in C07 to C12, C16 to C19: no input buffer is written and, where out is given, it holds the result. The other functions are covered by the bounded oracle over all public functions.' + COMMON)
prop('C14', 'Results depend on the values of the arrays, not on type or memory layout',
     'The same values give the same result (up to the rounding of the element type) whatever the element type that holds them exactly (float32, float64, and integers where the function takes them), the byte order and the memory layout: Fortran order, strided, reversed, transposed, read-only or a part of a larger array. Arrays that reach compiled code have the element type and are contiguous as it expects.',
     ['inputs', 'configurations'], 'all element types and memory layouts of all inputs',
     'Tests use fresh float32 or float64 arrays in C order; a wrong assumption shows only for other layouts, and silently.',
     [S + 'util/dtype.py', S + 'util/extern/misc.py', S + 'util/extern/prep.py', S + 'util/extern/recon.py', MISC + 'corr.py', MISC + 'morph.py', PREP + 'normalize.py', PREP + 'stripe.py', S + 'recon/algorithm.py'],
     [('as_float32, as_int32, as_sharedmem', S + 'util/dtype.py'), ('calls of compiled functions', S + 'util/extern')],
     VC_PY, 'Proved for the functions under contract in C07 to C12 and C16, for inputs of unknown layout and several element types: arrays passed to compiled functions have their element type, size and contiguity and results hold the defined values. The rest is covered by the bounded oracle over all public functions.' + COMMON)
prop('C15', 'recon checks its arguments, reports errors and leaves no trace',
     'recon refuses, with an exception and before it computes anything, unknown methods and keywords that do not belong to the method, angles, centers, initial images, priors, orders of projections, numbers of blocks and parameters that do not fit the data; what it accepts reaches the method unchanged, with the documented defaults. A method that is a Python function gets every slice exactly once, with its data, angles, center and initial image, and its result is returned. An exception in a worker (of recon and of the filters that use threads) is raised to the caller. A call does not depend on earlier calls, and leaves the environment and the defaults as they were.',
     ['inputs', 'configurations', 'histories', 'faults'], 'all arguments, methods, worker and chunk counts, failing workers and sequences of calls',
     'Tests call each method correctly once; wrong arguments, errors in threads and repeated calls are not tried.',
     [S + 'recon/algorithm.py', S + 'util/extern/recon.py', MISC + 'corr.py', S + 'util/mproc.py'],
     [('recon', S + 'recon/algorithm.py'), ('_dist_recon', S + 'recon/algorithm.py')],
     VC_PY, 'Proved for all sizes: which arguments are refused, what a Python function and each of 13 compiled methods are given (types, sizes, contiguity, values of the keywords, slices of the prior), that the results come back in place, and that an error of a part is raised and the environment restored. Unknown methods, sequences of calls, gridrec and the filters are covered by the bounded oracle.' + COMMON)
prop('C16', 'Padding, 360 to 180 degree stitching and trimming move values as defined',
     'pad puts the array in the middle of the padded one, with the given number of elements (or the default one) on both sides of the axis, filled with the constant or the edge value; sino_360_to_180 joins every projection of the first half with the mirrored one of the second half at the given overlap, blended linearly where they overlap, on the side given by rotation; trim_sinogram cuts the rows around the trace of the given point; circ_mask sets exactly the pixels outside of the circle of the given ratio to the given value. All other values are kept exactly.',
     ['inputs'], 'all arrays (axes down to length one), axes, widths, overlaps, centers and ratios',
     'Tests compare one small array; off-by-ones at other overlaps, widths or odd lengths stay hidden.',
     [MISC + 'morph.py', MISC + 'corr.py'],
     [('pad, sino_360_to_180, trim_sinogram', MISC + 'morph.py'), ('circ_mask', MISC + 'corr.py')],
     VC_PY, 'Proved for all sizes and values: every element of the result of pad, sino_360_to_180, trim_sinogram and circ_mask.' + COMMON)
prop('C17', 'Phase retrieval applies the Paganin filter to every projection',
     'retrieve_phase returns for every projection (of even size of at least two pixels) the inverse Fourier transform of its transform times the normalized filter 1 / (wavelength * dist * |frequency|**2 / (4 pi) + alpha), cut out of the projection padded by repeating its edges (to the next power of two that also holds the diffraction cone) if pad is set; each projection by itself, whatever the number of cores and chunks.',
     ['inputs', 'configurations'], 'all projections of even size, pixel sizes, distances, energies, alphas, padding or not, worker counts',
     'Tests compare one square padded projection; swapped axes, wrong padding or frequencies only show for other shapes.',
     [PREP + 'phase.py'],
     [('retrieve_phase', PREP + 'phase.py')],
     VC_PY, 'Proved for all sizes and values: padding, pad width, grid of frequencies, filter, multiplication in the right order of frequencies, and cutting out. The Fourier transform is uninterpreted and checked by the bounded oracle.' + COMMON)
prop('C18', 'Geometric corrections map pixels as their model says',
     'distortion_correction_proj and distortion_correction_sino take every pixel by linear interpolation from the position the polynomial backward model gives (clipped to the image), and agree with each other; load_distortion_coefs returns the numbers of the file in order; blur_edges multiplies by a ramp that falls from one to zero between the two radii; scale divides by the largest magnitude; find_slits_corners_aps_1id finds the corners of a rectangular opening (methods simple and quadrant), calc_slit_box_aps_1id and remove_slits_aps_1id cut out the box around the corners; shift_images shifts by whole pixels; calc_affine_transform recovers an affine map from points; detector_drift_adjust_aps_1id maps the corners of every image to the reference. Each image is treated by itself, whatever the number of cores.',
     ['inputs', 'configurations'], 'all images, coefficients, centers, radii, corners and shifts',
     'Tests cover one image or none; swapped axes, other sizes and chunks are untested.',
     [PREP + 'alignment.py', MISC + 'npmath.py'],
     [('distortion correction', PREP + 'alignment.py'), ('slits', PREP + 'alignment.py'), ('calc_affine_transform', MISC + 'npmath.py')],
     VC_PY, 'Proved for all sizes and values: the sampled positions of both distortion corrections (one to three coefficients), blur_edges, scale, the slit box and its removal. Corner finding, affine fit, shifts and coefficient files are covered by the bounded oracle.' + COMMON)
prop('C19', 'Phantoms and simulated data follow their models',
     'phantom puts into every voxel the sum of the values of the ellipsoids (centre, axes, Euler angles) that contain it and shepp3d the modified Shepp-Logan head, of the given size and type; angles are evenly spaced from the first to the last; get_center gives every slice its center; propagate_tie follows the transport of intensity equation with central differences; probe_gauss is a Gaussian of the given width, place and height; calc_intensity returns the squared magnitude of the probe times the projection (or of its centred Fourier transform) at every scan position that fits, in row order; add_drift, add_rings, add_zingers, add_salt_pepper and add_gaussian change the data only as documented.',
     ['inputs', 'configurations'], 'all sizes, parameters, data and random numbers',
     'Tests check shapes or one stored phantom; rotated ellipsoids, non-cubic sizes and other scans are untested.',
     [MISC + 'phantom.py', S + 'sim/project.py', S + 'sim/propagate.py'],
     [('phantom', MISC + 'phantom.py'), ('noise, angles, centers', S + 'sim/project.py'), ('propagation', S + 'sim/propagate.py')],
     VC_PY, 'Proved for all sizes and values: phantom for up to two ellipsoids, angles, centers, propagate_tie, probe_gauss, the squared magnitude of calc_intensity, drift, rings, zingers, salt and pepper and Gaussian noise for any random numbers. Scan positions, the Fourier transform, shepp3d and the images are covered by the bounded oracle.' + COMMON)
NA = 'claimed by no check: '
prop('C20', 'Rotation centres found lie close to the true ones',
     'find_center, find_center_vo and find_center_pc return, for sinograms of an object that fits the detector, a rotation axis within the tolerance of the true one.',
     ['inputs'], 'all objects, angles, noise levels and search ranges', 'Tests find the centre of one object.',
     [S + 'recon/rotation.py'], [('find_center, find_center_vo, find_center_pc', S + 'recon/rotation.py')], VC_PY, '', claim=False,
     reason='The result is the minimiser of an image-quality metric over reconstructions or Fourier transforms: no functional contract of the code implies closeness to the true centre (it is an empirical property of objects and metrics), so a deductive verifier has nothing to discharge. The dependence on type, layout and inputs of these functions is covered under C13 and C14.')
prop('C21', 'gridrec and the iterative methods approach the true object',
     'With enough angles and iterations the reconstruction of projections of an object approaches the object, in gridrec to the accuracy of its gridding kernel.',
     ['inputs'], 'all objects, grids, angles and iteration counts', 'Tests compare one phantom with stored results.',
     [LT + 'gridrec/gridrec.c', R_ + 'utils.c'], [('gridrec', LT + 'gridrec/gridrec.c')], VC_C, '', claim=False,
     reason='An asymptotic approximation property (convergence, accuracy of an FFT gridding kernel): it needs analysis of floating-point Fourier sums and of spectra of ray matrices, beyond what contracts discharged by an SMT solver can express. What single steps compute is decided under C04 and C06, memory safety under C03, slice independence under C02.')
prop('C22', 'The accelerated (C++/CUDA) methods agree with the reference ones',
     'With accelerated=True, mlem and sirt return the images of the plain methods to the accuracy of their rotation-based projector.',
     ['inputs', 'configurations'], 'all data, pools and devices', 'The tests skip these methods where the library is not built.',
     [LT + 'accel/cxx', S + 'util/extern/accel.py'], [('accel', LT + 'accel')], VC_C, '', claim=False,
     reason='libtomo-accel is not built in this environment (no OpenCV/CUDA), its C++ sources are outside of what the installed deductive tools accept, and nothing could be replayed.')
