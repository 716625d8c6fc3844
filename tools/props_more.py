# executed by props.py: further properties
prop("C12", "The flux-marginalised likelihood is the Gaussian marginal of the linear flux model",
     "For any observed flux, design matrix of source and blend columns, noise covariance (scalar, variances or a full matrix) and Gaussian prior on the linear parameters, the returned negative log likelihood is the one obtained by integrating the parameters out: the data are Gaussian with mean M mu and covariance C + M Lambda M^T. Its gradient is the exact one, and reordering data, rescaling flux units, adding a band with no data or compiling the function changes nothing else.",
     ["inputs", "configurations"], "all data lengths, band counts, positive definite covariances and priors",
     "The tests evaluate two or three hand-made data sets; agreement with the marginal distribution is an identity over all matrices.",
     ["likelihood.py"], [("nll_ulens", "likelihood.py"), ("Woodbury identity / determinant lemma", "likelihood.py")], ["nll_ulens"],
     "TLA+ trace validation (TLC): each likelihood recomputed by eliminating the marginal covariance, gradient by its linear system",
     "TLC forms the marginal covariance explicitly in 34-digit arithmetic, a formula that shares nothing with the code's; random well and badly scaled data sets.")
prop("C13", "The linear flux fit minimises chi-square and reports its covariance",
     "For any data, errors (scalar, per-point or absent) and model magnification the fit returns the parameters that minimise the weighted sum of squares, that minimum, and the standard errors of the parameters; scaling the data or the errors and permuting the points scales or permutes the results accordingly.",
     ["inputs"], "all lengths at least 2, all positive errors, all non-degenerate magnifications",
     "Tests fit one noiseless line; scalar and absent errors raised on the pinned tree.",
     ["likelihood.py"], [("linear_chi2", "likelihood.py")], ["linear_chi2"],
     "TLA+ trace validation (TLC): normal equations and covariance evaluated exactly on recorded fits",
     "TLC checks the normal equations, the minimum and the covariance with exact decimal arithmetic on each recorded fit.")
prop("C14", "Annual parallax is the projected, linearly detrended motion of the Earth",
     "For any sky position, reference time and times within decades, the parallax displacement is the projection of the Earth's orbital displacement on north and east, with its value and velocity at the reference time removed: it is linear in (piEN, piEE), vanishes to second order at the reference time, turns a rectilinear trajectory into an unchanged one when the parallax is zero, and agrees with the Earth's true position to the accuracy of a Kepler orbit. Kepler's equation is solved for all anomalies and the derivative does not break at periastron.",
     ["inputs", "histories"], "all sky positions, reference times 1990-2040, times within years of it, all parallax vectors",
     "Tests check the reference-time zero at one field and finite values; sign, projection and phase errors survive them.",
     ["trajectory/parallax.py"], [("set_parallax, compute_parallax", "trajectory/parallax.py"), ("getpsi", "trajectory/parallax.py"), ("peri_vernal", "trajectory/parallax.py")],
     ["set_parallax", "compute_parallax", "getpsi"],
     "TLA+ trace validation (TLC): a specification of the Kepler orbit and projection recomputes every displacement",
     "TLC recomputes the orbit in decimal arithmetic from the published orbital elements; an independent ephemeris (ERFA) bounds the absolute error.")
prop("C15", "FFT magnifications reproduce the brightness-weighted disk average",
     "The fast single-lens solver returns, for every impact parameter, source radius and supported brightness profile, the average of the point-source magnification over the source disk to the documented 0.3 % (1 % at the limb); it is exact on the axis, decreases outwards, tends to the point-source value, and the NumPy and JAX implementations agree. The FFTLog transform reproduces transforms with closed forms.",
     ["inputs", "configurations"], "all impact parameters 0-10+, source radii 1e-4..10, uniform, linear and sqrt limb darkening",
     "Tests compare one or two radii; the linear profile was wrong by several per cent on the pinned tree without a test noticing.",
     ["fastlens/mag_fft.py", "fastlens/mag_fft_jax.py", "fastlens/fftlog.py", "fastlens/fftlog_jax.py"],
     [("magnification.A", "fastlens/mag_fft.py"), ("magnification_uniform/limb", "fastlens/mag_fft_jax.py"), ("fftlog, hankel", "fastlens/fftlog.py")],
     ["mag_disk/mag_limb classes", "fftlog.fftlog"],
     "TLA+ trace validation (TLC): disk averages evaluated by quadrature in the specification",
     "The specification integrates 1-D ring averages (closed quadrature rules in decimal arithmetic) for each recorded value; grid of radii and impact parameters incl. beyond table edges.")
prop("C16", "Special functions are correct, finite and differentiable on their domain",
     "The elliptic integrals, Bessel functions and gamma function that the package exposes agree with their defining identities over the whole documented domain including its edges, and their derivatives are finite and equal the derivative of the function.",
     ["inputs"], "elliptic parameter below 1 (negative, 0 and near 1 included), Bessel arguments of both signs, real and complex gamma arguments away from poles",
     "Tests compare a dozen points with SciPy; derivatives at the origin were NaN and gamma failed at purely imaginary arguments on the pinned tree.",
     ["fastlens/special.py"], [("ellipk, ellipe", "fastlens/special.py"), ("j0, j1, j1p5, j2", "fastlens/special.py"), ("gamma, loggamma", "fastlens/special.py")],
     ["ellipk", "ellipe", "j0", "j1", "j2", "j1p5", "gamma"],
     "TLA+ trace validation (TLC): values from AGM, power series and recurrences in the specification",
     "TLC evaluates AGM, power series with guard digits and the reflection/recurrence identities for each recorded value and derivative.")
prop("C19", "Point matching is a one-to-one greedy assignment and the zero-aware reductions ignore exactly the padding",
     "Matching two equally sized point sets returns a permutation that assigns each point, in order, its nearest partner not yet taken. The zero-aware helpers (first/last nonzero, minimum, maximum, mean, sort, tail trapezoid) return what the same operation on the nonzero entries gives, for every pattern of zeros.",
     ["inputs", "configurations"], "all arrangements of up to five points (distances incl. ties), all zero patterns of vectors up to length 6, plus random ones",
     "Tests use one pattern each; tie and padding patterns are combinatorial.",
     ["utils.py", "caustics/integrate.py"], [("match_points", "utils.py"), ("first_nonzero ... sparse_argsort", "utils.py")],
     ["match_points", "first_nonzero", "last_nonzero", "min_nonzero", "max_nonzero", "mean_nonzero", "sparse_argsort", "trapz_zero_tail"],
     "TLA+ model (TLC) of greedy matching; all its scenarios replayed into the real code and validated",
     "TLC enumerates every cost pattern in the model and proves one-to-one-ness there; each is replayed with real points, and random larger ones are judged by the definition.")
prop("C07", "Uniform-disk magnification by inverse rays equals the area of the images",
     "For any binary or triple lens and any circular source, mag_uniform returns the area of all images of the disk divided by the area of the disk, to a few parts in 1e4 typically and 0.25 % at worst at the default resolution (source radius at least 0.01), wherever the source lies: far away, on folds and cusps, or with images crossing the positive axis of the polar grid, surrounding the origin or lying on it. No image is dropped and none is counted twice.",
     ["inputs", "configurations"], "all binary mass ratios 1e-3..10 and separations .3-3, triples with q, q3 in .1-2.5, source radii 1e-3..1.6, source positions within 4, whenever sampling the limb resolves the images",
     "Tests compare a few well-behaved configurations; region construction depends on where every image lies in (r, theta), and the pinned tree returned 0 or half the magnification for some ordinary binaries.",
     ["inverse_ray/extended_source.py", "inverse_ray/merge_area.py", "inverse_ray/boundary.py"],
     [("mag_uniform", "inverse_ray/extended_source.py"), ("define_regions, calc_source_limb", "inverse_ray/merge_area.py"), ("in_source, distance_from_source, calc_facB", "inverse_ray/boundary.py")],
     ["mag_uniform"],
     "TLA+ trace validation (TLC): the specification walks the image plane ray by ray and accumulates the exact area of the images",
     "TLC certifies the image edges on every ray (roots of a degree 2n+2 polynomial), integrates them by a Gauss rule and compares mag_uniform with the closed turn; a TLC model of the region construction is replayed into define_regions.")
prop("C08", "Limb-darkened magnification by inverse rays equals the brightness-weighted area of the images",
     "For any binary or triple lens, circular source and linear limb-darkening coefficient in [0, 1], mag_limb_dark returns the integral of the surface brightness over all images divided by that over the source, to 1 % at worst and a few parts in 1e4 typically at the default resolution (source radius at least 0.01); with coefficient 0 it is the uniform-disk value.",
     ["inputs", "configurations"], "as C07, with all u1 in [0, 1]",
     "Tests compare a few configurations with another code at one coefficient; normalisation and weighting errors depend on u1, and lost images on the geometry.",
     ["inverse_ray/extended_source.py", "inverse_ray/limb_darkening.py", "inverse_ray/merge_area.py", "inverse_ray/boundary.py"],
     [("mag_limb_dark", "inverse_ray/extended_source.py"), ("Is_limb_1st", "inverse_ray/limb_darkening.py"), ("define_regions", "inverse_ray/merge_area.py")],
     ["mag_limb_dark"],
     "TLA+ trace validation (TLC): brightness-weighted area of the images accumulated along certified rays",
     "As C07, with an inner Gauss rule for sqrt(1 - u^2) along each certified interval.")
prop("C10", "Contour integration gives the same magnification as the area of the images",
     "For single, binary and triple lenses, uniform and limb-darkened disks, mag_extended_source (and magnifications, which switches to a multipole expansion where that suffices) returns the brightness-weighted area of the images over that of the source whenever consecutive limb samples are close on the images: within 2.5 % at worst and 0.15 % typically at the default number of limb points, 0.4 % and 0.03 % with 300 or more. Triple lenses are covered while the disk does not touch a caustic.",
     ["inputs", "configurations"], "single lenses; binaries with q 1e-3..10, s .3-3, sources on, near and off caustics; triples off caustics; u1 in [0, 1]",
     "Tests compare a few configurations; tracking, segmenting and stitching images into contours depends on every caustic crossing.",
     ["caustics/extended_source/mag.py", "caustics/extended_source/limb.py", "caustics/extended_source/segments.py", "caustics/extended_source/contours.py", "caustics/integrate.py", "caustics/lightcurve.py"],
     [("mag_extended_source", "caustics/extended_source/mag.py"), ("_images_of_source_limb", "caustics/extended_source/limb.py"), ("_merge_open_segments", "caustics/extended_source/segments.py"), ("_integrate_unif, _integrate_ld", "caustics/integrate.py"), ("magnifications", "caustics/lightcurve.py")],
     ["mag_extended_source", "magnifications"],
     "TLA+ trace validation (TLC): the same image-area specification as C07/C08",
     "TLC recomputes the weighted image area with certified rays for every recorded magnification of the contour code; known failures for undersampled and triple caustic crossings are recorded as findings.")
prop("C09", "The multipole correction is the Taylor expansion of the disk average",
     "For one, two or three lenses and any source position off the caustics, mag_hexadecapole returns, image by image, the point-source magnification plus the exact second- and fourth-order terms of its average over the (linearly limb-darkened) source disk, summed over the valid images only; the second result is the sum of the absolute corrections. Masked entries contribute nothing, and batches, grids and single positions agree.",
     ["inputs", "configurations"], "all lens configurations as C02, source positions on both sides of caustics, source radii .003-.5, u1 in [0, 1], all image masks",
     "Tests compare sums at a few positions with other approximations of the same order; a wrong coefficient in one of forty terms stays below their tolerance.",
     ["multipole.py"], [("mag_hexadecapole", "multipole.py"), ("_mag_hexadecapole_cassan", "multipole.py")], ["mag_hexadecapole"],
     "TLA+ trace validation (TLC): every image followed by Newton steps in the specification, moments by the 13-point rule",
     "TLC polishes every recorded image and its neighbours in 34-digit arithmetic, forms the second and fourth moments of the signed magnification from three rings and compares each image's correction to 1e-5 of itself.")
prop("C11", "Image tracks along the limb are stitched into the closed outlines of the images",
     "Whatever sequence of caustic crossings the limb of the source makes - images born and destroyed in pairs, several pairs alive at once, crossings next to the start of the limb, slots permuted when the limb closes - the contour code turns the unordered images of the limb samples into tracks and the tracks into closed outlines: every image point belongs to exactly one outline, consecutive points of an outline are images of neighbouring limb points or the two images of a pair at its fold, each outline keeps its orientation, and the number of outlines is that of the image components. Every track point is an image of its limb point with the right parity.",
     ["configurations", "histories"], "up to three outlines (the package's limit), outlines shorter than four times the limb, folds resolved by the sampling; all pair histories of the model's size for two- and three-lens slot counts; real binaries and triples on all caustic topologies",
     "Tests check a handful of binaries through the final magnification; which segments have to be linked depends on the order of the crossings, which is combinatorial.",
     ["caustics/extended_source/limb.py", "caustics/extended_source/segments.py", "caustics/extended_source/contours.py"],
     [("_images_of_source_limb", "caustics/extended_source/limb.py"), ("_get_segments, _merge_open_segments", "caustics/extended_source/segments.py"), ("_contours_from_closed_segments, _contours_from_open_segments", "caustics/extended_source/contours.py")],
     ["mag_extended_source"],
     "TLA+ model (TLC) of image births and deaths along the limb; all its histories replayed into the real code and validated",
     "TLC enumerates every history of pair births and deaths around the limb and proves on the model that the outlines partition the track; each is drawn as smooth curves, fed to the real segment and contour functions, and the result is judged by the specification; real limbs are judged the same way.")
prop("C20", "Light curves use the multipole only where it suffices: every point is accurate",
     "Every value of an adaptive light curve (mag_binary, mag_triple, and the contour-based magnifications) is within 0.8 % (typically 0.02 %; 1.6 % for source radii below 0.01) of the brightness-weighted area of the images over that of the source, wherever the source lies relative to folds, cusps and planetary caustics, for stellar and planetary mass ratios alike: positions left to the multipole expansion are those where it is accurate to 0.6 %, and refined positions carry the full value.",
     ["inputs", "configurations"], "mass ratios 1e-5..10, separations .3-3, source radii .003-.3, positions where the multipole is wrong by more than the tolerance although the source does not touch the caustic, and others; triples; uniform and limb-darkened",
     "Tests compare one trajectory with another code at 1e-2 of a few points; whether a cheap estimate is accepted wrongly depends on the distance to each kind of caustic.",
     ["inverse_ray/lightcurve.py", "inverse_ray/cond_extended.py", "caustics/lightcurve.py", "multipole.py"],
     [("mag_binary, mag_triple", "inverse_ray/lightcurve.py"), ("_caustics_proximity_test, _planetary_caustic_test", "inverse_ray/cond_extended.py"), ("magnifications, _caustics_proximity_test, _planetary_caustic_test", "caustics/lightcurve.py")],
     ["mag_binary", "mag_triple", "magnifications"],
     "TLA+ trace validation (TLC): each light-curve value against the area of the images accumulated along certified rays",
     "Positions are chosen by an independent estimate where accepting the multipole would be wrong; TLC recomputes the image area with certified rays and compares each value of the light curve.")
prop("C17", "Automatic derivatives are the derivatives of the magnification",
     "Forward- and reverse-mode derivatives of every magnification function with respect to every parameter (source position and radius, limb darkening, separations, mass ratios, angle, parallax) are finite and equal the derivative of the exact magnification: to rounding for point sources, multipole light curves, the FFT solver and parallax; for contours exactly away from caustics; for the inverse-ray solvers, which smooth the source edge, to about 1e-4 (uniform) or 5e-3 (limb darkened) of the magnification per source radius of displacement, and no worse than 5 % and 15 % away from caustics. The two modes agree.",
     ["inputs", "configurations"], "all lens configurations and source positions of C02, C07-C10 and all directions of displacement, incl. the symmetry axis; near caustics (within 1.5 radii) to 30 % of magnification and derivative",
     "Tests look at the shape and finiteness of gradients; the derivative with respect to the limb-darkening coefficient had the wrong sign, and gradients on the lens axis were NaN, on the pinned tree.",
     ["point_source.py", "poly_solver.py", "inverse_ray/boundary.py", "inverse_ray/limb_darkening.py", "inverse_ray/extended_source.py", "caustics/integrate.py", "multipole.py", "fastlens/special.py", "trajectory/parallax.py"],
     [("poly_roots implicit JVP", "poly_solver.py"), ("in_source, calc_facB, step_smooth custom JVPs", "inverse_ray/boundary.py"), ("Is_limb_1st custom JVP", "inverse_ray/limb_darkening.py"), ("getpsi custom JVP", "trajectory/parallax.py"), ("ellipk/ellipe, Bessel JVPs", "fastlens/special.py")],
     ["jax.jvp / jax.grad of mag_point_source, mag_uniform, mag_limb_dark, mag_binary, mag_triple, mag_extended_source, fastlens A, compute_parallax"],
     "TLA+ trace validation (TLC): derivatives recomputed by the specification (exact implicit differentiation; image areas of displaced configurations)",
     "TLC differentiates the lens equation at every certified image for point sources, walks the image plane for the two displaced configurations for finite sources, and judges recorded JVPs and VJPs against them.")
