prop("C16", "Genus curves count objects above minus below every threshold",
     "For each smoothing radius and threshold the genus value is the number of connected regions above the threshold minus the number below it, counted over valid pixels only, with regions smaller than the requested size ignored. "
     "Thresholds span the requested percentiles or values; radii, beam and areas given in pixels, angles or parsecs mean the same scale.",
     ["inputs", "configurations"],
     "for all small images (all assignments over a small value alphabet, with missing pixels), thresholds including ties, both connectivities, size cuts, radii and units",
     "One stored curve for one map and one radius cannot show that missing pixels, ties, connectivity or the size cut are handled for other images.",
     [S + "genus/genus.py"],
     [("object counting", S + "genus/genus.py"), ("unit conversion", "turbustat/io/input_base.py and base_statistic.py")],
     "exhaustive enumeration of small images x thresholds x options on the real code against a flood-fill reference model",
     EXH + "Smoothed images are computed by an independent direct convolution.")

prop("C17", "The SCF surface and spectrum follow their definition",
     "Each point of the correlation surface is one minus the root-mean-square difference of spectra separated by that lag, normalised by their power, over the channels present in both spectra, and the mean over all positions with a usable pair. "
     "Periodic or cut boundaries, fractional lags and lags in pixels, angles or parsecs are honoured; the surface is symmetric, one at zero lag, and the one-dimensional spectrum averages it in radial bins and wedges.",
     ["inputs", "configurations"],
     "for all cubes over a small alphabet with missing voxels, lag sets, boundaries, units and azimuthal wedges",
     "Tests use one cube without missing spectra and a single lag set against stored numbers.",
     [S + "scf/scf.py", S + "psds.py"],
     [("surface", S + "scf/scf.py"), ("spectrum", S + "psds.py")],
     "exhaustive enumeration of small cubes x lag sets x boundaries against a direct loop reference",
     EXH + "A stored test value pins a doubled lag with boundary='cut'; that is listed as a known finding.")

prop("C21", "Global and local moments follow their weighted definitions",
     "The mean, variance, skewness and kurtosis maps are the weighted moments of the pixels in the circular window around each pixel, with wrapped or padded edges, and the global moments use all pixels. Missing values carry no weight, windows with too few valid pixels give missing results, and the histograms bin exactly those maps.",
     ["inputs", "configurations"],
     "for all pixels of all small shapes, windows, boundaries, weights, valid-pixel fractions, missing-pixel patterns and radius units",
     "Tests compare histogram values for one map; single local pixels, edges and missing data are not observable there.",
     [S + "stat_moments/highstatmoments.py"],
     [("moments", S + "stat_moments/highstatmoments.py")],
     "exhaustive enumeration of images, windows and options against a direct reference, every pixel compared", EXH)

prop("C22", "Tsallis increments, distributions and fits follow their definitions",
     "Each lag's increment map is the sum over the four axis directions of the difference between a pixel and its neighbour at that lag, standardised to zero mean and unit variance, ignoring missing pixels. Its distribution is the log of the normalised histogram, and the fit minimises the squared difference to the Tsallis function over the retained points. Lags in any unit mean the same pixels.",
     ["inputs", "configurations"],
     "for all small shapes, all unit impulses, boundaries, bin counts, lag sets and units, missing-pixel patterns and clip levels",
     "Tests compare three fitted numbers for one map and one boundary.",
     [S + "tsallis/tsallis.py"],
     [("increments", S + "tsallis/tsallis.py"), ("fit", S + "tsallis/tsallis.py")],
     "exhaustive enumeration of impulses, images and options against a direct reference",
     EXH + "Stored test values pin the clip on log probability; that is listed as a known finding.")

prop("C24", "Bispectrum and bicoherence are sums over sampled triangles",
     "For each pair of wavenumber amplitudes the bispectrum is the sum over the sampled directions of F(k1)F(k2)F*(k1+k2), and the bicoherence its modulus over the summed moduli, between zero and one, the same for the same seed whatever the FFT backend. Results scale with the data as their definition says; slices average the right pixels.",
     ["inputs", "configurations"],
     "for all small near-square shapes, contents, seeds, sample counts, mean subtraction, slice positions, widths and units",
     "Tests compare with one stored surface of a square map.",
     [S + "pspec_bispec/bispec.py"],
     [("triangle loop", S + "pspec_bispec/bispec.py"), ("slices", S + "pspec_bispec/bispec.py")],
     "exhaustive enumeration of shapes, seeds and options against a direct triangle sum over an explicit DFT",
     EXH + "The reference draws directions from the same seeded generator, as the stored values do.")

prop("C28", "Delta-variance and wavelet spectra follow their definitions",
     "At each lag the delta-variance is the weighted variance of the map convolved with the compensated filter of that size, using filter cores and annuli normalised by the convolved weights, ignoring missing pixels and pixels below the weight cut-off, with wrapped or padded edges. The wavelet spectrum is the mean of the positive coefficients of the convolved map at each scale. Unusable lags are refused.",
     ["inputs", "configurations"],
     "for all small shapes, all unit impulses, boundary, missing-value handling, weights, diameter ratios, lags and cut-offs",
     "Tests compare one slope and one stored curve for one map; weights and missing data at other shapes do not move them.",
     [S + "delta_variance/delta_variance.py", S + "delta_variance/kernels.py", S + "wavelets/wavelet_transform.py", S + "convolve_wrapper.py"],
     [("kernels", S + "delta_variance/kernels.py"), ("do_convolutions", S + "delta_variance/delta_variance.py")],
     "exhaustive enumeration of impulses, shapes, weights and options against a direct-convolution reference", EXH)

prop("C05", "Missing data never contaminate results",
     "Pixels, spectra or voxels that are missing (NaN, masked in a spectral cube, or given without weight) act as documented for each statistic: as zeros in the Fourier and wavelet statistics, as nothing in averages, histograms, covariances and dendrograms. The value hidden behind a mask or zero weight has no influence on any result, and a few missing pixels never turn a finite statistic or distance into a missing one.",
     ["inputs", "configurations"],
     "for all statistics and distance metrics, every position and pattern of missing pixels of small maps, every subset of MVC's three maps, several hidden values",
     "Tests run almost entirely on complete data; one missing pixel in one of several inputs, or a hidden value, is never varied.",
     ["turbustat/io/input_base.py", S + "mvc/mvc.py", S + "vca_vcs/vcs.py", S + "vca_vcs/vca.py", S + "pspec_bispec/pspec.py", S + "pspec_bispec/bispec.py",
      S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "pdf/compare_pdf.py", S + "threeD_to_twoD.py", S + "pca/pca.py",
      S + "dendrograms/dendro_stats.py", "turbustat/moments/make_moments.py"],
     [("missing-value handling in constructors", S + "*/*.py"), ("pairwise covariance", S + "threeD_to_twoD.py")],
     "exhaustive enumeration of missing-data patterns with poisoned hidden values, differential against the equivalent complete input", EXH)

prop("C03", "Results do not depend on random state, plotting, backend, threads or process",
     "The same call gives the same numbers whatever numpy's random state, whether or not it is verbose, draws or saves a plot or shows progress, with either FFT backend and any thread count, and in a new process. Running never re-seeds or consumes global random state (except the un-seeded 2D bootstrap) nor changes the working directory, environment, error or plotting settings.",
     ["configurations", "schedules"],
     "for every statistic and distance metric, every run configuration, seed history, verbosity mode, thread count and process environment explored",
     "Tests run each call once with one random state, and never plot, thread or fork a fresh process.",
     [S + "base_pspec2.py", S + "rfft_to_fft.py", S + "cramer/cramer.py"],
     [("FFT backends", S + "rfft_to_fft.py"), ("plots", S + "base_pspec2.py and each statistic's plot function")],
     "exhaustive enumeration of configurations x seed histories x modes x processes on the real code, compared bit for bit", EXH)

prop("C06", "Scales mean the same in pixels, angles, physical and velocity units",
     "Lags, scales, radii, areas, breaks and fit limits given in pixels, any angular unit, or (with a distance) any physical unit give the same results, whether passed to the constructor, a setter, run or fit, and however the header writes its pixel scale. "
     "Spectral limits likewise convert between pixels and velocities. Results and plotted axes reported in a unit are the pixel values times the pixel scale. Unusable units, missing distances and non-square pixels are refused.",
     ["inputs", "configurations"],
     "for all scale arguments of all statistics, units, distances, pixel-scale forms and ways of giving the distance",
     "Tests convert one argument with one header each.",
     [S + "base_statistic.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "pca/pca.py", S + "vca_vcs/vcs.py"],
     [("conversions", S + "base_statistic.py")],
     "exhaustive enumeration of arguments x units x headers x distances, compared with explicit arithmetic", EXH)

prop("C10", "Saving and loading results is faithful, and broken saves are never accepted",
     "A saved object loads as the same type with the same results, header, beam and settings, with the data only when asked for, and behaves like the original in later runs and distance metrics. Saving changes neither the object nor other files, and always writes a .pkl file. A file cut short at any byte, or a save whose write fails, raises an error instead of yielding an object.",
     ["crash points", "histories"],
     "for all statistics, run configurations, keep_data settings, save/load/run sequences, every truncation point and every write-failure point explored",
     "Tests save and load two statistics once, without faults.",
     [S + "base_statistic.py", S + "mvc/mvc.py"],
     [("save_results / load_results", S + "base_statistic.py")],
     "exhaustive enumeration of save/load histories and of all truncation and write-failure points on the real code", EXH)

prop("C14", "Fits are the stated least-squares results on the points inside the limits",
     "Slopes and uncertainties are the (weighted) least-squares line and its HC3 or residual-bootstrap error for exactly the points inside the fit limits. A segmented fit satisfies the least-squares equations at its break, keeps the break only if it fits better, returns two slopes and the break with their (or their bootstrapped) errors, and evaluates to the same broken line wherever it is asked. The 2D fit recovers amplitude, index, ellipticity and angle of an elliptical power law, with errors of the fit that was kept.",
     ["inputs", "configurations"],
     "for all pairs of limits on, between and outside the points, weights, missing points, break positions, starting values and ellipse parameters explored",
     "Tests compare a few slopes for default limits with stored numbers.",
     [S + "base_pspec2.py", S + "lm_seg.py", S + "fitting_utils.py", S + "elliptical_powerlaw.py"],
     [("1D fits", S + "base_pspec2.py"), ("segmented", S + "lm_seg.py"), ("2D", S + "elliptical_powerlaw.py")],
     "exhaustive enumeration of limits, breaks and parameters against closed-form least squares", EXH)

prop("C19", "PCA decomposition, widths and the size-line width relation are as defined",
     "The covariance of channels uses pixels present in both; eigenvalues are sorted, eigenvectors orthonormal, and the number kept follows the requested count, value or proportion cut. Eigenimages are projections of the cube in its own orientation, their autocorrelations (minus the mean noise one) give spatial 1/e widths less the beam, those of the eigenvectors spectral widths, and the fitted index, intercept, gamma and sonic length with their errors follow from them.",
     ["inputs", "configurations"],
     "for all small cubes, missing-voxel patterns, eigenvector counts and cuts, autocorrelation shapes, beams and limits explored",
     "Tests compare some eigenvalues and widths of one square cube.",
     [S + "pca/pca.py", S + "pca/width_estimate.py", S + "threeD_to_twoD.py", S + "stats_utils.py"],
     [("decomposition", S + "pca/pca.py"), ("widths", S + "pca/width_estimate.py"), ("covariance", S + "threeD_to_twoD.py")],
     "exhaustive enumeration of cubes, missing patterns and options against direct linear algebra", EXH)

prop("C20", "PDFs, ECDFs, percentiles, fits and PDF distances follow their definitions",
     "The PDF is the density histogram, over the requested bins, of the finite values above the minimum (times their weights, then normalised as requested); ECDF and percentiles count the same values. Distribution fits maximise the likelihood with loc and scale fixed as asked and report its curvature errors. Hellinger, KS and lognormal distances follow their formulas on common bins within the requested limits.",
     ["inputs", "configurations"],
     "for all small images over a value alphabet with missing pixels, weights, normalisations, bin requests, call orders, distributions and fixed-parameter patterns",
     "Tests compare one histogram and three distances for one pair of maps.",
     [S + "pdf/compare_pdf.py", S + "stats_utils.py"],
     [("PDF", S + "pdf/compare_pdf.py"), ("normalisation and bins", S + "stats_utils.py")],
     "exhaustive enumeration of small images and options against a direct counting reference", EXH)

prop("C11", "Simulated power-law fields have the requested power at every frequency",
     "A simulated two- or three-dimensional field is real, has the requested size (even or odd), zero mean, and at every frequency the power the requested index, ellipticity and angle demand; three-dimensional fields also have the requested amplitude. The same seed gives the same field and numpy's random state is untouched. The three-dimensional power spectrum averages the power in its bins, and the statistics recover the index and ellipse put in. Impossible ellipses are refused.",
     ["inputs", "configurations"],
     "for all sizes, indices, ellipses, amplitudes and seeds explored, at every frequency of the field",
     "Tests fit a few fields of even size with a tolerance.",
     ["turbustat/simulator/gen_field.py", "turbustat/simulator/threeD_pspec.py"],
     [("fields", "turbustat/simulator/gen_field.py"), ("3D spectrum", "turbustat/simulator/threeD_pspec.py")],
     "exhaustive enumeration of sizes, indices, ellipses and seeds, each frequency compared with the power law", EXH)

prop("C12", "Simulated PPV cubes are the spectra of their fields in any unit and schedule",
     "The cube made from velocity and density fields holds in each channel the optically thin brightness summed along the chosen axis, with thermal and resolved velocity widths, on channels covering the requested or derived range; every voxel counts, also on channel edges. Units of velocities, limits, widths and lengths do not matter. The result is the same without or with any pool of workers, whatever order they finish in, and a failing worker raises an error. Headers describe the cube. Negative densities, wrong units and impossible channels are refused.",
     ["inputs", "schedules", "faults"],
     "for all small fields over a velocity/density alphabet, axes, units, channel choices, worker completion orders and worker failures explored",
     "Tests make one cube with one axis in one unit without a pool.",
     ["turbustat/simulator/make_cube.py", "turbustat/simulator/spectrum.pyx", "turbustat/io/sim_tools.py"],
     [("cube and pool", "turbustat/simulator/make_cube.py"), ("spectra", "turbustat/simulator/spectrum.pyx"), ("headers", "turbustat/io/sim_tools.py")],
     "exhaustive enumeration of fields, options and all worker completion orders under a controlled pool, against a direct sum", EXH)

prop("C13", "Moment maps, their errors and their files follow their definitions",
     "Integrated intensity, centroid and line width maps are the moments of the unmasked channels, and their error maps propagate the given noise through those moments over the same channels, for every extraction method, noise unit, spectral unit and mask. The property dictionary and the written files hold exactly those maps with usable headers, under the requested names, and reading them back gives the same; a missing file, method or noise in a wrong unit is refused.",
     ["inputs", "configurations", "histories"],
     "for all channel subsets of short spectra, masks, methods, noise forms, spectral axes, file naming schemes and missing files explored",
     "Tests compare the moment maps of one cube with stored arrays.",
     ["turbustat/moments/make_moments.py", "turbustat/moments/_moment_errs.py"],
     [("maps and files", "turbustat/moments/make_moments.py"), ("errors", "turbustat/moments/_moment_errs.py")],
     "exhaustive enumeration of channel masks, methods, units and file histories against direct sums", EXH)

prop("C18", "The Cramer distance is its two-sample formula on the brightest pixels",
     "Each cube is reduced to the requested fraction of brightest finite values above the noise limit in every channel (zeros where there are too few), or to its brightest spectra, scaled to a common range; the larger set is sampled without repeats by the given seed when sizes differ. The distance is the Cramer two-sample formula on those rows: not negative, zero for the same data, unchanged by exchanging the cubes, rearranging pixels or channels, scaling the data or the number of jobs.",
     ["inputs", "configurations"],
     "for all missing-voxel patterns of a small cube, shapes, fractions, noise limits, seeds, spectra counts and rearrangements explored",
     "Tests compare one matrix and distance with stored numbers.",
     [S + "cramer/cramer.py", S + "threeD_to_twoD.py"],
     [("distance", S + "cramer/cramer.py"), ("reduction", S + "threeD_to_twoD.py")],
     "exhaustive enumeration of missing patterns, shapes and options against the written-out formula", EXH)

prop("C23", "Dendrogram statistics count the structures of the pruned tree of the data",
     "At each minimum height the number of features and the peak values are those of the leaves and branches of the data's dendrogram pruned to that height, with the requested minimum value and size and, when asked for, spatial (never spectral) edges that wrap; counts never grow with height. Heights are spaced as requested and must increase. The tail fit is the log-log least-squares line with HC3 error, histograms bin exactly those peaks, and given, saved or loaded trees give the same results. Distances follow from them.",
     ["inputs", "configurations", "histories"],
     "for all height arrangements on small maps, spatial rolls, axis orders, height lists, window sizes, histogram settings and saved or given trees explored",
     "Tests compare the counts of one cube with stored numbers.",
     [S + "dendrograms/dendro_stats.py", S + "dendrograms/mecdf.py"],
     [("tree statistics and distance", S + "dendrograms/dendro_stats.py")],
     "exhaustive enumeration of small maps, rolls and options, each compared with directly pruned trees", EXH)

prop("C08", "Statistics obey the symmetry and scaling laws of their definitions",
     "Mirroring, rotating by 90 degrees or transposing the map leaves one-dimensional spectra, curves, slopes, moments, PDFs and eigenvalues unchanged and maps two-dimensional outputs (power, correlation and moment maps, fitted angles) accordingly; cyclic shifts change nothing where the boundary is periodic; re-ordering pixels or channels changes nothing that ignores position; multiplying the data by a factor multiplies each observable by the power of it in its definition and leaves slopes, angles and normalised quantities unchanged; offsets and sign act as defined.",
     ["inputs", "configurations"],
     "for all 14 statistics, option sets, missing pixels, weights, 7 mirror/rotation images, shifts, re-orderings, factors, offsets and signs explored",
     "Tests never compare a statistic of a map with that of a transformed copy.",
     [S + "base_pspec2.py", S + "elliptical_powerlaw.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "genus/genus.py", S + "scf/scf.py", S + "pspec_bispec/bispec.py", S + "stat_moments/highstatmoments.py"],
     [("spectra", S + "base_pspec2.py"), ("2D fits", S + "elliptical_powerlaw.py"), ("delta-variance", S + "delta_variance/delta_variance.py")],
     "exhaustive enumeration of statistics, options and transformations, each observable checked against its law", EXH)

prop("C15", "Beams and apodizing windows are found, defined and applied correctly",
     "Beam correction divides the power spectrum by the power of the Gaussian beam (axes, position angle, pixel scale) at every frequency of any even or odd map, so that a map seen through a beam gets back the spectrum of the map itself; the beam is taken from the argument, else the header's BMAJ/BMIN/BPA or history, and its absence is an error. Apodizing windows have the documented radial or axis-product shape for every size, alpha and beta, are centred, symmetric and within 0..1, and are what multiplies the data in each statistic.",
     ["inputs", "configurations"],
     "for all map sizes, beams, pixel scales, beam sources, windows and parameters explored",
     "Tests apply one round beam and a few windows to even-sized maps with loose slopes.",
     [S + "base_pspec2.py", S + "apodizing_kernels.py", S + "pspec_bispec/pspec.py", S + "mvc/mvc.py", S + "vca_vcs/vca.py"],
     [("beam and windows", S + "base_pspec2.py"), ("kernels", S + "apodizing_kernels.py")],
     "exhaustive enumeration of sizes, beams, sources and windows against directly sampled Gaussians and windows", EXH)

prop("C26", "Channel regridding and velocity spectra follow their definitions",
     "Changing the channel width of a cube gives, whatever unit or direction the spectral axis and the width are written in, channels that are the requested function of each whole group of input channels (or the smoothed and interpolated cube), with missing values ignored and the axis following; VCA of that cube is the mean over channels of their power spectra. VCS is the mean over lines of sight of the spectral power, folded at every frequency for even or odd numbers of channels, with fits limited to exactly the requested range. Unusable widths and methods are refused.",
     ["inputs", "configurations"],
     "for all channel counts, group sizes, spectral axes and units, functions, missing patterns, fit limits and refusals explored",
     "Tests regrid one cube by one factor and fit one VCS spectrum.",
     [S + "vca_vcs/slice_thickness.py", S + "vca_vcs/vca.py", S + "vca_vcs/vcs.py"],
     [("regridding", S + "vca_vcs/slice_thickness.py"), ("VCA", S + "vca_vcs/vca.py"), ("VCS", S + "vca_vcs/vcs.py")],
     "exhaustive enumeration of channel counts, widths, axes and limits against direct group reductions and transforms", EXH)

prop("C25", "Shared shifts, paddings, divergences, bins, scales and ellipses are exact",
     "Whole-pixel and Fourier shifts move data cyclically along the chosen axis by exactly the requested amount, in either direction, carrying missing values along; padding adds exactly the requested borders and keeps the data; Hellinger, Kullback-Leibler and similar distances between distributions are their sums over the bins present in both; common bins span both data sets and common scales are the physical ratio of both pixel grids; fitted ellipses return the centre, axes and angle of the ellipse through the points, in a fixed order, with errors that shrink with the noise.",
     ["inputs", "configurations"],
     "for all lengths, dimensions, shifts, missing patterns, padding widths, gridded distributions, pixel-scale pairs and ellipses explored",
     "Tests try a handful of shifts and one ellipse; the other helpers are only exercised inside statistics.",
     [S + "stats_utils.py"],
     [("helpers", S + "stats_utils.py"), ("ellipse fits", S + "stats_utils.py")],
     "exhaustive enumeration of small arrays, shifts, distributions and shapes against closed forms", EXH)

prop("C27", "Figures show exactly the computed results",
     "Every figure a statistic or a verbose distance draws shows, for every plotting option and axis unit, the measured points at their positions in the requested unit with their scatter as error bars or band, the fitted model with the reported parameters over the fitted range, residuals equal to points minus that model, and lines at the fit limits; surfaces, maps, histograms, eigenvalues and sampled traces are drawn unchanged. A second data set can be drawn into the same figure. Saving writes that same picture and closes it, and neither plotting nor a verbose run alters any result.",
     ["inputs", "configurations"],
     "for all plotting statistics, fits, option combinations, axis units, eigenvalue counts and figure layouts explored",
     "Tests only call one or two plots for not raising and never look at what is drawn.",
     [S + "base_pspec2.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "scf/scf.py", S + "vca_vcs/vcs.py", S + "pca/pca.py", S + "pdf/compare_pdf.py", S + "tsallis/tsallis.py"],
     [("power spectra", S + "base_pspec2.py"), ("size-line width", S + "pca/pca.py"), ("PDF", S + "pdf/compare_pdf.py")],
     "exhaustive enumeration of plotting options and units; every drawn artist is read back and compared with the reported results", EXH)
