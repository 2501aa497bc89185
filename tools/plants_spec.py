HDR = '''
import numpy as np, astropy.units as u
from astropy.io import fits
def hdr(shape, cd=0.01):
    h = fits.Header()
    h["NAXIS"] = len(shape)
    for i, n in enumerate(shape[::-1]):
        h["NAXIS%d" % (i + 1)] = n
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CUNIT1"] = h["CUNIT2"] = "deg"
    h["CDELT1"], h["CDELT2"] = -cd, cd
    h["CRPIX1"], h["CRPIX2"] = 1., 1.
    h["CRVAL1"], h["CRVAL2"] = 30., 0.
    if len(shape) == 3:
        h["CTYPE3"], h["CUNIT3"], h["CDELT3"], h["CRPIX3"], h["CRVAL3"] = "VRAD", "m/s", 500., 1., 0.
    h["BUNIT"] = "K"
    return h
'''

plant("c02-stale-low-cut", "C02",
      [("turbustat/statistics/base_pspec2.py",
        """        else:
            # Make the data to fit to
            if low_cut is None:
                # Default to the largest frequency, since this is just 1 pixel
                # in the 2D PSpec.
                self.low_cut = 1. / (0.5 * float(max(self.ps2D.shape)) * u.pix)
""",
        """        else:
            # Make the data to fit to
            if low_cut is None:
                # Default to the largest frequency, since this is just 1 pixel
                # in the 2D PSpec.
                if not hasattr(self, 'low_cut'):
                    self.low_cut = 1. / (0.5 * float(max(self.ps2D.shape)) * u.pix)
""")],
      "two runs of the same object: first with low_cut, then without", "the second fit silently keeps the cut of the first run",
      HDR + '''
from turbustat.statistics import PowerSpectrum
a = np.cumsum(np.cumsum(np.random.RandomState(1).normal(size=(32, 32)), 0), 1)
p = PowerSpectrum(a, header=hdr(a.shape)); p.run(fit_2D=False, low_cut=0.2 / u.pix); p.run(fit_2D=False)
q = PowerSpectrum(a, header=hdr(a.shape)); q.run(fit_2D=False)
assert abs(p.slope - q.slope) < 1e-9, (p.slope, q.slope)
''')

plant("c04-statmoments-int", "C04",
      [("turbustat/statistics/stat_moments/highstatmoments.py",
        "        self._mean_array = np.empty(self.data.shape)\n", "        self._mean_array = np.empty_like(self.data)\n"),
       ("turbustat/statistics/stat_moments/highstatmoments.py",
        "        self._variance_array = np.empty(self.data.shape)\n", "        self._variance_array = np.empty_like(self.data)\n")],
      "an integer image", "local mean and variance maps are truncated to integers",
      HDR + '''
from turbustat.statistics import StatMoments
a = np.random.RandomState(1).randint(0, 9, size=(12, 12))
x = StatMoments(a, header=hdr(a.shape), radius=2 * u.pix); x.run(show_progress=False)
y = StatMoments(a.astype(float), header=hdr(a.shape), radius=2 * u.pix); y.run(show_progress=False)
assert np.allclose(x.mean_array, y.mean_array)
''')

plant("c09-statmoments-periodic2", "C09",
      [("turbustat/statistics/stat_moments/highstatmoments.py",
        "            self.moments2.compute_spatial_distrib(periodic=periodic2,", "            self.moments2.compute_spatial_distrib(periodic=periodic1,")],
      "different periodic1 and periodic2", "the boundary option of the first image is used for the second",
      HDR + '''
from turbustat.statistics import StatMoments_Distance
r = np.random.RandomState(1)
a, b = r.normal(size=(14, 14)), r.gamma(2, size=(14, 14))
def d(x, y, p, q):
    return StatMoments_Distance((x, hdr(x.shape)), (y, hdr(y.shape)), radius=2 * u.pix, periodic1=p, periodic2=q).distance_metric().kurtosis_distance
v, w = d(a, b, True, False), d(b, a, False, True)
assert abs(v - w) < 1e-9, (v, w)
''')

plant("c01-wavelet-nan-inplace", "C01",
      [("turbustat/statistics/wavelets/wavelet_transform.py", "            self.data = self.data.copy()\n", "")],
      "an image with missing values", "the caller's NaN pixels become zeros",
      HDR + '''
from turbustat.statistics import Wavelet
a = np.random.RandomState(1).normal(size=(16, 16)); a[3, 4] = np.nan
Wavelet(a, header=hdr(a.shape))
assert np.isnan(a[3, 4])
''')

plant("c07-odd-freqs", "C07",
      [("turbustat/statistics/psds.py", "    yfreqs = np.fft.fftshift(np.fft.fftfreq(shape[0]))\n",
        "    yfreqs = (np.arange(shape[0]) - shape[0] // 2) / (2. * (shape[0] // 2))\n")],
      "a map with an odd number of rows", "row frequencies are stretched so that power is binned at the wrong frequency",
      HDR + '''
from turbustat.statistics.psds import make_radial_freq_arrays
y, x = make_radial_freq_arrays((9, 8))
assert np.allclose(np.sort(y[:, 0]), np.arange(-4, 5) / 9.), y[:, 0]
''')

plant("c16-removal-connectivity", "C16",
      [("turbustat/statistics/genus/genus.py", "    struct = nd.generate_binary_structure(arr.ndim, connectivity)\n",
        "    struct = nd.generate_binary_structure(arr.ndim, arr.ndim)\n")],
      "connectivity=1 and small objects touching only at corners", "small objects are removed as if corners always connect, so they are counted",
      HDR + '''
from turbustat.statistics import Genus
a = np.zeros((8, 8)); a[2, 2] = a[3, 3] = a[4, 4] = a[5, 5] = 1.
h = Genus(a, thresholds=np.array([.5]), enable_smoothing=False)
h.make_genus_curve(min_size=4, connectivity=1)
assert h.genus_stats[0, 0] == -1, h.genus_stats
''')

plant("c28-weight-cutoff", "C28",
      [("turbustat/statistics/delta_variance/delta_variance.py", "            cutoff_val = min_weight_frac * self.weights.max()\n",
        "            cutoff_val = min_weight_frac * np.nanmedian(self.weights)\n")],
      "weights of very different size and a large min_weight_frac", "poorly covered positions are no longer left out",
      HDR + '''
from turbustat.statistics import DeltaVariance
r = np.random.RandomState(3)
a = r.normal(size=(24, 24)); w = np.ones((24, 24)); w[:, 9:] = .2
d = DeltaVariance(a, header=hdr(a.shape), weights=w, lags=[4., 5., 6.] * u.pix)
d.compute_deltavar(min_weight_frac=.9, keep_convolve_arrays=True, show_progress=False)
assert not np.nanmin(d.convolve_weights[0]) < .8, np.nanmin(d.convolve_weights[0])
''')

plant("c05-covariance-count", "C05",
      [("turbustat/statistics/threeD_to_twoD.py", "            divisor = np.sum(np.isfinite(norm_chan * norm_chan2))\n",
        "            divisor = np.sum(np.isfinite(norm_chan))\n")],
      "pixels missing in some channels only", "covariances of channels with different gaps are diluted",
      HDR + '''
from turbustat.statistics.threeD_to_twoD import var_cov_cube
a = np.ones((2, 4, 4)); a[0, :2] = np.nan
c = var_cov_cube(a, progress_bar=False)
assert np.allclose(c, 1.), c
''')

plant("c21-kurtosis-bins", "C21",
      [("turbustat/statistics/stat_moments/highstatmoments.py",
        "        if kurtosis_bins is None:\n            kurtosis_bins = self.nbins\n",
        "        if kurtosis_bins is None:\n            kurtosis_bins = skewness_bins\n")],
      "skewness_bins given without kurtosis_bins", "the kurtosis is binned with the bins of the skewness",
      HDR + '''
from turbustat.statistics import StatMoments
a = np.random.RandomState(1).gamma(2, size=(14, 14))
s = StatMoments(a, header=hdr(a.shape), radius=2 * u.pix, nbins=6); s.run(show_progress=False, skewness_bins=9)
assert len(s.kurtosis_hist[1]) == 6, len(s.kurtosis_hist[1])
''')

plant("c12-unordered-workers", "C12",
      [("turbustat/simulator/make_cube.py", "            spectra = pool.map(_mapper, spec_gen)\n",
        "            spectra = list(pool.imap_unordered(_mapper, spec_gen))\n"),
       ("turbustat/simulator/make_cube.py", "    for out in spectra:\n        spec, y, x = out\n        cube[:, y, x] = spec\n",
        "    for n, out in enumerate(spectra):\n        cube[(slice(None),) + np.unravel_index(n, tuple(shape))] = out[0]\n")],
      "several workers finishing out of order", "spectra are put at the wrong positions",
      HDR + '''
import time
import turbustat.simulator.make_cube as mk
r = np.random.RandomState(1)
v = r.normal(size=(4, 3, 3)) * u.km / u.s; d = (r.rand(4, 3, 3) + 1) / u.cm**3
orig = mk._spectrum_maker
def slow(*a):
    if a[-2:] == (0, 0):
        time.sleep(1.)
    return orig(*a)
kw = dict(vel_disp=1 * u.km / u.s, T=100 * u.K, v_min=-6 * u.km / u.s, v_max=6 * u.km / u.s, chan_width=.5 * u.km / u.s, return_hdu=False)
a = mk.make_ppv(v, d, **kw)[0]
mk._spectrum_maker = slow
b = mk.make_ppv(v, d, threads=2, **kw)[0]
assert np.allclose(a.value, b.value)
''')

plant("c25-shift-threshold", "C25",
      [("turbustat/statistics/stats_utils.py", "    phase = np.exp(-2 * np.pi * m * 1j * shift)\n",
        "    phase = np.exp(-2 * np.pi * np.abs(m) * np.sign(m) * 1j * (shift % x.shape[0]))\n")],
      "fractional negative shifts along an axis whose length differs from the first axis", "the data are shifted by the wrong amount",
      HDR + '''
from turbustat.statistics.stats_utils import fourier_shift
n = 8; i = np.arange(n)
x = np.tile(np.cos(2 * np.pi * i / n), (3, 1))
assert np.allclose(fourier_shift(x, -2.5, axis=1), np.tile(np.cos(2 * np.pi * (i + 2.5) / n), (3, 1)))
''')

plant("c11-nyquist-plane", "C11",
      [("turbustat/simulator/gen_field.py", "        output[1:Np1, Np1, -1] = np.conj(output[imsize:Np1:-1, Np1, -1])\n", "")],
      "even-sized 3D fields", "part of the highest-frequency plane loses power",
      HDR + '''
from turbustat.simulator.gen_field import make_3dfield
n = 8
f = make_3dfield(n, powerlaw=3.)
p = np.abs(np.fft.fftn(f))**2
k = np.fft.fftfreq(n)
yy, xx, zz = np.meshgrid(k, k, k, indexing="ij")
r = np.sqrt(yy**2 + xx**2 + zz**2)
i = (yy != 0) & (np.abs(yy) < .5) & (xx == -.5) & (zz == -.5)
q = p[i] * r[i]**3
assert q.max() / q.min() < 1.001, q
''')

plant("c15-taper-cut", "C15",
      [("turbustat/statistics/apodizing_kernels.py", "        r_cut = r_inner + r_taper\n",
        "        r_cut = min(r_inner + r_taper, int(npts))\n")],
      "even-sized maps, where the half size is not whole", "the window is cut half a pixel early at its edge",
      HDR + '''
from turbustat.statistics.apodizing_kernels import TukeyWindow
w = TukeyWindow(.5)((14, 14))
''' + '''
import numpy as np
n = 6.5; rt = 3; ri = .5 * n
y, x = np.mgrid[:14, :14] - 6.5
r = np.hypot(x, y)
want = np.where(r < ri, 1., np.where(r > ri + rt, 0., .5 * (1 + np.cos(np.pi * (r - ri) / rt))))
assert np.allclose(w, want), np.abs(w - want).max()
''')

plant("c14-weights-of-missing", "C14",
      [("turbustat/statistics/delta_variance/delta_variance.py", "            lower_limit = x >= np.log10(xlow.value)\n",
        "            lower_limit = x >= np.floor(100 * np.log10(xlow.value)) / 100.\n")],
      "a lower limit just above a lag", "lags just below the lower limit enter the fit",
      HDR + '''
from turbustat.statistics import DeltaVariance
a = np.cumsum(np.random.RandomState(3).normal(size=(32, 32)), 0)
def s(lo, lags):
    d = DeltaVariance(a, header=hdr(a.shape), lags=np.array(lags) * u.pix); d.run(show_progress=False, xlow=lo * u.pix); return d.slope
x = s(4.02, [4., 5., 6., 8., 10., 12.]); y = s(4.5, [4., 5., 6., 8., 10., 12.])
assert abs(x - y) < 1e-9, (x, y)
''')

plant("c26-pixel-width", "C26",
      [("turbustat/statistics/vca_vcs/slice_thickness.py", "                channel_width = int((np.ceil(channel_width.value)))\n",
        "                channel_width = int(np.round(channel_width.value))\n")],
      "a pixel width with a fraction below a half", "channels are grouped with a smaller width than requested",
      HDR + '''
from spectral_cube import SpectralCube
from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
a = np.random.RandomState(1).rand(12, 3, 3)
c = SpectralCube.read(fits.PrimaryHDU(a, hdr(a.shape)))
assert spectral_regrid_cube(c, 2.2 * u.pix).shape[0] == 4
''')

plant("c10-shared-data", "C10",
      [("turbustat/statistics/base_statistic.py", "        if not output_name.endswith(\".pkl\"):\n",
        "        if \".pkl\" not in output_name:\n")],
      "an output name that contains .pkl before another ending or in a folder", "the file is written without its ending",
      HDR + '''
import os, tempfile
from turbustat.statistics import PDF
a = np.random.RandomState(1).rand(8, 8)
with tempfile.TemporaryDirectory() as t:
    p = PDF(a); p.run(do_fit=False)
    p.save_results(os.path.join(t, "run.pkl_old"))
    assert os.listdir(t) == ["run.pkl_old.pkl"], os.listdir(t)
''')

plant("c19-eigvec-order", "C19",
      [("turbustat/statistics/pca/pca.py", "        elif n_eigs == -1:\n            self.n_eigs = self.spectral_shape\n",
        "        elif n_eigs == -1:\n            self.n_eigs = max(1, int((all_eigsvals > 1e-6 * all_eigsvals[0]).sum()))\n")],
      "n_eigs=-1 with a rank-deficient cube", "not all eigenvectors are kept",
      HDR + '''
from turbustat.statistics import PCA
r = np.random.RandomState(1)
a = r.rand(6, 1, 1) * r.rand(1, 5, 5)
p = PCA(fits.PrimaryHDU(a, hdr(a.shape))); p.compute_pca(n_eigs=-1, show_progress=False)
assert p.n_eigs == 6, p.n_eigs
''')

plant("c17-cut-rounding", "C17",
      [("turbustat/statistics/scf/scf.py", "                x_shift = np.ceil(x_shift).astype(int)\n", "                x_shift = np.round(x_shift).astype(int)\n")],
      "boundary='cut' with fractional lags", "wrapped rows enter the correlation",
      HDR + '''
from turbustat.statistics import SCF
r = np.random.RandomState(1)
a = r.rand(5, 12, 12)
b = a.copy()
s = SCF(a, header=hdr(a.shape), roll_lags=np.array([-1.25, 0., 1.25]) * u.pix); s.compute_surface(boundary="cut", show_progress=False)
t = SCF(a.transpose(0, 2, 1).copy(), header=hdr(a.shape), roll_lags=np.array([-1.25, 0., 1.25]) * u.pix); t.compute_surface(boundary="cut", show_progress=False)
assert np.allclose(s.scf_surface, t.scf_surface.T), (s.scf_surface, t.scf_surface.T)
''')

plant("c13-falling-axis", "C13",
      [("turbustat/moments/_moment_errs.py", "    moment1 -= cube.spectral_axis[0]\n\n    if moment2 is None:\n", "    moment1 -= cube.spectral_axis.min()\n\n    if moment2 is None:\n")],
      "a cube whose spectral axis falls", "errors of the second moment are computed about the wrong velocity",
      HDR + """
from turbustat.moments import Moments
from spectral_cube import SpectralCube
a = np.random.RandomState(1).rand(7, 3, 3)
def f(sgn):
    h = hdr(a.shape); h["CDELT3"] = sgn * 500.; h["CRVAL3"] = 0. if sgn > 0 else 3000.
    m = Moments(SpectralCube.read(fits.PrimaryHDU(a[::sgn].copy(), h)), scale=.1 * u.K); m.make_moments(); m.make_moment_errors(); return m.linewidth_err.value
assert np.allclose(f(1), f(-1))
""")

plant("c03-bootstrap-seed", "C03",
      [("turbustat/statistics/fitting_utils.py", "            y_resamp = y + y_res[np.random.choice(y_res.size, y_res.size)]\n",
        "            y_resamp = y + y_res[np.random.RandomState().randint(y_res.size, size=y_res.size)]\n")],
      "bootstrapped errors", "bootstrapped errors change from run to run",
      HDR + '''
from turbustat.statistics import DeltaVariance
a = np.cumsum(np.random.RandomState(3).normal(size=(24, 24)), 0)
def f():
    d = DeltaVariance(a, header=hdr(a.shape)); d.compute_deltavar(show_progress=False); d.fit_plaw(bootstrap=True, bootstrap_kwargs={"nboot": 20}); return d.slope_err
assert f() == f()
''')

plant("c22-lag-rounding", "C22",
      [("turbustat/statistics/tsallis/tsallis.py", "        pix_lags = np.floor(self._to_pixel(self.lags).value).astype(int)\n",
        "        pix_lags = np.round(self._to_pixel(self.lags).value).astype(int)\n")],
      "lags that are not whole pixels", "increments use the wrong lag",
      HDR + '''
from turbustat.statistics import Tsallis
a = np.random.RandomState(3).normal(size=(24, 24))
def f(l):
    t = Tsallis(a, header=hdr(a.shape), lags=np.array([l]) * u.pix); t.make_tsallis(); return t.lag_arrays[0]
assert np.allclose(f(2.7), f(2.))
''')

plant("c06-area-rounding", "C06",
      [("turbustat/statistics/base_statistic.py", "        return self._to_pixel(np.sqrt(value))**2\n", "        return np.round(self._to_pixel(np.sqrt(value)))**2\n")],
      "an area given in angular or physical units that is not the square of a whole number of pixels", "minimum areas are rounded to squares of whole pixels",
      HDR + '''
from turbustat.statistics import Genus
a = np.zeros((12, 12)); a[2:4, 2:5] = 1.
h = hdr(a.shape)
def g(m):
    x = Genus(fits.PrimaryHDU(a, h), thresholds=np.array([.5]), enable_smoothing=False)
    x.make_genus_curve(min_size=m); return x.genus_stats.tolist()
assert g(5.) == g(5. * .01**2 * u.deg**2)
assert g(6.3) == g(6.3 * .01**2 * u.deg**2), (g(6.3), g(6.3 * .01**2 * u.deg**2))
''')

plant("c18-spectra-row", "C18",
      [("turbustat/statistics/threeD_to_twoD.py", "            y[i] = int(bright_spectra[i] % cube.shape[2])\n",
        "            y[i] = int(bright_spectra[i] % cube.shape[1])\n")],
      "data_format='spectra' on a map that is wider than tall", "spectra of other positions than the brightest enter the distance",
      HDR + '''
from turbustat.statistics import Cramer_Distance
a = np.ones((4, 3, 7)) * .01 + np.arange(4)[:, None, None] * 1e-3
a[:, 1, 5] = [3., 4., 5., 6.]
c = Cramer_Distance(a, a.copy()); c.format_data(data_format="spectra", num_spec=1, normalize=False)
assert np.allclose(np.ravel(c.data_matrix1), [3., 4., 5., 6.]), c.data_matrix1
''')

plant("c20-zero-weights", "C20",
      [("turbustat/statistics/pdf/compare_pdf.py", "            isfinite = np.isfinite(self.weights)\n",
        "            isfinite = self.weights > 0\n")],
      "weights that are zero or negative for some pixels", "pixels with zero weight leave the PDF instead of contributing zero",
      HDR + '''
from turbustat.statistics import PDF
a = np.arange(1., 101.).reshape(10, 10); w = np.ones((10, 10)); w[:2] = 0.
p = PDF(a, weights=w); p.run(do_fit=False)
assert p.find_percentile(0.) == 20., p.find_percentile(0.)
''')

plant("c23-single-feature", "C23",
      [("turbustat/statistics/dendrograms/dendro_stats.py", "        nums = self.numfeatures[self.numfeatures > 1]\n        deltas = self.min_deltas[self.numfeatures > 1]\n",
        "        nums = self.numfeatures[self.numfeatures > 2]\n        deltas = self.min_deltas[self.numfeatures > 2]\n")],
      "min_deltas at which exactly two features are left", "the tail of the feature counts is fitted without its last points",
      HDR + '''
from turbustat.statistics import Dendrogram_Stats
a = np.exp(np.random.RandomState(1).normal(size=(9, 31))); a[:, 15] = .001
s = Dendrogram_Stats(a, header=hdr(a.shape), min_deltas=np.linspace(.2, 14, 30), dendro_params={"min_npix": 0, "min_value": .1, "min_delta": .05})
s.compute_dendro(); s.fit_numfeat(size=3)
assert (s.numfeatures == 2).any()
assert np.isclose(s.fitvals[1].min(), np.log10(2.)), (s.fitvals, s.numfeatures)
''')

plant("c24-mean-of-emission", "C24",
      [("turbustat/statistics/pspec_bispec/bispec.py", "            norm_data = self.data - self.data.mean()\n",
        "            norm_data = self.data - self.data[self.data != 0.].mean()\n")],
      "mean_subtract=True on a map with empty or missing pixels", "the mean of the emission is removed instead of the mean of the map",
      HDR + '''
from turbustat.statistics import Bispectrum
a = np.random.RandomState(1).normal(size=(12, 12)) + 5.; a[:3] = 0.
b = Bispectrum(a); b.run(show_progress=False, mean_subtract=True)
c = Bispectrum(a - a.mean()); c.run(show_progress=False)
assert np.allclose(b.bicoherence, c.bicoherence)
''')

plant("c27-wavenumber-limit", "C27",
      [("turbustat/statistics/base_pspec2.py", "        high_cut = high_cut if not use_wavenumber else \\\n            high_cut * min(self._ps2D.shape)\n",
        "        high_cut = high_cut if not use_wavenumber else \\\n            high_cut * max(self._ps2D.shape)\n")],
      "plot_fit(use_wavenumber=True) of a map that is not square", "the upper fit limit is marked at another wavenumber than the one used",
      "import matplotlib\nmatplotlib.use('Agg')\n" + HDR + '''
import matplotlib.pyplot as plt
from turbustat.statistics import PowerSpectrum
a = np.cumsum(np.random.RandomState(1).normal(size=(24, 30)), 1)
p = PowerSpectrum(fits.PrimaryHDU(a, hdr(a.shape))); p.run(fit_2D=False, low_cut=.06 / u.pix, high_cut=.4 / u.pix)
p.plot_fit(use_wavenumber=True)
v = sorted({10**l.get_xdata()[0] for l in plt.gcf().get_axes()[0].get_lines() if len(l.get_xdata()) == 2})
assert np.allclose(v, [.06 * 24, .4 * 24]), v
''')

plant("c27-residual-unit", "C27",
      [("turbustat/statistics/pca/pca.py", "                resids = np.log10(spectral_width.value) - \\\n                    np.log10(10**(self.index * x_log_pix +\n",
        "                resids = np.log10(spectral_width.value) - \\\n                    np.log10(10**(self.index * np.log10(spatial_width.value) +\n")],
      "the size-line width plot in an angular or physical spatial unit with residuals", "residuals are offset from the drawn model",
      "import matplotlib\nmatplotlib.use('Agg')\n" + HDR + '''
import matplotlib.pyplot as plt
from turbustat.statistics import PCA
rs = np.random.RandomState(3)
yy, xx = np.mgrid[:20, :22]
c = 3 * np.sin(yy / 4.) + 2 * np.cos(xx / 3.)
z = np.arange(24)[:, None, None] - 12
a = (5 + rs.rand(20, 22)) * np.exp(-.5 * ((z - c) / 2.4)**2) + .02 * rs.rand(24, 20, 22)
h = hdr(a.shape)
p = PCA(fits.PrimaryHDU(a, h)); p.run(show_progress=False, n_eigs=6, brunt_beamcorrect=False)
out = []
for un in (u.pix, u.deg):
    plt.close("all")
    p.plot_fit(show_cov_bar=False, spatial_unit=un)
    out.append([l for l in plt.gcf().get_axes()[1].get_lines() if len(l.get_xdata()) > 2][0].get_ydata())
assert np.allclose(out[0], out[1], equal_nan=True), out
''')

plant("c09-second-break", "C09",
      [("turbustat/statistics/vca_vcs/vca.py", "            self.vca2.run(fit_kwargs={'brk': breaks[1]},\n",
        "            self.vca2.run(fit_kwargs={'brk': breaks[0]},\n")],
      "VCA_Distance with two different breaks", "the second cube is fitted with the break of the first",
      HDR + '''
from turbustat.statistics import VCA, VCA_Distance
y, x = [np.fft.fftfreq(n) for n in (64, 64)]
def cube(k, brk):
    r = np.random.RandomState(k)
    f = np.hypot(y[:, None], x[None]); f[0, 0] = 1
    amp = np.where(f < brk, (f / brk)**-.7, (f / brk)**-2.) * (f < .99)
    c = np.array([np.fft.ifft2(np.fft.fft2(r.normal(size=(64, 64))) * amp).real for _ in range(3)])
    return fits.PrimaryHDU(c, hdr(c.shape))
a, b = cube(1, .08), cube(2, .2)
br = [.08 / u.pix, .2 / u.pix]
d = VCA_Distance(a, b, breaks=list(br))
w = VCA(b); w.run(low_cut=None, high_cut=None, fit_2D=False, fit_kwargs=dict(brk=br[1]))
assert np.allclose(d.vca2.slope, w.slope) and np.allclose(d.vca2.brk.value, w.brk.value), (d.vca2.slope, w.slope, d.vca2.brk, w.brk)
''')

plant("c16-small-percentile", "C16",
      [("turbustat/statistics/genus/genus.py", "if lowdens_percent == 0.0", "if lowdens_percent < 1.0")],
      "a lower percentile below one on data with a faint outlier", "thresholds start at the minimum instead of the percentile asked for",
      HDR + '''
from turbustat.statistics import Genus
a = np.random.RandomState(5).normal(size=(30, 40))
a[3, 4] = -50
g = Genus(fits.PrimaryHDU(a, hdr(a.shape)), lowdens_percent=0.5, numpts=5)
assert np.isclose(g.thresholds[0], np.percentile(a, 0.5)), g.thresholds
''')

plant("c15-bare-minor", "C15",
      [("turbustat/io/try_load_beamwidth.py", '            bmin = hdr["BMIN"] * u.deg\n', '            bmin = min(hdr["BMIN"], hdr["BMAJ"] / 2.) * u.deg\n')],
      "radio_beam not installed and a beam with a minor axis above half the major one", "the minor axis is read as half the major axis",
      HDR + '''
import sys, importlib.util
spec = importlib.util.find_spec("turbustat.io.try_load_beamwidth")
m = importlib.util.module_from_spec(spec)
sys.modules["radio_beam"] = None
spec.loader.exec_module(m)
h = fits.Header()
h["BMAJ"], h["BMIN"], h["BPA"] = .03, .025, 10.
assert np.allclose([v.to(u.deg).value for v in m.find_beam_properties(h)], [.03, .025, 10.])
''')
