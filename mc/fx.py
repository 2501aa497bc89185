"""Deterministic tiny inputs shared by the property modules."""
import numpy as np
import astropy.units as u
from astropy.io import fits


def hdr2(shape, cdelt=0.01, beam=True, bunit="K", bmaj=0.03):
    ny, nx = shape
    h = fits.Header()
    h["NAXIS"] = 2
    h["NAXIS1"], h["NAXIS2"] = nx, ny
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CUNIT1"] = h["CUNIT2"] = "deg"
    h["CDELT1"], h["CDELT2"] = -cdelt, cdelt
    h["CRPIX1"], h["CRPIX2"] = nx / 2., ny / 2.
    h["CRVAL1"], h["CRVAL2"] = 30.0, 0.0
    h["BUNIT"] = bunit
    if beam:
        h["BMAJ"], h["BMIN"], h["BPA"] = bmaj, bmaj, 0.0
    return h


def hdr3(shape, cdelt=0.01, dv=500.0, beam=True, bunit="K", v0=-1000.0, bmaj=0.03):
    nz, ny, nx = shape
    h = hdr2((ny, nx), cdelt, beam, bunit, bmaj)
    h["NAXIS"] = 3
    h["NAXIS3"] = nz
    h["CTYPE3"], h["CUNIT3"] = "VRAD", "m/s"
    h["CDELT3"], h["CRPIX3"], h["CRVAL3"] = dv, 1.0, v0
    h["RESTFRQ"] = 1.1527e11
    return h


def img(shape, k=0, positive=False):
    """Deterministic, generic, asymmetric image number k (no symmetries)."""
    r = np.random.RandomState(1000 + 17 * k + 131 * shape[0] + shape[1])
    a = r.normal(size=shape)
    yy, xx = np.mgrid[:shape[0], :shape[1]]
    a = a + 2. * np.sin(2 * np.pi * (yy / shape[0] + 2 * xx / shape[1]) + k) \
        + 1.5 * np.cos(2 * np.pi * (2 * yy / shape[0] - xx / shape[1]))
    if positive:
        a = np.exp(a / 3.)
    return a


def redimg(shape, k=0, slope=3.0):
    """Deterministic power-law (red) image; usable for fits."""
    r = np.random.RandomState(77 + 13 * k + shape[0] * 7 + shape[1])
    a = np.fft.rfftn(r.normal(size=shape))
    fy = np.fft.fftfreq(shape[0])[:, None]
    fx = np.fft.rfftfreq(shape[1])[None, :]
    f = np.sqrt(fy ** 2 + fx ** 2)
    f[0, 0] = 1
    a *= f ** (-slope / 2.)
    a[0, 0] = 0
    out = np.fft.irfftn(a, s=shape)
    return 10 + 3 * (out - out.mean()) / out.std()


def cube(shape, k=0, positive=True):
    """Gaussian lines with red centroid/intensity maps + small noise."""
    nz, ny, nx = shape
    r = np.random.RandomState(5 + 29 * k + nz + 3 * ny + 11 * nx)
    m0 = np.abs(redimg((ny, nx), k)) + 1.
    c = redimg((ny, nx), k + 50)
    c = (c - c.mean()) / np.abs(c - c.mean()).max() * nz * 0.2
    z = np.arange(nz)[:, None, None] - (nz - 1) / 2.
    w = max(1.0, nz / 10.)
    out = m0 * np.exp(-0.5 * ((z - c) / w) ** 2) + 0.05 * r.normal(size=shape)
    if positive:
        out = np.abs(out) + 1e-3
    return out


def moments_maps(shape, k=0):
    return {"centroid": redimg(shape, k + 3) - 10,
            "moment0": np.abs(redimg(shape, k + 4)) + 1,
            "linewidth": np.abs(redimg(shape, k + 5)) / 10. + 0.5}


PIX = u.pix
