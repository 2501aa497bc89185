"""The documented forms in which a map or a cube can be supplied, and snapshots of caller-owned objects."""
import copy
import hashlib
import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.wcs import WCS

FORMS2 = ("arr", "tuple", "list", "phdu", "ihdu", "proj", "slice")
FORMS3 = ("arr", "tuple", "list", "phdu", "ihdu", "cube")


def make(form, data, header):
    """-> (object given as data, header keyword)."""
    if form == "arr":
        return data, header
    if form == "tuple":
        return (data, header), None
    if form == "list":
        return [data, header], None
    if form == "phdu":
        return fits.PrimaryHDU(data, header), None
    if form == "ihdu":
        return fits.ImageHDU(data, header), None
    if form == "proj":
        from spectral_cube import Projection
        return Projection.from_hdu(fits.PrimaryHDU(data, header)), None
    if form == "slice":
        from spectral_cube import Slice
        hdu = fits.PrimaryHDU(data, header)
        from spectral_cube import Projection
        p = Projection.from_hdu(hdu)
        return Slice(value=p.value, unit=p.unit, wcs=p.wcs, meta=p.meta, header=p.header,
                     beam=p.beam), None
    if form == "cube":
        from spectral_cube import SpectralCube
        return SpectralCube.read(fits.PrimaryHDU(data, header)), None
    raise KeyError(form)


def snap(o, _seen=None):
    """Bit-exact digest of a caller-owned object, by value."""
    h = hashlib.sha1()

    def rec(o):
        if isinstance(o, fits.Header):
            h.update(b"H" + o.tostring().encode())
        elif hasattr(o, "header") and hasattr(o, "data") and not hasattr(o, "filled_data") \
                and not isinstance(o, np.ndarray):
            h.update(b"U")
            rec(o.header)
            rec(np.asarray(o.data))
        elif hasattr(o, "filled_data") and not isinstance(o, np.ndarray):
            h.update(b"C" + repr((o.shape, str(o.unit), getattr(o, "allow_huge_operations", None))).encode())
            rec(np.asarray(o.filled_data[:].value))
            rec(np.asarray(o.unmasked_data[:].value))
            rec(o.header)
        elif isinstance(o, np.ndarray):
            v = np.asarray(getattr(o, "value", o))
            h.update(repr((type(o).__name__, str(getattr(o, "unit", "")), v.dtype.str, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v).encode())
            if hasattr(o, "header"):
                rec(o.header)
        elif isinstance(o, dict):
            h.update(b"{")
            for k in o:
                h.update(repr(k).encode())
                rec(o[k])
            h.update(b"}")
        elif isinstance(o, (list, tuple)):
            h.update(type(o).__name__.encode())
            for v in o:
                rec(v)
            h.update(b"]")
        elif isinstance(o, (str, bytes, int, float, complex, bool, type(None), u.UnitBase, np.generic)):
            h.update(repr(o).encode())
        else:
            h.update(type(o).__name__.encode())
        h.update(b";")
    rec(o)
    return h.hexdigest()
