"""Moment maps, their errors and their files follow the definitions for every mask, method and unit."""
import itertools
import os
import shutil
import tempfile
import contextlib
import io
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

ASSUMPTIONS = ["moments along the spectral axis; the moments themselves are computed by spectral-cube, which refuses the 'ray' method for "
               "cubes without a mask",
               "spectra whose channels sum to zero have no centroid and are not judged"]


def scube(data, h, mask=None, unit=u.K, lazy=True):
    from spectral_cube import SpectralCube, LazyMask
    from astropy.wcs import WCS
    q = u.Quantity(np.array(data), unit)
    c = SpectralCube(q, WCS(h), header=h)
    if lazy:
        c = c.with_mask(LazyMask(np.isfinite, cube=c))
    if mask is not None:
        c = c.with_mask(mask)
    return c


def header(shape, axis):
    h = fx.hdr3(shape)
    if axis == "down":
        h["CDELT3"], h["CRVAL3"] = -500., 3000.
    elif axis == "km":
        h["CUNIT3"], h["CDELT3"], h["CRVAL3"] = "km/s", 0.7, -1.2
    elif axis == "freq":
        h["CTYPE3"], h["CUNIT3"], h["CDELT3"], h["CRVAL3"] = "FREQ", "Hz", 2.5e5, 1.1527e11
    return h


def reference(d, ok, v, dv, s):
    """Moments and errors of each spectrum over its included channels. s: noise of each voxel."""
    d0 = np.where(ok, d, 0.)
    S = d0.sum(0)
    none = ~ok.any(0)
    V = v[:, None, None]
    with np.errstate(all="ignore"):
        m0 = S * dv
        m1 = (d0 * V).sum(0) / S
        m2 = (d0 * (V - m1) ** 2).sum(0) / S
        lw = np.sqrt(m2)
        e0 = np.sqrt((ok * s ** 2).sum(0)) * dv
        e1 = np.sqrt((ok * ((V - m1) / S * s) ** 2).sum(0))
        e2 = np.sqrt((ok * (((V - m1) ** 2 - m2) / S * s) ** 2).sum(0))
        el = e2 / (2 * lw)
    for a in (m0, m1, m2, lw, e0, e1, el):
        a[none] = np.nan
    return (m0, m1, lw), (e0, e1, el)


def judge(ctx, M, ref, errs, mu, vu, tag=""):
    units = [mu * vu, vu, vu]
    for nm, got, want, un in zip(("moment0", "moment1", "linewidth"), M.all_moments(), ref, units):
        g = u.Quantity(got, un).value if hasattr(got, "unit") else np.asarray(got)
        good = np.isfinite(want) | ~np.isfinite(ref[0])
        # the centroid is judged relative to the extent of the axis
        sc = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 1.
        ctx.close(np.where(good, g, 0), np.where(good, want, 0), nm, rtol=1e-8, scale=sc, msg=tag)
    if errs is None:
        return
    for nm, got, want, un in zip(("moment0", "moment1", "linewidth"), M.all_moment_errs(), errs, units):
        if not ctx.check(hasattr(got, "unit") and got.unit.is_equivalent(un), nm + "-err-unit", getattr(got, "unit", None)):
            continue
        ctx.check(got.unit == un, nm + "-err-unit", "%s is not in %s" % (got.unit, un))
        g = got.to(un).value
        good = np.isfinite(want) | ~np.isfinite(ref[0])
        with np.errstate(all="ignore"):
            sc = np.nanmax(np.abs(np.where(np.isfinite(want), want, np.nan))) if np.isfinite(want).any() else 1.
        ctx.close(np.where(good, g, 0), np.where(good, want, 0), nm + "-err", rtol=1e-6, scale=sc, msg=tag)


CONTENTS = ("clean", "nanvox", "nanspec", "mask", "maskspec", "nolazy", "neg", "unitless")


def content(shape, kind, h):
    d = fx.cube(shape)
    ok = np.ones(shape, bool)
    mask, unit, lazy = None, u.K, True
    if kind == "nolazy":
        lazy = False          # a cube without any mask
    elif kind == "nanvox":
        ok[1, 0, 1] = ok[-1, 1, 0] = ok[0, 1, 1] = False
        d[~ok] = np.nan
    elif kind == "nanspec":
        ok[:, 1, 1] = ok[:2, 0, 0] = False
        d[~ok] = np.nan
    elif kind == "mask":
        ok = d > np.median(d)
        ok[:2] = True
        mask = ok.copy()
    elif kind == "maskspec":
        ok[:, 0, -1] = ok[2, 1] = False
        mask = ok.copy()
    elif kind == "neg":
        d[0] = -0.3 * d[1]
        d[2, 0, 0] = 0.
    elif kind == "unitless":
        unit = u.dimensionless_unscaled
    return scube(d, h, mask, unit, lazy), d, ok, unit


def gen_m(tier):
    for sh in [(4, 2, 3), (7, 3, 2)] + ([(12, 4, 5), (5, 2, 2)] if tier == "thorough" else []):
        for ax in ("up", "down", "km", "freq"):
            for c in CONTENTS:
                for how in ("slice", "cube", "ray"):
                    if how == "ray" and c == "nolazy":
                        continue
                    for sc in ("ctor", "set", "arg", "other", "cube", "cubenan", "zero", "nounits"):
                        if tier == "quick" and sh[0] == 7 and (sc in ("set", "arg", "zero") or ax == "freq"):
                            continue
                        yield {"shape": list(sh), "axis": ax, "content": c, "how": how, "scale": sc}


def run_m(ctx, shape, axis, content, how, scale):
    from turbustat.moments import Moments
    shape = tuple(shape)
    h = header(shape, axis)
    cube, d, ok, unit = globals()["content"](shape, content, h)
    vu = cube.spectral_axis.unit
    v = cube.spectral_axis.value
    dv = abs(v[1] - v[0])
    s = np.full(shape, 0.07)
    kw, arg, setit, units = {}, {}, None, True
    if scale == "ctor":
        kw["scale"] = 0.07 * unit
    elif scale == "set":
        kw["scale"] = 3. * unit
        setit = 0.07 * unit
    elif scale == "arg":
        kw["scale"] = 3. * unit
        arg["scale"] = 0.07 * unit
    elif scale == "other":
        kw["scale"] = 70 * u.mK if unit == u.K else 7 * u.percent
    elif scale in ("cube", "cubenan"):
        s = 0.02 + 0.1 * np.abs(np.sin(np.arange(d.size))).reshape(shape)
        sd = s.copy()
        if scale == "cubenan":
            sd[1, 0, 0] = np.nan
            s[1, 0, 0] = 0.
        arg["scale"] = scube(sd, h, None, unit)
    elif scale == "zero":
        s[:] = 0.
    elif scale == "nounits":
        units = False
        kw["scale"] = 0.07 * unit
    M = Moments(cube, moment_method=how, **kw)
    if setit is not None:
        M.scale = setit
    M.make_moments(units=units)
    M.make_moment_errors(**arg)
    ctx.step(3)
    ref, err = reference(d, ok, v, dv, s)
    judge(ctx, M, ref, None if scale == "zero" else err, unit, vu)
    if scale == "zero":
        for e in M.all_moment_errs():
            ctx.check(not np.any(np.nan_to_num(np.asarray(getattr(e, "value", e)))), "zero-noise", e)
    if units:
        for a, un in zip(M.all_moments(), (unit * vu, vu, vu)):
            ctx.check(a.unit == un, "units", (a.unit, un))
    else:
        ctx.check(not any(hasattr(a, "unit") for a in M.all_moments()), "units", "units=False kept units")
    # the dictionary pairs each map with its own header and unit
    D = M.to_dict()
    ctx.step()
    ctx.check(set(D) == {"cube", "moment0", "moment0_error", "centroid", "centroid_error", "linewidth", "linewidth_error"}, "dict-keys", sorted(D))
    from astropy.wcs import WCS
    from astropy.wcs.utils import proj_plane_pixel_scales
    exp = dict(zip(("moment0", "centroid", "linewidth"), zip(ref, err if scale != "zero" else [np.zeros(shape[1:])] * 3, (unit * vu, vu, vu))))
    for k, (r, e, un) in exp.items():
        for kk, want in ((k, r), (k + "_error", e)):
            arr, hd = D[kk]
            ctx.check(u.Unit(hd["BUNIT"]) == un, "dict-unit", "%s %s" % (kk, hd["BUNIT"]))
            ctx.close(proj_plane_pixel_scales(WCS(hd)), [0.01, 0.01], "dict-wcs", rtol=1e-6)
            ctx.check(not hasattr(arr, "unit") and np.shape(arr) == shape[1:], "dict-array", kk)
            good = np.isfinite(want) & np.isfinite(np.asarray(arr, float))
            if scale != "zero" or kk == k:
                with np.errstate(all="ignore"):
                    ctx.close(np.asarray(arr)[good], want[good], "dict-" + kk, rtol=1e-6)
    ctx.close(np.where(ok, D["cube"][0], 0), np.where(ok, d, 0), "dict-cube", rtol=1e-12)
    ctx.state(content, axis, how, scale, *[np.nan_to_num(x) for x in ref])


# --- every mask of short spectra --------------------------------------------------------------------------
def gen_k(tier):
    for n in (3, 4) + ((5,) if tier == "thorough" else ()):
        for kind in ("mask", "nan", "poison", "two"):
            for how in ("slice", "cube", "ray"):
                yield {"n": n, "kind": kind, "how": how}


def run_k(ctx, n, kind, how):
    """One pixel per subset of channels: every subset is included somewhere."""
    from turbustat.moments import Moments
    sub = np.array(list(itertools.product((False, True), repeat=n))).T          # (n, 2^n)
    ok = np.repeat(sub[:, None, :], 3, axis=1)
    shape = ok.shape
    base = np.array([1.3, 2.9, 0.7, 4.1, 2.2])[:n, None, None] * (1 + np.arange(3))[None, :, None]
    d = np.broadcast_to(base, shape).copy()
    d[:, 1] += 0.5 * np.arange(n)[:, None]
    h = fx.hdr3(shape)
    if kind == "nan":
        dd = np.where(ok, d, np.nan)
        cube = scube(dd, h)
    elif kind == "poison":
        dd = np.where(ok, d, 1e6)
        cube = scube(dd, h, ok)
    elif kind == "two":
        cube = scube(d, h, ok | (np.arange(n) % 2 == 0)[:, None, None])
    else:
        cube = scube(d, h, ok)
    M = Moments(cube, moment_method=how, scale=0.11 * u.K)
    if kind == "two":
        M.apply_mask(ok | (np.arange(n) % 2 == 1)[:, None, None])
    M.make_moments()
    M.make_moment_errors()
    ctx.step(2 * 2 ** n)
    v = cube.spectral_axis.value
    ref, err = reference(d, ok, v, 500., np.full(shape, 0.11))
    # single channels have no width: their error is undefined
    one = ok.sum(0) < 2
    for i in range(3):
        if i == 2:
            for a in (ref[2], err[2]):
                a[one] = np.nan
    m = list(M.all_moments())
    for nm, g, w in zip(("moment0", "moment1"), m[:2], ref[:2]):
        ctx.close(g.value, w, nm, rtol=1e-8)
    ctx.close(m[2].value[~one], ref[2][~one], "linewidth", rtol=1e-8)
    e = list(M.all_moment_errs())
    for nm, g, w in zip(("moment0", "moment1"), e[:2], err[:2]):
        ctx.close(g.value, w, nm + "-err", rtol=1e-8)
    ctx.close(e[2].value[~one], err[2][~one], "linewidth-err", rtol=1e-6)
    for k in range(sub.shape[1]):
        ctx.state(n, kind, sub[:, k])


# --- files -----------------------------------------------------------------------------------------------
def gen_f(tier):
    for c in ("clean", "nanvox", "maskspec", "unitless"):
        for units in (True, False):
            for route in ("cube", "file", "explicit", "prefixpath", "maskname", "dots", "default"):
                for missing in (None, "_moment0", "_centroid", "_linewidth"):
                    yield {"content": c, "units": units, "route": route, "missing": missing}


def run_f(ctx, content, units, route, missing):
    from turbustat.moments import Moments
    from astropy.io import fits
    from astropy.wcs import WCS
    shape = (5, 3, 4)
    h = fx.hdr3(shape)
    cube, d, ok, unit = globals()["content"](shape, content, h)
    tmp = tempfile.mkdtemp(prefix="c13_")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        M = Moments(cube, scale=0.05 * unit)
        M.make_moments(units=units)
        M.make_moment_errors()
        want = [np.asarray(getattr(a, "value", a)) for a in M.all_moments() + M.all_moment_errs()]
        name = {"dots": "a.b_c", "default": "default"}.get(route, "obs")
        path = tmp if route != "prefixpath" else os.path.join(tmp, "sub")
        os.makedirs(path, exist_ok=True)
        if route == "default":
            M.to_fits()
        else:
            M.to_fits(save_name=os.path.join(path, name))
        ctx.step(3)
        files = sorted(os.listdir(path))
        ctx.check([f for f in files if f.endswith(".fits")] == sorted(name + s + ".fits" for s in ("_moment0", "_centroid", "_linewidth")), "files", files)
        try:
            M.to_fits(save_name=os.path.join(path, name))
            ctx.fail("overwrite", "existing files were replaced without being asked")
        except OSError:
            ctx.check(True, "")
        M.to_fits(save_name=os.path.join(path, name), overwrite=True)
        for s, un in (("_moment0", unit * u.m / u.s), ("_centroid", u.m / u.s), ("_linewidth", u.m / u.s)):
            with fits.open(os.path.join(path, name + s + ".fits")) as f:
                w2 = [WCS(e.header).celestial for e in f]
                ctx.check(all(w.naxis == 2 and np.allclose(w.wcs_pix2world([[0., 0.], [2., 1.]], 0), np.array(WCS(h).celestial.wcs_pix2world([[0., 0.], [2., 1.]], 0)), rtol=0, atol=1e-9) for w in w2), "file-wcs", s)
                ctx.check(len(f) == 2 and u.Unit(f[0].header["BUNIT"]) == un and u.Unit(f[1].header["BUNIT"]) == un, "file-unit", s)
        kw, src = {}, cube
        if route in ("file", "dots"):
            src = os.path.join(tmp, name + ".fits")
            fits.PrimaryHDU(d, h).writeto(src)
            if content == "unitless":
                hh = h.copy()
                hh["BUNIT"] = ""
                fits.PrimaryHDU(d, hh).writeto(src, overwrite=True)
            kw["moments_path"] = path
        elif route == "explicit":
            kw = {"moment0": os.path.join(path, name + "_moment0.fits"), "centroid": os.path.join(path, name + "_centroid.fits"),
                  "linewidth": os.path.join(path, name + "_linewidth.fits"), "moments_prefix": "nothing"}
        elif route == "maskname":
            fits.PrimaryHDU((d > 1.).astype(int)).writeto(os.path.join(tmp, "mask.fits"))
            kw = {"mask_name": os.path.join(tmp, "mask.fits"), "moments_prefix": name, "moments_path": path}
        else:
            kw = {"moments_prefix": name, "moments_path": path}
        if missing:
            os.remove(os.path.join(path, name + missing + ".fits"))
        with contextlib.redirect_stdout(io.StringIO()):
            N = Moments.from_fits(src, scale=0.05 * unit, **kw)
        ctx.step()
        got = [N.moment0, N.moment1, N.linewidth, N.moment0_err, N.moment1_err, N.linewidth_err]
        for i, (nm, g, w) in enumerate(zip(("moment0", "moment1", "linewidth", "moment0_err", "moment1_err", "linewidth_err"), got, want)):
            if missing == ("_moment0", "_centroid", "_linewidth")[i % 3]:
                ctx.check(g is None, "missing-file", "%s is %r although its file is missing" % (nm, type(g)))
            elif ctx.check(g is not None, "loaded", nm + " was not loaded"):
                ctx.close(np.asarray(getattr(g, "value", g), float), w, "loaded-" + nm, rtol=1e-12)
        if N.scale is not None:
            ctx.close(N.scale.value, 0.05, "loaded-scale", rtol=1e-12)
        ctx.check(N.scale is not None, "loaded-scale", "scale was dropped")
        if route == "maskname":
            inc = np.isfinite(N.cube.filled_data[:].value)
            ctx.check((inc == (ok & (d > 1.))).all(), "mask-file", "the mask file is not applied")
        ctx.state(content, units, route, missing)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def gen_x(tier):
    for w in ("method", "early", "nounit", "unit", "negative", "early-scale", "set-negative", "shape", "set-unit", "set-nounit", "how0", "how1", "how2") + tuple("shape%d%s" % (i, k) for i in range(5) for k in "zyx"):
        for how in ("slice", "cube"):
            yield {"what": w, "how": how}


def run_x(ctx, what, how):
    from turbustat.moments import Moments
    import turbustat.moments._moment_errs as me
    sh = (4, 2, 3)
    c = scube(fx.cube(sh), fx.hdr3(sh))
    exc = Exception
    try:
        if what == "method":
            Moments(c, moment_method="plane")
        elif what == "early":
            Moments(c, moment_method=how).make_moment_errors()
        elif what == "early-scale":
            Moments(c, moment_method=how, scale=1 * u.K).make_moment_errors(scale=2 * u.K)
        elif what == "nounit":
            Moments(c, moment_method=how, scale=0.3)
        elif what == "unit":
            Moments(c, moment_method=how, scale=0.3 * u.m)
        elif what == "negative":
            Moments(c, moment_method=how, scale=-0.3 * u.K)
        elif what == "set-negative":
            m = Moments(c, moment_method=how, scale=0.3 * u.K)
            m.scale = -1 * u.K
        elif what == "set-unit":
            m = Moments(c, moment_method=how, scale=0.3 * u.K)
            m.scale = 1 * u.m
        elif what == "set-nounit":
            m = Moments(c, moment_method=how, scale=0.3 * u.K)
            m.scale = 1.
        elif what.startswith("how"):
            (me.moment0_error, me.moment1_error, me.moment2_error)[int(what[-1])](c, 0.3 * u.K, how="ray" if how == "slice" else "plane")
        elif what.startswith("shape") and what != "shape":
            s2 = tuple(n + (k == what[-1]) for n, k in zip(sh, "zyx"))
            (me.moment0_error, me.moment1_error, me.moment2_error, me.linewidth_sigma_err, me.linewidth_fwhm_err)[int(what[5])](c, scube(fx.cube(s2), fx.hdr3(s2)), how=how)
        elif what == "shape":
            m = Moments(c, moment_method=how, scale=0.3 * u.K)
            m.make_moments()
            m.make_moment_errors(scale=scube(fx.cube((5, 2, 3)), fx.hdr3((5, 2, 3))))
        ctx.fail("refuse", what + " accepted")
    except exc:
        ctx.check(True, "")
    ctx.step()
    ctx.state(what)


# --- the error functions on their own --------------------------------------------------------------------
def gen_u(tier):
    for sh in [(4, 2, 3), (7, 3, 2)] + ([(12, 4, 5)] if tier == "thorough" else []):
        for ax in ("up", "down", "km"):
            for c in CONTENTS:
                for how in ("auto", "slice", "cube"):
                    for given in ("none", "m0", "m1", "all", "other"):
                        if tier == "quick" and ((sh[0] == 7) != (ax == "km") or given in ("m0", "m1") and how != "auto"):
                            continue
                        yield {"shape": list(sh), "axis": ax, "content": c, "how": how, "given": given}


def run_u(ctx, shape, axis, content, how, given):
    import turbustat.moments._moment_errs as me
    shape = tuple(shape)
    cube, d, ok, unit = globals()["content"](shape, content, header(shape, axis))
    vu, v = cube.spectral_axis.unit, cube.spectral_axis.value
    sd = 0.02 + 0.1 * np.abs(np.sin(np.arange(d.size))).reshape(shape)
    for s, scale in ((np.full(shape, 0.07), 0.07 * unit), (sd, scube(sd, header(shape, axis), None, unit))):
        ref, err = reference(d, ok, v, abs(v[1] - v[0]), s)
        m0, m1, m2 = [cube.moment(order=i, axis=0, how="slice") for i in range(3)]
        kw1 = {"none": {}, "m0": {"moment0": m0}, "m1": {"moment1": m1}, "all": {"moment0": m0, "moment1": m1}, "other": {"moment0": m0 * 1.1, "moment1": m1 + 0.4 * abs(v[1] - v[0]) * vu}}[given]
        kw2 = dict(kw1)
        if given == "all":
            kw2["moment2"] = m2
            kw2["moment1_err"] = me.moment1_error(cube, scale, how="slice")
        if given == "other":      # maps of other data than the cube: the propagation formula with these values
            kw2["moment2"] = m2 * 1.3
            kw2["moment1_err"] = 1.5 * me.moment1_error(cube, scale, how="slice")
        keep = [np.array(x) for x in (m0, m1, m2)]
        out = [me.moment0_error(cube, scale, how=how), me.moment1_error(cube, scale, how=how, **kw1), me.moment2_error(cube, scale, how=how, **kw2),
               me.linewidth_sigma_err(cube, scale, how=how, **kw2), me.linewidth_fwhm_err(cube, scale, how=how, **kw2)]
        ctx.step(5)
        if given == "other":
            with np.errstate(all="ignore"):
                S = np.asarray(kw2["moment0"]) / abs(v[1] - v[0])
                M1, M2, E1 = [np.asarray(u.Quantity(kw2[q]).to(un).value) for q, un in (("moment1", vu), ("moment2", vu ** 2), ("moment1_err", vu))]
                dvv = v[:, None, None] - M1
                I, n = np.where(ok, np.nan_to_num(d), 0.), np.where(ok, s, 0.)
                e1 = np.sqrt((((dvv) / S * n) ** 2).sum(0))
                e2 = np.sqrt((((dvv ** 2 - M2) / S * n) ** 2).sum(0) + 4 * (E1 * (I * dvv).sum(0) / S) ** 2)
                err = [err[0], e1, e2 / (2 * np.sqrt(M2))]
                ref = [ref[0], ref[1], np.sqrt(M2)]
        wants = [err[0], err[1], err[2] * 2 * ref[2], err[2], err[2] * 2 * np.sqrt(2 * np.log(2.))]
        for i, (g, w, un) in enumerate(zip(out, wants, (unit * vu, vu, vu ** 2, vu, vu))):
            nm = ("moment0", "moment1", "moment2", "sigma", "fwhm")[i]
            if not ctx.check(g.unit.is_equivalent(un), nm + "-function-unit", g.unit):
                continue
            ctx.check(g.shape == m0.shape and g.wcs.wcs.compare(m0.wcs.wcs), nm + "-function-wcs", "the map is not on the grid of the moment maps")
            ctx.check(u.Unit(g.header["BUNIT"]).is_equivalent(un), nm + "-function-bunit", g.header["BUNIT"])
            good = np.isfinite(w)
            with np.errstate(all="ignore"):
                ctx.close(u.Quantity(g).to(un).value[good], w[good], nm + "-function", rtol=1e-6)
                lost = ~np.isfinite(ref[0])
                ctx.check(not np.isfinite(u.Quantity(g).value[lost]).any(), nm + "-function-empty", "values for lines of sight without data")
        for a, b in zip((m0, m1, m2), keep):
            ctx.check(np.array_equal(np.asarray(a), b, equal_nan=True), "function-in-place", "a given moment map was changed")
    ctx.state(content, axis, how, given)


FAMILIES = {
    "moments": Family(gen_m, run_m, "cube shapes x spectral axes (rising, falling, km/s, frequency) x contents x 3 methods x 8 ways of giving the noise, every pixel of 3 moments and 3 errors, and the dictionary"),
    "masks": Family(gen_k, run_k, "every subset of the channels of spectra of length 3 and 4 (thorough 5), by mask, missing values, hidden values or two masks, x 3 methods"),
    "files": Family(gen_f, run_f, "contents x units x 6 ways of naming the files x each file missing"),
    "functions": Family(gen_u, run_u, "5 error functions x cube shapes x axes x contents x automatic or given method x which moments are given x constant or varying noise"),
    "refusals": Family(gen_x, run_x, "wrong methods, orders and noise values"),
}
