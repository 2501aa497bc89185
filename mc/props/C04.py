"""The result depends on the values given, not on the form or memory representation they are given in."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from ..catalog import ENTRIES, same_obs
from ..dcatalog import DENTRIES
from .. import forms, fx

ASSUMPTIONS = ["representations holding exactly the same numbers are compared to 1e-9 (1e-6 where the memory order "
               "changes the summation order); single precision data are compared with the same rounded numbers in double"]

REPS = {
    "c": lambda a: np.ascontiguousarray(a),
    "fortran": lambda a: np.asfortranarray(a),
    "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2],
    "reversed": lambda a: np.ascontiguousarray(a[..., ::-1, ::-1])[..., ::-1, ::-1],
    "big": lambda a: a.astype(">f8"),
    "readonly": lambda a: (lambda b: (b.setflags(write=False), b)[1])(np.array(a)),
}


def oshape(e):
    s = list(e.shape)
    s[-1] += 1 - s[-1] % 2
    s[-2] += 3 - s[-2] % 2
    return tuple(s)


def brk_cfg(c):
    return "brk" in c


def given(e, raw, form, hdr):
    hk = None
    out = dict(raw)
    for k in raw:
        if k == "weights":
            continue
        out[k], h = forms.make(form, raw[k], hdr)
        if k == "data":
            hk = h
    return out, hk


def build(e, raw, form, hdr, **kw):
    if e.name in ("PCA", "Genus", "PDF", "Bispectrum") and form == "arr":
        return e.build(raw, hdr if e.name in ("PCA", "Genus") else None, **kw)
    r, hk = given(e, raw, form, hdr)
    return e.build(r, hk, **kw)


# --- supply forms ---------------------------------------------------------------
def gen_forms(tier):
    for n, e in ENTRIES.items():
        fs = forms.FORMS2 if e.ndim == 2 else forms.FORMS3
        for f in fs[1:]:
            for shp in ("default", "odd"):
                for c in e.RUNS:
                    yield {"stat": n, "form": f, "shape": shp, "cfg": c}


_ref = {}


def ref(stat, shape, cfg):
    key = (stat, shape, cfg)
    if key not in _ref:
        e = ENTRIES[stat]
        o = e.build(e.raw(0, shape), e.hdr(shape) if e.header else None)
        e.run(o, cfg)
        _ref[key] = e.obs(o)
    return _ref[key]


def run_forms(ctx, stat, form, shape, cfg):
    e = ENTRIES[stat]
    shp = e.shape if shape == "default" else oshape(e)
    o = build(e, e.raw(0, shp), form, e.hdr(shp))
    e.run(o, cfg)
    ctx.step()
    same_obs(ctx, e.obs(o), ref(stat, shp, cfg), "form:%s:" % stat, rtol=1e-9, atol=1e-12,
             skip=("data",), msg="given as %s" % form)
    ctx.state(stat, shp, cfg)


# --- memory representation -----------------------------------------------------------
def gen_reps(tier):
    for n, e in ENTRIES.items():
        for r in list(REPS) + ["f4", "bigf4", "int", "deg"]:
            if r == "deg" and (e.ndim != 2 or n == "MVC"):
                continue
            for f in ("arr", "phdu"):
                for c in e.RUNS:
                    if brk_cfg(c):
                        continue
                    yield {"stat": n, "rep": r, "form": f, "cfg": c}


def run_reps(ctx, stat, rep, form, cfg):
    e = ENTRIES[stat]
    raw = e.raw(0)
    hdr = e.hdr()
    rtol, atol = 1e-6, 1e-9
    base = raw
    if rep in ("f4", "bigf4"):
        base = {k: v.astype("f4").astype("f8") for k, v in raw.items()}
        given_ = {k: v.astype("f4" if rep == "f4" else ">f4") for k, v in raw.items()}
    elif rep == "int":
        base = {k: np.round(v * 20) for k, v in raw.items()}
        given_ = {k: v.astype(int) for k, v in base.items()}
    elif rep == "deg":
        given_ = {k: v[None] for k, v in raw.items()}
    else:
        given_ = {k: REPS[rep](v) for k, v in raw.items()}
    a = build(e, base, "arr", hdr)
    e.run(a, cfg)
    b = build(e, given_, form, hdr)
    e.run(b, cfg)
    ctx.step(2)
    A, B = e.obs(a), e.obs(b)
    if rep in ("f4", "bigf4"):
        # arithmetic may be carried out in single precision: only the primary numbers, loosely
        for k in PRIMARY[stat]:
            same_obs(ctx, {k: B[k]}, {k: A[k]}, "rep:%s:%s:" % (stat, rep), rtol=3e-3, atol=1e-5, msg=rep)
        ctx.state(stat, rep, cfg)
        return
    same_obs(ctx, B, A, "rep:%s:%s:" % (stat, rep), rtol=rtol, atol=atol, skip=("data",), msg=rep)
    ctx.state(stat, rep, form, cfg)


PRIMARY = {"PowerSpectrum": ("ps2D", "ps1D", "freqs"), "MVC": ("ps2D", "ps1D", "freqs"), "VCA": ("ps2D", "ps1D", "freqs"),
           "VCS": ("ps1D", "freqs"), "DeltaVariance": ("lags", "delta_var"), "Wavelet": ("scales", "values"),
           "SCF": ("scf_surface", "lags"), "StatMoments": ("mean", "variance", "mean_array", "variance_array"),
           "PDF": ("ecdf",), "PCA": ("cov_matrix",), "Genus": ("thresholds",), "Tsallis": ("lags",),
           "Bispectrum": ("bicoherence",), "Dendrogram_Stats": ("numfeatures",)}


# --- weights ------------------------------------------------------------------------
def gen_w(tier):
    for n, e in ENTRIES.items():
        if "weights" not in e.extra:
            continue
        for f in forms.FORMS2:
            for r in list(REPS) + ["int"]:
                if n == "PDF" and f not in ("arr",):
                    continue
                yield {"stat": n, "form": f, "rep": r}


def run_w(ctx, stat, form, rep):
    e = ENTRIES[stat]
    hdr = e.hdr()
    w = 0.25 + np.round(np.random.RandomState(8).uniform(0, 1, size=e.shape) * 4) / 4.
    if rep == "int":
        w = np.round(w * 4) + 1
    cfg = list(e.RUNS)[0]
    raw = e.raw(0)
    raw["weights"] = np.array(w)
    a = e.build(raw, hdr if e.header else None)
    e.run(a, cfg)
    g = w.astype(int) if rep == "int" else REPS[rep](w)
    raw = e.raw(0)
    raw["weights"] = forms.make(form, g, hdr)[0]
    b = e.build(raw, hdr if e.header else None)
    e.run(b, cfg)
    ctx.step(2)
    same_obs(ctx, e.obs(b), e.obs(a), "weights:%s:" % stat, rtol=1e-6, atol=1e-9, msg="weights as %s/%s" % (form, rep))
    ctx.state(stat, form, rep)


# --- distance metrics -------------------------------------------------------------------
def gen_d(tier):
    for n, e in DENTRIES.items():
        if n == "MVC_Distance":
            continue
        fs = forms.FORMS2 if len(e.shape) == 2 else forms.FORMS3
        for a, b in itertools.product(fs[1:], repeat=2):
            yield {"dist": n, "fa": a, "fb": b}


def run_d(ctx, dist, fa, fb):
    e = DENTRIES[dist]
    v0 = e.vals(e.dist(e.data(0), e.data(1)))
    A = forms.make(fa, *e.data(0))[0]
    B = forms.make(fb, *e.data(1))[0]
    v = e.vals(e.dist(A, B))
    ctx.step(2)
    for k in v0:
        ctx.close(v[k], v0[k], "dist-form:%s:%s" % (dist, k), rtol=1e-9, atol=1e-12, msg="%s/%s" % (fa, fb))
    ctx.state(dist, fa, fb)


# --- rejected inputs ----------------------------------------------------------------------
def gen_bad(tier):
    for n in ENTRIES:
        for bad in ("none", "string", "triple", "noheader", "badheader"):
            yield {"stat": n, "bad": bad}


def run_bad(ctx, stat, bad):
    """Unusable input is refused at construction instead of producing a number."""
    e = ENTRIES[stat]
    raw = e.raw(0)
    hdr = e.hdr()
    d = raw["data"]
    needs = e.header
    if bad == "none":
        g, hk = None, None
    elif bad == "string":
        g, hk = "some_file_name", None
    elif bad == "triple":
        g, hk = (d, hdr, hdr), None
    elif bad == "noheader":
        g, hk = d, None
    else:
        g, hk = (d, {"CDELT1": 1.}), None
    if not needs and bad in ("noheader", "badheader"):
        ctx.check(True, "")
        ctx.state(stat, "n/a")
        return
    # MVC warns and goes on without unit conversions
    if stat in ("PCA", "Genus") and bad == "noheader" or stat == "MVC" and bad in ("noheader", "badheader"):
        ctx.check(True, "")
        ctx.state(stat, "n/a2")
        return
    r = dict(raw)
    r["data"] = g
    if stat == "MVC":
        r = {k: g for k in raw}
    try:
        e.build(r, hk)
        ok = False
    except Exception:
        ok = True
    ctx.step()
    ctx.check(ok, "accepts:%s:%s" % (stat, bad), "constructor accepted %s" % bad)
    ctx.state(stat, bad)


FAMILIES = {
    "forms": Family(gen_forms, run_forms, "14 statistics x every documented form x 2 shapes x every run configuration"),
    "reps": Family(gen_reps, run_reps, "10 memory representations x 2 forms x every run configuration without a break fit"),
    "weights": Family(gen_w, run_w, "weights in every form and representation"),
    "dist": Family(gen_d, run_d, "all ordered pairs of forms for 13 metrics"),
    "bad": Family(gen_bad, run_bad, "unusable inputs are rejected"),
}
