"""History independence: run(c) after any history == run(c) on a fresh object."""
import itertools
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
from ..core import Family
from ..catalog import ENTRIES, same_obs, flat
from .. import fx

ASSUMPTIONS = [
    "operation alphabet = documented run() configurations, public compute/fit steps, "
    "documented setters, save_results; inputs fixed per class",
    "result attributes that a configuration does not compute are not compared, "
    "except the break and its error",
]

# --- extra (non-run) operations: name -> callable(obj) ---------------------


def _save(obj):
    d = tempfile.mkdtemp(prefix="mc_c02_")
    try:
        obj.save_results(os.path.join(d, "x"))
    finally:
        shutil.rmtree(d)


def _pspec_ops():
    return {
        "s:compute_hann": lambda o: o.compute_pspec(apodize_kernel="hanning"),
        "s:beam": lambda o: o.compute_pspec(beam_correct=True),
        "s:radial_azim": lambda o: (o.compute_pspec(), o.compute_radial_pspec(
            theta_0=60 * u.deg, delta_theta=40 * u.deg)),
    }


STEPS = {
    "PowerSpectrum": _pspec_ops(), "MVC": _pspec_ops(), "VCA": _pspec_ops(),
    "VCS": {"s:compute": lambda o: o.compute_pspec()},
    "DeltaVariance": {
        "s:keep": lambda o: o.compute_deltavar(keep_convolve_arrays=True, show_progress=False),
        "s:minw": lambda o: o.compute_deltavar(min_weight_frac=0.3, show_progress=False)},
    "Wavelet": {"s:keep": lambda o: o.compute_transform(keep_convolved_arrays=True,
                                                       show_progress=False)},
    "SCF": {"s:cut": lambda o: o.compute_surface(boundary="cut", show_progress=False),
            "s:azim": lambda o: (o.compute_surface(show_progress=False), o.compute_spectrum(
                theta_0=90 * u.deg, delta_theta=60 * u.deg))},
    "StatMoments": {"s:np": lambda o: o.compute_spatial_distrib(periodic=False,
                                                               show_progress=False)},
    "PDF": {"s:ecdf": lambda o: o.make_ecdf(), "s:pdf": lambda o: o.make_pdf(bins=5)},
    "PCA": {"s:img": lambda o: o.compute_pca(n_eigs=3, show_progress=False)},
    "Genus": {"s:keep": lambda o: o.make_genus_curve(keep_smoothed_images=True, match_kernel=False)},
    "Tsallis": {"s:np": lambda o: o.make_tsallis(periodic=False, num_bins=9)},
    "Bispectrum": {"s:c": lambda o: o.compute_bispectrum(nsamples=5, seed=3, show_progress=False)},
    "Dendrogram_Stats": {"s:d": lambda o: o.compute_dendro()},
}
# setters whose effect is documented to persist: (apply, build kwargs, build)
SETTERS = {
    "DeltaVariance": {"set:lags": (lambda o: setattr(o, "lags", np.array([3., 4., 5., 6.5, 7.]) * u.pix),
                                   dict(lags=np.array([3., 4., 5., 6.5, 7.]) * u.pix))},
    "Wavelet": {"set:scales": (lambda o: setattr(o, "scales", np.array([2., 3., 4., 5., 6.5]) * u.pix),
                               dict(scales=np.array([2., 3., 4., 5., 6.5]) * u.pix))},
    "SCF": {"set:roll": (lambda o: setattr(o, "roll_lags", np.arange(-4, 5) * 1.1 * u.pix),
                         dict(roll_lags=np.arange(-4, 5) * 1.1 * u.pix))},
    "Tsallis": {"set:lags": (lambda o: setattr(o, "lags", np.array([1, 3, 5]) * u.pix),
                             dict(lags=np.array([1, 3, 5]) * u.pix))},
    "Dendrogram_Stats": {"set:md": (lambda o: setattr(o, "min_deltas", np.linspace(0.1, 1.9, 7)),
                                    dict(min_deltas=np.linspace(0.1, 1.9, 7)))},
    "StatMoments": {"set:rad": (lambda o: setattr(o, "radius", 4 * u.pix), dict(radius=4 * u.pix))},
}
STICKY_RUN = {("StatMoments", "r3"): dict(radius=3 * u.pix), ("StatMoments", "r2"): dict(radius=2 * u.pix)}
# observables that must agree even when the fresh run leaves them undefined
STRICT = ("brk", "brk_err")

_fresh = {}


def ops_of(name):
    e = ENTRIES[name]
    return (["r:" + c for c in e.RUNS] + list(STEPS.get(name, {})) +
            list(SETTERS.get(name, {})) + (["save"] if name != "x" else []))


def apply_op(name, obj, op, sticky):
    e = ENTRIES[name]
    if op.startswith("r:"):
        e.run(obj, op[2:])
        sticky.update(STICKY_RUN.get((name, op[2:]), {}))
    elif op in STEPS.get(name, {}):
        STEPS[name][op](obj)
    elif op in SETTERS.get(name, {}):
        SETTERS[name][op][0](obj)
        sticky.update(SETTERS[name][op][1])
    elif op == "save":
        _save(obj)
    else:
        raise KeyError(op)


def fresh(name, cfg, sticky, k=0, shape=None):
    key = (name, cfg, k, shape, tuple(sorted((a, str(b)) for a, b in sticky.items())))
    if key not in _fresh:
        e = ENTRIES[name]
        o = e.build(e.raw(k, shape), e.hdr(shape) if e.header else None, **sticky)
        e.run(o, cfg)
        _fresh[key] = e.obs(o)
    return _fresh[key]


def compare(ctx, name, got, want, key):
    g, w = dict(flat(got)), dict(flat(want))
    gg, ww = {}, {}
    for k in w:
        base = k.lstrip(".").split(".")[0].split("[")[0].split("#")[0]
        if w[k] is None and base not in STRICT:
            continue
        gg[k], ww[k] = g.get(k), w[k]
    return same_obs(ctx, {"": gg}, {"": ww}, key, rtol=1e-9, atol=1e-12)


# --- family 1: histories on one object --------------------------------------
def gen_hist(tier):
    depth = 2 if tier == "quick" else 3
    for name in ENTRIES:
        ops = ops_of(name)
        for n in range(0, depth + 1):
            for pre in itertools.product(ops, repeat=n):
                yield {"stat": name, "history": list(pre)}


def run_hist(ctx, stat, history):
    e = ENTRIES[stat]
    for cfg in e.RUNS:
        sticky = {}
        o = e.build(e.raw(0), e.hdr() if e.header else None)
        for op in history:
            apply_op(stat, o, op, sticky)
            ctx.step()
        e.run(o, cfg)
        ctx.step()
        st = dict(sticky)
        st.update(STICKY_RUN.get((stat, cfg), {}))
        got = e.obs(o)
        want = fresh(stat, cfg, st)
        ctx.state(stat, cfg, sorted((a, str(b)) for a, b in st.items()))
        if not compare(ctx, stat, got, want, "hist:%s:%s" % (stat, cfg)):
            ctx.violations[-1]["msg"] = "final run %r after history: " % cfg + ctx.violations[-1]["msg"]


# --- family 2: two live objects ---------------------------------------------
def gen_two(tier):
    for name in ENTRIES:
        cfgs = list(ENTRIES[name].RUNS)
        for other in ("same_shape", "other_shape"):
            for a in cfgs:
                for b in (cfgs if tier == "thorough" else cfgs[:6]):
                    yield {"stat": name, "other": other, "a": a, "b": b}


def _oshape(name):
    s = list(ENTRIES[name].shape)
    s[-1] += 3
    s[-2] += 1
    return tuple(s)


def run_two(ctx, stat, other, a, b):
    e = ENTRIES[stat]
    shp = None if other == "same_shape" else _oshape(stat)
    oa = e.build(e.raw(0), e.hdr() if e.header else None)
    ob = e.build(e.raw(2, shp), e.hdr(shp) if e.header else None)
    sta = dict(STICKY_RUN.get((stat, a), {}))
    stb = dict(STICKY_RUN.get((stat, b), {}))
    e.run(oa, a)
    e.run(ob, b)
    ctx.step(2)
    compare(ctx, stat, e.obs(oa), fresh(stat, a, sta), "two:first-object-changed:" + stat)
    compare(ctx, stat, e.obs(ob), fresh(stat, b, stb, 2, shp), "two:second-object:" + stat)
    e.run(oa, a)
    ctx.step()
    compare(ctx, stat, e.obs(oa), fresh(stat, a, sta), "two:first-object-rerun:" + stat)
    compare(ctx, stat, e.obs(ob), fresh(stat, b, stb, 2, shp), "two:second-object-changed:" + stat)
    ctx.state(stat, other, a, b)


# --- family 3: caller-held results are not overwritten by later runs ---------
def gen_hold(tier):
    for name in ENTRIES:
        for a in ENTRIES[name].RUNS:
            yield {"stat": name, "a": a}


def run_hold(ctx, stat, a):
    """Results a caller kept from the first run are snapshots: they stay as they were."""
    import copy
    e = ENTRIES[stat]
    for b in e.RUNS:
        o = e.build(e.raw(0), e.hdr() if e.header else None)
        e.run(o, a)
        held = e.obs(o)
        snap = copy.deepcopy(held)
        e.run(o, b)
        ctx.step(2)
        same_obs(ctx, held, snap, "hold:%s:%s->%s" % (stat, a, b), rtol=0, atol=0)
        ctx.state(stat, a, b)


FAMILIES = {
    "history": Family(gen_hist, run_hist,
                      "all operation sequences of length<=2 (quick) / <=3 (thorough) over each "
                      "statistic's full alphabet, each followed by every run configuration"),
    "two_objects": Family(gen_two, run_two, "all pairs of run configurations on two live objects"),
    "held_results": Family(gen_hold, run_hold, "all ordered pairs of run configurations"),
}
