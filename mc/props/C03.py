"""Results do not depend on random state, verbosity, plotting, FFT backend, threads or process; running leaves global state alone."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import astropy.units as u
from ..core import Family, REPO, VERIF
from ..catalog import ENTRIES, same_obs, flat
from ..dcatalog import DENTRIES
from .. import fx

ASSUMPTIONS = ["uncertainties from a bootstrap that has no seed argument are only required to follow numpy's global seed",
               "the FFT backends may differ by rounding, so fits with a break are not compared between them"]

BOOT = {
    "PowerSpectrum": dict(fit_2D=False, fit_kwargs=dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20))),
    "MVC": dict(fit_2D=False, fit_kwargs=dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20))),
    "VCA": dict(fit_2D=False, fit_kwargs=dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20))),
    "VCS": dict(breaks=-0.8, fit_kwargs=dict(bootstrap=True, nboot=20)),
    "DeltaVariance": dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20)),
    "Wavelet": dict(show_progress=False, fit_kwargs=dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20))),
    "SCF": dict(show_progress=False, fit_2D=False, fit_kwargs=dict(bootstrap=True, bootstrap_kwargs=dict(nboot=20))),
}
BOOT2D = {
    "PowerSpectrum": dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=True, niters=4)),
    "VCA": dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=True, niters=4)),
    "MVC": dict(fit_2D=True, fit_2D_kwargs=dict(bootstrap=True, niters=4)),
    "SCF": dict(show_progress=False, fit_2D=True, fit_2D_kwargs=dict(bootstrap=True, niters=4)),
}


def build(e, k=1):
    return e.build(e.raw(k), e.hdr() if e.header else None)


def rng_key():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4])


def glob():
    import matplotlib
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rc = {k: str(v) for k, v in matplotlib.rcParams.items()}
    return {"rng": rng_key(), "err": np.geterr(), "print": str(np.get_printoptions()), "cwd": os.getcwd(), "env": dict(os.environ),
            "rc": rc, "errcall": np.geterrcall(), "umask": None}


def compare_glob(ctx, a, b, key):
    for k in a:
        ctx.check(a[k] == b[k], key + "-" + k, "" if k == "rng" else "%r -> %r" % (a[k], b[k]))


# --- random state ------------------------------------------------------------------------------------------
def gen_r(tier):
    for n in sorted(ENTRIES):
        for cfg in sorted(ENTRIES[n].RUNS):
            yield {"stat": n, "cfg": cfg}
        if n in BOOT:
            yield {"stat": n, "cfg": "@boot"}
        if n in BOOT2D:
            yield {"stat": n, "cfg": "@boot2d"}


def run_r(ctx, stat, cfg):
    e = ENTRIES[stat]
    out = []
    for seed, burn in ((0, 0), (1, 3), (12345, 100), (0, 0)):
        np.random.seed(seed)
        np.random.uniform(size=burn)
        o = build(e)
        before = glob()
        if cfg == "@boot":
            if stat == "DeltaVariance":
                o.run(show_progress=False)
                o.fit_plaw(**BOOT[stat])
            else:
                o.run(**BOOT[stat])
        elif cfg == "@boot2d":
            o.run(**BOOT2D[stat])
        else:
            e.run(o, cfg)
        after = glob()
        ctx.step()
        if cfg == "@boot2d":
            after["rng"] = before["rng"]
        compare_glob(ctx, before, after, "global")
        ob = e.obs(o)
        if cfg == "@boot2d":
            ob["errs"] = [getattr(o, k, None) for k in ("slope2D_err", "ellip2D_err", "theta2D_err")]
        out.append(ob)
    for i, ob in enumerate(out[1:3]):
        same_obs(ctx, {k: v for k, v in ob.items() if k != "errs"}, {k: v for k, v in out[0].items() if k != "errs"}, "random", rtol=0)
    same_obs(ctx, out[3], out[0], "repeat", rtol=0)
    ctx.state(stat, cfg)


def gen_dr(tier):
    for n in sorted(DENTRIES):
        for same in (True, False):
            yield {"dist": n, "sameshape": same}


def run_dr(ctx, dist, sameshape):
    de = DENTRIES[dist]
    a = de.data(1)
    b = de.data(2) if sameshape else de.data(2, shape=de.shape2)
    out = []
    for seed in (0, 7, 0):
        np.random.seed(seed)
        before = glob()
        d = de.dist(a, b)
        after = glob()
        ctx.step()
        compare_glob(ctx, before, after, "global")
        out.append(de.vals(d))
    for o in out[1:]:
        same_obs(ctx, o, out[0], "random", rtol=0)
    ctx.state(dist, sameshape)


# --- verbosity and plots -----------------------------------------------------------------------------------
def gen_v(tier):
    for n in sorted(ENTRIES):
        for cfg in sorted(ENTRIES[n].RUNS):
            for mode in ("verbose", "save", "progress"):
                yield {"stat": n, "cfg": cfg, "mode": mode}


def run_v(ctx, stat, cfg, mode):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    e = ENTRIES[stat]
    kw = e.RUNS[cfg]
    kw = kw() if callable(kw) else dict(kw)
    if mode == "progress" and "show_progress" not in kw:
        return
    plt.close("all")
    ref = build(e)
    ref.run(**kw)
    want = e.obs(ref)
    d = tempfile.mkdtemp(prefix="mc_c03_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        kw = e.RUNS[cfg]
        kw = kw() if callable(kw) else dict(kw)
        name = os.path.join(d, "fig.png")
        if mode == "verbose":
            kw["verbose"] = True
        elif mode == "save":
            kw.update(verbose=True, save_name=name)
        else:
            kw["show_progress"] = True
        o = build(e)
        before = glob()
        o.run(**kw)
        ctx.step()
        compare_glob(ctx, before, glob(), "global")
        same_obs(ctx, e.obs(o), want, "verbosity", rtol=0)
        files = sorted(os.listdir(d))
        if mode == "save":
            ctx.check(files == ["fig.png"] and os.path.getsize(name) > 500, "figure-file", files)
        else:
            ctx.check(files == [], "stray-file", files)
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    ctx.state(stat, cfg, mode)


def gen_dv(tier):
    for n in sorted(DENTRIES):
        for save in (False, True):
            yield {"dist": n, "save": save}


def run_dv(ctx, dist, save):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    de = DENTRIES[dist]
    a, b = de.data(1), de.data(2)
    want = de.vals(de.dist(a, b))
    d = tempfile.mkdtemp(prefix="mc_c03_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        o = de.dist(a, b)
        kw = {"verbose": True}
        if save:
            kw["save_name"] = os.path.join(d, "fig.png")
        before = glob()
        o.distance_metric(**kw)
        ctx.step()
        compare_glob(ctx, before, glob(), "global")
        same_obs(ctx, de.vals(o), want, "verbosity", rtol=0)
        files = sorted(os.listdir(d))
        if save:
            ctx.check(len(files) >= 1 and all(f.startswith("fig") and f.endswith(".png") for f in files), "figure-file", files)
        else:
            ctx.check(files == [], "stray-file", files)
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    ctx.state(dist, save)


# --- FFT backend and threads ----------------------------------------------------------------------------------
FFT = ("PowerSpectrum", "MVC", "VCA", "VCS", "DeltaVariance", "Wavelet", "Bispectrum")


def gen_b(tier):
    for n in FFT:
        e = ENTRIES[n]
        for cfg in sorted(e.RUNS):
            if cfg.startswith("brk") or cfg == "fftw":
                continue
            for shape in (e.shape, tuple(x + 1 for x in e.shape)):
                yield {"stat": n, "cfg": cfg, "shape": list(shape)}


def run_b(ctx, stat, cfg, shape):
    e = ENTRIES[stat]
    shape = tuple(shape)

    def go(**extra):
        kw = e.RUNS[cfg]
        kw = kw() if callable(kw) else dict(kw)
        if stat == "VCS":
            kw.setdefault("breaks", -0.8)
        kw.update(extra)
        o = e.build(e.raw(1, shape=shape), e.hdr(shape=shape) if e.header else None)
        o.run(**kw)
        ctx.step()
        return e.obs(o)
    # fits that wander for rounding-level reasons, and logs and ratios of values that are zero up to rounding
    skip = {"VCS": ("brk", "slope", "slope_err"), "Bispectrum": ("bispectrum_logamp", "bicoherence") if cfg == "msub" else ()}.get(
        stat, ("slope2D", "ellip2D", "theta2D"))
    want = go()
    runs = [dict(use_pyfftw=True, threads=t) for t in (1, 2, 4)] + [dict(threads=3)]
    if stat not in ("Bispectrum",):
        runs.append(dict(use_pyfftw=True, threads=2, pyfftw_kwargs={"planner_effort": "FFTW_ESTIMATE"}))
    for r in runs:
        same_obs(ctx, go(**r), want, "backend", rtol=1e-7, atol=1e-9, skip=skip, msg=str(r))
    ctx.state(stat, cfg, shape)


# --- another process ----------------------------------------------------------------------------------------------
CHILD = r'''
import sys, json, warnings, hashlib
warnings.simplefilter("ignore")
sys.path.insert(0, %r); sys.path.insert(0, %r)
import io, contextlib
from mc.props.C03 import digest_of
with contextlib.redirect_stdout(io.StringIO()):
    out = digest_of(%r)
print(json.dumps(out))
'''


def digest_of(stat):
    import hashlib
    out = {}
    if stat in ENTRIES:
        e = ENTRIES[stat]
        for cfg in sorted(e.RUNS):
            o = build(e)
            e.run(o, cfg)
            out[cfg] = _dig(e.obs(o))
    else:
        de = DENTRIES[stat]
        out["d"] = _dig(de.vals(de.dist(de.data(1), de.data(2, shape=de.shape2))))
    return out


def _dig(o):
    import hashlib
    h = hashlib.sha1()
    for k, v in flat(o):
        h.update(k.encode())
        if v is None or isinstance(v, str):
            h.update(repr(v).encode())
        else:
            h.update(np.ascontiguousarray(np.asarray(getattr(v, "value", v))).tobytes())
    return h.hexdigest()


def gen_p(tier):
    for n in sorted(ENTRIES) + sorted(DENTRIES):
        yield {"name": n}


def run_p(ctx, name):
    want = digest_of(name)
    ctx.step()
    for hs in ("1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hs, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        r = subprocess.run([sys.executable, "-c", CHILD % (VERIF, REPO, name)], env=env, capture_output=True, text=True, timeout=300)
        ctx.step()
        if not ctx.check(r.returncode == 0, "child", r.stderr[-400:]):
            continue
        got = json.loads(r.stdout.strip().splitlines()[-1])
        for k in want:
            ctx.check(got.get(k) == want[k], "process", "%s/%s differs in a new process with hash seed %s" % (name, k, hs))
    ctx.state(name)


FAMILIES = {
    "random": Family(gen_r, run_r, "14 statistics x every run configuration (and bootstrap fits) x 4 global random states; global state compared around each run"),
    "random_dist": Family(gen_dr, run_dr, "14 metrics x equal/different shapes x 3 global random states"),
    "verbosity": Family(gen_v, run_v, "14 statistics x every run configuration x verbose/saved figure/progress bar"),
    "verbosity_dist": Family(gen_dv, run_dv, "14 metrics x verbose with and without a saved figure"),
    "backend": Family(gen_b, run_b, "7 Fourier statistics x configurations x even/odd shapes x FFT backend and threads"),
    "process": Family(gen_p, run_p, "every statistic and metric in 2 further processes with other hash seeds"),
}
