"""Saving and loading results is a faithful round trip, and an interrupted save is never taken for a good one."""
import os
import shutil
import tempfile
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx
from ..catalog import ENTRIES, same_obs, getobs, flat
from ..dcatalog import DENTRIES

ASSUMPTIONS = ["results that need the data (PCA eigenimages, PDF data) are only compared when the data were kept",
               "a crash leaves a prefix of the bytes written, or the write fails at any size limit"]
NEEDDATA = {"PDF": ("data", "q", "p"), "PCA": ("eigimages_abs", "acf", "acs"), "MVC": ("centroid",)}
TMP = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mc_c10_", dir=TMP)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def ready(e, cfg, k=1):
    raw = e.raw(k)
    o = e.build(raw, e.hdr() if e.header else None)
    if cfg is not None:
        e.run(o, cfg)
    return raw, o


def observe(e, o, kept):
    if kept:
        return e.obs(o)
    return getobs(o, [n for n in e.OBS if n not in NEEDDATA.get(e.name, ())])


# --- round trip --------------------------------------------------------------------------------------------
def gen_rt(tier):
    for n in sorted(ENTRIES):
        for cfg in sorted(ENTRIES[n].RUNS):
            for keep in (False, True):
                yield {"stat": n, "cfg": cfg, "keep": keep}


def run_rt(ctx, stat, cfg, keep):
    e = ENTRIES[stat]
    raw, o = ready(e, cfg)
    before = e.obs(o)
    with scratch() as d:
        for name, want in (("res", "res.pkl"), ("res2.pkl", "res2.pkl"), ("a.b_3.1", "a.b_3.1.pkl"), ("b.pkl.bak", "b.pkl.bak.pkl"), ("pkl", "pkl.pkl")):
            o.save_results(os.path.join(d, name), keep_data=keep)
            ctx.step()
            ctx.check(os.path.exists(os.path.join(d, want)), "name", "%s not written: %s" % (want, os.listdir(d)))
        ctx.check(sorted(os.listdir(d)) == ["a.b_3.1.pkl", "b.pkl.bak.pkl", "pkl.pkl", "res.pkl", "res2.pkl"], "files", os.listdir(d))
        same_obs(ctx, e.obs(o), before, "original-changed", rtol=0)
        L = type(o).load_results(os.path.join(d, "res.pkl"))
        ctx.check(type(L) is type(o), "type")
        kept = keep
        same_obs(ctx, observe(e, L, kept), {k: v for k, v in before.items() if kept or k in observe(e, L, kept)}, "roundtrip", rtol=0)
        if e.header:
            ctx.check(L.header == o.header, "header")
        if keep:
            ctx.check(np.array_equal(np.asarray(L.data), np.asarray(o.data), equal_nan=True), "data-kept")
        else:
            ctx.check(getattr(L, "data", None) is None, "data-dropped")
            if stat == "MVC":
                ctx.check(all(getattr(L, k) is None for k in ("centroid", "moment0", "linewidth")), "data-dropped")
        # save the loaded object again
        L.save_results(os.path.join(d, "again"), keep_data=keep)
        L2 = type(o).load_results(os.path.join(d, "again.pkl"))
        same_obs(ctx, observe(e, L2, kept), observe(e, L, kept), "second-roundtrip", rtol=0)
        ctx.step(3)
        if keep:
            # a loaded object is as good as the one that was saved for every other run
            for c2 in sorted(e.RUNS):
                fresh = ready(e, cfg)[1]
                e.run(fresh, c2)
                L3 = type(o).load_results(os.path.join(d, "res.pkl"))
                e.run(L3, c2)
                ctx.step()
                same_obs(ctx, {k: v for k, v in e.obs(L3).items() if e.obs(fresh).get(k) is not None},
                         {k: v for k, v in e.obs(fresh).items() if v is not None}, "rerun", rtol=1e-12)
    ctx.state(stat, cfg, keep)


# --- overwriting, partial objects ----------------------------------------------------------------------------
def gen_ow(tier):
    for n in sorted(ENTRIES):
        for first, second in itertools.permutations(sorted(ENTRIES[n].RUNS)[:3] + [None], 2):
            yield {"stat": n, "first": first, "second": second}


def run_ow(ctx, stat, first, second):
    e = ENTRIES[stat]
    with scratch() as d:
        p = os.path.join(d, "same.pkl")
        _, a = ready(e, first)
        a.save_results(p, keep_data=True)
        _, b = ready(e, second, k=2)
        b.save_results(p)
        L = type(b).load_results(p)
        ctx.step(3)
        if second is not None:
            same_obs(ctx, observe(e, L, False), observe(e, b, False), "overwrite", rtol=0)
        else:
            ctx.check(getattr(L, "data", None) is None, "overwrite-data")
            got = observe(e, L, False)
            want = observe(e, b, False)
            same_obs(ctx, got, want, "overwrite-unrun", rtol=0)
    ctx.state(stat, first, second)


# --- every prefix of a saved file -------------------------------------------------------------------------------
def gen_tr(tier):
    for n in sorted(ENTRIES):
        for keep in (False, True):
            yield {"stat": n, "keep": keep, "step": 1 if tier != "quick" else 17}


def run_tr(ctx, stat, keep, step):
    e = ENTRIES[stat]
    _, o = ready(e, sorted(e.RUNS)[0])
    with scratch() as d:
        p = os.path.join(d, "x.pkl")
        o.save_results(p, keep_data=keep)
        full = open(p, "rb").read()
        n = len(full)
        # every length near both ends, every `step`-th length for the first 4 kB, every 512-byte block boundary after it
        cuts = set(range(0, min(n, 64))) | set(range(max(0, n - 64), n)) | set(range(0, min(n, 4096), step))
        for b in range(0, n, 512):
            cuts |= {b - 1, b, b + 1}
        q = os.path.join(d, "t.pkl")
        for c in sorted(x for x in cuts if 0 <= x < n):
            with open(q, "wb") as f:
                f.write(full[:c])
            try:
                L = type(o).load_results(q)
            except Exception:
                ctx.step()
                continue
            ctx.fail("truncated-accepted", "%d of %d bytes load as %r" % (c, n, L))
            break
    ctx.validated += 1
    ctx.state(stat, keep)


# --- the write fails at every size ---------------------------------------------------------------------------------
def gen_wf(tier):
    for n in sorted(ENTRIES):
        for old in (False, True):
            yield {"stat": n, "old": old}


def run_wf(ctx, stat, old):
    """In a child process whose files may not grow beyond a limit, for every 1/24th of the file and the last bytes."""
    import resource
    import signal
    e = ENTRIES[stat]
    _, o = ready(e, sorted(e.RUNS)[0])
    before = e.obs(o)
    with scratch() as d:
        p = os.path.join(d, "x.pkl")
        o.save_results(p)
        n = os.path.getsize(p)
        limits = sorted(set([0, 1, n - 1, n - 2] + [n * i // 24 for i in range(1, 24)]))
        for lim in limits:
            q = os.path.join(d, "w.pkl")
            if old:
                shutil.copy(p, q)
            elif os.path.exists(q):
                os.unlink(q)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = b"?"
                try:
                    os.close(r)
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    signal.alarm(60)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                    try:
                        o.save_results(q)
                        code = b"returned"
                    except Exception:
                        code = b"raised"
                finally:
                    os.write(w, code)
                    os._exit(0)
            os.close(w)
            code = os.read(r, 16)
            os.close(r)
            os.waitpid(pid, 0)
            ctx.step()
            ctx.check(code == b"raised", "silent-failure", "limit %d of %d: save_results %s" % (lim, n, code))
            if os.path.exists(q):
                try:
                    L = type(o).load_results(q)
                except Exception:
                    continue
                # only a complete earlier file may load
                same_obs(ctx, observe(e, L, False), observe(e, o, False), "half-written-accepted", rtol=0)
                ctx.check(old, "half-written-accepted", "limit %d" % lim)
        same_obs(ctx, e.obs(o), before, "object-after-failure", rtol=0)
    ctx.state(stat, old)


# --- loaded objects in distance metrics ------------------------------------------------------------------------------
def gen_d(tier):
    for n in sorted(DENTRIES):
        de = DENTRIES[n]
        if getattr(de, "pre_ok", True) and hasattr(de, "pre"):
            for which in (1, 2, 3):
                yield {"dist": n, "which": which}


def run_d(ctx, dist, which):
    de = DENTRIES[dist]
    a, b = de.data(1), de.data(2)
    want = de.vals(de.dist(de.pre(a), de.pre(b)))
    x, y = de.pre(a), de.pre(b)
    with scratch() as d:
        out = []
        for i, o in enumerate((x, y)):
            if which & (1 << i):
                p = os.path.join(d, "%d" % i)
                o.save_results(p, keep_data=True)
                o = type(o).load_results(p + ".pkl")
            out.append(o)
        got = de.vals(de.dist(*out))
    ctx.step(2)
    same_obs(ctx, got, want, "distance", rtol=1e-9)
    ctx.state(dist, which)


# --- what the caller told the object: distance, beam, units ---------------------------------------------------
def gen_c(tier):
    for n in ("PowerSpectrum", "VCA", "MVC", "DeltaVariance", "Wavelet", "SCF", "PCA", "Genus"):
        for keep in (False, True):
            for times in (1, 2):
                yield {"stat": n, "keep": keep, "times": times}


def run_c(ctx, stat, keep, times):
    from radio_beam import Beam
    e = ENTRIES[stat]
    raw = e.raw(1)
    kw = {"distance": 250. * u.kpc}
    beamed = stat in ("PowerSpectrum", "VCA", "MVC")
    if beamed:
        kw["beam"] = Beam(major=0.075 * u.deg, minor=0.031 * u.deg, pa=35 * u.deg)
    cfg = "beam" if beamed else sorted(e.RUNS)[0] if "plain" not in e.RUNS else "plain"

    def build():
        o = e.build(e.raw(1), e.hdr(), **kw)
        e.run(o, cfg)
        return o
    o = build()
    with scratch() as d:
        L = o
        for i in range(times):
            L.save_results(os.path.join(d, "r%d" % i), keep_data=keep)
            L = type(o).load_results(os.path.join(d, "r%d.pkl" % i))
        ctx.step(2 * times)
        ctx.check(L.distance == o.distance and L.distance.unit == o.distance.unit, "distance", (L.distance, o.distance))
        same_obs(ctx, observe(e, L, keep), {k: v for k, v in observe(e, o, keep).items()}, "configured-roundtrip", rtol=0)
        # the fit can be repeated from the saved curve with limits in any unit
        pc = np.radians(abs(o.header["CDELT2"])) * 250000. * u.pc
        for q in (o, L):
            if beamed:
                q.fit_pspec(low_cut=0.08 / pc, high_cut=0.33 / (abs(o.header["CDELT2"]) * u.deg))
            elif stat == "DeltaVariance":
                q.fit_plaw(xlow=3.01 * pc, xhigh=6.4 * abs(o.header["CDELT2"]) * u.deg)
            elif stat == "Wavelet":
                q.fit_transform(xlow=3.01 * pc, xhigh=6.4 * abs(o.header["CDELT2"]) * u.deg, verbose=False)
            elif stat == "SCF":
                q.compute_spectrum()
                q.fit_plaw(xlow=1.01 * pc, xhigh=6.4 * abs(o.header["CDELT2"]) * u.deg)
        ctx.step()
        same_obs(ctx, observe(e, L, keep), observe(e, o, keep), "refit", rtol=1e-10)
        if keep:
            fresh = build()
            for q in (fresh, L):
                e.run(q, "plain" if "plain" in e.RUNS else cfg)
                e.run(q, cfg)
            ctx.step()
            same_obs(ctx, {k: v for k, v in e.obs(L).items() if e.obs(fresh).get(k) is not None},
                     {k: v for k, v in e.obs(fresh).items() if v is not None}, "configured-rerun", rtol=1e-10)
    ctx.state(stat, keep, times)


FAMILIES = {
    "roundtrip": Family(gen_rt, run_rt, "14 statistics x every run configuration x keep_data x 3 file names; re-saved; re-run with every configuration"),
    "configured": Family(gen_c, run_c, "8 statistics with a distance (and an elongated beam) x keep_data x one or two round trips; re-fitted with limits in every unit, re-run"),
    "overwrite": Family(gen_ow, run_ow, "ordered pairs of run states saved to the same file"),
    "prefixes": Family(gen_tr, run_tr, "file prefixes: the first and last 64 lengths, every 17th (thorough: every) length up to 4 kB, every 512-byte boundary +-1"),
    "writefail": Family(gen_wf, run_wf, "write failure at 27 file-size limits, with and without an earlier file"),
    "distances": Family(gen_d, run_d, "distance metrics x which argument was saved and loaded"),
}
