"""Dendrogram statistics count the structures of the pruned tree of the data, for every map, boundary, file and option."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from ..core import Family
from .. import fx

ASSUMPTIONS = ["astrodendro itself (an installed dependency) builds and prunes trees correctly",
               "a dendrogram given by the caller was computed with the first min_delta, as the tutorial demands"]


def oracle(data, deltas, min_value, min_npix, axes=None):
    from astrodendro import Dendrogram, periodic_neighbours
    d = Dendrogram.compute(np.asarray(data), min_value=min_value, min_delta=deltas[0], min_npix=min_npix,
                           neighbours=None if axes is None else periodic_neighbours(list(axes)))
    num, vals = [], []
    for i, de in enumerate(deltas):
        if i:
            d.prune(min_delta=de)
        st = list(d.all_structures)
        num.append(len(st))
        vals.append(np.sort(np.array([s.vmax for s in st], float)))
    return np.array(num), vals


def same(ctx, o, ref, tag, skip_vals=False):
    num, vals = ref
    if not ctx.check(np.array_equal(np.asarray(o.numfeatures).ravel(), num) and len(o.values) == len(num), tag + "-counts",
                     "%s, want %s" % (o.numfeatures, num)):
        return
    if not skip_vals:
        for i, (g, w) in enumerate(zip(o.values, vals)):
            g = np.sort(np.asarray(g, float))
            ctx.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-12, atol=0), tag + "-peaks", "min_delta %d: %s, want %s" % (i, g, w))
    ctx.check((np.diff(np.asarray(o.numfeatures)) <= 0).all(), tag + "-monotonic", o.numfeatures)


def build(data, hdr, **kw):
    from turbustat.statistics import Dendrogram_Stats
    return Dendrogram_Stats(data, header=hdr, **kw)


# ---- counts: every arrangement of the heights on a small map
GRIDS = {"2x3": (2, 3), "1+2x3": (3, 2), "3x3": (3, 3)}


def gen_c(tier):
    chunk = 60
    for grid, n in (("2x3", 6), ("1+2x3", 6)):
        for c in range(0, 720, chunk):
            for npix in (1, 2):
                for mv in (0.0, 1.5):
                    yield {"grid": grid, "start": c, "stop": c + chunk, "npix": npix, "min_value": mv}
    # 3x3: every placement of 4 distinct peaks on a flat-but-distinct floor
    npl = 9 * 8 * 7 * 6
    step = 84 if tier == "quick" else 1
    for c in range(0, npl, npl // 12):
        yield {"grid": "3x3", "start": c, "stop": c + npl // 12, "npix": 1, "min_value": -1.0, "step": step // 12 or 1}


def maps_for(grid, start, stop, step=1):
    sh = GRIDS[grid]
    if grid != "3x3":
        for p in itertools.islice(itertools.permutations(range(sh[0] * sh[1])), start, stop):
            yield np.array(p, float).reshape(sh) * np.array([1.]) + 0.01 * np.arange(sh[0] * sh[1]).reshape(sh)
    else:
        for p in itertools.islice(itertools.permutations(range(9), 4), start, stop, step):
            a = 0.01 * np.arange(9.)
            for i, q in enumerate(p):
                a[q] = (4., 3., 2., 1.)[i]
            yield a.reshape(sh)


def run_c(ctx, grid, start, stop, npix, min_value, step=1):
    hdr = fx.hdr2(GRIDS[grid])
    deltas = np.array([0.3, 1.2, 2.3, 3.1])
    for a in maps_for(grid, start, stop, step):
        o = build(a, hdr, min_deltas=deltas.copy(), dendro_params={"min_npix": npix, "min_value": min_value, "min_delta": 0.1})
        o.compute_dendro()
        ctx.step()
        ref = oracle(a, deltas, min_value, npix)
        same(ctx, o, ref, "counts")
        ctx.state(ref[0])


# ---- periodic: every roll of the spatial axes, every header axis order
ORD = {"yx": (2, None), "xy": (2, None), "zyx": (3, 0), "yzx": (3, 1), "yxz": (3, 2)}


def pdata(order, k):
    nd, spec = ORD[order]
    if nd == 2:
        sh = {"yx": (5, 6), "xy": (6, 4)}[order]
        a, h = fx.img(sh, k), fx.hdr2(sh)
        if order == "xy":
            for key in ("CTYPE", "CRVAL", "CDELT", "CRPIX"):
                h[key + "1"], h[key + "2"] = h[key + "2"], h[key + "1"]
        return a, h, (0, 1)
    a = fx.cube((4, 4, 5), k)
    a = np.moveaxis(a, 0, spec)
    h = fx.hdr3((4, 4, 5))
    src = {0: (1, 2, 3), 1: (1, 3, 2), 2: (3, 1, 2)}[spec]     # FITS axis i of the new header = FITS axis src[i] of the old
    new = h.copy()
    for i, s in enumerate(src):
        for key in ("CTYPE", "CUNIT", "CRVAL", "CDELT", "CRPIX", "NAXIS"):
            new[key + str(i + 1)] = h[key + str(s)]
    return np.ascontiguousarray(a), new, tuple(i for i in range(3) if i != spec)


def gen_p(tier):
    for order in ORD:
        for k in range(2 if tier == "quick" else 6):
            a, _, axes = pdata(order, k)
            for i in range(a.shape[axes[0]]):
                yield {"order": order, "k": k, "roll0": i}


def run_p(ctx, order, k, roll0):
    a, h, axes = pdata(order, k)
    mv = float(np.percentile(a, 25))
    deltas = np.linspace(0.02, 0.6, 4) * (a.max() - a.min())
    par = {"min_npix": 2, "min_value": mv, "min_delta": 0.1}
    base = oracle(a, deltas, mv, 2, axes)
    for j in range(a.shape[axes[1]]):
        b = np.roll(a, (roll0, j), axes)
        o = build(b, h, min_deltas=deltas.copy(), dendro_params=dict(par))
        o.compute_dendro(periodic_bounds=True)
        p = build(b, h, min_deltas=deltas.copy(), dendro_params=dict(par))
        p.compute_dendro()
        ctx.step(2)
        same(ctx, o, base, "periodic")
        same(ctx, p, oracle(b, deltas, mv, 2), "plain")
        if a.ndim == 3:      # the spectral axis never wraps: cut at the other place
            sp = [i for i in range(3) if i not in axes][0]
            c = np.roll(b, 1, sp)
            q = build(c, h, min_deltas=deltas.copy(), dendro_params=dict(par))
            q.compute_dendro(periodic_bounds=True)
            ctx.step()
            same(ctx, q, oracle(c, deltas, mv, 2, axes), "spectral")
    ctx.state(base[0])


# ---- min_deltas: automatic levels, forms, refusals
def gen_d(tier):
    for nd in (2, 3):
        for num in (1, 2, 3, 10, 17):
            for par in ("full", "default", "no-delta"):
                for bad in (0, 1):
                    yield {"ndim": nd, "num": num, "params": par, "missing": bad}


def run_d(ctx, ndim, num, params, missing):
    from turbustat.statistics import Dendrogram_Stats
    a, h = (5 + fx.img((7, 8)), fx.hdr2((7, 8))) if ndim == 2 else (fx.cube((4, 5, 6)), fx.hdr3((4, 5, 6)))
    if missing:
        a.flat[::7] = np.nan
    par = {"full": {"min_npix": 2, "min_value": 0.4, "min_delta": 0.15}, "default": None,
           "no-delta": {"min_npix": 2, "min_value": 0.4}}[params]
    mv = 0.001 if par is None else 0.4
    md = {"full": 0.15, "default": 0.1, "no-delta": 1e-5}[params]
    o = Dendrogram_Stats(a, header=h, dendro_params=par, num_deltas=num)
    top = np.nanmax(a) - mv
    ctx.step()
    ctx.close(o.min_deltas, md + (top - md) * np.arange(num) / float(num), "auto-levels", rtol=1e-12)
    o = Dendrogram_Stats(a, header=h, dendro_params=par, num_deltas=num, min_deltas="auto")
    o.autoset_min_deltas(num + 3)
    ctx.close(o.min_deltas, md + (top - md) * np.arange(num + 3) / (num + 3.), "auto-levels", rtol=1e-12)
    D = np.linspace(0.2, 1.4, num) if num > 1 else np.array([0.2])
    res = []
    par2 = par or {"min_npix": 10, "min_value": 0.001}
    for form in ("array", "list", "tuple", "setter", "f4") + (("scalar",) if num == 1 else ()):
        v = {"array": D, "list": list(D), "tuple": tuple(D), "scalar": 0.2, "setter": D, "f4": D}[form]
        if form == "setter":
            o = Dendrogram_Stats(a, header=h, dendro_params=par)
            o.min_deltas = v
        else:
            o = Dendrogram_Stats(a, header=h, dendro_params=par, min_deltas=v)
        ctx.close(np.asarray(o.min_deltas), D, "given-levels", rtol=1e-6)
        o.compute_dendro()
        ctx.step()
        same(ctx, o, oracle(a, D, par2["min_value"], par2["min_npix"]), "given")
        ctx.check(np.shape(o.numfeatures) == (num,), "given-shape", np.shape(o.numfeatures))
    if params != "no-delta":
        o = Dendrogram_Stats(a, header=h, dendro_params=par, min_deltas=None)
        ctx.close(np.asarray(o.min_deltas), [md], "single-level", rtol=0)
        o.compute_dendro()
        same(ctx, o, oracle(a, [md], mv, par2["min_npix"]), "single")
        refused(ctx, lambda: o.fit_numfeat(), "fit-single-level")
    if num > 1:
        for bad in (D[::-1], np.append(D, D[-1]), np.insert(D, 1, D[0]), list(D[::-1]), np.append(D, D[0])):
            refused(ctx, lambda: Dendrogram_Stats(a, header=h, dendro_params=par, min_deltas=bad), "order")
            o = Dendrogram_Stats(a, header=h, dendro_params=par, min_deltas=D.copy())

            def setit():
                o.min_deltas = bad
            refused(ctx, setit, "order")
            ctx.close(o.min_deltas, D, "refused-keeps", rtol=0)
    refused(ctx, lambda: Dendrogram_Stats(a, header=h, dendro_params=par, min_deltas="all"), "string")
    ctx.state((ndim, num, params, missing))


def refused(ctx, f, tag):
    ctx.step()
    try:
        f()
    except Exception:
        return
    ctx.fail("accepted-" + tag, "a call that must be refused succeeded")


# ---- fits and histograms
def hc3(x, y):
    X = np.column_stack([np.ones_like(x), x])
    XtXi = np.linalg.inv(X.T @ X)
    b = XtXi @ X.T @ y
    r = y - X @ b
    lev = np.einsum("ij,jk,ik->i", X, XtXi, X)
    meat = X.T @ np.diag((r / (1 - lev)) ** 2) @ X
    return b, np.sqrt(np.diag(XtXi @ meat @ XtXi))


def fdata(nd, k):
    if nd > 20:
        a = np.exp(0.8 * fx.img((18, 20), k))
        return islands(nd, a, a.min() * 0.5), fx.hdr2((18, 20))
    if nd == 2:
        return 5 + fx.img((18, 20), k), fx.hdr2((18, 20))
    return fx.cube((8, 8, 9), k), fx.hdr3((8, 8, 9))


def islands(nd, a, floor):
    a = a.copy()
    if nd == 22:
        a[:, 9] = floor
    elif nd == 23:
        a[:, 6] = floor
        a[:, 12:14] = floor
    return a


def gen_f(tier):
    for nd in (2, 3, 22, 23):
        for k in range(3 if tier == "quick" else 10):
            for lev in ("lin", "log", "dense", "full"):
                for size in (3, 5, 7):
                    yield {"ndim": nd, "k": k, "levels": lev, "size": size}


def levels(lev, a):
    r = a.max() - a.min()
    return {"lin": np.linspace(0.02, 0.5, 12) * r, "log": np.logspace(-2.5, -0.2, 14) * r, "dense": np.linspace(0.01, 0.8, 25) * r, "full": np.linspace(0.02, 1.05, 22) * r}[lev]


def window_break(y, size, full):
    h = (size - 1) // 2
    s = np.array([np.std(y[i - h:i + h + (1 if full else 0)]) for i in range(h, len(y) - h)])
    m = s.max()
    return [h + i for i in np.where(s >= m * (1 - 1e-12))[0]]


def run_f(ctx, ndim, k, levels, size):
    a, h = fdata(ndim, k)
    D = globals()["levels"](levels, a)
    mv = float(np.percentile(a, 5))
    par = {"min_npix": 2, "min_value": mv, "min_delta": 0.1}
    ref = oracle(a, D, mv, 2)
    sel = ref[0] > 1
    n, d = ref[0][sel], D[sel]
    o = build(a, h, min_deltas=D.copy(), dendro_params=par)
    ok = len(n) >= size
    try:
        o.run(show_progress=False, fit_kwargs=dict(size=size), make_hists=False)
        done = True
    except ValueError:
        done = False
    ctx.step()
    if not done:
        few = not ok or any(len(d) - b < 2 for b in window_break(n, size, True) + window_break(n, size, False))
        ctx.check(few, "fit-refused", "refused with %d points" % len(n))
        ctx.state("few")
        return
    same(ctx, o, ref, "run")
    x, y = o.fitvals
    b = len(d) - len(x)
    ctx.check(b >= 0 and np.allclose(x, np.log10(d[b:]), rtol=1e-12) and np.allclose(y, np.log10(n[b:]), rtol=1e-12), "fit-points", (b, len(d)))
    ctx.close(o.break_pos, d[b], "break-pos", rtol=1e-12)
    if b not in window_break(n, size, True):
        if b in window_break(n, size, False):
            ctx.fail("std-window", "the break window drops its last point: break at %d, want %s" % (b, window_break(n, size, True)))
        else:
            ctx.fail("break", "break at %d, want %s" % (b, window_break(n, size, True)))
    if len(x) >= 3:
        c, e = hc3(np.asarray(x), np.asarray(y))
        ctx.close(o.tail_slope, c[1], "slope", rtol=1e-8, atol=1e-10)
        ctx.close(o.model.params, c, "params", rtol=1e-8, atol=1e-10)
        if np.isfinite(e).all() and len(x) > 4:
            ctx.close(o.tail_slope_err, e[1], "slope-err", rtol=1e-6, atol=1e-10)
    # histograms
    for mn in (2, 10, 30):
        for bins in (None, 5, np.linspace(a.min(), a.max(), 7)):
            for dens in (False, True):
                kw = {} if bins is None else {"bins": bins}
                if dens:
                    kw["density"] = True
                if mn == 10 and bins is None and not dens:
                    o.make_hists()
                elif bins is None and not dens:
                    o.run(show_progress=False, fit_kwargs=dict(size=size), hist_kwargs=dict(min_number=mn, **kw))
                else:
                    o.make_hists(min_number=mn, **kw)
                ctx.step()
                if not ctx.check(len(o.hists) == len(D), "hist-count", len(o.hists)):
                    continue
                for i, (hc, hv) in enumerate(o.hists):
                    v = ref[1][i]
                    if len(v) < mn:
                        ctx.check(np.size(hc) == 0 and np.size(hv) == 0, "hist-few", (i, len(v), np.size(hv)))
                        continue
                    nb = int(np.sqrt(len(v))) if bins is None else bins
                    w, edges = np.histogram(v, bins=nb, density=dens)
                    if not ctx.check(np.shape(hv) == w.shape, "hist-bins", (i, np.shape(hv), w.shape)):
                        continue
                    ctx.close(hc, (edges[1:] + edges[:-1]) / 2, "hist-centres", rtol=1e-12)
                    ctx.close(hv, w, "hist-values", rtol=1e-12)
    ctx.state((ref[0], b))


# ---- given and saved dendrograms
def gen_io(tier):
    for nd in (2, 3):
        for k in range(2):
            for via in ("obj", "save", "obj-save", "load", "load-wcs", "bad"):
                yield {"ndim": nd, "k": k, "via": via}


def run_io(ctx, ndim, k, via):
    tmp = tempfile.mkdtemp(prefix="c23_")
    try:
        io_case(ctx, ndim, k, via, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def io_case(ctx, ndim, k, via, tmp):
    from turbustat.statistics import Dendrogram_Stats
    from astrodendro import Dendrogram
    from astropy.wcs import WCS
    a, h = fdata(ndim, k)
    a = np.array(a, float)
    D = np.linspace(0.03, 0.5, 8) * (a.max() - a.min())
    mv = float(np.percentile(a, 20))
    par = {"min_npix": 3, "min_value": mv, "min_delta": 0.1}
    ref = oracle(a, D, mv, 3)
    d0 = Dendrogram.compute(a, min_value=mv, min_delta=D[0], min_npix=3, wcs=WCS(h) if via == "load-wcs" else None)
    name = os.path.join(tmp, "tree")
    o = build(a, h, min_deltas=D.copy(), dendro_params=dict(par))
    ctx.step()
    if via == "obj":
        o.run(show_progress=False, dendro_obj=d0, fit_kwargs=dict(size=3), make_hists=False)
        same(ctx, o, ref, "obj")
        if len(d0) != ref[0][0]:
            ctx.fail("caller-tree-pruned", "the dendrogram given as dendro_obj was pruned from %d to %d structures" % (ref[0][0], len(d0)))
    elif via in ("save", "obj-save"):
        for nm in (name, os.path.join(tmp, "other.hdf5")):
            dd = Dendrogram.compute(a, min_value=mv, min_delta=D[0], min_npix=3)
            o.compute_dendro(save_dendro=True, dendro_name=nm, dendro_obj=dd if via == "obj-save" else None)
            same(ctx, o, ref, "save")
        if not ctx.check(sorted(os.listdir(tmp)) == ["other.hdf5", "tree.hdf5"], "saved-files", sorted(os.listdir(tmp))):
            return
        for f in ("tree.hdf5", "other.hdf5"):
            L = Dendrogram.load_from(os.path.join(tmp, f))
            ctx.check(len(L) == ref[0][0], "saved-tree", (len(L), ref[0][0]))
            ctx.close(L.data, a, "saved-data", rtol=0)
            ctx.check(L.params["min_npix"] == 3 and L.params["min_value"] == mv and L.params["min_delta"] == D[0], "saved-params", L.params)
            p = build(a, h, min_deltas=D.copy(), dendro_params=dict(par))
            p.compute_dendro(dendro_obj=L)
            same(ctx, p, ref, "reload")
    elif via in ("load", "load-wcs"):
        d0.save_to(name + ".hdf5")
        for md in (D, list(D)):
            o = Dendrogram_Stats.load_dendrogram(name + ".hdf5", min_deltas=md)
            ctx.check(isinstance(o, Dendrogram_Stats), "load-type", type(o))
            ctx.close(o.data, a, "load-data", rtol=0)
            o.compute_dendro()
            same(ctx, o, ref, "load")
            if via == "load-wcs":
                o.compute_dendro(periodic_bounds=True)
                same(ctx, o, oracle(a, D, mv, 3, (ndim - 2, ndim - 1)), "load-periodic")
        o = Dendrogram_Stats.load_dendrogram(name + ".hdf5")
        ctx.close(np.asarray(o.min_deltas), [D[0]], "load-single", rtol=0)
        o.compute_dendro()
        same(ctx, o, (ref[0][:1], ref[1][:1]), "load")
    else:
        refused(ctx, lambda: o.compute_dendro(save_dendro=True), "no-name")
        refused(ctx, lambda: o.compute_dendro(save_dendro=True, dendro_name=os.path.join(tmp, "no", "tree")), "no-folder")
        refused(ctx, lambda: Dendrogram_Stats.load_dendrogram(os.path.join(tmp, "absent.hdf5")), "no-file")
        ctx.check(not os.listdir(tmp), "left-files", os.listdir(tmp))
    ctx.state(ref[0])


# ---- distances
def gen_x(tier):
    for nd in (2, 3):
        for pair in ((0, 1), (1, 2), (0, 0)):
            for nb in ("best", 4, 9):
                for mf in (3, 8, 20):
                    yield {"ndim": nd, "pair": list(pair), "nbins": nb, "min_features": mf}


def run_x(ctx, ndim, pair, nbins, min_features):
    from turbustat.statistics import Dendrogram_Distance
    (a, ha), (b, hb) = fdata(ndim, pair[0]), fdata(ndim, pair[1])
    D = np.linspace(0.02, 0.5, 12) * (a.max() - a.min())
    mv = float(np.percentile(a, 5))
    mv2 = float(np.percentile(b, 20))
    pars = [{"min_npix": 2, "min_value": mv, "min_delta": 0.1}, {"min_npix": 3, "min_value": mv2, "min_delta": 0.1}]
    ra, rb = oracle(a, D, mv, 2), oracle(b, D, mv2, 3)
    la, lb = np.where(ra[0] > min_features)[0], np.where(rb[0] > min_features)[0]
    call = lambda: Dendrogram_Distance((a, ha), (b, hb), min_deltas=D.copy(), nbins=nbins, min_features=min_features, dendro_params=[dict(p) for p in pars],
                                       dendro_kwargs=dict(show_progress=False, fit_kwargs=dict(size=3)))
    ctx.step()
    if not len(la) or not len(lb):
        refused(ctx, call, "too-few-features")
        ctx.state("few")
        return
    last = min(la[-1], lb[-1])
    if last == 0:
        ctx.state("one")
        return
    d = call()
    d.distance_metric()
    same(ctx, d.dendro1, ra, "first")
    same(ctx, d.dendro2, rb, "second")
    s1, e1, s2, e2 = d.dendro1.tail_slope, d.dendro1.tail_slope_err, d.dendro2.tail_slope, d.dendro2.tail_slope_err
    if e1 > 1e-9 or e2 > 1e-9:
        ctx.close(d.num_distance, abs(s1 - s2) / np.hypot(e1, e2), "num-distance", rtol=1e-9)
    used = len(d.bins)
    if used != last + 1:
        if used == last:
            ctx.fail("last-level", "the last min_delta with enough features is left out (%d histograms, want %d)" % (used, last + 1))
        else:
            ctx.fail("levels", "%d histograms, want %d" % (used, last + 1))
    hs = []
    for i in range(used):
        x, y = ra[1][i], rb[1][i]
        x, y = (x - x.mean()) / x.std(), (y - y.mean()) / y.std()
        n = int(np.floor(np.sqrt((len(x) + len(y)) / 2.))) if nbins == "best" else nbins
        ed = np.linspace(min(x.min(), y.min()), max(x.max(), y.max()), n + 1)
        ctx.close(d.bins[i], ed, "bins", rtol=1e-9, atol=1e-12)
        ed = np.array(d.bins[i], float)
        ed[0], ed[-1] = ed[0] - 1e-9, ed[-1] + 1e-9
        h1, h2 = np.histogram(x, ed)[0] / float(len(x)), np.histogram(y, ed)[0] / float(len(y))
        edge = min(np.min(np.abs(x[:, None] - ed[None, 1:-1])), np.min(np.abs(y[:, None] - ed[None, 1:-1]))) if n > 1 else 1
        hs.append((h1, h2, edge))
        if edge > 1e-9:
            for got, m, w in ((d.histograms1[i], d.mecdf1[i], h1), (d.histograms2[i], d.mecdf2[i], h2)):
                ctx.close(got[:n], w, "histogram", rtol=1e-9, atol=1e-12)
                ctx.check(np.isnan(got[n:]).all() or (got[n:] == 0).all(), "histogram-padding", got)
                ctx.close(m[:n], np.cumsum(w), "mecdf", rtol=1e-9, atol=1e-12)
    first = (d.num_distance, d.histogram_distance, [np.array(x) for x in d.bins])
    d.distance_metric()
    ctx.close([d.num_distance, d.histogram_distance], first[:2], "asked-again", rtol=1e-12)
    ctx.check(len(d.bins) == used and all(np.array_equal(x, y) for x, y in zip(d.bins, first[2])), "asked-again-bins")
    if nbins == 4 and min_features == 3:
        # without min_deltas, the announced range is used for both trees
        D0 = 10 ** (-2.5 + 3. * np.arange(100) / 99.)
        dd = Dendrogram_Distance((a, ha), (b, hb), nbins=nbins, min_features=min_features, dendro_params=[dict(p) for p in pars],
                                 dendro_kwargs=dict(show_progress=False, fit_kwargs=dict(size=3)))
        ctx.step()
        for q, arr, v, npx in ((dd.dendro1, a, mv, 2), (dd.dendro2, b, mv2, 3)):
            ctx.close(q.min_deltas, D0, "default-deltas", rtol=1e-9)
            ctx.close(q.numfeatures, oracle(arr, D0, v, npx)[0], "default-deltas-counts", rtol=0, atol=0.5)
    if used and all(e > 1e-9 for _, _, e in hs):
        ctx.close(d.histogram_distance, np.mean([np.sqrt(np.sum((np.sqrt(p) - np.sqrt(q)) ** 2) / 2) for p, q, _ in hs]), "hist-distance", rtol=1e-7, atol=1e-12)
    ctx.state((ra[0], rb[0]))


FAMILIES = {
    "counts": Family(gen_c, run_c, "every arrangement of 6 distinct heights on 2x3 and 3x2 maps x 2 minimum sizes x 2 minimum values x 4 nested min_deltas, and every (quick: every 7th) placement of 4 peaks on a 3x3 map"),
    "periodic": Family(gen_p, run_p, "2-D maps and cubes with the spectral axis in each of the 3 positions x every roll of both spatial axes x {periodic, plain, spectrally shifted} x 4 nested min_deltas"),
    "levels": Family(gen_d, run_d, "{map, cube} x 5 numbers of levels x 3 parameter sets x with/without missing pixels x every form of min_deltas and every kind of wrong order"),
    "fit": Family(gen_f, run_f, "{map, cube} x 3 data sets (thorough 10) x 3 level spacings x 3 window sizes x 18 histogram settings"),
    "files": Family(gen_io, run_io, "{map, cube} x 2 data sets x {given tree, saved, given and saved, loaded, loaded with WCS, refusals}"),
    "distance": Family(gen_x, run_x, "{maps, cubes} x 3 pairs x 3 bin choices x 3 minimum feature counts"),
}
