"""PDF, ECDF, percentiles, normalisations, distribution fits and PDF distances follow their definitions."""
import itertools
import numpy as np
import scipy.stats as st
from ..core import Family
from .. import fx

ASSUMPTIONS = ["values exactly on a bin edge of automatically chosen bins are not judged (rounding of the edge decides)",
               "fits are judged where the maximum-likelihood solution is known in closed form or by stationarity"]

NAN = float("nan")


def hist_ref(x, edges):
    """density in half-open bins, the last one closed."""
    edges = np.asarray(edges, float)
    c = np.zeros(edges.size - 1)
    for v in x:
        for i in range(c.size):
            if edges[i] <= v < edges[i + 1] or (i == c.size - 1 and v == edges[-1]):
                c[i] += 1
    with np.errstate(all="ignore"):
        return c / c.sum() / np.diff(edges)


def quantile(x, p):
    x = np.sort(x)
    h = (x.size - 1) * p / 100.
    i = int(np.floor(h))
    j = min(i + 1, x.size - 1)
    return x[i] + (h - i) * (x[j] - x[i])


NORMS = {
    None: lambda x: x,
    "standardize": lambda x: (x - x.mean()) / np.sqrt(((x - x.mean()) ** 2).mean()),
    "center": lambda x: x - x.mean(),
    "normalize": lambda x: (x - x.min()) / (x.max() - x.min()),
    "normalize_by_mean": lambda x: x / x.mean(),
}
EDGES = (-1.5, 0.1, 0.9, 2.2, 3.4, 7.)


# --- all small images -----------------------------------------------------------------------------------------
def gen_i(tier):
    n = 5 if tier == "quick" else 6
    for head in itertools.product((0.3, 1.4, 3.0, NAN), repeat=2):
        for mv in (None, 0.3, 1.0):
            yield {"head": [repr(h) for h in head], "n": n, "min_val": mv}


def run_i(ctx, head, n, min_val):
    from turbustat.statistics import PDF
    head = [float(h) for h in head]
    for tail in itertools.product((0.3, 1.4, 3.0, NAN), repeat=n - 2):
        a = np.array(head + list(tail)).reshape(1, n) if n % 2 else np.array(head + list(tail)).reshape(2, n // 2)
        x = a[np.isfinite(a)]
        if min_val is not None:
            x = x[x > min_val]
        if x.size < 2 or np.ptp(x) == 0:
            continue
        kw = {} if min_val is None else {"min_val": min_val}
        o = PDF(a.copy(), **kw)
        o.run(do_fit=False, bins=np.array(EDGES))
        ctx.step()
        ctx.close(np.sort(o.data), np.sort(x), "data")
        ctx.close(o.pdf, hist_ref(x, EDGES), "pdf")
        cen = 0.5 * (np.array(EDGES)[1:] + np.array(EDGES)[:-1])
        ctx.close(o.bins, cen, "bins")
        ctx.close(o.ecdf, [(x <= c).mean() for c in cen], "ecdf")
        v = np.array([0., 0.3, 0.31, 1.4, 2., 3., 4.])
        ctx.close(o.find_percentile(v), [100. * (x <= c).mean() for c in v], "find-percentile")
        p = np.array([0., 12.5, 50., 61., 100.])
        ctx.close(o.find_at_percentile(p), [quantile(x, q) for q in p], "find-at-percentile")
        # default number of bins
        o.run(do_fit=False)
        nb = int(np.round(np.sqrt(x.size)))
        ctx.close(o.bins, x.min() + (np.arange(nb) + 0.5) * np.ptp(x) / nb, "default-bins")
        ctx.close((o.pdf * np.ptp(x) / nb).sum(), 1., "default-norm")
        ctx.state(tuple(np.nan_to_num(a.ravel(), nan=-1)), min_val)


# --- percentiles outside the range are refused ------------------------------------------------------------------
def gen_b(tier):
    for p in (-1., 100.5, [50., 101.], [-0.1, 3.]):
        yield {"p": p}


def run_b(ctx, p):
    from turbustat.statistics import PDF
    o = PDF(fx.img((4, 5), 1))
    try:
        o.find_at_percentile(np.array(p))
        ctx.fail("accepted", p)
    except ValueError:
        ctx.step()
    ctx.state(str(p))


# --- options ---------------------------------------------------------------------------------------------------
SHAPES = {"1d": (29,), "2d": (6, 7), "3d": (3, 4, 5), "row": (1, 17)}


def wts(kind, shape):
    r = np.random.RandomState(7)
    w = 0.3 + r.uniform(size=shape)
    if kind == "nan":
        w.ravel()[::5] = np.nan
    elif kind == "zero":
        w.ravel()[::4] = 0.
    elif kind == "int":
        w = r.randint(1, 4, size=shape)
    return w


def gen_o(tier):
    for sh in sorted(SHAPES):
        for norm in (None, "standardize", "center", "normalize", "normalize_by_mean"):
            for w in (None, "plain", "nan", "zero", "int"):
                for mv in (None, 0.9):
                    for nan in (False, True):
                        yield {"shape": sh, "norm": norm, "w": w, "min_val": mv, "nan": nan}


def run_o(ctx, shape, norm, w, min_val, nan):
    from turbustat.statistics import PDF
    sh = SHAPES[shape]
    a = np.exp(0.5 * np.random.RandomState(11 + len(sh)).normal(size=sh))
    if nan:
        a.ravel()[3::6] = np.nan
    W = None if w is None else wts(w, sh)
    keep = np.isfinite(a)
    if min_val is not None:
        keep &= a > min_val
    if W is not None:
        keep &= np.isfinite(W)
    x = a[keep] if W is None else a[keep] * W[keep]
    x = NORMS[norm](x)
    kw = {} if min_val is None else {"min_val": min_val}
    for bins in (None, 4, 9, np.linspace(x.min() - 0.1, x.max() + 0.1, 6)):
        for how in ("init", "run", "steps"):
            o = PDF(a.copy(), weights=None if W is None else W.copy(), normalization_type=norm, bins=bins if how == "init" else None, **kw)
            if how == "init":
                o.run(do_fit=False)
            elif how == "run":
                o.run(do_fit=False, bins=bins)
            else:
                o.make_pdf(bins=bins)
                o.make_ecdf()
            ctx.step()
            ctx.close(np.sort(o.data), np.sort(x), "data", rtol=1e-9)
            n = int(np.round(np.sqrt(x.size))) if bins is None else bins
            e = np.linspace(x.min(), x.max(), n + 1) if np.ndim(n) == 0 else n
            ctx.close(o.bins, 0.5 * (e[1:] + e[:-1]), "bins", rtol=1e-9)
            if not any(np.isclose(e[1:-1], v, rtol=1e-9, atol=1e-9).any() for v in x):
                xs = np.clip(x, e[0], e[-1])
                ctx.close(o.pdf, hist_ref(xs, e), "pdf", rtol=1e-8)
            ctx.close((o.pdf * np.diff(e)).sum(), 1., "integral", rtol=1e-8)
            ctx.close(o.ecdf, [(x <= c).mean() for c in o.bins], "ecdf", rtol=1e-9)
            ctx.check((np.diff(o.ecdf) >= 0).all() and o.ecdf.min() >= 0 and o.ecdf.max() <= 1, "ecdf-monotone")
            p = np.array([0., 1., 33., 50., 99.5, 100.])
            q = o.find_at_percentile(p)
            ctx.close(q, [quantile(x, v) for v in p], "quantiles", rtol=1e-9)
            v = np.linspace(x.min() - 0.5, x.max() + 0.5, 13)
            ctx.close(o.find_percentile(v), [100. * (x <= t).mean() for t in v], "percentiles", rtol=1e-9)
            ctx.check(o.normalization_type == ("None" if norm is None else norm), "norm-name")
    # the arrangement of the values carries no information
    perm = np.random.RandomState(0).permutation(a.size)
    b = a.ravel()[perm].reshape(sh)
    Wb = None if W is None else W.ravel()[perm].reshape(sh)
    o2 = PDF(b, weights=Wb, normalization_type=norm, **kw)
    o2.run(do_fit=False, bins=7)
    o.run(do_fit=False, bins=7)
    ctx.close(o2.pdf, o.pdf, "arrangement", rtol=1e-6)
    try:
        PDF(a.copy(), normalization_type="nonsense")
        ctx.fail("bad-norm", "accepted")
    except ValueError:
        ctx.step()
    ctx.state(shape, norm, w, min_val, nan)


# --- fits ------------------------------------------------------------------------------------------------------
def gen_f(tier):
    for n in (40, 150) if tier == "quick" else (40, 150, 600):
        for k in range(2 if tier == "quick" else 6):
            for model in ("lognorm", "norm", "expon", "gamma", "rayleigh"):
                for floc, fscale in ((True, False), (False, False), (False, True), (True, True)):
                    for loc, scale in ((0., 1.), (-0.35, 2.5)):
                        yield {"n": n, "k": k, "model": model, "floc": floc, "fscale": fscale, "loc": loc, "scale": scale}


def run_f(ctx, n, k, model, floc, fscale, loc, scale):
    from turbustat.statistics import PDF
    m = getattr(st, model)
    r = np.random.RandomState(n + k)
    x = np.exp(0.5 * r.normal(size=n) + 0.8)
    o = PDF(x.reshape(10, n // 10))
    noshape = m.shapes is None
    if floc and fscale and noshape:
        # nothing left to fit
        try:
            o.run(model=getattr(st, model), floc=True, fscale=True, loc=loc, scale=scale)
            ctx.fail("nothing-to-fit", "accepted")
        except Exception:
            ctx.step()
        return
    o.run(model=m, floc=floc, fscale=fscale, loc=loc, scale=scale)
    ctx.step()
    p = np.asarray(o.model_params, float)
    nsh = 0 if noshape else 1
    want = nsh + (not floc) + (not fscale)
    if not ctx.check(p.size == want, "nparams", "%s for %s" % (p, want)):
        return
    ctx.check(np.shape(o.model_stderrs) == p.shape, "stderr-shape")

    def ll(q):
        q = list(q)
        if floc and fscale:
            l, s, shp = loc, scale, q
        elif floc:
            l, s, shp = loc, q[-1], q[:-1]
        elif fscale:
            l, s, shp = q[-1], scale, q[:-1]
        else:
            l, s, shp = q[-2], q[-1], q[:-2]
        if s <= 0 or any(v <= 0 for v in shp):
            return -np.inf
        return m.logpdf(x, *shp, loc=l, scale=s).sum()
    best = ll(p)
    # no nearby parameters are more likely (one-sided likelihoods of expon/gamma in loc end at the smallest value)
    if not (model in ("expon", "gamma", "lognorm", "rayleigh") and not floc):
        for i in range(p.size):
            for f in (-0.02, 0.02):
                q = p.copy()
                q[i] += f * max(abs(p[i]), 0.1)
                ctx.check(ll(q) <= best + 1e-9 * abs(best), "not-maximum", "%s better than %s" % (q, p))
        tol = 2e-3
        closed = None
        if model == "lognorm" and floc and not fscale and (x > loc).all():
            l = np.log(x - loc)
            closed = [l.std(), np.exp(l.mean())]
            se = [l.std() / np.sqrt(2. * n), np.exp(l.mean()) * l.std() / np.sqrt(n)]
        elif model == "lognorm" and floc and fscale:
            l = np.log(x - loc) - np.log(scale)
            closed = [np.sqrt((l ** 2).mean())]
            se = [closed[0] / np.sqrt(2. * n)]
        elif model == "norm" and floc:
            closed = [np.sqrt(((x - loc) ** 2).mean())]
            se = [closed[0] / np.sqrt(2. * n)]
        elif model == "norm" and fscale:
            closed, se = [x.mean()], [scale / np.sqrt(n)]
        elif model == "norm":
            closed, se = [x.mean(), x.std()], [x.std() / np.sqrt(n), x.std() / np.sqrt(2. * n)]
        elif model == "expon" and floc:
            closed = [(x - loc).mean()]
            se = [closed[0] / np.sqrt(n)]
        elif model == "rayleigh" and floc:
            closed = [np.sqrt(((x - loc) ** 2).mean() / 2.)]
            se = [closed[0] / np.sqrt(4. * n)]
        if closed is not None:
            ctx.check(np.allclose(p, closed, rtol=tol, atol=1e-4), "maximum-likelihood", "%s want %s" % (p, closed))
            ctx.check(np.allclose(o.model_stderrs, se, rtol=0.03), "stderr", "%s want %s" % (o.model_stderrs, se))
    ctx.state(n, k, model, floc, fscale, loc)


# --- MCMC fits -------------------------------------------------------------------------------------------------
def gen_m(tier):
    for model in ("lognorm", "norm"):
        for floc, fscale in ((True, False), (False, True)) if model == "norm" else ((True, False), (True, True)):
            yield {"model": model, "floc": floc, "fscale": fscale}


def run_m(ctx, model, floc, fscale):
    from turbustat.statistics import PDF
    np.random.seed(5)
    x = np.exp(0.5 * np.random.RandomState(3).normal(size=200) + 0.8)
    o = PDF(x.reshape(10, 20))
    m = getattr(st, model)
    o.run(model=m, floc=floc, fscale=fscale, scale=2., fit_type="mcmc", burnin=60, steps=150, thin=2)
    ctx.step()
    q = PDF(x.reshape(10, 20))
    q.run(model=m, floc=floc, fscale=fscale, scale=2.)
    ctx.check(o.model_params.shape == q.model_params.shape and np.shape(o.model_stderrs) == (2,) + q.model_params.shape, "shapes")
    ctx.check(np.all(np.abs(o.model_params - q.model_params) < 3 * q.model_stderrs), "mcmc-agrees", "%s vs %s +- %s" % (o.model_params, q.model_params, q.model_stderrs))
    ctx.check((o.model_stderrs[0] < o.model_params).all() and (o.model_params < o.model_stderrs[1]).all(), "mcmc-range")
    ctx.state(model, floc, fscale)


# --- distances --------------------------------------------------------------------------------------------------
def gen_d(tier):
    for norm in (None, "standardize", "center", "normalize", "normalize_by_mean"):
        for nb in (None, 5, 12):
            for lim in ((None, None), (0.5, None), (None, 3.), (0.4, 2.5)):
                for mv in ((None, None), (0.5, None), (0.3, 0.8)):
                    for w in (False, True):
                        yield {"norm": norm, "nbins": nb, "lim": list(lim), "mv": list(mv), "w": w}


def run_d(ctx, norm, nbins, lim, mv, w):
    from turbustat.statistics import PDF_Distance, PDF
    r = np.random.RandomState(2)
    a = np.exp(0.4 * r.normal(size=(9, 8)))
    b = np.exp(0.7 * r.normal(size=(7, 12)) + 0.2)
    a[2, 3] = np.nan
    wa = 0.5 + r.uniform(size=a.shape) if w else None
    kw = dict(normalization_type=norm, nbins=nbins, bin_min=lim[0], bin_max=lim[1])
    if mv[0] is not None:
        kw["min_val1"] = mv[0]
    if mv[1] is not None:
        kw["min_val2"] = mv[1]
    if w:
        kw["weights1"] = wa
    lognorm = norm in (None, "normalize_by_mean")
    d = PDF_Distance(a, b, do_fit=lognorm, **kw)
    d.distance_metric()
    ctx.step()
    out = []
    for im, m, ww in ((a, mv[0], wa), (b, mv[1], None)):
        ok = np.isfinite(im)
        if m is not None:
            ok &= im > m
        out.append(NORMS[norm](im[ok] if ww is None else im[ok] * ww[ok]))
    x, y = out
    lo, hi = min(x.min(), y.min()), max(x.max(), y.max())
    if lim[0] is not None:
        lo = max(lo, lim[0])
    if lim[1] is not None:
        hi = min(hi, lim[1])
    n = int(np.floor(np.sqrt((x.size + y.size) / 2.))) if nbins is None else nbins
    e = np.linspace(lo, hi, n)
    ctx.close(d.bins, e, "bins", rtol=1e-9)
    ctx.close(d.bin_centers, 0.5 * (e[1:] + e[:-1]), "centers", rtol=1e-9)
    H = []
    for z in (x, y):
        c = np.array([((z >= d.bins[i]) & ((z < d.bins[i + 1]) | ((i == n - 2) & (z <= d.bins[-1])))).sum() for i in range(n - 1)], float)
        H.append(c / c.sum() if c.sum() else c * np.nan)
    want = np.sqrt(np.nansum((np.sqrt(H[0]) - np.sqrt(H[1])) ** 2)) / np.sqrt(2.)
    ctx.check(abs(d.hellinger_distance - want) < 1e-6, "hellinger", "%r want %r" % (d.hellinger_distance, want))
    ctx.check(-1e-12 <= d.hellinger_distance <= 1 + 1e-12, "hellinger-range")
    allv = np.concatenate([x, y])
    ks = max(abs((x <= v).mean() - (y <= v).mean()) for v in allv)
    ctx.close(d.ks_distance, ks, "ks", rtol=1e-9)
    ctx.close(d.ks_pval, st.ks_2samp(x, y).pvalue, "ks-pval", rtol=1e-6)
    if lognorm:
        s = [np.log(z).std() for z in (x, y)]
        se = [v / np.sqrt(2. * z.size) for v, z in zip(s, (x, y))]
        want = abs(s[0] - s[1]) / np.hypot(*se)
        ctx.check(abs(d.lognormal_distance - want) < 0.03 * want + 0.02, "lognormal", "%r want %r" % (d.lognormal_distance, want))
    else:
        for stat in ("lognormal",):
            try:
                d.distance_metric(statistic=stat)
                ctx.fail("lognormal-without-fit", "")
            except Exception:
                ctx.step()
    for stat in ("hellinger", "ks") + (("lognormal",) if lognorm else ()):
        q = PDF_Distance(a, b, do_fit=lognorm, **kw)
        q.distance_metric(statistic=stat)
        ctx.close(getattr(q, stat + "_distance"), getattr(d, stat + "_distance"), "single-" + stat, rtol=1e-9)
        others = [s for s in ("hellinger", "ks", "lognormal") if s != stat]
        ctx.check(not any(hasattr(q, s + "_distance") for s in others), "only-requested", stat)
        ctx.step()
    ctx.state(norm, nbins, lim, mv, w)


def gen_db(tier):
    for norm in ("standardize", "center"):
        yield {"norm": norm}


def run_db(ctx, norm):
    from turbustat.statistics import PDF_Distance
    a = np.exp(fx.img((6, 7), 1))
    try:
        PDF_Distance(a, a, normalization_type=norm)
        ctx.fail("lognormal-of-centred", norm)
    except Exception:
        ctx.step()
    d = PDF_Distance(a, a * 2, do_fit=False)
    for bad in ("nope", None, 3):
        try:
            d.distance_metric(statistic=bad)
            ctx.fail("bad-statistic", repr(bad))
        except TypeError:
            ctx.step()
    ctx.state(norm)


FAMILIES = {
    "images": Family(gen_i, run_i, "all 5- (thorough 6-) pixel images over 3 values and missing x 3 lower limits"),
    "refusals": Family(gen_b, run_b, "percentiles outside 0-100"),
    "options": Family(gen_o, run_o, "4 dimensionalities x 5 normalisations x 5 weightings x limits x missing x 4 bin requests x 3 call orders"),
    "fits": Family(gen_f, run_f, "5 distributions x 4 fixed-parameter patterns x 2 fixed values x sizes x data"),
    "mcmc": Family(gen_m, run_m, "2 distributions x fixed-parameter patterns with a fixed random state"),
    "distances": Family(gen_d, run_d, "5 normalisations x 3 bin counts x 4 bin limits x 3 value limits x weights"),
    "distance-refusals": Family(gen_db, run_db, "lognormal fits of centred data; unknown statistics"),
}
