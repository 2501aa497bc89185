"""The Cramer distance compares the brightest pixels of each channel by its two-sample formula."""
import itertools
import numpy as np
from ..core import Family
from .. import fx

ASSUMPTIONS = ["a cube has at least one positive value (the data are scaled by their maximum)",
               "euclidean distances of identical channels carry the rounding of scikit-learn's formula (about 1e-8 before the square root)"]


def statistic(x, y):
    e = lambda p, q: np.mean([[np.sqrt(np.sqrt(np.sum((i - j) ** 2))) for j in q] for i in p])
    m, n = float(len(x)), float(len(y))
    return m * n / (m + n) * (e(x, y) - 0.5 * e(x, x) - 0.5 * e(y, y))


def intensity(cube, p, lim, normalize, scaled=True):
    n = int(round(p * cube.shape[1] * cube.shape[2]))
    out = np.zeros((cube.shape[0], n))
    for i, ch in enumerate(cube):
        v = ch[np.isfinite(ch)]
        v = np.sort(v[v > lim])[::-1][:n]
        out[i, :len(v)] = v
    if scaled:
        out = out / np.nanmax(cube)
    if normalize:
        out = out / np.linalg.norm(out, 2)
    return out


def matrix(ctx, got, cube, p, lim, normalize, tag):
    w = intensity(cube, p, lim, normalize)
    if normalize:
        return ctx.close(got, w, tag, rtol=1e-9, atol=1e-12)
    raw = intensity(cube, p, lim, False, scaled=False)
    if np.shape(got) == raw.shape and np.allclose(got, raw, rtol=1e-9, atol=1e-12):
        return True
    if np.shape(got) == w.shape and np.allclose(got, w, rtol=1e-9, atol=1e-12):
        ctx.fail("unnormalised-scaled", "normalize=False still divides the values by the maximum of the cube")
        return True
    return ctx.close(got, raw, tag, rtol=1e-9, atol=1e-12)


def judge(ctx, o, tag):
    a, b = np.asarray(o.data_matrix1), np.asarray(o.data_matrix2)
    w = statistic(a, b)
    d2 = np.min([[np.sum((i - j) ** 2) for j in b] for i in a])
    tol = 2e-4 if d2 < 1e-6 * max(np.max(a ** 2), np.max(b ** 2), 1e-300) else 1e-7
    scale = max(np.sqrt(np.abs(a).max()), np.sqrt(np.abs(b).max()), 1e-3) * max(a.shape[1], 1) ** 0.25
    ctx.close(o.distance, w, tag, rtol=1e-7, atol=tol * max(scale, 1.) * len(a))
    ctx.check(o.distance > -tol * max(scale, 1.) * len(a), tag + "-negative", o.distance)


def make(a, b, **kw):
    from turbustat.statistics import Cramer_Distance
    ha, hb = fx.hdr3(a.shape), fx.hdr3(b.shape)
    return Cramer_Distance((a, ha), (b, hb), **kw)


# ---- every pattern of missing voxels
def gen_m(tier):
    for c in range(0, 256, 32):
        for norm in (True, False):
            for lim in (None, 0.8):
                yield {"start": c, "normalize": norm, "noise": lim}


def run_m(ctx, start, normalize, noise):
    base = np.array([1.2, 0.5, 3.1, 0.9, 2.2, 0.7, 1.7, 4.0]).reshape(2, 2, 2)
    other = np.array([2.0, 0.6, 1.1, 0.85, 0.4, 3.3, 1.3, 2.6, 0.3, 1.9, 0.75, 2.9]).reshape(3, 2, 2)
    kw = {} if noise is None else {"noise_value1": noise, "noise_value2": noise / 2}
    l1, l2 = (-np.inf, -np.inf) if noise is None else (noise, noise / 2)
    for bits in range(start, start + 32):
        a = base.copy()
        a.flat[[i for i in range(8) if bits >> i & 1]] = np.nan
        if bits == 255 or not (a > l1).any():
            continue
        keep = a.copy()
        for swap in (False, True):
            o = make(other, a, **{k: kw[v] for k, v in (("noise_value1", "noise_value2"), ("noise_value2", "noise_value1")) if kw}) if swap else make(a, other, **kw)
            o.format_data(normalize=normalize, p=0.5)
            o.cramer_statistic()
            ctx.step()
            x, y = (o.data_matrix2, o.data_matrix1) if swap else (o.data_matrix1, o.data_matrix2)
            matrix(ctx, x, a, 0.5, l1, normalize, "matrix")
            matrix(ctx, y, other, 0.5, l2, normalize, "matrix")
            judge(ctx, o, "distance")
            ctx.state(float(np.round(o.distance, 6)))
        ctx.check(np.array_equal(a, keep, equal_nan=True), "input", "the cube was changed")


# ---- shapes, fractions, limits, channel counts
def gen_s(tier):
    shapes = [(3, 4, 5), (5, 4, 5), (4, 6, 3), (1, 4, 5)] + ([(7, 5, 6), (6, 8, 8)] if tier == "thorough" else [])
    for sa, sb in itertools.product(shapes, shapes):
        for p in (None, 0.1, 0.33, 1.0):
            for norm in (True, False):
                for noise in ("none", "first", "second", "both"):
                    yield {"shape1": list(sa), "shape2": list(sb), "p": p, "normalize": norm, "noise": noise}


def run_s(ctx, shape1, shape2, p, normalize, noise):
    a, b = fx.cube(tuple(shape1), 1), 3 * fx.cube(tuple(shape2), 2)
    l1 = float(np.percentile(a, 85)) if noise in ("first", "both") else -np.inf
    l2 = float(np.percentile(b, 70)) if noise in ("second", "both") else -np.inf
    kw = {}
    if noise in ("first", "both"):
        kw["noise_value1"] = l1
    if noise in ("second", "both"):
        kw["noise_value2"] = l2
    P = 0.2 if p is None else p
    A, B = intensity(a, P, l1, normalize), intensity(b, P, l2, normalize)
    drawn = []
    for seed in (None, 7, 8):
        o = make(a, b, **kw)
        fk = {} if p is None else {"p": p}
        if seed is not None:
            fk["seed"] = seed
        state = np.random.get_state()[1].copy()
        if p is None and seed is None:
            o.distance_metric(normalize=normalize)
        else:
            o.format_data(normalize=normalize, **fk)
            o.cramer_statistic()
        ctx.step()
        ctx.check((np.random.get_state()[1] == state).all(), "random-state", "the global random state moved")
        n = min(A.shape[1], B.shape[1])
        for got, w, cube, lim in ((o.data_matrix1, A, a, l1), (o.data_matrix2, B, b, l2)):
            if w.shape[1] == n:
                matrix(ctx, got, cube, P, lim, normalize, "matrix")
            elif ctx.check(np.shape(got) == (w.shape[0], n), "resampled-shape", (np.shape(got), w.shape, n)):
                k = 1. if normalize or np.nanmax(got) <= 1 + 1e-9 else np.nanmax(cube)
                for r, s in zip(got, w * k):     # each channel: n of its own values, none used twice
                    left = list(s)
                    for v in r:
                        j = int(np.argmin(np.abs(np.array(left) - v)))
                        if not ctx.check(abs(left[j] - v) <= 1e-9 * max(abs(v), 1e-6), "resampled-values", "%r not left in its channel" % v):
                            break
                        left.pop(j)
        judge(ctx, o, "distance")
        drawn.append(np.array(o.data_matrix1 if A.shape[1] > n else o.data_matrix2))
        again = make(a, b, **kw)
        again.format_data(normalize=normalize, **fk)
        again.cramer_statistic(n_jobs=2 if shape1 == [3, 4, 5] and p is None and noise == "none" else 1)
        ctx.close(again.data_matrix1, o.data_matrix1, "same-seed", rtol=0)
        ctx.close(again.data_matrix2, o.data_matrix2, "same-seed", rtol=0)
        ctx.close(again.distance, o.distance, "same-distance", rtol=1e-12, atol=1e-12)
        if A.shape[1] == B.shape[1]:
            sw = make(b, a, **{{"noise_value1": "noise_value2", "noise_value2": "noise_value1"}[k]: v for k, v in kw.items()})
            sw.format_data(normalize=normalize, **fk)
            sw.cramer_statistic()
            ctx.close(sw.distance, o.distance, "swapped", rtol=1e-9, atol=1e-6)
    big = A if A.shape[1] > B.shape[1] else B
    free = sum(len(set(np.round(r, 12))) > 1 for r in big)      # channels whose sample can differ
    if A.shape[1] != B.shape[1] and free >= 3 and n >= 2:
        ctx.check(any(not np.array_equal(d, drawn[0]) for d in drawn[1:]), "seed-used", "three seeds draw the same sample")
    ctx.state((A.shape, B.shape, float(np.round(o.distance, 8))))


# ---- invariances
def gen_i(tier):
    for what in ("scale1", "scale2", "roll", "flip", "order", "self", "pixels"):
        for k in range(3):
            for norm in (True, False):
                yield {"what": what, "k": k, "normalize": norm}


def run_i(ctx, what, k, normalize):
    a, b = fx.cube((4, 4, 5), k), fx.cube((5, 5, 4), k + 5)
    d0 = make(a, b).distance_metric(normalize=normalize).distance
    x, y = a, b
    if what == "scale1":
        x = 7.3 * a
    elif what == "scale2":
        y = 1e-3 * b
    elif what == "roll":
        x, y = np.roll(a, 2, 1), np.roll(b, 3, 2)
    elif what == "flip":
        x = a[:, ::-1]
    elif what == "order":
        x, y = a[::-1], b[[3, 1, 4, 0, 2]]
    elif what == "pixels":          # any rearrangement of the pixels inside every channel
        x = np.array([np.sort(c.ravel()).reshape(c.shape) for c in a])
    elif what == "self":
        y = a[:, ::-1, ::-1].copy()
        d0 = 0.
    d1 = make(np.ascontiguousarray(x), np.ascontiguousarray(y)).distance_metric(normalize=normalize).distance
    ctx.step(2)
    if what.startswith("scale") and not normalize:
        ctx.state("scaled")
        return
    ctx.close(d1, d0, "invariant-" + what, rtol=1e-8, atol=5e-4 if what == "self" else 1e-7)
    ctx.state(float(np.round(d1, 8)))


# ---- brightest spectra
def gen_b(tier):
    for sh in ((3, 2, 3), (4, 3, 2), (2, 1, 5)):
        for n in range(1, sh[1] * sh[2] + 1):
            for miss in ("none", "voxel", "spectrum"):
                for norm in (True, False):
                    yield {"shape": list(sh), "n": n, "missing": miss, "normalize": norm}


def run_b(ctx, shape, n, missing, normalize):
    a, b = fx.cube(tuple(shape), 1), fx.cube((5,) + tuple(shape[1:]), 2)
    if missing == "voxel":
        a[0, 0, 0] = np.nan
        a[1, 0, 1] = np.nan
    elif missing == "spectrum":
        a[:, 0, 1] = np.nan
    o = make(a, b)
    o.format_data(data_format="spectra", num_spec=n, normalize=normalize)
    o.cramer_statistic()
    ctx.step()
    for got, c in ((o.data_matrix1, a), (o.data_matrix2, b)):
        f = np.where(np.isfinite(c), c, 0).reshape(c.shape[0], -1)
        idx = np.argsort(-f.sum(0))[:n]
        w = f[:, idx]
        if normalize:
            w = w / np.linalg.norm(w, 2)
        if ctx.check(np.shape(got) == w.shape, "spectra-shape", (np.shape(got), w.shape)):
            key = lambda m: m[:, np.lexsort(np.round(m, 9))]
            ctx.close(key(np.asarray(got)), key(w), "spectra", rtol=1e-9, atol=1e-12)
    judge(ctx, o, "spectra-distance")
    ctx.state(float(np.round(o.distance, 8)))


FAMILIES = {
    "missing": Family(gen_m, run_m, "every pattern of missing voxels of a 2x2x2 cube x normalised or not x 2 noise limits x both orders of the cubes"),
    "shapes": Family(gen_s, run_s, "16 pairs of cube shapes (thorough 36) x 4 kept fractions x normalised or not x 4 noise settings x 3 sampling seeds"),
    "invariance": Family(gen_i, run_i, "3 pairs of cubes x 7 changes that must not matter x normalised or not"),
    "spectra": Family(gen_b, run_b, "3 cube shapes x every number of spectra x 3 missing patterns x normalised or not"),
}
