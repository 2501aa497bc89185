"""Simulated power-law fields: every frequency carries the requested power, whatever the size, index, shape and seed."""
import itertools
import numpy as np
import astropy.units as u
from ..core import Family
from .. import fx

NEEDS_EXT = True
ASSUMPTIONS = ["frequencies that are their own conjugate hold a real part only, and the Nyquist row and column of an inclined "
               "ellipse stand for two frequencies of different power; these are not judged",
               "the amplitude of two-dimensional fields is not documented, only its frequency dependence is judged"]


def law(fy, fx_, p, ellip, theta, fz=0.):
    c, s = np.cos(theta), np.sin(theta)
    a = ellip * (fx_ * c - fy * s)
    b = fx_ * s + fy * c
    r = np.sqrt(a ** 2 + b ** 2 + fz ** 2)
    with np.errstate(all="ignore"):
        return np.where(r == 0, 0. if p else 1., r ** (-p))   # white noise may have a mean


def gen_2(tier):
    sizes = (4, 5, 8, 9, 12, 13) if tier == "quick" else tuple(range(3, 21)) + (31, 32)
    for n in sizes:
        for p in (0., 1., 2.5, 4.):
            for e, t in [(1., 0.), (1., 0.7)] + [(e, t) for e in (0.2, 0.5, 0.8) for t in (0., 0.3, np.pi / 4, np.pi / 2, 2.1, -1.)]:
                yield {"n": n, "p": p, "ellip": e, "theta": t}


def run_2(ctx, n, p, ellip, theta):
    from turbustat.simulator import make_extended
    f = np.fft.fftfreq(n)
    want = law(f[:, None], f[None, :], p, ellip, theta)
    i = np.arange(n)
    selfc = np.add.outer((2 * i % n) * n, (2 * i % n)) == 0
    ok = ~selfc
    if n % 2 == 0 and ellip < 1:
        ok &= (i != n // 2)[:, None] & (i != n // 2)[None, :]
    prev = None
    for seed in (1, 32768324):
        np.random.seed(5)
        a = make_extended(n, powerlaw=p, theta=theta, ellip=ellip, randomseed=seed)
        ctx.step()
        st = np.random.uniform()
        np.random.seed(5)
        ctx.check(st == np.random.uniform(), "global-state", "numpy's random state was changed")
        a = np.asarray(a)
        if not ctx.check(a.shape == (n, n) and not np.iscomplexobj(a) and np.isfinite(a).all(), "shape", (a.shape, a.dtype)):
            continue
        F = np.fft.fft2(a)
        P = np.abs(F) ** 2
        scale = P[ok].mean() / want[ok].mean()
        if not ctx.check(scale > 0, "power", "no power"):
            continue
        ctx.close(P[ok] / (want[ok] * scale), np.ones(ok.sum()), "power-law", rtol=1e-6, msg="seed %d" % seed)
        # power of self-conjugate frequencies cannot exceed the law, the mean is zero
        if ellip == 1:
            ctx.check((P[selfc] <= want[selfc] * scale * (1 + 1e-6) + 1e-12 * scale).all(), "power-law", "self-conjugate frequencies")
        ctx.check(p == 0 or abs(a.mean()) <= 1e-9 * np.abs(a).max(), "mean", a.mean())
        # phases of independent frequencies are all different
        half = ok & (np.add.outer(i * n, i) < np.add.outer(((-i) % n) * n, (-i) % n))
        ph = np.abs(np.angle(F[half]))
        ph = np.sort(ph)
        if ph.size > 1:
            ctx.check(np.diff(ph).min() > 1e-9, "phases", "two independent frequencies share a phase")
        full = np.asarray(make_extended(n, powerlaw=p, theta=theta, ellip=ellip, randomseed=seed, return_fft=True))
        half_ = np.asarray(make_extended(n, powerlaw=p, theta=theta, ellip=ellip, randomseed=seed, return_fft=True, full_fft=False))
        again = np.asarray(make_extended(float(n), powerlaw=p, theta=theta * u.rad, ellip=ellip, randomseed=seed))
        deg = np.asarray(make_extended(n, powerlaw=p, theta=np.degrees(theta) * u.deg, ellip=ellip, randomseed=seed))
        ctx.step(4)
        ctx.close(full, np.fft.fftshift(F), "full-fft", rtol=1e-9)
        ctx.close(half_, np.fft.rfft2(a), "half-fft", rtol=1e-9)
        ctx.close(again, a, "repeat", rtol=1e-12)
        ctx.close(deg, a, "theta-units", rtol=1e-9)
        if prev is not None:
            ctx.check(np.abs(prev / np.abs(prev).max() - a / np.abs(a).max()).max() > 1e-3, "seed", "the seed has no effect")
        prev = a
        ctx.state(a)
    if ellip == 1:
        ctx.close(np.asarray(make_extended(n, powerlaw=p, theta=0.)), np.asarray(make_extended(n, powerlaw=p, theta=1.1)), "theta-circular", rtol=1e-12)


def gen_3(tier):
    for n in (4, 5, 6, 7, 8) if tier == "quick" else range(3, 15):
        for p in (0., 1., 2., 3.7):
            for amp in (1., 0.25, 5e3):
                yield {"n": n, "p": p, "amp": amp}


def run_3(ctx, n, p, amp):
    from turbustat.simulator import make_3dfield
    f = np.fft.fftfreq(n)
    want = law(f[:, None, None], f[None, :, None], p, 1., 0., f[None, None, :])
    i = np.arange(n)
    z = (2 * i) % n == 0
    selfc = z[:, None, None] & z[None, :, None] & z[None, None, :]
    ok = ~selfc
    prev = None
    for seed in (1, 32768324):
        np.random.seed(5)
        a = make_3dfield(n, powerlaw=p, amp=amp, randomseed=seed)
        st = np.random.uniform()
        np.random.seed(5)
        ctx.step()
        ctx.check(st == np.random.uniform(), "global-state", "numpy's random state was changed")
        if not ctx.check(a.shape == (n, n, n) and not np.iscomplexobj(a) and np.isfinite(a).all(), "shape", a.shape):
            continue
        ctx.close(np.sqrt(np.mean(a ** 2)), amp, "amplitude", rtol=1e-9)
        ctx.check(p == 0 or abs(a.mean()) <= 1e-9 * amp, "mean", a.mean())
        F = np.fft.fftn(a)
        P = np.abs(F) ** 2
        scale = P[ok].mean() / want[ok].mean()
        ctx.close(P[ok] / (want[ok] * scale), np.ones(ok.sum()), "power-law", rtol=1e-6, msg="seed %d" % seed)
        ctx.check((P[selfc] <= want[selfc] * scale * (1 + 1e-6) + 1e-12 * scale).all(), "power-law", "self-conjugate frequencies")
        ctx.close(make_3dfield(n, powerlaw=p, amp=amp, randomseed=seed, return_fft=True), np.fft.rfftn(a), "fft", rtol=1e-9)
        ctx.step()
        m = (-i) % n
        lin = (i[:, None, None] * n + i[None, :, None]) * n + i[None, None, :]
        con = (m[:, None, None] * n + m[None, :, None]) * n + m[None, None, :]
        ph = np.sort(np.abs(np.angle(F[ok & (lin < con)])))
        ctx.check(np.diff(ph).min() > 1e-10, "phases", "two independent frequencies share a phase")
        if prev is not None:
            ctx.check(np.abs(prev - a).max() > 1e-3 * amp, "seed", "the seed has no effect")
        prev = a
        ctx.state(a)


def gen_p(tier):
    for sh in itertools.product((4, 5, 8) if tier == "quick" else (3, 4, 5, 6, 8, 9), repeat=3):
        yield {"shape": list(sh)}


def run_p(ctx, shape):
    from turbustat.simulator.threeD_pspec import threeD_pspec
    shape = tuple(shape)
    r = np.random.RandomState(sum(shape))
    a = r.normal(size=shape)
    keep = a.copy()
    f, ps, err = threeD_pspec(a)
    ctx.step()
    ctx.check((a == keep).all(), "input", "the array was changed")
    P = np.abs(np.fft.fftn(a)) ** 2
    F = [np.fft.fftfreq(n) for n in shape]
    rr = np.sqrt(F[0][:, None, None] ** 2 + F[1][None, :, None] ** 2 + F[2][None, None, :] ** 2)
    n = max(shape)
    if not ctx.check(len(ps) == len(err) == len(f), "length", (len(f), len(ps))):
        return
    ctx.close(f, np.arange(1, len(f) + 1) / float(n), "bins", rtol=1e-9)
    for k in range(len(f) - 1):
        lo, hi = f[k], f[k + 1]
        edge = (np.abs(rr - lo) < 1e-9) | (np.abs(rr - hi) < 1e-9)
        sel = (rr >= lo - 1e-12) & (rr < hi - 1e-12)
        alts = [sel] if not edge.any() else [sel, (rr > lo + 1e-12) & (rr < hi - 1e-12) | (edge & (rr >= lo - 1e-9) & (rr < hi - 1e-9))]
        good = any(np.isclose(ps[k], P[s].mean(), rtol=1e-9) and np.isclose(err[k], P[s].std(), rtol=1e-9) for s in alts)
        # frequencies within rounding of an edge may be on either side
        f_ = (rr >= lo) & (rr < hi)
        good = good or (np.isclose(ps[k], P[f_].mean(), rtol=1e-9) and np.isclose(err[k], P[f_].std(), rtol=1e-9))
        ctx.check(good, "bin-mean", "bin %d: %s" % (k, ps[k]))
    for bad in (np.zeros((3, 3)), np.zeros(4), np.zeros((2, 2, 2, 2))):
        try:
            threeD_pspec(bad)
            ctx.fail("refuse", "%d-dimensional array accepted" % bad.ndim)
        except ValueError:
            ctx.check(True, "")
    ctx.state(shape, ps)


def gen_r(tier):
    for n in (33, 48) + ((64, 65, 80) if tier == "thorough" else ()):
        for p in (1., 2.5, 3.5):
            for e, t in [(1., 0.)] + [(e, t) for e in (0.4, 0.7) for t in (0.4, 1.1, 2.3)]:
                yield {"n": n, "p": p, "ellip": e, "theta": t}


def run_r(ctx, n, p, ellip, theta):
    """The statistics read the requested parameters back."""
    from turbustat.simulator import make_extended
    from turbustat.statistics import PowerSpectrum
    a = np.asarray(make_extended(n, powerlaw=p, theta=theta, ellip=ellip))
    o = PowerSpectrum(a, header=fx.hdr2((n, n), beam=False))
    o.compute_pspec()
    o.compute_radial_pspec()
    o.fit_pspec(high_cut=0.45 / u.pix, low_cut=2.5 / n / u.pix)
    ctx.step(3)
    if ellip == 1:
        ctx.close(o.slope, -p, "slope", atol=0.05)
    else:
        ctx.close(o.slope, -p, "slope", atol=0.25)
    o.fit_2Dpspec(fit_method="LevMarq", high_cut=0.45 / u.pix, low_cut=2.5 / n / u.pix)
    ctx.step()
    ctx.close(o.slope2D, -p, "slope2D", atol=0.02)
    ctx.close(o.ellip2D, ellip, "ellip2D", atol=0.02)
    if ellip < 1:
        d = (float(u.Quantity(o.theta2D).value) - theta) % np.pi
        ctx.check(min(d, np.pi - d) < 0.05, "theta2D", (float(o.theta2D), theta))
    ctx.state(o.slope, o.slope2D)


def gen_x(tier):
    yield {"which": "all"}


def run_x(ctx, which):
    from turbustat.simulator import make_extended
    for e in (0., -0.1, -1, 1.0001, 2, 5.):
        for kw in ({}, {"theta": 1.}, {"return_fft": True}):
            try:
                make_extended(8, ellip=e, **kw)
                ctx.fail("refuse", "ellip=%s accepted" % e)
            except ValueError:
                ctx.check(True, "")
            ctx.step()
    make_extended(8, ellip=1)
    make_extended(8, ellip=1e-3)
    ctx.state("x")


# --- arguments left out ------------------------------------------------------------------------------------------------
def gen_d(tier):
    for n in range(4, 12 if tier == "quick" else 20):
        for m in range(16):
            yield {"dim": 2, "n": n, "given": m}
        if n < 9:
            for m in range(8):
                yield {"dim": 3, "n": n, "given": m}


def run_d(ctx, dim, n, given):
    """Every subset of the options given: those left out act as the documented defaults, whichever way the rest is passed."""
    from turbustat.simulator import make_extended, make_3dfield
    if dim == 2:
        names, default, other, f = ("powerlaw", "theta", "ellip", "randomseed"), (2.0, 0., 1., 32768324), (3.1, 0.6, 0.4, 5), make_extended
    else:
        names, default, other, f = ("powerlaw", "amp", "randomseed"), (2.0, 1.0, 32768324), (3.1, 2.5, 5), make_3dfield
    on = [bool(given >> i & 1) for i in range(len(names))]
    st = np.random.get_state()[1].copy()
    some = f(n, **{k: o for k, o, g in zip(names, other, on) if g})
    full = f(n, **{k: o if g else d for k, d, o, g in zip(names, default, other, on)})
    ctx.step(2)
    ctx.check(np.array_equal(np.asarray(some), np.asarray(full)), "defaults", "options left out: %s" % [k for k, g in zip(names, on) if not g])
    # positional arguments, in the documented order
    pos = [o if g else d for d, o, g in zip(default, other, on)][:-1]
    seed = other[-1] if on[-1] else default[-1]
    ctx.check(np.array_equal(np.asarray(f(n, *pos, randomseed=seed)), np.asarray(full)), "positional")
    ctx.check(np.array_equal(np.asarray(f(n, *pos, randomseed=seed, return_fft=False)), np.asarray(full)), "image-by-default")
    ctx.check(np.array_equal(st, np.random.get_state()[1]), "random-state")
    if dim == 2:
        ctx.check(np.shape(f(n, *pos, return_fft=True)) == (n, n), "full-transform-by-default")
    ctx.state(dim, n, given)


FAMILIES = {
    "defaults": Family(gen_d, run_d, "sizes x every subset of the options left out"),
    "field2d": Family(gen_2, run_2, "sizes 4..13 (thorough 3..20, 31, 32) even and odd x 4 indices x 20 ellipses x 2 seeds, every frequency; image, full and half transforms"),
    "field3d": Family(gen_3, run_3, "sizes 4..8 (thorough 3..14) x 4 indices x 3 amplitudes x 2 seeds, every frequency"),
    "pspec3d": Family(gen_p, run_p, "every shape over {4,5,8}^3 (thorough {3,4,5,6,8,9}^3), every bin"),
    "recover": Family(gen_r, run_r, "sizes x indices x ellipses read back by the 1D and 2D fits of PowerSpectrum"),
    "refusals": Family(gen_x, run_x, "ellipticities outside (0, 1]"),
}
