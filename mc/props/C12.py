"""Simulated PPV cubes are the optically thin spectra of their fields, for every axis, unit, channel choice and worker schedule."""
import itertools
import math
import pickle
import numpy as np
import astropy.units as u
import astropy.constants as co
from ..core import Family
from .. import fx

NEEDS_EXT = True
ASSUMPTIONS = ["all voxels have velocities inside the channel range (what happens to the wings of voxels outside it is not documented)",
               "where the range divided by the channel width is a whole number up to rounding, one more channel is accepted"]
KMS = u.km / u.s
CONV = 1.823e13          # cm^-2 / (K cm/s)


def reference(v, n, los, edges, vth2, length):
    """v, edges in cm/s, n in cm^-3, length in cm; returns the cube in K."""
    v, n = np.moveaxis(v, los, 0), np.moveaxis(n, los, 0)
    dz = length / v.shape[0]
    cents = (edges[1:] + edges[:-1]) / 2
    out = np.zeros((len(cents),) + v.shape[1:])
    L = v.shape[0]
    for i in range(L):
        if i == 0:
            g = v[1] - v[0]
        elif i == L - 1:
            g = v[-1] - v[-2]
        else:
            g = (v[i + 1] - v[i - 1]) / 2.
        sig = np.sqrt(g ** 2 + vth2)
        out += n[i] * dz / (math.sqrt(2 * math.pi) * sig) * np.exp(-(cents[:, None, None] - v[i]) ** 2 / (2 * sig ** 2))
    return out / CONV


def fields(shape, k=0):
    r = np.random.RandomState(11 + k)
    v = np.round(r.uniform(-2, 2, size=shape), 3)
    n = np.exp(r.normal(size=shape))
    n.flat[:: 5] = 0.
    return v, n


def vth2(T, m):
    return (co.k_B * T / m).to((u.cm / u.s) ** 2).value


VU = {"km/s": KMS, "m/s": u.m / u.s, "cm/s": u.cm / u.s}


def gen_s(tier):
    shapes = [(2, 3, 4), (5, 2, 3), (3, 3, 2)] + ([(4, 4, 4), (7, 3, 5)] if tier == "thorough" else [])
    for sh in shapes:
        for los in (0, 1, 2):
            for vu in VU:
                for ch in ("width", "limits", "limits-other", "default", "disp"):
                    for ph in ("plain", "hot"):
                        yield {"shape": list(sh), "los": los, "unit": vu, "chan": ch, "phys": ph}


def run_s(ctx, shape, los, unit, chan, phys):
    from turbustat.simulator import make_ppv
    shape = tuple(shape)
    v, n = fields(shape)
    VQ, NQ = (v * KMS).to(VU[unit]), n / u.cm ** 3
    kw, T, m, length = {}, 100 * u.K, 1.4 * co.m_p, 1 * u.pc
    if phys == "hot":
        T, m, length = 4000 * u.K, 2.3 * co.m_p, 3e17 * u.m
        kw.update(T=T, m=m, los_length=length)
        NQ = NQ.to(u.m ** -3)
    t2 = vth2(T, m)
    disp = np.std(v, axis=los).mean() * 1e5
    vlim = math.sqrt(disp ** 2 + t2)
    lo, hi = v.min() * 1e5 - 4 * vlim, v.max() * 1e5 + 4 * vlim
    idx = 0.5
    N = None
    if chan == "width":
        kw["chan_width"] = 0.31 * KMS
        N = math.ceil((hi - lo) / 0.31e5)
    elif chan == "limits":
        kw.update(v_min=-3 * KMS, v_max=4.5 * KMS, chan_width=0.61 * KMS)
        lo, hi, N = -3e5, 4.5e5, math.ceil(7.5 / 0.61)
    elif chan == "limits-other":
        kw.update(v_min=-3000 * u.m / u.s, v_max=4.5e5 * u.cm / u.s, chan_width=610 * u.m / u.s)
        lo, hi, N = -3e5, 4.5e5, math.ceil(7.5 / 0.61)
    elif chan == "disp":
        disp, idx = 0.7e5, 0.2
        kw.update(vel_disp=700 * u.m / u.s, vel_struct_index=idx)
        vlim = math.sqrt(disp ** 2 + t2)
        lo, hi = v.min() * 1e5 - 4 * vlim, v.max() * 1e5 + 4 * vlim
    if N is None:
        eff = math.sqrt(disp ** 2 * (2. / shape[los]) ** idx + 2 * t2)
        N = math.ceil((hi - lo) / (eff / 2))
    keep = VQ.copy(), NQ.copy()
    cube, ax = make_ppv(VQ, NQ, los_axis=los, return_hdu=False, **kw)
    hdu = make_ppv(VQ, NQ, los_axis=los, pixel_ang_scale=30 * u.arcsec, restfreq=2 * u.GHz, verbose=True, **kw)
    ctx.step(2)
    ctx.check((VQ == keep[0]).all() and (NQ == keep[1]).all(), "inputs", "a field was changed")
    nch = len(ax)
    ctx.check(nch == N, "channels", "%d channels, want %d" % (nch, N))
    edges = np.linspace(lo, hi, nch + 1)
    cents = (edges[1:] + edges[:-1]) / 2
    ctx.close(ax.to(u.cm / u.s).value, cents, "axis", rtol=1e-9)
    spat = [s for i, s in enumerate(shape) if i != los]
    ref = reference(v * 1e5, n, los, edges, t2, length.to(u.cm).value)
    if not ctx.check(cube.shape == (nch,) + tuple(spat) and cube.unit.is_equivalent(u.K), "shape", (cube.shape, cube.unit)):
        return
    ctx.close(cube.to(u.K).value, ref, "spectra", rtol=1e-8)
    ctx.close(hdu.data, ref, "hdu-data", rtol=1e-8)
    judge_header(ctx, hdu.header, hdu.data.shape, 30 / 3600., cents / 1e5, None, 2e9, "K", vel=True)
    ctx.state(ref)


def judge_header(ctx, h, shape, scale, spec, beam, rest, bunit, vel=True, specunit=None):
    """The header describes the data: scale, centre, beam, spectral axis, rest frequency, unit."""
    from astropy.wcs import WCS
    from astropy.wcs.utils import proj_plane_pixel_scales
    w = WCS(h)
    ctx.close(proj_plane_pixel_scales(w.celestial), [scale, scale], "pixel-scale", rtol=1e-9)
    ny, nx = shape[-2:]
    lon, lat = w.celestial.wcs_pix2world([[nx / 2. - 1, ny / 2. - 1]], 0)[0]
    lon = (lon + 180) % 360 - 180
    ctx.check(abs(lon) < 1e-9 and abs(lat) < 1e-9, "centre", "(%g, %g) at the middle of the map" % (lon, lat))
    lon2, lat2 = w.celestial.wcs_pix2world([[nx / 2., ny / 2.]], 0)[0]
    lon2 = (lon2 + 180) % 360 - 180
    ctx.check(lat2 > 0 and lon2 < 0, "orientation", (lon2, lat2))
    ctx.close(h["RESTFRQ"], rest, "restfreq", rtol=1e-9)
    ctx.check(u.Unit(h["BUNIT"]) == u.Unit(bunit), "bunit", h["BUNIT"])
    if beam is not None:
        ctx.close([h["BMAJ"], h["BMIN"], h["BPA"]], [beam, beam, 0.], "beam", rtol=1e-9)
    if spec is not None:
        got = w.spectral.pixel_to_world_values(np.arange(shape[0]))
        unit = u.Unit(w.spectral.wcs.cunit[0])
        want = u.Unit(specunit or (u.km / u.s))
        ctx.close((np.asarray(got) * unit).to(want).value, spec, "spectral-axis", rtol=1e-9)
        ctx.check(w.spectral.wcs.ctype[0].startswith("VRAD" if vel else "FREQ"), "spectral-type", w.spectral.wcs.ctype[0])


# --- every assignment of velocities and densities to a line of sight -------------------------------------
VALS = (-1., 0., 0.25, 1.)
DENS = (0., 1., 3.)


def gen_a(tier):
    for L in (2, 3):
        for los in (0, 1, 2):
            for k in (0, 1):
                yield {"length": L, "los": los, "edges": k}


def run_a(ctx, length, los, edges):
    """Velocities lie inside channels, on inner edges and on the first and last edge."""
    from turbustat.simulator import make_ppv
    vs = np.array(list(itertools.product(VALS, repeat=length))).T        # (L, nv)
    ns = np.array(list(itertools.product(DENS, repeat=length))).T
    v = np.repeat(vs[:, :, None], ns.shape[1], axis=2)
    n = np.repeat(ns[:, None, :], vs.shape[1], axis=1)
    v, n = np.moveaxis(v, 0, los), np.moveaxis(n, 0, los)
    lo, hi, w = ((-1., 1., 0.25), (-2., 2., 0.5))[edges]
    cube, ax = make_ppv(v * KMS, n / u.cm ** 3, los_axis=los, v_min=lo * KMS, v_max=hi * KMS, chan_width=w * KMS, return_hdu=False)
    ctx.step(int(np.prod(cube.shape[1:])))
    e = np.linspace(lo, hi, len(ax) + 1) * 1e5
    ref = reference(v * 1e5, n, los, e, vth2(100 * u.K, 1.4 * co.m_p), (1 * u.pc).to(u.cm).value)
    ctx.close(cube.to(u.K).value, ref, "spectra", rtol=1e-8)
    for s in ref.reshape(len(ax), -1).T[::7]:
        ctx.state(s)


# --- schedules ----------------------------------------------------------------------------------------
class Injected(Exception):
    pass


class FakePool:
    """Runs the submitted tasks in the order given by the scheduler; ordered calls return in submission order, unordered ones
    in completion order. Tasks and results cross a pickle boundary as in a real pool."""
    order, fail_at, calls = None, None, 0

    def __init__(self, processes=None, *a, **k):
        FakePool.calls += 1

    def _run(self, func, tasks, star=False):
        tasks = list(tasks)
        perm = list(FakePool.order) if FakePool.order is not None and len(FakePool.order) == len(tasks) else list(range(len(tasks)))
        res = {}
        for i in perm:
            if FakePool.fail_at == i:
                raise Injected("worker %d failed" % i)
            f, t = pickle.loads(pickle.dumps((func, tasks[i])))
            res[i] = pickle.loads(pickle.dumps(f(*t) if star else f(t)))
        return [res[i] for i in range(len(tasks))], [res[i] for i in perm]

    def map(self, func, it, chunksize=None):
        return self._run(func, it)[0]

    def starmap(self, func, it, chunksize=None):
        return self._run(func, it, True)[0]

    def imap(self, func, it, chunksize=1):
        return iter(self._run(func, it)[0])

    def imap_unordered(self, func, it, chunksize=1):
        return iter(self._run(func, it)[1])

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        out = self._run(func, it)[0]
        if callback:
            callback(out)
        return _Res(out)

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        out = self._run(func, it, True)[0]
        if callback:
            callback(out)
        return _Res(out)

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        out = func(*args, **kwds)
        if callback:
            callback(out)
        return _Res(out)

    def close(self):
        pass
    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Res:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True
    successful = ready


class patched:
    """Replaces the worker pool wherever make_cube can reach it."""

    def __enter__(self):
        import multiprocessing
        import multiprocessing.pool
        import turbustat.simulator.make_cube as mc
        self.saved = []
        for mod in (multiprocessing, multiprocessing.pool, mc):
            if hasattr(mod, "Pool"):
                self.saved.append((mod, mod.Pool))
                mod.Pool = FakePool
        FakePool.calls = 0
        return self

    def __exit__(self, *a):
        for mod, p in self.saved:
            mod.Pool = p
        FakePool.order = FakePool.fail_at = None


def gen_o(tier):
    for los in (0, 2):
        for perm in itertools.permutations(range(4)):
            yield {"los": los, "spatial": [2, 2], "order": list(perm)}
    if tier == "thorough":
        for perm in itertools.permutations(range(6)):
            yield {"los": 0, "spatial": [2, 3], "order": list(perm)}


def run_o(ctx, los, spatial, order):
    from turbustat.simulator import make_ppv
    sh = list(spatial)
    sh.insert(los, 3)
    v, n = fields(tuple(sh), 3)
    kw = dict(los_axis=los, chan_width=0.4 * KMS, return_hdu=False)
    want, ax0 = make_ppv(v * KMS, n / u.cm ** 3, **kw)
    with patched():
        FakePool.order = order
        got, ax = make_ppv(v * KMS, n / u.cm ** 3, threads=2, **kw)
    ctx.step(2)
    ctx.close(got.value, want.value, "order", rtol=1e-12, msg=str(order))
    ctx.close(ax.value, ax0.value, "order", rtol=1e-12)
    ctx.state(los, order)


def gen_f(tier):
    for sp in ([2, 2], [1, 3], [3, 2]):
        for k in range(sp[0] * sp[1]):
            yield {"spatial": sp, "fail_at": k}


def run_f(ctx, spatial, fail_at):
    """A failing worker is reported, never a cube with a hole in it."""
    from turbustat.simulator import make_ppv
    v, n = fields((3,) + tuple(spatial), 4)
    with patched():
        FakePool.fail_at = fail_at
        try:
            make_ppv(v * KMS, n / u.cm ** 3, chan_width=0.4 * KMS, threads=2)
            if FakePool.calls:
                ctx.fail("worker-failure", "the failure of worker task %d was swallowed" % fail_at)
        except Injected:
            pass
    ctx.validated += 1
    ctx.step()
    ctx.state(spatial, fail_at)


def gen_p(tier):
    for th in (2, 3, 5):
        for los in (0, 1, 2):
            for hdu in (False, True):
                yield {"threads": th, "los": los, "hdu": hdu}


def run_p(ctx, threads, los, hdu):
    """Real pools: the same cube as one worker."""
    from turbustat.simulator import make_ppv
    sh = [3, 4]
    sh.insert(los, 5)
    v, n = fields(tuple(sh), 5)
    kw = dict(los_axis=los, chan_width=0.4 * KMS, return_hdu=hdu)
    one = make_ppv(v * KMS, n / u.cm ** 3, **kw)
    many = make_ppv(v * KMS, n / u.cm ** 3, threads=threads, **kw)
    ctx.step(2)
    if hdu:
        ctx.close(many.data, one.data, "threads", rtol=1e-12)
        ctx.check(many.header == one.header, "threads", "header differs")
    else:
        ctx.close(many[0].value, one[0].value, "threads", rtol=1e-12)
        ctx.close(many[1].value, one[1].value, "threads", rtol=1e-12)
    ctx.state(threads, los)


# --- refusals -----------------------------------------------------------------------------------------
def gen_x(tier):
    for k in range(24):
        yield {"negative": k}
    for w in ("vmin-unit", "vmax-unit", "swapped", "swapped-units", "maxchan", "maxchan-default"):
        yield {"negative": w}


def run_x(ctx, negative):
    from turbustat.simulator import make_ppv
    v, n = fields((2, 3, 4), 6)
    kw = {}
    if isinstance(negative, int):
        n.flat[negative] = -1e-3
    elif negative == "vmin-unit":
        kw = dict(v_min=-3 * u.K)
    elif negative == "vmax-unit":
        kw = dict(v_max=3 * u.pc)
    elif negative == "swapped":
        kw = dict(v_min=3 * KMS, v_max=-3 * KMS)
    elif negative == "swapped-units":
        kw = dict(v_min=3 * KMS, v_max=2900 * u.m / u.s)
    elif negative == "maxchan":
        kw = dict(v_min=-3 * KMS, v_max=3 * KMS, chan_width=0.1001 * KMS, max_chan=59)
    elif negative == "maxchan-default":
        kw = dict(v_min=-3 * KMS, v_max=3 * KMS, chan_width=5 * u.m / u.s)
    try:
        make_ppv(v * KMS, n / u.cm ** 3, **kw)
        ctx.fail("refuse", "%s accepted" % negative)
    except (ValueError, u.UnitsError):
        ctx.check(True, "")
    ctx.step()
    if negative == "maxchan":
        kw["max_chan"] = 60
        c = make_ppv(v * KMS, n / u.cm ** 3, **kw)
        ctx.check(c.data.shape[0] == 60, "maxchan", c.data.shape)
    ctx.state(negative)


# --- headers ------------------------------------------------------------------------------------------
def gen_h(tier):
    for sh in itertools.product((3, 4, 7), (5, 8), (5, 6, 11)):
        for ps in ((0.01, "deg"), (20., "arcsec"), (1e-4, "rad")):
            for sp in ((500., "m/s"), (-0.2, "km/s"), (2e3, "Hz"), (-0.01, "MHz")):
                for v0 in (None, "vel", "native"):
                    yield {"shape": list(sh), "pix": list(ps), "spec": list(sp), "v0": v0}


def run_h(ctx, shape, pix, spec, v0):
    from turbustat.io.sim_tools import create_cube_header, create_image_header, create_fits_hdu
    shape = tuple(shape)
    P, Sp = pix[0] * u.Unit(pix[1]), spec[0] * u.Unit(spec[1])
    freq = Sp.unit.is_equivalent(u.Hz)
    rest = 1.4 * u.GHz
    B = 0.05 * u.deg if pix[1] == "deg" else 90 * u.arcsec
    start = {None: None, "vel": 3.3 * KMS, "native": (1.41 * u.GHz if freq else -2200 * u.m / u.s)}[v0]
    args = [P, Sp, B, shape, rest, u.Jy]
    if start is not None:
        args.append(start)
    s0 = start if start is not None else 0 * KMS
    first = s0.to(Sp.unit, equivalencies=u.doppler_radio(rest)).value
    want = first + Sp.value * np.arange(shape[0])
    data = np.arange(np.prod(shape)).reshape(shape) * 1.
    h = create_cube_header(*args)
    hdu = create_fits_hdu(data, *args)
    ctx.step(2)
    for hh in (h, hdu.header):
        judge_header(ctx, hh, shape, P.to(u.deg).value, want, B.to(u.deg).value, 1.4e9, "Jy", vel=not freq, specunit=Sp.unit)
    ctx.check((hdu.data == data).all(), "hdu-data", "")
    a2 = [P, B, shape[1:], rest, u.K]
    h2 = create_image_header(*a2)
    hdu2 = create_fits_hdu(data[0], *a2)
    ctx.step(2)
    for hh in (h2, hdu2.header):
        judge_header(ctx, hh, shape[1:], P.to(u.deg).value, None, B.to(u.deg).value, 1.4e9, "K")
    ctx.check((hdu2.data == data[0]).all(), "hdu-data", "")
    for bad in (data[0, 0], data[None]):
        try:
            create_fits_hdu(bad, *a2)
            ctx.fail("refuse", "%d-dimensional data accepted" % bad.ndim)
        except ValueError:
            ctx.check(True, "")
    # the statistics read scale and beam from it
    from turbustat.statistics import PowerSpectrum
    o = PowerSpectrum(hdu2)
    if hasattr(o, "_ang_size"):
        ctx.close(abs(o._ang_size.to(u.deg).value), P.to(u.deg).value, "ang-size", rtol=1e-9)
    o.load_beam()
    if hasattr(o, "_beam"):
        ctx.close(o._beam.major.to(u.deg).value, B.to(u.deg).value, "stat-beam", rtol=1e-9)
    ctx.state(shape, pix, spec, v0)


FAMILIES = {
    "spectra": Family(gen_s, run_s, "shapes x line-of-sight axes x velocity units x channel choices x gas properties, every voxel of the cube; axis and header"),
    "assignments": Family(gen_a, run_a, "every assignment of 4 velocities (inside channels, on inner and outer edges) and 3 densities to lines of sight of 2 and 3 voxels x axis"),
    "orders": Family(gen_o, run_o, "every completion order of 4 worker tasks x 2 axes (thorough: 6 tasks) under a controlled pool"),
    "failures": Family(gen_f, run_f, "a failure of every worker task of three maps"),
    "pools": Family(gen_p, run_p, "real pools of 2, 3 and 5 workers x axis x output form"),
    "refusals": Family(gen_x, run_x, "a negative density at every voxel; wrong units, swapped limits, too many channels"),
    "headers": Family(gen_h, run_h, "cube shapes x pixel scales x spectral scales x first channel; image headers; read by WCS and by a statistic"),
}
