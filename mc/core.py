"""Bounded exhaustive exploration harness.

A property module exposes FAMILIES: name -> Family(gen, run).  gen(tier)
enumerates *every* element of a finite, explicitly bounded space (arguments,
configurations, operation histories, fault points); run(ctx, **params) executes
that element on the real code in /repo and compares with a reference model.
There is no sampling anywhere: the runner executes all elements, on all cores,
and fails if a cap had to be applied.
"""
import argparse
import collections
import concurrent.futures as cf
import hashlib
import importlib
import io
import itertools
import json
import os
import signal
import sys
import time
import traceback
import contextlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")

Family = collections.namedtuple("Family", "gen run bounds")


class CaseTimeout(Exception):
    pass


class Ctx:
    """Collects what one execution did, and every violation seen in it."""

    def __init__(self, prop, family, params):
        self.prop, self.family, self.params = prop, family, params
        self.violations = []
        self.transitions = 0
        self.validated = 0
        self.states = set()
        self.outcomes = set()

    # -- bookkeeping -------------------------------------------------------
    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(digest(key))

    def fail(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append({"key": key, "msg": str(msg)[:2000]})

    def check(self, cond, key, msg=""):
        self.validated += 1
        if not bool(cond):
            self.fail(key, msg)
            return False
        return True

    def close(self, got, want, key, rtol=1e-7, atol=None, scale=None,
              equal_nan=True, msg=""):
        """|got-want| <= rtol*max|want| (+atol), same shape, same NaN set."""
        import numpy as np
        self.validated += 1
        g = np.asarray(strip_unit(got))
        w = np.asarray(strip_unit(want))
        if g.dtype == object:
            g = g.astype(float)
        if w.dtype == object:
            w = w.astype(float)
        if g.shape != w.shape:
            self.fail(key, "%s shape %s != expected %s" % (msg, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        gn, wn = np.isnan(g), np.isnan(w)
        if equal_nan:
            if (gn != wn).any():
                self.fail(key, "%s NaN pattern differs: got %s want %s" %
                          (msg, short(g), short(w)))
                return False
            ok = ~wn
        else:
            if gn.any() or wn.any():
                self.fail(key, "%s unexpected NaN: got %s want %s" %
                          (msg, short(g), short(w)))
                return False
            ok = np.ones(g.shape, bool)
        gi, wi = np.isinf(g) & ok, np.isinf(w) & ok
        if (gi != wi).any() or (g[gi] != w[wi]).any():
            self.fail(key, "%s inf pattern differs: got %s want %s" %
                      (msg, short(g), short(w)))
            return False
        ok &= ~wi
        if not ok.any():
            return True
        if scale is None:
            scale = np.abs(w[ok]).max()
        tol = rtol * scale + (atol if atol is not None else 1e-300)
        d = np.abs(g[ok] - w[ok])
        if not (d <= tol).all():
            self.fail(key, "%s max|diff|=%.3g tol=%.3g got %s want %s" %
                      (msg, d.max(), tol, short(g), short(w)))
            return False
        return True


def strip_unit(x):
    return getattr(x, "value", x) if hasattr(x, "unit") else x


def short(a, n=8):
    import numpy as np
    a = np.asarray(a)
    r = a.ravel()
    s = np.array2string(r[:n], precision=6, separator=",")
    return "%s%s%s" % (a.shape, s, "..." if r.size > n else "")


def digest(obj):
    """Stable digest of nested plain data / arrays (rounded to 9 digits)."""
    import numpy as np
    h = hashlib.sha1()

    def rec(o):
        o = strip_unit(o)
        if isinstance(o, np.ndarray) or isinstance(o, np.generic):
            a = np.asarray(o)
            h.update(str(a.shape).encode())
            if a.dtype.kind in "fc":
                a = a.astype(complex)
                for part in (a.real, a.imag):
                    with np.errstate(all="ignore"):
                        f, e = np.frexp(part)
                        h.update(np.nan_to_num(np.round(f, 7)).tobytes())
                        h.update(np.asarray(e, "i4").tobytes())
            else:
                h.update(a.tobytes() if a.dtype != object else repr(a).encode())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                rec(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for v in o:
                rec(v)
            h.update(b"]")
        elif isinstance(o, float):
            h.update(("%.7g" % o).encode())
        else:
            h.update(repr(o).encode())
        h.update(b";")
    rec(obj)
    return h.hexdigest()[:16]


@contextlib.contextmanager
def quiet():
    """Silence prints and warnings of the code under test."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            yield


_MOD = None


def load(prop):
    global _MOD
    if _MOD is None or _MOD[0] != prop:
        _MOD = (prop, importlib.import_module("mc.props." + prop))
    return _MOD[1]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(prop, family, params, timeout=240):
    import numpy as np
    mod = load(prop)
    fam = mod.FAMILIES[family]
    ctx = Ctx(prop, family, params)
    # every case starts from the same ambient RNG state: no hidden coupling
    # between cases that share a worker process.
    np.random.seed(12345)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with quiet():
            fam.run(ctx, **params)
    except CaseTimeout:
        ctx.fail("timeout", "no answer within %d s" % timeout)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:
        tb = traceback.format_exc().strip().splitlines()
        ctx.fail("exception", "%s: %s | %s" % (type(exc).__name__, exc,
                                               " / ".join(tb[-8:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return {"family": family, "params": params, "violations": ctx.violations,
            "transitions": ctx.transitions, "validated": ctx.validated,
            "states": ctx.states, "outcomes": ctx.outcomes}


def _work(args):
    prop, chunk = args
    try:
        import matplotlib.pyplot as plt
        plt.close("all")
    except Exception:
        pass
    return [run_case(prop, f, p) for f, p in chunk]


def read_known(prop):
    """known-findings.txt: 'known: property=<id> family=<f> key=<k> params=<json subset> -- text'."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, _, text = line.partition(" -- ")
        head, _, params = head.partition(" params=")
        kv = dict(tok.split("=", 1) for tok in head.split()[1:])
        if kv.get("property") == prop:
            out.append({"family": kv.get("family"), "key": kv.get("key"),
                        "params": json.loads(params or "{}"), "text": text,
                        "hits": 0})
    return out


def match_known(known, res, v):
    for k in known:
        if k["family"] == res["family"] and k["key"] == v["key"] and all(
                res["params"].get(a) == b for a, b in k["params"].items()):
            k["hits"] += 1
            return True
    return False


def prepare_env():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use("Agg")
    import numpy as np
    np.seterr(all="ignore")
    import turbustat
    where = os.path.dirname(os.path.dirname(os.path.abspath(turbustat.__file__)))
    if where != REPO:
        raise RuntimeError("turbustat imported from %s, not %s" % (where, REPO))


def build_ext():
    """Rebuild the only compiled extension from the current working tree."""
    import subprocess
    if REPO == "/repo":
        cmd = ["bash", "/opt/vp/build.sh", "--ext-only"]
    else:
        cmd = ["bash", "-c", "cd '%s' && rm -f turbustat/simulator/spectrum*.so turbustat/simulator/spectrum.c && "
               "SETUPTOOLS_SCM_PRETEND_VERSION=1.4.0 /opt/venv/bin/python setup.py -q build_ext --inplace" % REPO]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("extension does not build: " + r.stdout.decode(errors="replace")[-2000:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prepare_env()
    mod = load(a.prop)
    if getattr(mod, "NEEDS_EXT", False):
        build_ext()

    if a.replay:
        rep = json.load(open(a.replay))
        res = [run_case(a.prop, rep["family"], rep["params"]) for _ in range(2)]
        for v in res[0]["violations"]:
            print(v["key"], v["msg"])
        if [v["key"] for v in res[0]["violations"]] != \
                [v["key"] for v in res[1]["violations"]]:
            print("replay diverged between two executions")
            return 3
        return 1 if res[0]["violations"] else 0

    cases, per_family = [], {}
    for name, fam in mod.FAMILIES.items():
        if a.family and name != a.family:
            continue
        lst = [(name, p) for p in fam.gen(a.tier)]
        per_family[name] = len(lst)
        cases += lst
    if a.list:
        print(per_family, len(cases))
        return 0

    # deterministic interleave so long families spread over workers
    nchunk = max(1, min(len(cases), a.jobs * 24))
    chunks = [cases[i::nchunk] for i in range(nchunk)]
    results = []
    broken = None
    if a.jobs == 1:
        for c in chunks:
            results += _work((a.prop, c))
    else:
        import multiprocessing as mp
        ex = cf.ProcessPoolExecutor(a.jobs, mp_context=mp.get_context("fork"))
        try:
            futs = {ex.submit(_work, (a.prop, c)): i for i, c in enumerate(chunks)}
            got = {}
            for f in cf.as_completed(futs):
                try:
                    got[futs[f]] = f.result()
                except cf.process.BrokenProcessPool as exc:
                    broken = str(exc)
                    got[futs[f]] = []
            for i in sorted(got):
                results += got[i]
        finally:
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for pr in procs:
                pr.kill()
            for pr in procs:
                pr.join(5)

    order = {json.dumps([f, p], sort_keys=True): i for i, (f, p) in enumerate(cases)}
    results.sort(key=lambda r: order[json.dumps([r["family"], r["params"]], sort_keys=True)])
    known = read_known(a.prop)
    bad = []
    states, outcomes = set(), set()
    transitions = validated = 0
    fam_stats = collections.defaultdict(lambda: [0, 0, 0])
    fam_states = collections.defaultdict(set)
    for r in results:
        states |= r["states"]
        fam_states[r["family"]] |= r["states"]
        transitions += r["transitions"]
        validated += 1 if r["validated"] else 0
        fs = fam_stats[r["family"]]
        fs[0] += 1
        fs[1] += r["transitions"]
        fs[2] += r["validated"]
        for v in r["violations"]:
            if not match_known(known, r, v):
                bad.append((r, v))
    wall = time.time() - t0

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    first_path = None
    if bad or broken:
        seen = set()
        n = 0
        for r, v in bad:
            k = (r["family"], v["key"])
            if k in seen and not a.v:
                continue
            seen.add(k)
            if n >= 25:
                break
            path = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
            n += 1
            json.dump({"property": a.prop, "family": r["family"],
                       "params": r["params"], "key": v["key"], "msg": v["msg"],
                       "replay_cmd": "cd %s && bin/check %s --replay %s" %
                       (VERIF, a.prop, path)}, open(path, "w"), indent=1)
            first_path = first_path or path
            print("  %s/%s %s\n     %s" % (r["family"], v["key"],
                                         json.dumps(r["params"])[:300], v["msg"][:600]))
        if broken and not bad:
            first_path = os.path.join(rdir, "%s-crash.json" % a.prop)
            json.dump({"property": a.prop, "msg": "worker process died: " + broken},
                      open(first_path, "w"))
    for k in known:
        if k["hits"]:
            print("KNOWN-FINDING: property=%s %s [%d executions]" %
                  (a.prop, k["text"], k["hits"]))

    level = getattr(mod, "LEVEL", "model_checking")
    nsamp = {}
    for r in results:
        nsamp.setdefault(r["family"], r)
    samples = [{"family": f, "params": r["params"], "real_calls": r["transitions"],
                "comparisons": r["validated"]} for f, r in nsamp.items()]
    cov = {"samples": samples,
           "exhaustive": broken is None and len(results) == len(cases) and not a.family,
           "families": {f: {"executions": s[0], "real_calls": s[1],
                            "comparisons": s[2], "distinct_states": len(fam_states[f]),
                            "bounds": mod.FAMILIES[f].bounds}
                        for f, s in fam_stats.items()}}
    if level == "model_checking":
        cov.update(states=len(states), transitions=transitions,
                   traces_validated_against_impl=validated)
    else:
        cov.update(evaluations=len(results), distinct_nontrivial=len(states),
                   rule=getattr(mod, "RULE", "every element of the bounded space; "
                                "distinct = distinct observed result digests"))
    ev = {"property": a.prop, "tier": a.tier,
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": level, "coverage": cov, "wall_s": round(wall, 2),
          "violations": len(bad) + (1 if broken and not bad else 0),
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    if not a.family:
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d executions, %d real calls, %d distinct states, %d validated "
          "traces, %d violations, %.1f s  %s" %
          (a.prop, a.tier, len(results), transitions, len(states), validated,
           len(bad), wall, per_family))
    if bad or broken:
        print("VIOLATION property=%s replay=%s" % (a.prop, first_path))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
