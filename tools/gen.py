#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level="model_checking"):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or [], hook_needed=None)),
              dict(property=id, quick_cmd="bin/check %s --tier quick" % id, thorough_cmd="bin/check %s --tier thorough" % id,
                   technique=technique, level=level, level_note=note)))


S = "turbustat/statistics/"
EXH = ("Explicit enumeration, on the real code, of every element of the bounded space listed in the evidence file; "
       "nothing is sampled. ")

prop("C01", "Nothing the caller supplies is modified",
     "Constructing, running, plotting or comparing statistics never changes the arrays, headers, weights, spectral-cube objects or option "
     "dictionaries the caller passed in, whatever form they come in and whether or not the call succeeds. "
     "Default option values are not changed for later calls either, and asking the input reader for a copy gives an independent copy.",
     ["inputs", "configurations", "histories"],
     "for all statistics, distance metrics and helper functions, all documented input forms, contents (clean, missing values, integers), "
     "weights, run configurations and option dictionaries, after construction and after every run",
     "Tests look only at returned numbers; none compares its inputs before and after a call, and most inputs are module-level constants in one form.",
     ["turbustat/io/input_base.py", S + "base_statistic.py", S + "pspec_bispec/pspec.py", S + "mvc/mvc.py", S + "threeD_to_twoD.py",
      "turbustat/moments/make_moments.py", "turbustat/simulator/make_cube.py"],
     [("copy before masking", S + "pspec_bispec/pspec.py"), ("input reader", "turbustat/io/input_base.py"), ("keyword handling in run()", S + "*/*.py")],
     "exhaustive state exploration of call sequences with bit-exact snapshots of caller-owned state",
     EXH + "The oracle is a bit-exact snapshot of every caller-owned object taken before the calls.")

prop("C02", "A run's results do not depend on what was run before",
     "Running a statistic with given options gives the same results on an object with any earlier history of runs, partial steps, setters and saves as on a fresh object. "
     "Two live objects do not influence each other, and results a caller kept from an earlier run are not overwritten by a later one.",
     ["histories", "configurations"],
     "for all 14 statistics, all operation sequences up to the depth bound over each statistic's alphabet, followed by every run configuration",
     "Each test builds a fresh object and runs it once; state left behind by one run (breaks, masks, cut-offs, cached arrays, bins) is only visible on a second, different run.",
     [S + "base_pspec2.py", S + "delta_variance/delta_variance.py", S + "wavelets/wavelet_transform.py", S + "scf/scf.py", S + "pdf/compare_pdf.py",
      S + "pca/pca.py", S + "dendrograms/dendro_stats.py", S + "genus/genus.py", S + "tsallis/tsallis.py", S + "stat_moments/highstatmoments.py"],
     [("attributes re-set by each compute/fit step", S)],
     "explicit-state exploration of operation histories on the real objects, compared with a fresh-object model",
     EXH + "The model state is (statistic, last configuration, persistent settings); every history is replayed on the implementation.")

prop("C04", "Results do not depend on the form the input is given in",
     "The same numbers give the same results whether they come as an array with a header, a tuple or list, a FITS HDU, a spectral-cube projection, slice or cube, "
     "and whatever their memory layout, byte order, integer or floating type. Weights behave likewise, for statistics and for distance metrics. "
     "Input that cannot be used (nothing, a file name, a wrong-length tuple, a missing or invalid header where one is needed) is refused at construction.",
     ["inputs", "configurations"],
     "for all statistics and metrics, all documented forms, ten memory representations, even and odd shapes, all run configurations",
     "Tests use one form (usually HDU or tuple) and native double arrays for nearly every statistic.",
     ["turbustat/io/input_base.py", S + "base_statistic.py", S + "rfft_to_fft.py"],
     [("input reader", "turbustat/io/input_base.py"), ("data and header properties", S + "base_statistic.py")],
     "exhaustive enumeration of input forms x representations x configurations, differential against the array form",
     EXH + "Single precision input is only compared loosely.")

prop("C07", "Power spectra follow their definition for every shape and option",
     "The two-dimensional power spectrum is the squared modulus of the discrete Fourier transform of the weighted, windowed data (summed over the spectral axis for cubes, or combined from the three moment maps for centroids), "
     "laid out with zero frequency at the centre and divided by the beam response when requested. The one-dimensional spectrum is the mean power, with its scatter, of the pixels whose frequency falls in each radial bin and azimuthal range, for even and odd, square and non-square maps.",
     ["inputs", "configurations"],
     "for all small even/odd, square/non-square shapes, impulse and generic images, windows, binning options, azimuthal wedges and weights",
     "Tests compare with stored numbers for one 128x128 map, which a consistent change of layout on odd or non-square maps does not move.",
     [S + "rfft_to_fft.py", S + "psds.py", S + "base_pspec2.py", S + "pspec_bispec/pspec.py", S + "vca_vcs/vca.py", S + "mvc/mvc.py", S + "apodizing_kernels.py"],
     [("rfft expansion", S + "rfft_to_fft.py"), ("radial binning", S + "psds.py")],
     "exhaustive enumeration of shapes, impulses and options against a direct DFT reference",
     EXH + "Linearity of the transform makes all unit impulses plus generic images of each shape decisive for that shape.")

prop("C09", "Distance metrics are symmetric, zero on identical data, and honour options",
     "Every distance metric is non-negative, zero for two copies of the same data, unchanged when the two data sets are exchanged together with their options, and equal to its documented formula evaluated on independently computed statistics. "
     "Supplying data, an un-run statistic or a run statistic gives the same distance. Options given for one data set reach that data set only, and lags or radii cover the same angle on maps with different pixel scales.",
     ["inputs", "configurations", "histories"],
     "for all 14 metrics, all ordered pairs of four data sets, all 3x3 supply forms, every per-data-set option, three pixel-scale ratios",
     "Tests evaluate each metric on one ordered pair with default options against a stored number.",
     [S + "pspec_bispec/pspec.py", S + "scf/scf.py", S + "delta_variance/delta_variance.py", S + "stat_moments/highstatmoments.py", S + "genus/genus.py",
      S + "pdf/compare_pdf.py", S + "pca/pca.py", S + "dendrograms/dendro_stats.py", S + "cramer/cramer.py", S + "vca_vcs/vcs.py", S + "vca_vcs/vca.py",
      S + "mvc/mvc.py", S + "wavelets/wavelet_transform.py", S + "pspec_bispec/bispec.py", S + "stats_utils.py"],
     [("distance classes", S + "*/*.py")],
     "exhaustive enumeration of metric x pair x supply form x option against reference formulas",
     EXH + "The underlying statistics are judged by their own properties.")

EXTRA = os.path.join(V, "tools", "more_props.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

if __name__ == "__main__":
    P.sort(key=lambda t: t[0]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="bash /opt/vp/build.sh --ext-only", checks=[c for _, c in P], not_applicable=[],
               notes="All checks: bin/check <ID> [--tier quick|thorough] [--replay FILE]. Every check rebuilds the only compiled "
                     "extension when it exercises it, and imports turbustat from /repo.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
