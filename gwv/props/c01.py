"""C01: measured e_gw and mean anomaly equal the closed-form truth."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, require
from ..meas import (ang, build, method_st, probe, rfloat, synth_params)
from ..synth import TWO_PI, Synth

ID = "C01"
ASSUMPTIONS = [
    "the waveforms are Kepler orbits with secular chirp, decaying "
    "eccentricity and pericenter advance, sampled 60 to 120 times per orbit "
    "at the end; the library is allowed the error of locating an extremum to "
    "one sample and, for Amplitude and Frequency, the documented shift of "
    "the extrema by the secular trend"]


def strategy(interp):
    def make(tier):
        wide = tier == "thorough"
        return st.fixed_dictionaries(dict(
            syn=synth_params(ppo=(60, 120),
                             norb=(14, 60) if wide else (14, 32)),
            method=method_st(), interp=st.just(interp),
            rep=st.sampled_from(["hlm", "amp"]),
            nexcl=st.sampled_from([2, 2, 3]),
            refine=st.booleans(),
            fr=st.lists(rfloat(0, 1), min_size=3, max_size=20)))
    return make


def tolerances(case, syn, t):
    """(max, median) error of e_gw and pointwise error of the anomaly."""
    trend = case["method"] in ("Amplitude", "Frequency")
    e0 = syn.c["e0"]
    if case["interp"] == "spline":
        emax = 0.02 if trend else 0.008
        emed = 4e-3 if trend else 2e-3
    elif e0 < 0.25:
        emax, emed = (0.012 if trend else 2e-3), 2e-3
    else:
        emax, emed = 0.07, 0.045
    n, e = syn.n(t), syn.e(t)
    # one sample in the time of a pericenter
    ltol = 0.02 + 1.5 * TWO_PI * n / (syn.n_end * syn.c["ppo"])
    if trend:
        ltol = ltol + 4 * 0.375 / (n * (syn.T - t) * e)
    return emax, emed, ltol


def run(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "refine_extrema": case["refine"]}
    g = probe(d, case["method"], extra=extra,
              nexcl=case["nexcl"])["gwecc_object"]
    # the whole inspiral is measured: from the first orbits to the excluded
    # ones, except that e ~ 0.05 leaves no extrema of Amplitude/Frequency
    # close to merger
    need_lo = syn.anomaly_times(0)[:3][-1]
    require(g.tmin <= need_lo + 3 * syn.dt, f"tmin = {g.tmin:.1f} misses the "
            f"first orbits (third pericenter at {need_lo:.1f})", key="tmin")
    if case["method"] not in ("Amplitude", "Frequency") \
            or syn.c["e0"] > 0.15:
        tp = syn.anomaly_times(0)
        # phase-based exclusion: nexcl orbits before the amplitude peak
        need_hi = tp[-int(np.ceil(case["nexcl"])) - 4]
        require(g.tmax >= need_hi, f"tmax = {g.tmax:.1f} although pericenters"
                f" are available until {need_hi:.1f}", key="tmax")
    t = np.clip(g.tmin + (g.tmax - g.tmin) * np.array(case["fr"]),
                g.tmin, g.tmax)
    t = t[t < syn.t_insp]
    if len(t) == 0:
        return dict(nontrivial=False)
    from ..meas import call
    o = call(d, case["method"], tref=t, extra=extra, nexcl=case["nexcl"])
    emax, emed, ltol = tolerances(case, syn, t)
    de = np.abs(o["eccentricity"] - syn.truth_egw(t))
    require(np.max(de) < emax, f"eccentricity off by {np.max(de):.2e} "
            f"(allowed {emax:.1e})", key="ecc")
    if len(set(t)) >= 6:
        require(np.median(de) < emed, "eccentricity off by "
                f"{np.median(de):.2e} in the median (allowed {emed:.1e})",
                key="ecc-median")
    dl = ang(o["mean_anomaly"], syn.truth_mean_anomaly(t))
    k = np.argmax(dl - ltol)
    require(np.all(dl < ltol), f"mean anomaly off by {dl[k]:.3f} rad "
            f"(allowed {ltol[k]:.3f})", key="anomaly")
    return dict(nontrivial=len(set(case["fr"])) >= 3,
                labels=[case["method"], case["interp"], case["rep"]])


RULE = "at least three distinct reference times inside the inspiral"
SUBS = [Sub("spline", strategy("spline"), run, 800, 16000, RULE),
        Sub("rational", strategy("rational_fit"), run, 700, 12000, RULE)]
