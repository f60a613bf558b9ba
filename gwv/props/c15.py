"""C15: mode asymmetry of precessing systems is averaged and filtered out."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, no_tex, require
from ..meas import (ang, build, call, fref_window, method_st, pick_times,
                    probe, rfloat, synth_params, try_call)
from ..synth import TWO_PI, Synth

ID = "C15"
ASSUMPTIONS = [
    "the asymmetry of the (2, 2) and (2, -2) modes oscillates at the orbital "
    "frequency and the spin-induced oscillation of their mean at twice that, "
    "as in arXiv:2507.08345; it fades before merger"]


def asymmetric(syn, s, q, th0, zeroecc=False):
    """Co-precessing modes with asymmetry s, and their symmetric part."""
    d = build(syn, zeroecc=zeroecc)
    out, mean = {}, {}
    P = TWO_PI / syn.n_end
    for tag in ("", "_zeroecc"):
        if "hlm" + tag not in d:
            continue
        t, h = d["t" + tag], d["hlm" + tag][(2, 2)]
        out["t" + tag] = mean["t" + tag] = t
        A, p = np.abs(h), -np.unwrap(np.angle(h))
        th = p / 2 + th0
        fade = 0.5 * (1 - np.tanh(
            (t - syn.c["tshift"] - syn.t_insp + P) / (0.3 * P)))
        ss, qq = s * fade, q * fade
        out["amplm" + tag] = {
            (2, 2): A * (1 + ss * np.cos(th) + qq * np.cos(2 * th)),
            (2, -2): A * (1 - ss * np.cos(th) + qq * np.cos(2 * th))}
        out["phaselm" + tag] = {
            (2, 2): p + ss * np.sin(th) + qq * np.sin(2 * th),
            (2, -2): -p + ss * np.sin(th) - qq * np.sin(2 * th)}
        mean["amplm" + tag] = {(2, 2): A * (1 + qq * np.cos(2 * th))}
        mean["phaselm" + tag] = {(2, 2): p + qq * np.sin(2 * th)}
    return out, mean


def to_h(d):
    out = {k: v for k, v in d.items() if k[0] == "t"}
    for tag in ("", "_zeroecc"):
        if "amplm" + tag in d:
            out["hlm" + tag] = {
                m: a * np.exp(-1j * d["phaselm" + tag][m])
                for m, a in d["amplm" + tag].items()}
    return out


def mean_case(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.06, 0.4), norb=(14, 28), ppo=(60, 90)),
        method=method_st(), rep=st.sampled_from(["hlm", "amp"]),
        s=rfloat(0, 0.6, 3), q=st.sampled_from([0.0, 0.0, 0.05]),
        th0=rfloat(0, 6.28, 2), precessing=st.just(True),
        domain=st.sampled_from(["time", "frequency"]),
        fr=st.lists(rfloat(0.05, 0.95, 3), min_size=1, max_size=6)))


def run_mean(case):
    syn = Synth(case["syn"])
    e0 = syn.c["e0"]
    d, mean = asymmetric(syn, case["s"] * e0, case["q"] * e0, case["th0"],
                         "Residual" in case["method"])
    if case["rep"] == "hlm":
        d = to_h(d)
    extra = {"omega_gw_extrema_interpolation_method": "spline",
             "filter_kwargs": {"do_not_filter": True}}
    ref_extra = {k: v for k, v in extra.items() if k != "filter_kwargs"}
    g = probe(mean, case["method"], extra=dict(ref_extra))["gwecc_object"]
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = fref_window(mean, case["method"], g,
                                        ref_extra), "fref", "fref_out"
    x = lo + (hi - lo) * np.array(case["fr"])
    a = call(mean, case["method"], extra=dict(ref_extra), **{kw: x})
    b, err = try_call(d, case["method"], extra=extra, precessing=True,
                      frame="coprecessing", **{kw: x})
    if err is not None:
        raise Violation("measuring the asymmetric modes raised "
                        f"{type(err).__name__}: {err}", key="mean-raised")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    if len(ga.t) != len(gb.t) or len(ga.t_pericenters) != len(
            gb.t_pericenters) or not np.allclose(ga.t_pericenters,
                                                 gb.t_pericenters):
        require(abs(len(ga.t) - len(gb.t)) <= 2
                and abs(len(ga.t_pericenters) - len(gb.t_pericenters)) <= 1,
                "the asymmetry moves the extrema", key="mean-extrema")
        etol, ltol = 5e-3, 4 * TWO_PI / syn.c["ppo"]
    else:
        etol, ltol = 1e-6, 1e-4
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    require(np.array_equal(a[key], b[key]), f"{key} depends on the asymmetry",
            key="mean-ref")
    require(de < etol, "the asymmetry of (2, 2) and (2, -2), which cancels "
            f"in their mean, changes the eccentricity by {de:.2e}",
            key="mean-ecc")
    require(dl < ltol, "the asymmetry of (2, 2) and (2, -2), which cancels "
            f"in their mean, changes the mean anomaly by {dl:.2e} rad",
            key="mean-anomaly")
    return dict(nontrivial=case["s"] > 0.01,
                labels=[case["method"], case["rep"], case["domain"]])


def filter_case(tier):
    return st.fixed_dictionaries(dict(
        e0=rfloat(0.03, 0.08), k=rfloat(0.08, 0.2, 3),
        norb=st.integers(18, 32), ratio=rfloat(2, 3.3, 2),
        l0=rfloat(0, 6.28, 2), th0=rfloat(0, 6.28, 2),
        s=rfloat(0.75, 1.9, 2), q=rfloat(0, 0.45, 2),
        rep=st.sampled_from(["hlm", "amp"]),
        method=st.sampled_from(["Amplitude", "Frequency"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        tshift=st.sampled_from([0.0, 0.0, -5000.0, 12345.5]),
        fkw=st.fixed_dictionaries({}, optional=dict(
            padding_length=st.sampled_from([3000, 6000, 20000]),
            alpha=st.sampled_from([1.5, 2]),
            segment_size=st.sampled_from([14, 15, 17]),
            taper_width=st.sampled_from([0.15, 0.2, 0.25]))),
        fr=st.lists(rfloat(0.15, 0.85, 3), min_size=2, max_size=8)))


def run_filter(case):
    c = {k: case[k] for k in ("e0", "k", "norb", "ratio", "l0", "tshift")}
    syn = Synth(dict(c, ppo=60))
    e0 = case["e0"]
    d, mean = asymmetric(syn, case["s"] * e0, case["q"] * e0, case["th0"])
    if case["rep"] == "hlm":
        d = to_h(d)
    fkw = dict({"padding_length": 3000}, **case["fkw"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "filter_kwargs": fkw}
    kw = dict(precessing=True, frame="coprecessing")
    g = probe(d, case["method"], extra=extra, **kw)["gwecc_object"]
    t = pick_times(g, case["fr"])
    e, l = g.compute_eccentricity(t), g.compute_mean_anomaly(t)
    ts = t - case["tshift"]
    de = np.max(np.abs(e - syn.truth_egw(ts)))
    etol = (0.12 if case["method"] == "Amplitude" else 0.25) * e0
    if case["interp"] == "rational_fit":
        etol *= 1.5
    require(de < etol, "eccentricity after filtering is off by "
            f"{de:.2e} (true initial value {e0})", key="filter-ecc")
    # the anomaly follows the pericenters of the filtered data
    dl = np.max(ang(l, syn.truth_mean_anomaly(ts)))
    lim = 0.9 if case["method"] == "Amplitude" else 1.5
    require(dl < lim, f"mean anomaly after filtering is off by {dl:.2f} rad",
            key="filter-anomaly")
    # all orbits are there
    tp = syn.anomaly_times(0)
    n_in = int(np.sum((tp + case["tshift"] >= g.t_pericenters[0])
                      & (tp + case["tshift"] <= g.t_pericenters[-1])))
    require(abs(n_in - len(g.t_pericenters)) <= 2,
            f"{len(g.t_pericenters)} pericenters over {n_in} radial periods",
            key="filter-count")
    return dict(nontrivial=case["q"] > 0.15,
                labels=[case["method"], case["interp"], case["rep"]])


def trigger_case(tier):
    return st.fixed_dictionaries(dict(
        e0=rfloat(0.03, 0.2), k=rfloat(0.08, 0.2, 3),
        norb=st.integers(16, 28), ratio=rfloat(2, 3, 2),
        l0=rfloat(0, 6.28, 2), th0=rfloat(0, 6.28, 2),
        threshold=st.one_of(st.none(), rfloat(0.05, 0.5, 2)),
        factor=st.sampled_from([0.2, 0.3, 4.0, 6.0]),
        method=st.sampled_from(["Amplitude", "Frequency"]),
        fr=st.lists(rfloat(0.2, 0.8, 3), min_size=1, max_size=4)))


def run_trigger(case):
    """Filtering happens above the threshold, and only there."""
    c = {k: case[k] for k in ("e0", "k", "norb", "ratio", "l0")}
    syn = Synth(dict(c, ppo=60))
    tau = case["threshold"] or 0.2
    # the asymmetry has amplitude A s, the orbital residual about 2 e A with
    # e decaying over the inspiral; a factor of at least 3 from the threshold
    emean = case["e0"] * 0.75
    s = case["factor"] * tau * 2 * emean
    above = case["factor"] > 1
    if above and s / (2 * case["e0"] + s) < 1.8 * tau:
        raise Discard("asymmetry cannot exceed this threshold")
    if s > 0.5:
        raise Discard("asymmetry is not small")
    d, mean = asymmetric(syn, s, 0.05 * case["e0"], case["th0"])
    kw = dict(precessing=True, frame="coprecessing")
    fkw = {"padding_length": 3000}
    if case["threshold"] is not None:
        fkw["filter_threshold"] = tau

    def meas(extra_f):
        extra = {"omega_gw_extrema_interpolation_method": "spline",
                 "filter_kwargs": extra_f}
        g = probe(d, case["method"], extra=extra, **kw)["gwecc_object"]
        return g
    off = meas(dict(fkw, do_not_filter=True))
    on = meas(fkw)
    n = min(len(off.amp_gw), len(on.amp_gw))
    same = (np.array_equal(off.amp_gw[:n], on.amp_gw[:n])
            and np.array_equal(off.omega_gw[:n], on.omega_gw[:n]))
    if above:
        require(not same, f"asymmetry {s:.3f} with residual "
                f"{2 * emean:.3f} and threshold {tau} was not filtered",
                key="not-filtered")
    else:
        require(same, f"asymmetry {s:.4f} with residual {2 * emean:.3f} is "
                f"below the threshold {tau} but was filtered",
                key="filtered")
    return dict(nontrivial=True, labels=["above" if above else "below"])


# --- options ---------------------------------------------------------------
def option_case(tier):
    kind = st.sampled_from([None, "amp", "omega"])
    return st.fixed_dictionaries(dict(
        e0=rfloat(0.03, 0.08), k=rfloat(0.08, 0.2, 3),
        norb=st.integers(18, 26), ratio=rfloat(2, 3, 2),
        l0=rfloat(0, 6.28, 2), th0=rfloat(0, 6.28, 2),
        s=st.sampled_from([0.05, 0.8, 1.2, 1.8]), q=rfloat(0.1, 0.4, 2),
        method=st.sampled_from(["Amplitude", "Frequency"]),
        spin=kind, need=kind, plots=st.sampled_from([False] * 5 + [True]),
        bad=st.sampled_from(["data_type_for_fspin_estimate",
                             "data_type_for_filter_requirement_check"]),
        fr=st.lists(rfloat(0.15, 0.85, 3), min_size=1, max_size=4)))


def told(d, case, level, fkw, tref):
    """Measure and collect what is said."""
    from gw_eccentricity import measure_eccentricity
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as rec, \
            contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        r = measure_eccentricity(
            tref_in=tref, method=case["method"], dataDict=d,
            precessing=True, frame="coprecessing", debug_level=level,
            extra_kwargs={"omega_gw_extrema_interpolation_method": "spline",
                          "filter_kwargs": fkw})
    return r, out.getvalue(), [str(w.message) for w in rec
                               if w.category is UserWarning]


def drawn(d, case, fkw, tref):
    """Measure with figures of the filter; the files made."""
    here = os.getcwd()
    out = tempfile.mkdtemp(prefix="gwv_c15_")
    try:
        os.chdir(out)
        with no_tex():
            q, _, _ = told(d, case, -1, dict(fkw, debug_plots=True), tref)
        return q, [f for f in os.listdir(out) if os.path.getsize(f)]
    finally:
        os.chdir(here)
        shutil.rmtree(out)


def run_option(case):
    """What is reported does not matter, what is selected is used."""
    c = {k: case[k] for k in ("e0", "k", "norb", "ratio", "l0")}
    syn = Synth(dict(c, ppo=60))
    e0 = case["e0"]
    d, mean = asymmetric(syn, case["s"] * e0, case["q"] * e0, case["th0"])
    fkw = {"padding_length": 3000}
    # spurious extrema of the untreated data may limit what can be measured
    tref = syn.t_insp * np.linspace(0.02, 0.98, 49)
    r, text, w = told(d, case, -1, dict(fkw), tref)
    require(not text.strip(), f"prints {text[:100]!r}", key="prints")
    g = r["gwecc_object"]
    tref = pick_times(g, case["fr"])
    r, _, _ = told(d, case, -1, dict(fkw), tref)
    g = r["gwecc_object"]
    on = {k: getattr(g, k + "_gw_filtered") is not None
          for k in ("amp", "omega")}
    labels = [f"{k} filtered" for k in on if on[k]] or ["not filtered"]

    def same(q, text):
        h = q["gwecc_object"]
        for k in ("eccentricity", "mean_anomaly", "tref_out"):
            require(np.array_equal(q[k], r[k]), f"{text}: {k} is {q[k]}, "
                    f"otherwise {r[k]}", key="option")
        require(np.array_equal(h.t_pericenters, g.t_pericenters)
                and np.array_equal(h.amp_gw, g.amp_gw)
                and np.array_equal(h.omega_gw, g.omega_gw)
                and np.array_equal(h.phase_gw, g.phase_gw),
                f"{text}: the data or extrema differ", key="option")
    # progress
    q, text, _ = told(d, case, -1, dict(fkw, debug_level=1), tref)
    same(q, "debug_level of the filter 1")
    require(bool(text.strip()) == any(on.values()),
            f"filtering {on} at debug level 1 prints {text[:80]!r}",
            key="progress")
    if case["plots"]:
        q, files = drawn(d, case, fkw, tref)
        same(q, "debug_plots of the filter")
        require(len([f for f in files if "requirement" in f]) == 2
                and len([f for f in files if "requirement" not in f])
                == sum(on.values()), f"filtering {on} draws {files}",
                key="figures")
        labels.append("figures")
    # explicit data types
    q, _, _ = told(d, case, -1, dict(
        fkw, data_type_for_fspin_estimate=None,
        data_type_for_filter_requirement_check=None, do_not_filter=False),
        tref)
    same(q, "default options given explicitly")
    tref = syn.t_insp * np.linspace(0.02, 0.98, 49)
    if case["need"]:
        q, _, _ = told(d, case, -1, dict(
            fkw, data_type_for_filter_requirement_check=case["need"]), tref)
        h = q["gwecc_object"]
        for k in on:
            have = getattr(h, k + "_gw_filtered") is not None
            require(have == on[case["need"]], f"the {case['need']} data "
                    f"{'need' if on[case['need']] else 'need no'} filter, "
                    f"but the {k} data are {'' if have else 'not '}filtered "
                    "when told to look at those", key="requirement")
    if case["spin"]:
        q, _, _ = told(d, case, -1, dict(
            fkw, data_type_for_fspin_estimate=case["spin"]), tref)
        h = q["gwecc_object"]
        for k in on:
            u, v = (getattr(x, k + "_gw_filter_segment_results")
                    for x in (g, h))
            require((u is None) == (v is None), "the data type for the spin "
                    "frequency decides whether to filter", key="spin")
            if u is None:
                continue
            if k == case["spin"]:
                require(np.array_equal(getattr(g, k + "_gw_filtered"),
                                       getattr(h, k + "_gw_filtered")),
                        f"the {k} data change with the spin frequency from "
                        f"{k}", key="spin")
            # twice the orbital frequency, from either
            f = [x.f_spin_guess for x in v]
            tt = [0.5 * (x.t[0] + x.t[-1]) for x in v]
            i = [j for j, x in enumerate(tt) if 0 < x < 0.8 * syn.t_insp]
            for j in i:
                want = (1 + case["k"]) * syn.n(tt[j]) / np.pi
                require(0.6 < f[j] / want < 1.7, "the spin frequency "
                        f"estimated from {case['spin']} at {tt[j]:.0f} is "
                        f"{f[j]:.5f}, about {want:.5f} is there",
                        key="spin-guess")
    # switched off
    q, text, w = told(d, case, -1, dict(fkw, do_not_filter=True,
                                        debug_level=1), tref)
    h = q["gwecc_object"]
    said = {k: any(f"are met for {k}" in m for m in w) for k in on}
    require(said == on, f"filtering {on} is needed and switched off, says "
            f"{w}", key="off-warning")
    require(np.array_equal(h.amp_gw, h.amp_gw_original[:len(h.amp_gw)])
            and h.amp_gw_filtered is None and h.omega_gw_filtered is None,
            "filters when switched off", key="off")
    q, text, w = told(d, case, -1, dict(fkw, do_not_filter=True,
                                        debug_level=-1), tref)
    w = [m for m in w if "spline order" not in m]   # C10 few-points-spline
    require(not w and not text.strip(), f"level -1 of the filter says {w}"
            f"{text}", key="off-silent")
    try:
        told(d, case, -1, dict(fkw, **{case["bad"]: "phase"}), tref)
    except Exception as e:  # noqa: BLE001
        require(isinstance(e, ValueError), f"{case['bad']}='phase': {e!r}",
                key="bad")
    else:
        require(False, f"{case['bad']}='phase' is accepted", key="bad")
    return dict(nontrivial=any(on.values()), labels=labels)


SUBS = [
    Sub("mean", mean_case, run_mean, 240, 8000, "asymmetry above 0.01 e0"),
    Sub("filter", filter_case, run_filter, 64, 3000,
        "spin-induced oscillation above 0.15 e0"),
    Sub("trigger", trigger_case, run_trigger, 56, 2000,
        "the asymmetry is at least a factor of three off the threshold"),
    Sub("option", option_case, run_option, 24, 600,
        "amplitude or frequency is filtered"),
]
