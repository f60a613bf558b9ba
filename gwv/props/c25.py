"""C25: truncation by lowest frequency keeps everything in the band."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import (METHODS, build, call, rfloat, same, snapshot,
                    synth_params, try_call, ang)
from ..synth import TWO_PI, Synth
from . import c11

ID = "C25"
ASSUMPTIONS = [
    "the envelope of the frequency through pericenters increases with time, "
    "as for every inspiral"]


def truncate(*a, **k):
    from gw_eccentricity.truncate_waveform_by_flow import (
        truncate_waveform_by_flow as f)
    with quiet():
        return f(*a, **k)


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.35), norb=(12, 26), tshift=st.sampled_from(
            [0.0, 0.0, -5000.0, 1e4])),
        method=st.sampled_from(METHODS), frac=st.one_of(
            rfloat(0.02, 0.98, 3), rfloat(-0.5, 0.0, 2)),
        modes=st.lists(st.sampled_from(
            [(3, 3), (4, 4), (2, 1), (2, -2), (3, -3), (3, 2)]),
            max_size=3, unique=True).map(lambda x: [list(k) for k in x]),
        m_max=st.sampled_from([None, None, 2, 3, 4]),
        interp=st.sampled_from([None, "rational_fit", "spline"]),
        name=st.booleans()))


def make(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"])
    ph = np.unwrap(np.angle(d["hlm"][(2, 2)]))
    a = np.abs(d["hlm"][(2, 2)])
    for l, m in case["modes"]:
        f = {(3, 3): 0.1, (4, 4): 0.05, (2, 1): 0.02, (2, -2): 1.0,
             (3, -3): 0.1, (3, 2): 0.03}[(l, m)]
        d["hlm"][(l, m)] = f * a * np.exp(0.5j * m * ph)
    return syn, d


def extra_of(case):
    ex = {}
    if case["interp"]:
        ex["omega_gw_extrema_interpolation_method"] = case["interp"]
    return ex or None


def run(case):
    syn, d = make(case)
    tp = syn.anomaly_times(0.0)
    c = syn.c
    tp = tp[(tp > 0.3 * TWO_PI / syn.n0)
            & (tp < syn.t_insp - 2.5 * TWO_PI / syn.n_end)]
    wp = syn.omega_extrema(tp)[0]
    if np.any(np.diff(wp) < 0.004 * wp[:-1]):
        raise Discard("the envelope hardly rises")
    m_max = case["m_max"] or max([2] + [m for _, m in case["modes"]])
    # a frequency of the envelope at a fraction of the inspiral
    if case["frac"] >= 0:
        i = case["frac"] * (len(tp) - 1)
        w = np.interp(i, np.arange(len(tp)), wp)
    else:
        # (below that of any pericenter; the envelope is fitted)
        w = syn.omega_extrema(np.array([0.0]))[0][0]
        w *= 0.97 * (1 + case["frac"])
    flow = w * (m_max / 2) / TWO_PI
    before = snapshot(d)
    kw = dict(method=case["method"], extra_kwargs=extra_of(case))
    if case["m_max"]:
        kw["m_max"] = case["m_max"]
    out, g = truncate(d, flow, **kw)
    require(same(before, d) is None, f"input modified: {same(before, d)}",
            key="mutation")
    require(set(out) == set(d), f"keys {sorted(out)}", key="keys")
    n = len(out["t"])
    k = len(d["t"]) - n
    require(n > 0 and np.array_equal(out["t"], d["t"][k:]),
            "the times are not the last ones of the waveform", key="suffix")
    require(set(out["hlm"]) == set(d["hlm"]), "modes are lost", key="modes")
    for m, h in d["hlm"].items():
        require(np.array_equal(out["hlm"][m], h[k:]), f"mode {m} is not cut "
                "as the times", key="suffix")
    for z in ("t_zeroecc",):
        if z in d:
            require(out["t_zeroecc"][0] <= out["t"][0], "the companion does "
                    "not cover what is left", key="companion")
    t0 = out["t"][0] - c["tshift"]
    P = TWO_PI / syn.n0
    # nothing in the band is lost
    t = d["t"][:k] - c["tshift"]
    if k:
        ph = c11.phase_of(d)
        om = c11.deriv(ph, d["t"][1] - d["t"][0])[:k]
        cut = (t < t0)
        hi = np.max(om[cut]) if cut.any() else 0
        tol = 0.02 if case["interp"] == "spline" else 0.05
        require(hi < w * (1 + tol), f"frequencies up to {hi / w:.4f} times "
                f"the requested one were removed (m_max={m_max})",
                key="lost")
    # and what is kept starts when the envelope reaches it
    env = syn.omega_extrema(np.array([t0]))[0][0]
    if case["frac"] < 0:
        require(k == 0, f"{k} samples removed although the frequency is "
                "below that of the first pericenter", key="below")
    elif t0 > tp[0] + P:
        require(abs(env / w - 1) < 0.06, f"starts where the envelope is "
                f"{env / w:.4f} times the requested frequency", key="start")
    elif case["frac"] * (len(tp) - 1) > 2.5:
        raise Violation("starts at the beginning although the requested "
                        "frequency is reached later", key="start")
    require(g.tlow_for_trucating == out["t"][0] and g.f_low_for_truncating
            == flow and g.m_max == m_max and g.method == case["method"],
            "the returned object does not say how it was truncated",
            key="object")
    # the measurement of what is left is that of the whole
    labels = [case["method"], "cut" if k else "whole"]
    if k and case["frac"] < 0.5:
        tref = np.linspace(t0 + 3.5 * P, syn.t_insp - 6 * TWO_PI / syn.n_end,
                           4) + c["tshift"]
        if tref[-1] > tref[0] and "Fits" not in case["method"]:
            a, e1 = try_call(d, case["method"], tref=tref)
            b, e2 = try_call(out, case["method"], tref=tref)
            if e1 is None and e2 is None:
                labels.append("measured")
                both, ia, ib = np.intersect1d(
                    a["tref_out"], b["tref_out"], return_indices=True)
                de = np.abs(a["eccentricity"][ia] - b["eccentricity"][ib])
                dl = ang(a["mean_anomaly"][ia], b["mean_anomaly"][ib])
                require(np.all(de < 0.01) and np.all(dl < 0.05),
                        "the truncated waveform measures differently: "
                        f"{de.max() if len(de) else 0:.1e}, "
                        f"{dl.max() if len(dl) else 0:.1e}", key="measure")
    return dict(nontrivial=k > 0, labels=labels)


def bad_st(tier):
    return st.tuples(case_st(tier), st.sampled_from(
        ["none", "method", "high", "kwarg"])).map(
            lambda x: dict(x[0], bad=x[1]))


def run_bad(case):
    syn, d = make(case)
    w = syn.omega_extrema(np.array([0.5 * syn.t_insp]))[0][0]
    kw = dict(dataDict=d, flow=w / TWO_PI, method=case["method"])
    b = case["bad"]
    if b == "none":
        kw["dataDict"] = None
    elif b == "method":
        kw["method"] = case["method"].lower()
    elif b == "high":
        kw["flow"] = 100 * w
    elif b == "kwarg":
        kw["extra_kwargs"] = {"refine": True}
    try:
        truncate(**kw)
    except Exception:  # noqa: BLE001
        return dict(nontrivial=True, labels=[b])
    raise Violation(f"accepted: {b}", key="refuse")


SUBS = [
    Sub("truncate", case_st, run, 480, 3000, "something is removed"),
    Sub("refuse", bad_st, run_bad, 48, 300, "every case"),
]
