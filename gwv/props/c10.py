"""C10: the debug level changes what is reported, never what is measured."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, require
from ..meas import (METHODS, build, method_st, rfloat, synth_params,
                    to_amp_phase)
from ..precess import aligned_modes, precession_angles, rotate
from ..synth import TWO_PI, Synth

ID = "C10"
ASSUMPTIONS = [
    "warnings of numpy and scipy (RuntimeWarning etc.) are not the "
    "library's; only UserWarning and printed output are judged"]

# Messages that the code itself classifies as not important.
MINOR = ("extra pericenters", "extra apocenters", "too widely separated",
         "too close", "too far", "degrees to", "Increasing degrees",
         "was dropped", "closer to pi", "differ by",
         "Removing the input", "Transforming the modes", "alternately",
         "tref_in from fref_in", "fref_bounds will be only")
# Warnings that ignore the debug level: see known_findings.txt.
UNCONDITIONAL = {
    "few-points-spline": "No of data points is",
    "few-points-rational": "Number of data points must be greater",
    "outside-training-range": "outside the training range"}


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.35), norb=(9, 20), ppo=(45, 55),
                         k=(0.0, 0.08)),
        method=method_st(), domain=st.sampled_from(["time"] * 2
                                                   + ["frequency"]),
        rep=st.sampled_from(["hlm", "amp", "omega"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants"]),
        unrelated=st.sampled_from([0, 0, 0, 1]),
        frame=st.sampled_from(["none", "none", "inertial", "coprecessing"]),
        asym=st.sampled_from([0.0, 0.02, 0.1]),
        growing=st.sampled_from([False, False, False, True]),
        tiny=st.sampled_from([False, False, False, False, True]),
        zero=st.booleans(),
        orbits=st.sampled_from([None, None, None, 6, 9, 60]),
        midpoints=st.sampled_from([False, False, False, True]),
        bumps=st.lists(st.tuples(rfloat(0.05, 0.95, 3),
                                 st.sampled_from([-0.4, -0.15, 0.15, 0.4]),
                                 rfloat(0.05, 0.2, 2)), max_size=2),
        nexcl=st.sampled_from([2, 2, 1, 3])))


def make(case):
    c = dict(case["syn"])
    if case["growing"]:
        c["p"] = -0.25
        c["e0"] = min(c["e0"], 0.2)
    if case["tiny"]:
        c["e0"] = 1e-6
    syn = Synth(c)
    d = build(syn, case["method"], "hlm")
    t = d["t"]
    h = d["hlm"][(2, 2)].copy()
    for x, a, w in case["bumps"]:
        tc = t[0] + x * 0.8 * syn.t_insp
        s = w * TWO_PI / float(syn.n(tc - t[0]))
        g = np.exp(-((t - tc) / s) ** 2)
        # spoils amplitude and frequency around one place
        h = h * (1 + a * g) * np.exp(-1j * a * g)
    d["hlm"] = {(2, 2): h}
    if case["frame"] != "none":
        for tag in ("", "_zeroecc"):
            if "hlm" + tag not in d:
                continue
            tt = d["t" + tag]
            m = aligned_modes(d["hlm" + tag][(2, 2)])
            if not tag and case["asym"]:
                s = 1 + case["asym"] * np.cos(1.1 * syn.n0 * tt)
                m[(2, 2)] = m[(2, 2)] * s
                m[(2, -2)] = m[(2, -2)] * (2 - s)
            if case["frame"] == "inertial":
                m = rotate(m, *precession_angles(
                    tt - tt[0], 0.3, 0.03 * syn.n0, 0.4, 0.05,
                    0.02 * syn.n0))
            d["hlm" + tag] = m
    if case["rep"] != "hlm":
        d = to_amp_phase(d)
    if case["rep"] == "omega":
        for tag in ("", "_zeroecc"):
            if "phaselm" + tag in d:
                d["omegalm" + tag] = {
                    m: np.gradient(p, d["t" + tag], edge_order=2)
                    for m, p in d["phaselm" + tag].items()}
    if case["unrelated"]:
        d["unrelated_entry"] = 1
    return syn, d


def one(case, d, refs, level):
    from gw_eccentricity import measure_eccentricity
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"],
             "return_zero_if_small_ecc_failure": case["zero"],
             "use_only_these_many_orbits": case["orbits"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["midpoints"]}
    kw = {} if case["frame"] == "none" else dict(
        precessing=True, frame=case["frame"])
    out, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(record=True) as rec, \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter("always")
        res = exc = None
        try:
            res = measure_eccentricity(
                method=case["method"], dataDict=d, debug_level=level,
                num_orbits_to_exclude_before_merger=case["nexcl"],
                extra_kwargs=extra, **refs, **kw)
        except Exception as e:  # noqa: BLE001
            exc = e
    msgs = [str(w.message) for w in rec if w.category is UserWarning]
    free = [m for m in msgs if any(u in m for u in UNCONDITIONAL.values())]
    msgs = [m.split("\nFor more verbose output")[0] for m in msgs
            if m not in free]
    return dict(res=res, exc=exc, msgs=msgs, free=free,
                text=out.getvalue() + err.getvalue())


def values(o):
    if o["exc"] is not None:
        return (type(o["exc"]).__name__, str(o["exc"]))
    r = o["res"]
    g = r["gwecc_object"]
    return [np.asarray(r[k]).tobytes() for k in
            ("eccentricity", "mean_anomaly")] + [
        np.asarray(r.get("tref_out", r.get("fref_out"))).tobytes(),
        np.asarray(getattr(g, "t_pericenters", 0)).tobytes(),
        np.asarray(getattr(g, "t_apocenters", 0)).tobytes()]


def run(case):
    syn, d = make(case)
    lo = d["t"][0]
    if case["domain"] == "time":
        x = np.array([0.3, 0.5, 0.6])
        refs = dict(tref_in=lo + x * syn.t_insp)
    else:
        f = 2 * float(syn.n(0.45 * syn.t_insp)) * (1 + syn.c["k"]) / TWO_PI
        refs = dict(fref_in=np.array([f, 1.03 * f]))
    o = {lev: one(case, d, refs, lev) for lev in (-1, 0, 1, 2)}
    v = {lev: values(o[lev]) for lev in o}
    require(v[-1] == v[0], "levels -1 and 0 differ in the result: "
            f"{brief(o[-1])} / {brief(o[0])}", key="values")
    require(v[0] == v[1], "levels 0 and 1 differ in the result: "
            f"{brief(o[0])} / {brief(o[1])}", key="values")
    m0, m1 = o[0]["msgs"], o[1]["msgs"]
    require(not o[-1]["msgs"], f"level -1 warns: {o[-1]['msgs'][:1]}",
            key="loud")
    for lev in (-1, 0):
        require(not o[lev]["text"].strip(),
                f"level {lev} prints: {o[lev]['text'][:200]!r}",
                key="prints")
    for m in m0:
        require(not any(w in m for w in MINOR),
                f"level 0 shows an unimportant warning: {m}", key="minor")
    for m in m0:
        require(m in m1, f"shown at level 0 but not at level 1: {m}",
                key="lost")
    for m in m1:
        require(m in m0 or any(w in m for w in MINOR),
                f"important warning not shown at level 0: {m}",
                key="important")
    if m1:
        e = o[2]["exc"]
        require(e is not None, f"level 2 does not raise for: {m1[0]}",
                key="strict")
        require(m1[0] in str(e), "level 2 raises something else: "
                f"{type(e).__name__}: {e}, instead of: {m1[0]}",
                key="strict-message")
    else:
        require(v[2] == v[1], "level 2 changes a result that has no "
                f"warnings: {brief(o[1])} / {brief(o[2])}", key="values")
    ok = o[1]["exc"] is None
    # what is known to be wrong with these data must be reported
    joined = "\n".join(m0)
    if case["unrelated"] and (ok or m1):
        require("unrelated_entry" in joined or not ok,
                "the unrecognised entry is not reported at level 0",
                key="unreported")
    if ok and case["orbits"] == 60:
        require("60" in joined, "a segment longer than the data is not "
                "reported at level 0", key="unreported")
    if ok and case["growing"] and not case["tiny"] and \
            case["interp"] == "spline" and not case["bumps"] and \
            case["orbits"] is None and case["asym"] == 0 and \
            len(o[1]["res"]["gwecc_object"].t_pericenters) > 4:
        require("monoton" in joined, "growing eccentricity is not reported "
                "at level 0", key="unreported")
    if ok and np.all(np.atleast_1d(o[1]["res"]["eccentricity"]) == 0) \
            and case["zero"]:
        require("zero" in joined, "the fallback to zero is not reported at "
                "level 0", key="unreported")
    if case["frame"] == "inertial" and ok:
        require(len(m1) > len(m0), "the change of frame is not reported at "
                "level 1", key="unreported")
    for k, u in UNCONDITIONAL.items():
        bad = [m for m in o[-1]["free"] if u in m]
        require(not bad, f"level -1 warns: {bad[:1]}", key=k)
    labels = ["measured" if ok else "refused", case["method"]]
    labels += ["important"] if m0 else []
    labels += ["minor"] if len(set(m1)) > len(set(m0)) else []
    return dict(nontrivial=bool(m1), labels=labels)


def brief(o):
    if o["exc"] is not None:
        return f"{type(o['exc']).__name__}: {str(o['exc'])[:150]}"
    return str(np.atleast_1d(o["res"]["eccentricity"])[:3])


BASE = dict(
    syn=dict(amp=1.0, e0=0.2, k=0.05, kind="kepler", l0=1.0, merger=True,
             n0=0.01, norb=5, p=1.0, phi0=0.0, ppo=50, ratio=2.0,
             tshift=0.0),
    method="Amplitude", domain="time", rep="hlm", interp="spline",
    avg="orbit_averaged_omega_gw", unrelated=0, frame="none", asym=0.0,
    growing=False, tiny=False, zero=False, orbits=None, midpoints=False,
    bumps=[], nexcl=2)
SUBS = [Sub("levels", case_st, run, 480, 8000,
            "at least one warning is issued at level 1",
            fixed=[BASE, dict(BASE, interp="rational_fit")])]
