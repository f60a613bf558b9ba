"""C12: using only some orbits around the reference keeps the measurement."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, require
from ..meas import (FITS, ang, build, call, fref_window, method_st, probe,
                    rfloat, synth_params, try_call)
from ..synth import TWO_PI, Synth
from .c11 import phase_of

ID = "C12"
ASSUMPTIONS = [
    "the accuracy of a restricted measurement is judged for six or more "
    "orbits; the documentation recommends at least ten"]
K = 4 * np.pi


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.06, 0.4), norb=(18, 42), ppo=(45, 70),
                         tshift=st.sampled_from([0.0, 2000.0, -54321.0])),
        method=method_st(), domain=st.sampled_from(["time", "time",
                                                    "frequency"]),
        interp=st.sampled_from(["spline", "spline", "rational_fit"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants"]),
        n=st.one_of(st.integers(6, 16), rfloat(6, 16, 1),
                    st.sampled_from([10, 12, 60])),
        nexcl=st.sampled_from([2, 2, 1]),
        rep=st.sampled_from(["hlm", "amp"]),
        scalar=st.booleans(),
        at=st.one_of(rfloat(0.02, 0.98, 3),
                     st.sampled_from([0.03, 0.9, 0.5])),
        spread=st.lists(rfloat(-0.25, 0.25, 3), max_size=4)))


def orbits(ph, t, a, b):
    return (np.interp(b, t, ph) - np.interp(a, t, ph)) / K


def run(case):
    syn = Synth(case["syn"])
    method, n = case["method"], case["n"]
    d = build(syn, method, case["rep"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    full0 = probe(d, method, extra=dict(extra),
                  nexcl=case["nexcl"])["gwecc_object"]
    if case["domain"] == "time":
        lo, hi, kw, key = full0.tmin, full0.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = (fref_window(d, method, full0, extra), "fref",
                             "fref_out")
    fr = np.clip([case["at"]] + [case["at"] + s for s in case["spread"]],
                 0.01, 0.99)
    x = lo + (hi - lo) * np.array(fr)
    if case["scalar"]:
        x = float(x[0])
    full = call(d, method, extra=dict(extra), nexcl=case["nexcl"], **{kw: x})
    seg, err = try_call(
        d, method, extra=dict(extra, use_only_these_many_orbits=n),
        nexcl=case["nexcl"], **{kw: x})
    if err is not None:
        if case["domain"] == "frequency" and "monoton" in str(err):
            raise Discard("orbit averages in the segment")
        if case["domain"] == "frequency" and "outside" in str(err) and (
                n < 10 or not case["avg"].startswith("orbit")):
            # the approximate time of the frequency is too far off
            return dict(nontrivial=False, labels=["refused"])
        if method in FITS and (n < 10 or "outside" in str(err)):
            # too little data for the fits, which may miss the last extremum
            return dict(nontrivial=False, labels=["refused"])
        raise Violation(f"{n} orbits: {type(err).__name__}: {err}",
                        key="raised")
    gf, gs = full["gwecc_object"], seg["gwecc_object"]
    labels = [method, case["domain"]]
    # the data are those of the waveform
    tf, ts = gf.t, gs.t
    i = int(np.searchsorted(tf, ts[0] - 0.25 * syn.dt))
    require(len(ts) > 3 and i + len(ts) <= len(tf)
            and np.max(np.abs(tf[i:i + len(ts)] - ts)) < 1e-6 * syn.dt
            and np.array_equal(gf.omega_gw[i:i + len(ts)], gs.omega_gw)
            and np.array_equal(gf.amp_gw[i:i + len(ts)], gs.amp_gw)
            and np.array_equal(gf.phase_gw[i:i + len(ts)], gs.phase_gw),
            "the segment is not a contiguous part of the data", key="data")
    ph = phase_of(d)
    t = np.asarray(d["t"], float)
    total = orbits(ph, t, tf[0], tf[-1])
    if n > total + 1:
        require(len(ts) == len(tf), f"only {len(ts)} of {len(tf)} samples "
                f"are used although {n} orbits are more than the data have",
                key="short-data")
        for k in ("eccentricity", "mean_anomaly", key):
            require(np.array_equal(full[k], seg[k]),
                    f"{k} changes although all data are used", key="same")
        return dict(nontrivial=True, labels=labels + ["all-data"])
    whole = len(ts) >= len(tf) - 1
    labels.append("whole" if whole else "part")
    # where the references are
    tr = np.atleast_1d(gf.tref_out if case["domain"] == "frequency"
                       else full[key])
    a, b = np.min(tr), np.max(tr)
    if case["domain"] == "time":
        slack = 0.1
    elif case["avg"].startswith("orbit"):
        # the secular trend stands in for the orbit average
        slack = 2.0
    else:
        # the mean of the extrema is above it by several e^2
        slack = 100.0
    left, right = orbits(ph, t, ts[0], a), orbits(ph, t, b, ts[-1])
    at_lo = ts[0] <= tf[0] + 1.5 * syn.dt
    at_hi = ts[-1] >= tf[-1] - 2.5 * syn.dt
    require(at_lo or left >= n / 2 - slack,
            f"{left:.2f} orbits before the first reference, {n}/2 wanted "
            "and available", key="left")
    require(at_hi or right >= n / 2 - slack,
            f"{right:.2f} orbits after the last reference, {n}/2 wanted "
            "and available", key="right")
    between = orbits(ph, t, a, b)
    if case["domain"] == "time":
        require(at_lo and at_hi or left + right + between >= n - 0.6 - slack,
                f"{left + right + between:.2f} orbits in total, {n} wanted "
                "and available", key="total")
    # and not many more than asked for
    most = (np.ceil(n / 2) + 0.3) * 1.15 + slack
    require(left <= most + (1.15 * n / 2 if at_hi else 0),
            f"{left:.2f} orbits before the first reference for n = {n}",
            key="long")
    require(right <= most + (1.15 * n / 2 if at_lo else 0),
            f"{right:.2f} orbits after the last reference for n = {n}",
            key="long")
    # the same pericenters and apocenters
    same = True
    for k in ("t_pericenters", "t_apocenters"):
        xf, xs = np.asarray(getattr(gf, k)), np.asarray(getattr(gs, k))
        pos = np.clip(np.searchsorted(xf, xs - 0.5 * syn.dt), 0, len(xf) - 1)
        near = np.abs(xf[pos] - xs) < 0.5 * syn.dt
        if method not in FITS:
            inner = (xs > xf[0]) & (xs < xf[-1])
            require(np.all(near[inner]), f"{k} differ from those of the full "
                    "waveform", key="extrema")
        same &= bool(np.all(near))
        span = xf[(xf > xs[0]) & (xf < xs[-1])]
        if method not in FITS:
            require(len(span) == max(len(xs) - 2, 0)
                    or not np.all(near), f"some {k} are missing",
                    key="extrema")
    # references
    nf, ns = np.atleast_1d(full[key]), np.atleast_1d(seg[key])
    require(np.all(np.isin(ns, nf)), f"{key} holds {ns}, asked for {x}",
            key="out")
    require(np.ndim(full[key]) == np.ndim(seg[key]),
            "scalar references become arrays or the reverse", key="out")
    sel = np.isin(nf, ns)
    dropped = nf[~sel]
    if len(dropped) and case["domain"] == "time":
        # a reference is only lost where the segment has no extrema around
        ok = (dropped < gs.tmin) | (dropped > gs.tmax)
        require(np.all(ok), "references within the range are dropped",
                key="out")
        # which needs the end of the data: half of the orbits are a lot more
        # than the one that is needed
        edge = np.array([orbits(ph, t, tf[0], v) < 2.2
                         or orbits(ph, t, v, tf[-1]) < 2.2 for v in dropped])
        require(np.all(edge) or method in FITS,
                f"references {dropped[~edge]} are not measured with {n} "
                "orbits", key="lost")
    # Extrema at the ends of a segment shift the interpolants.
    etol = 4e-3 if case["interp"] == "spline" else 0.02
    if n >= 10 and case["interp"] == "spline":
        etol = 2e-3
    ltol = 1e-9
    if not same:
        etol, ltol = max(etol, 0.01), 4 * TWO_PI / syn.c["ppo"]
    if case["domain"] == "frequency":
        ltol = max(ltol, 0.08 if case["avg"].startswith("orbit") else 1.2)
        etol *= 1.5
    fe, se = np.atleast_1d(full["eccentricity"]), np.atleast_1d(
        seg["eccentricity"])
    de = np.max(np.abs(fe[sel] - se))
    dl = np.max(ang(np.atleast_1d(full["mean_anomaly"])[sel],
                    np.atleast_1d(seg["mean_anomaly"])))
    require(de < etol, f"with {n} orbits the eccentricity changes by "
            f"{de:.2e}", key="ecc")
    require(dl < ltol, f"with {n} orbits the mean anomaly changes by "
            f"{dl:.2e}", key="anomaly")
    return dict(nontrivial=not whole, labels=labels, de=de, dl=dl)


SUBS = [Sub("segment", case_st, run, 900, 12000,
            "the segment is a proper part of the waveform, or the waveform "
            "has fewer orbits than requested")]
