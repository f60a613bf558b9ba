"""C19: the sampling of the quasicircular companion does not matter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require
from ..meas import (PLAIN, RESIDUAL, ang, fref_window, rfloat, synth_params,
                    try_call)
from ..synth import TWO_PI, Synth
from .c11 import phase_of

ID = "C19"
ASSUMPTIONS = [
    "the companion covers the eccentric waveform from its first sample to "
    "its merger; with another step, extrema may move by two samples"]


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.03, 0.45), norb=(10, 22), ppo=(50, 80),
                         tshift=st.sampled_from([0.0, 0.0, 700.0])),
        method=st.sampled_from(RESIDUAL * 4 + PLAIN),
        interp=st.sampled_from(["spline", "spline", "rational_fit"]),
        domain=st.sampled_from(["time", "time", "frequency"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw", "omega_gw_zeroecc"]),
        shift=st.one_of(st.just(0.0), rfloat(-2e4, 2e4, 1)),
        rot=st.one_of(st.just(0.0), rfloat(-40, 40, 2)),
        turns=st.integers(-6, 6),
        pre=st.one_of(st.sampled_from([3.0, 0.0]), rfloat(0, 8, 2)),
        post=st.one_of(st.sampled_from([1.0, 0.0]), rfloat(0, 1, 2)),
        step=st.one_of(st.sampled_from([1.0, 1.0, 0.5]), rfloat(0.3, 1.2, 2)),
        offset=rfloat(0, 0.99, 2),
        rep=st.sampled_from(["hlm", "amp", "omega"]),
        same=st.sampled_from(["", "", "", "common", "all", "all"]),
        modes=st.booleans(), late=rfloat(0.01, 2, 2),
        bad=st.sampled_from([None] * 6 + ["late", "short", "uneven"]),
        fr=st.lists(rfloat(0.03, 0.97, 3), min_size=1, max_size=5)))


def companion(syn, case, plain=False):
    """The companion, evaluated on its own grid; returns (t, amp, phase)."""
    c = case
    t = syn.times()
    if plain:
        pre, step, off, end = 3.0, 1.0, 0.0, t[-1]
    else:
        pre, step, off = c["pre"], c["step"], c["offset"]
        tm = syn.t_merger0()
        # some samples beyond the merger are needed to locate it
        end = tm + 6 * syn.dt + c["post"] * (t[-1] - tm - 6 * syn.dt)
    dt = step * syn.dt
    start = -pre * TWO_PI / syn.n0
    if not plain and c["bad"] == "late":
        # beyond the samples to which the two mergers are located
        start = c["late"] * TWO_PI / syn.n0 + 2 * (dt + syn.dt)
    if plain:
        n0 = int(round(-start / dt))
        tz = np.arange(-n0, len(t)) * dt
    else:
        # covers the first sample (mergers are located to a fraction of
        # a sample), with some offset between the grids
        if c["bad"] != "late":
            start -= off * dt + 2 * syn.dt
        if c["same"] and not c["bad"]:
            # as many samples as the eccentric waveform, and its step
            dt = syn.dt
            start = min(end, t[-1] - (2 + off) * dt) - (len(t) - 1) * dt
            end = start + (len(t) - 0.5) * dt
        tz = start + np.arange(int(np.floor((end - start) / dt)) + 1) * dt
        if c["bad"] == "short":
            tz = tz[tz < tm - 0.02 * TWO_PI / syn.n0 - 3 * syn.dt]
    phz, amz = syn.phase_amp(tz, ecc=False)
    return tz, amz, phz


def attach(d, syn, case, plain=False):
    d = dict(d)
    tz, am, ph = companion(syn, case, plain)
    tz = tz + syn.c["tshift"]
    rep = "hlm" if plain else case["rep"]
    if not plain:
        tz = tz + case["shift"]
        ph = ph + case["rot"] + TWO_PI * case["turns"]
        if case["bad"] == "uneven":
            k = len(tz) // 2
            tz = np.append(tz[:k], tz[k:] + 0.5 * syn.dt)
    d["t_zeroecc"] = tz
    # as for the eccentric waveform, h = A exp(-i phase)
    if rep == "hlm":
        d["hlm_zeroecc"] = {(2, 2): am * np.exp(-1j * ph)}
    else:
        d["amplm_zeroecc"] = {(2, 2): am}
        d["phaselm_zeroecc"] = {(2, 2): ph}
        if rep == "omega":
            d["omegalm_zeroecc"] = {(2, 2): np.gradient(ph, tz,
                                                        edge_order=2)}
    if not plain and case["modes"]:
        # fainter by the same factor everywhere: the merger stays
        for k, f in (("hlm_zeroecc", 0.1), ("amplm_zeroecc", 0.1),
                     ("phaselm_zeroecc", 1.5), ("omegalm_zeroecc", 1.5)):
            if k in d:
                y = d[k][(2, 2)]
                d[k][(3, 3)] = (0.1 * am * np.exp(-1.5j * ph)
                                if k == "hlm_zeroecc" else f * y)
    return d


def run(case):
    syn = Synth(case["syn"])
    method, avg = case["method"], case["avg"]
    t = syn.times()
    ph, am = syn.phase_amp(t)
    d = {"t": t + syn.c["tshift"],
         "hlm": {(2, 2): am * np.exp(-1j * ph)}}
    if case["rep"] != "hlm":
        d = {"t": d["t"], "amplm": {(2, 2): am}, "phaselm": {(2, 2): ph}}
        if case["rep"] == "omega":
            d["omegalm"] = {(2, 2): np.gradient(ph, t, edge_order=2)}
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": avg}
    ref = dict(d)
    if case["rep"] != "hlm":
        ref = attach(d, syn, dict(case, shift=0, rot=0, turns=0, pre=3.0,
                                  post=1.0, step=1.0, offset=0.0, bad=None, same="",
                                  modes=False))
    else:
        ref = attach(d, syn, case, plain=True)
    new = attach(d, syn, case)
    if case["same"] == "all":
        case = dict(case, domain="time")
    nexcl = None if case["same"] == "all" else 2
    x0 = float(d["t"][0] + 0.5 * (syn.t_insp))
    r, e = try_call(ref, method, tref=x0, extra=dict(extra), nexcl=nexcl)
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    if case["domain"] == "time":
        x, key = g.tmin + (g.tmax - g.tmin) * np.array(case["fr"]), "tref"
    else:
        lo, hi = fref_window(ref, method, g, extra)
        pad = 0.02 * (hi - lo)
        x = lo + pad + (hi - lo - 2 * pad) * np.array(case["fr"])
        key = "fref"
    a, e = try_call(ref, method, extra=dict(extra), nexcl=nexcl,
                    **{key: x})
    if e is not None:
        raise Discard("not measurable")
    b, e = try_call(new, method, extra=dict(extra), nexcl=nexcl,
                    **{key: x})
    used = method in RESIDUAL or (avg == "omega_gw_zeroecc"
                                  and key == "fref")
    labels = [method, case["bad"] or "good"]
    if case["bad"]:
        if method in RESIDUAL:
            require(e is not None, f"a companion that is {case['bad']} is "
                    "accepted", key="refuse")
            return dict(nontrivial=True, labels=labels)
        if e is None and not used:
            require(np.array_equal(a["eccentricity"], b["eccentricity"]),
                    "a companion that is not used has an effect",
                    key="unused")
        return dict(nontrivial=False, labels=labels + ["unused"])
    if e is not None and case["same"] == "all":
        # what is beyond the companion may be refused
        raise Discard("extrapolation of the companion")
    require(e is None, f"{type(e).__name__}: {e}", key="raised")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    if case["same"]:
        labels.append("same-length")
    labels.append("step" if case["step"] != 1 else "same-step")
    if not used:
        for k in ("eccentricity", "mean_anomaly", key + "_out"):
            require(np.array_equal(a[k], b[k]),
                    f"{k} depends on a companion that is not used",
                    key="unused")
        return dict(nontrivial=True, labels=labels + ["unused"])
    # what is left of the waveform without the companion
    if method in RESIDUAL:
        pre = ((ga.t - d["t"][0] > 8 * syn.dt)
               & (ga.t - d["t"][0] < 0.8 * syn.t_insp))
        for k in ("res_amp_gw", "res_omega_gw"):
            u, v = getattr(ga, k)[pre], getattr(gb, k)[pre]
            whole = getattr(ga, k[4:])[pre]
            require(np.max(np.abs(u - v)) < 3e-3 * np.max(np.abs(whole)),
                    f"{k} changes by {np.max(np.abs(u - v)):.1e}, "
                    f"its size is {np.max(np.abs(u)):.1e}", key="residual")
    if nexcl is None:
        # the faintest extrema close to the merger come and go
        return dict(nontrivial=method in RESIDUAL,
                    labels=labels + ["to-merger", "equal-length" if
                                     len(new["t_zeroecc"]) == len(gb.t)
                                     else "other-length"])
    # extrema to the sampling; at the ends one may be found or lost
    move = 0
    for k in ("t_pericenters", "t_apocenters"):
        u, v = np.asarray(getattr(ga, k)), np.asarray(getattr(gb, k))
        require(abs(len(u) - len(v)) <= 1, f"{len(v)} {k}, were {len(u)}",
                key="count")
        if len(u) != len(v):
            short, long = (u, v) if len(u) < len(v) else (v, u)
            if abs(short[0] - long[0]) < abs(short[-1] - long[-1]):
                long = long[:-1]
            else:
                long = long[1:]
            u, v = short, long
            # interpolants through fewer extrema
            move = max(move, syn.dt)
        move = max(move, np.max(np.abs(u - v)))
    require(move <= 2.5 * syn.dt, f"extrema move by {move / syn.dt:.2f} "
            "samples", key="extrema")
    if key == "tref" and len(a["tref_out"]) != len(b["tref_out"]):
        raise Discard("an extremum at the end is lost")
    sa = np.isin(a[key + "_out"], b[key + "_out"])
    sb = np.isin(b[key + "_out"], a[key + "_out"])
    if not np.any(sa):
        raise Discard("no common reference")
    de = np.max(np.abs(a["eccentricity"][sa] - b["eccentricity"][sb]))
    dl = np.max(ang(a["mean_anomaly"][sa], b["mean_anomaly"][sb]))
    # one sample at pericenter of the most eccentric orbit
    s = (1 + syn.c["e0"]) ** 2 / (1 - syn.c["e0"]**2) ** 1.5
    ltol = 1e-9 + 6 * TWO_PI / syn.c["ppo"] * (move > 1e-6 * syn.dt)
    etol = 1e-9 + (4e-3 if case["interp"] == "spline" else 2e-2) * (
        move > 1e-6 * syn.dt) * (1 + s)
    if case["avg"] == "omega_gw_zeroecc" and key == "fref":
        # interpolation of the average frequency
        etol, ltol = etol + 1e-4, ltol + 0.05
    require(de < etol, f"the eccentricity changes by {de:.1e}",
            key="ecc")
    require(dl < ltol, f"the mean anomaly changes by {dl:.1e}",
            key="anomaly")
    return dict(nontrivial=True, labels=labels, de=de, dl=dl)


SUBS = [Sub("companion", case_st, run, 1000, 10000,
            "a sampling of the companion that is accepted, or one that has "
            "to be refused")]
