"""C11: reference frequencies are the average frequency at the time used."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.optimize import brentq

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import (RESIDUAL, ang, build, call, extrema_averages, method_st,
                    probe, rfloat, synth_params, try_call)
from ..synth import TWO_PI, Synth

ID = "C11"
ASSUMPTIONS = [
    "waveforms whose average frequency does not increase with time are "
    "refused by the library and are checked to be refused only when they are "
    "non-monotonic"]
AVG = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants",
       "omega_gw_zeroecc"]


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.45), norb=(12, 26),
                         tshift=st.sampled_from([0.0, 500.0, -12345.5])),
        method=method_st(), rep=st.sampled_from(["hlm", "amp"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        avg=st.sampled_from(AVG), mid=st.sampled_from([False, False, True]),
        fr=st.lists(rfloat(0.0, 0.999, 3), min_size=1, max_size=6),
        out=st.lists(rfloat(0.002, 1.5, 3), max_size=3),
        # alternate orbits that are ahead and behind: the averages between
        # pericenters and those between apocenters cease to increase together
        mod=st.one_of(st.just(0.0), rfloat(0.05, 0.6, 2)),
        default=st.booleans(), cshift=rfloat(-1000, 1000, 1)))


def modulate(d, syn, m):
    """Shift the phase by +-x around alternate orbits.

    x is m times that for which the averages over alternate orbits cease to
    increase at the start of the data.
    """
    x = m * 8 * np.pi ** 2 * 3 / (8 * syn.T * syn.n0) / np.sqrt(2)
    t = np.minimum(np.asarray(d["t"]) - syn.c["tshift"], syn.t_insp)
    x = x * np.sin(0.5 * syn.l(t) + 0.25 * np.pi)
    if "hlm" in d:
        d["hlm"] = {k: v * np.exp(-1j * np.sign(k[1]) * x)
                    for k, v in d["hlm"].items()}
    else:
        d["phaselm"] = {k: v + np.sign(k[1]) * x
                        for k, v in d["phaselm"].items()}


def deriv(y, dt):
    """Frequency from the phase by a spline, unlike the library."""
    x = np.arange(len(y)) * dt
    return InterpolatedUnivariateSpline(x, y, k=5)(x, 1)


def phase_of(d, tag=""):
    if "phaselm" + tag in d:
        return d["phaselm" + tag][(2, 2)]
    return -np.unwrap(np.angle(d["hlm" + tag][(2, 2)]))


def amp_of(d, tag=""):
    if "amplm" + tag in d:
        return d["amplm" + tag][(2, 2)]
    return np.abs(d["hlm" + tag][(2, 2)])


def peak_time(t, a):
    i = int(np.argmax(a))
    x = (t[i - 2:i + 3] - t[i]) / (t[1] - t[0])
    c = np.polyfit(x, a[i - 2:i + 3], 2)
    return t[i] - c[1] / (2 * c[0]) * (t[1] - t[0])


def average(d, g, avg):
    """(function, t_lo, t_hi): the documented average frequency."""
    t = np.asarray(d["t"], float)
    lo, hi = g.tmin, g.tmax
    if avg == "orbit_averaged_omega_gw":
        tm, w = extrema_averages(d, g)
        if np.any(np.diff(tm) <= 0):
            raise Discard("two averages belong to the same time")
        lo, hi = max(lo, tm[0]), min(hi, tm[-1])
        return InterpolatedUnivariateSpline(tm, w), lo, hi
    if avg == "mean_of_extrema_interpolants":
        w = deriv(phase_of(d), t[1] - t[0])
        fs = []
        for x, f in ((g.t_pericenters, g.omega_gw_pericenters_interp),
                     (g.t_apocenters, g.omega_gw_apocenters_interp)):
            # the interpolants themselves are the subject of C02
            fs.append(f)
        return (lambda x: 0.5 * (np.asarray(fs[0](x), float)
                                 + np.asarray(fs[1](x), float))), lo, hi
    tz = np.asarray(d["t_zeroecc"], float)
    w = deriv(phase_of(d, "_zeroecc"), tz[1] - tz[0])
    sh = peak_time(t, amp_of(d)) - peak_time(tz, amp_of(d, "_zeroecc"))
    return InterpolatedUnivariateSpline(tz + sh, w), lo, hi


def run(case):
    syn = Synth(case["syn"])
    method, avg = case["method"], case["avg"]
    d = build(syn, method, case["rep"],
              zeroecc=method in RESIDUAL or avg == "omega_gw_zeroecc")
    if case["mod"]:
        modulate(d, syn, case["mod"])
    if "t_zeroecc" in d and method not in RESIDUAL:
        # the time origin of the companion is its own
        d["t_zeroecc"] = d["t_zeroecc"] + case["cshift"]
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": avg,
             "treat_mid_points_between_pericenters_as_apocenters":
             case["mid"]}
    if case["default"] and avg == AVG[0]:
        del extra["omega_gw_averaging_method"]
    try:
        g = probe(d, method, extra=dict(extra))["gwecc_object"]
    except Exception:
        if case["mod"]:
            raise Discard("too few extrema are left by the modulation")
        raise
    if len(g.t_pericenters) < 4 or len(g.t_apocenters) < 4:
        raise Discard("few extrema")
    f, lo, hi = average(d, g, avg)
    t = np.asarray(d["t"], float)
    dt = t[1] - t[0]
    grid = t[(t >= lo) & (t <= hi)]
    w = np.asarray(f(grid), float)
    steps = np.diff(w) / w[:-1]
    if avg == AVG[0]:
        steps = np.concatenate([steps, np.diff(
            extrema_averages(d, g)[1]) / w[0]])
    if np.min(steps) < -1e-7:
        # refused, as documented
        o, err = try_call(d, method, fref=float(np.median(w)) / TWO_PI,
                          extra=dict(extra))
        require(err is not None, "measured although the average frequency "
                "decreases somewhere", key="nonmonotonic")
        if avg == AVG[0] and np.min(np.diff(
                extrema_averages(d, g)[1]) / w[0]) < -1e-7:
            try:
                with quiet():
                    b = g.get_fref_bounds()
            except Exception:
                b = None
            require(b is None, f"bounds {b} are advertised although the "
                    "averages over the orbits decrease somewhere",
                    key="nonmonotonic")
        return dict(nontrivial=True, labels=["refused", avg])
    if np.min(steps) < 1e-9:
        raise Discard("average frequency stalls")
    with quiet():
        bounds = g.get_fref_bounds()
        ta, wa = g.get_omega_gw_average()
    tol = 1e-7 if avg != "omega_gw_zeroecc" else 2e-5
    require(len(ta) > 2 and abs(ta[0] - grid[0]) <= 1.01 * dt
            and abs(ta[-1] - grid[-1]) <= 1.01 * dt,
            f"the average frequency is given on [{ta[0]}, {ta[-1]}], not on "
            f"[{grid[0]}, {grid[-1]}]", key="range")
    rel = np.max(np.abs(wa / np.asarray(f(ta), float) - 1))
    require(rel < tol, f"{avg}: the average frequency differs from its "
            f"definition by {rel:.2e}", key="average")
    b = np.array([f(ta[0]), f(ta[-1])], float) / TWO_PI
    require(np.allclose(bounds, b, rtol=tol, atol=0),
            f"advertised bounds {bounds}, the average covers {b}",
            key="bounds")
    # references by frequency
    fl, fh = b[0] * (1 + 2 * tol), b[1] * (1 - 2 * tol)
    fin = fl + (fh - fl) * np.array(case["fr"])
    outside = [b[1] * (1 + x) if i % 2 else b[0] / (1 + x)
               for i, x in enumerate(case["out"])]
    allf = np.concatenate([fin, outside])
    o, err = try_call(d, method, fref=allf, extra=dict(extra))
    if err is not None:
        raise Violation(f"frequencies within the bounds are refused: "
                        f"{type(err).__name__}: {err}", key="raised")
    require(np.array_equal(o["fref_out"], fin),
            f"measured at {o['fref_out']}, not at {fin}", key="which")
    go = o["gwecc_object"]
    ts = np.array([brentq(lambda x: float(f(x)) - TWO_PI * v, ta[0], ta[-1],
                          xtol=1e-9 * dt, rtol=1e-14)
                   if f(ta[0]) < TWO_PI * v < f(ta[-1]) else ta[0]
                   for v in fin])
    got = np.asarray(go.tref_out, float)
    require(len(got) == len(ts), "times and frequencies differ in number",
            key="which")
    # the library inverts by interpolating between samples
    slope = np.gradient(np.asarray(f(grid), float), grid)
    s = np.maximum(np.interp(ts, grid, slope), np.median(slope))
    werr = 3 * tol * TWO_PI * fin + 5e-3 * dt * s
    dw = np.abs(np.asarray(f(np.clip(got, ta[0], ta[-1])), float)
                - TWO_PI * fin)
    if np.any(dw > werr) or np.any((got < ta[0]) | (got > ta[-1])):
        i = int(np.argmax(dw / werr))
        raise Violation(
            f"{avg}: frequency {fin[i]} is taken at time {got[i]}, the "
            f"average has that value at {ts[i]} (dt = {dt})", key="time")
    # and measured there
    a = call(d, method, tref=got, extra=dict(extra))
    require(np.array_equal(a["tref_out"], got) and
            np.max(np.abs(a["eccentricity"] - o["eccentricity"])) < 1e-12
            and np.max(ang(a["mean_anomaly"], o["mean_anomaly"])) < 1e-9,
            "measuring at the corresponding times gives other values",
            key="value")
    return dict(nontrivial=True, labels=[avg, method, "measured"])


SUBS = [Sub("average", case_st, run, 1200, 16000,
            "the waveform has at least four extrema of each kind and an "
            "average frequency that does not stall")]
