"""C32: doubtful measurements are flagged, and only those."""
import contextlib
import io
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require
from ..meas import METHODS, build, rfloat, synth_params, try_call
from ..synth import TWO_PI, Synth

ID = "C32"
ASSUMPTIONS = [
    "whether a condition holds is decided from the caller's phase, the "
    "reported extrema and the reported e(t); cases within rounding of a "
    "limit are not judged"]
K = 2 * TWO_PI


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.4), norb=(9, 20), ppo=(50, 75),
                         tshift=st.sampled_from([0.0, -3000.0])),
        method=st.sampled_from(METHODS[:4] * 2 + METHODS[4:]),
        p=st.sampled_from([None, None, None, -0.3, 0.0, 0.02]),
        interp=st.sampled_from(["spline", "spline", "rational_fit"]),
        rep=st.sampled_from(["hlm", "amp"]),
        width=st.sampled_from([None, None, 2, 2, 1]),
        mid=st.sampled_from([False, False, True]),
        gaps=st.one_of(
            st.lists(st.tuples(rfloat(0.05, 0.95, 2), st.booleans()),
                     max_size=2),
            st.tuples(rfloat(0.25, 0.49, 2), rfloat(0.51, 0.75, 2),
                      st.booleans()).map(
                lambda p: [(p[0], p[2]), (p[1], p[2])])),
        bumps=st.lists(st.tuples(rfloat(0.05, 0.95, 3),
                                 rfloat(-0.5, 0.5, 2),
                                 rfloat(0.03, 0.15, 3)), max_size=2)))


def phase_of(d):
    return (np.asarray(d["phaselm"][(2, 2)]) if "phaselm" in d
            else -np.unwrap(np.angle(d["hlm"][(2, 2)])))


def make(case):
    c = dict(case["syn"])
    if case["p"] is not None:
        c["p"] = case["p"]
        c["e0"] = min(c["e0"], 0.25)
    syn = Synth(c)
    d = build(syn, case["method"], "hlm")
    t = np.asarray(d["t"], float)
    h = d["hlm"][(2, 2)]
    amp, ph = np.abs(h), -np.unwrap(np.angle(h))
    for x, peri in case["gaps"]:
        # one pericenter (apocenter) of the amplitude cut off
        at = syn.anomaly_times(0.0 if peri else np.pi)
        around = syn.anomaly_times(np.pi if peri else 0.0)
        j = int(x * (len(at) - 1))
        lo, hi = around[around < at[j]], around[around > at[j]]
        if len(lo) and len(hi):
            a, b = np.searchsorted(t - t[0], [lo[-1], hi[0]])
            b = min(b, len(t) - 1)
            amp[a:b + 1] = np.linspace(amp[a], amp[b], b - a + 1)
    for x, a, w in case["bumps"]:
        tc = t[0] + x * 0.9 * syn.t_insp
        s = w * TWO_PI / float(syn.n(tc - t[0]))
        b = np.exp(-((t - tc) / s) ** 2)
        amp, ph = amp * (1 + a * b), ph + 0.3 * a * b
    if case["rep"] == "hlm":
        d["hlm"] = {(2, 2): amp * np.exp(-1j * ph)}
    else:
        d["amplm"], d["phaselm"] = {(2, 2): amp}, {(2, 2): ph}
        del d["hlm"]
        if "hlm_zeroecc" in d:
            z = d.pop("hlm_zeroecc")[(2, 2)]
            d["amplm_zeroecc"] = {(2, 2): np.abs(z)}
            d["phaselm_zeroecc"] = {(2, 2): -np.unwrap(np.angle(z))}
    return syn, d


def loud(d, case, tref, extra):
    """Measurement at debug level 1 and its warnings."""
    from gw_eccentricity import measure_eccentricity
    with warnings.catch_warnings(record=True) as rec, \
            contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("always")
        r = measure_eccentricity(tref_in=tref, method=case["method"],
                                 dataDict=d, extra_kwargs=extra,
                                 debug_level=1)
    return r["gwecc_object"], [str(w.message) for w in rec
                               if w.category is UserWarning]


def numbers(text):
    text = text.replace("np.float64", "")
    return [float(x) for x in re.findall(
        r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]


def judge(msgs, text, sure, never, what, key):
    """text is among the messages if sure; it is not if never."""
    hit = [m for m in msgs if text in m]
    if sure:
        require(hit, f"{what}, and there is no warning", key=key)
    if never:
        require(not hit, f"warns {hit[:1]}, but not: {what}", key=key)
    return hit


def run(case):
    syn, d = make(case)
    t = np.asarray(d["t"], float)
    ph = phase_of(d)
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["mid"]}
    if case["width"] and "Fits" not in case["method"]:
        extra["extrema_finding_kwargs"] = {"width": case["width"]}
    x = float(t[0] + 0.5 * syn.t_insp)
    r, e = try_call(d, case["method"], tref=x, extra=dict(extra))
    if e is not None:
        raise Discard("not measurable")
    g0 = r["gwecc_object"]
    g, msgs = loud(d, case, x, dict(extra))
    labels = []
    pos = {}
    for name in ("pericenters", "apocenters"):
        te = np.asarray(getattr(g0, "t_" + name))
        i = np.clip(np.searchsorted(t, te - 0.5 * syn.dt), 0, len(t) - 1)
        pos[name] = i
        dp = np.diff(ph[i]) / 2
        lo = np.min(dp)
        hit = judge(msgs, f"pair of {name} are too close. Minimum",
                    lo < np.pi - 1e-6, lo > np.pi + 1e-6,
                    f"two {name} are {lo:.3f} apart in orbital phase",
                    "close")
        if hit:
            v = numbers(hit[0].split("phase diff is")[1])
            when = te[1:][dp < np.pi]
            require(abs(v[0] - lo) < 1e-6 and (len(when) > 20 or np.allclose(
                v[1:], when, rtol=1e-5)), f"says {hit[0]}, the difference is "
                f"{lo} and the times are {when}", key="close-text")
            labels.append("close")
        q = np.append([0], dp[1:] / dp[:-1])
        hit = judge(msgs, f"pair of {name} are too far.",
                    np.max(q) > 1.5 + 1e-6, np.max(q) < 1.5 - 1e-6,
                    f"the phase between two {name} grows by a factor of "
                    f"{np.max(q):.3f}", "far")
        if hit:
            v = numbers(hit[0].split("phase diff is")[1])
            when = te[1:][q > 1.5]
            require(abs(v[0] - np.max(dp)) < 1e-6 and np.allclose(
                v[1:], when, rtol=1e-5), f"says {hit[0]}, the largest "
                f"difference is {np.max(dp)} and the times are {when}",
                key="far-text")
            labels.append("far")
    every = np.concatenate([np.diff(ph[i]) / 2 for i in pos.values()])
    s = np.abs(every - np.pi) - np.abs(every - TWO_PI)
    if judge(msgs, "closer to pi than 2 pi", np.min(s) < -1e-6,
             np.min(s) > 1e-6, f"an extremum is {every[np.argmin(s)]:.3f} "
             "after the one before in orbital phase", "half"):
        labels.append("half")
    kinds = np.concatenate([np.zeros(len(pos["pericenters"])),
                            np.ones(len(pos["apocenters"]))])
    where = np.concatenate([t[i] for i in pos.values()])
    if len(set(where)) == len(where):
        same = bool(np.any(np.diff(kinds[np.argsort(where)]) == 0))
        if judge(msgs, "alternate", same, not same,
                 "pericenters and apocenters do not alternate", "alternate"):
            labels.append("alternate")
    # eccentricity growing with time
    m = (t >= g0.tmin) & (t <= g0.tmax)
    tm = t[m]
    ec = np.asarray(g0.compute_eccentricity(tm))
    de = np.diff(ec)
    eps = 1e-9 * np.max(np.abs(ec)) + 1e-13
    up = (de[1:] > eps) & (de[:-1] > eps)      # at tm[1:-1]
    down = (de[1:] < -eps) & (de[:-1] < -eps)
    smooth = bool(np.all(np.abs(np.diff(de)) < 0.3 * np.max(np.abs(de))))
    # (slopes at the ends are extrapolated)
    ends = max(de[0] + 2 * abs(de[0] - de[1]),
               de[-1] + 2 * abs(de[-1] - de[-2]))
    hit = judge(msgs, "egw(t) is nonmonotonic", bool(np.any(up)) and smooth,
                bool(np.all(down)) and smooth and ends < -eps,
                "the eccentricity grows", "growing")
    if hit:
        labels.append("growing")
        v = numbers(hit[0].split("nonmonotonic")[1])[:2]
        j = np.flatnonzero(up)
        if len(v) == 2 and len(j) > 4 and smooth:
            a, b = tm[1:-1][j[0]], tm[1:-1][j[-1]]
            # (near an extremum of e(t) and at the ends of the range it may
            # be either)
            o = np.flatnonzero(~down)
            la = tm[max(o[0] - 1, 0)] if o[0] > 1 else tm[0]
            lb = tm[1:-1][o[-1]] + 1.5 * syn.dt if o[-1] < len(
                down) - 2 else tm[-1]
            la = min(la, tm[0]) if ends > -eps else la
            lb = max(lb, tm[-1]) if ends > -eps else lb
            q = 1e-5 * np.max(np.abs(tm)) + 1e-6
            require(la - q <= v[0] <= a + q and b - q <= v[1] <= lb + q,
                    f"says {hit[0]!r}, it grows from {a} to {b}",
                    key="growing-text")
    if g0.eccentricity is not None:
        neg = np.any(np.atleast_1d(r["eccentricity"]) < 0)
        judge(msgs, "negative eccentricity", neg, not neg,
              "the eccentricity is negative", "negative")
    # curves through the extrema that are not convex
    for name in pos:
        f = getattr(g0, f"omega_gw_{name}_interp")
        y = np.asarray(f(tm))
        dy = np.gradient(y, tm[1] - tm[0])
        ratio = dy[1:] / dy[:-1]
        worst = np.min(ratio)
        if judge(msgs, "Nonmonotonic time derivative detected in the "
                 f"{case['interp']} interpolant through {name}",
                 worst < 1 - 1.1e-5, worst > 1 - 0.9e-5,
                 f"the slope of the curve through {name} changes by a factor "
                 f"of {worst} in one sample", "curve"):
            labels.append("curve")
    # too many of the extrema found are unusable
    for name in pos:
        if case["mid"] and name == "apocenters":
            continue
        n0, n1 = len(g0.find_extrema(name)), len(pos[name])
        frac = (n0 - n1) / n0
        if judge(msgs, f"More than 50.0% of the original {name}",
                 frac > 0.5, frac <= 0.5,
                 f"{n1} of {n0} {name} are used", "dropped"):
            labels.append("dropped")
        gone = [w for w in msgs if name in w and (
            "extra " + name in w or "widely" in w or "close to each" in w
            or "apart" in w)]
        if n0 != n1:
            require(gone, f"{n1} of {n0} {name} are used and no warning "
                    "says so", key="silent")
        else:
            require(not gone, f"all {name} are used, but it warns {gone[:1]}",
                    key="wrong")
        if n0 != n1:
            labels.append("fewer")
    # nothing else about the data
    return dict(nontrivial=bool(labels),
                labels=[case["method"]] + sorted(set(labels)))


SUBS = [
    Sub("flags", case_st, run, 960, 8000,
        "at least one of the conditions holds"),
]
