"""C20: reported extrema are genuine, ordered and alternate."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.signal import find_peaks, peak_widths

from ..core import Discard, Sub, quiet, require
from ..meas import (FITS, METHODS, PLAIN, RESIDUAL, build, call, method_st, rfloat,
                    synth_params, try_call)
from ..synth import TWO_PI, Synth
from .c11 import amp_of, peak_time, phase_of
from .c17 import utils  # noqa: F401

ID = "C20"
ASSUMPTIONS = [
    "an orbit is at least 4 pi of the phase of the (2, 2) mode (pericenter "
    "advance is positive)",
    "the data have one maximum and one minimum per orbit, apart from the "
    "defects put in on purpose"]
K = 2 * TWO_PI


def deriv4(y, dt):
    """Fourth-order differences, as documented for omega_gw."""
    r = np.empty_like(y)
    r[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / 12
    for i, c in ((1, [-3, -10, 18, -6, 1]), (0, [-25, 48, -36, 16, -3])):
        r[i] = np.dot(y[:5], c) / 12
        r[-1 - i] = -np.dot(y[::-1][:5], c) / 12
    return r / dt


def method_data(d, method, m):
    """The data in which the method finds extrema, from the input."""
    t = np.asarray(d["t"], float)
    out = amp_of(d) if "Amplitude" in method else deriv4(
        phase_of(d), t[1] - t[0])
    if method in RESIDUAL:
        tz = np.asarray(d["t_zeroecc"], float)
        az = amp_of(d, "_zeroecc")
        z = az if "Amplitude" in method else deriv4(
            phase_of(d, "_zeroecc"), tz[1] - tz[0])
        s = peak_time(t, amp_of(d)) - peak_time(tz, az)
        out = out[:m] - InterpolatedUnivariateSpline(tz + s, z)(t[:m])
    return out[:m]


def index_of(t, x, dt):
    i = np.clip(np.searchsorted(t, x - 0.5 * dt), 0, len(t) - 1)
    require(np.all(np.abs(t[i] - x) < 1e-6 * dt),
            "an extremum is not at a sample", key="sample")
    return i


def alternate(tp, ta):
    k = np.concatenate([np.zeros(len(tp)), np.ones(len(ta))])
    k = k[np.argsort(np.concatenate([tp, ta]), kind="stable")]
    return bool(np.all(np.diff(k) != 0))


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.03, 0.6), norb=(8, 26), ppo=(45, 90),
                         tshift=st.sampled_from([0.0, 0.0, -400.0])),
        method=method_st(), rep=st.sampled_from(["hlm", "amp"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        refine=st.booleans(), mid=st.booleans(),
        nexcl=st.sampled_from([2, 2, 1, 3]),
        find=st.sampled_from([None, None, "width", "distance", "prominence",
                              "wlen"])))


def find_kwargs(case, syn):
    kind = case.get("find")
    if kind is None:
        return {}
    ppo = syn.c["ppo"]
    return {"width": {"width": 2}, "distance": {"distance": ppo // 3},
            "prominence": {"prominence": 1e-9, "width": None},
            "wlen": {"wlen": 40 * ppo, "rel_height": 0.4}}[kind]


def run(case):
    syn = Synth(case["syn"])
    method = case["method"]
    d = build(syn, method, case["rep"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "refine_extrema": case["refine"]}
    if method not in FITS:
        fk = find_kwargs(case, syn)
        if fk:
            extra["extrema_finding_kwargs"] = fk
    keep = copy.deepcopy(extra)
    x = float(d["t"][0] + 0.5 * syn.t_insp)
    r, e = try_call(d, method, tref=x, extra=extra, nexcl=case["nexcl"])
    if e is not None:
        raise Discard("not measurable")
    require(extra == keep, "options are changed", key="mutate")
    g = r["gwecc_object"]
    t = np.asarray(d["t"], float)
    m = len(g.t)
    tp, ta = np.asarray(g.t_pericenters), np.asarray(g.t_apocenters)
    ph = phase_of(d)
    labels = [method]
    ip, ia = index_of(t, tp, syn.dt), index_of(t, ta, syn.dt)
    require(np.array_equal(ip, g.pericenters_location)
            and np.array_equal(ia, g.apocenters_location),
            "locations and times of the extrema differ", key="location")
    for kind, i in (("pericenters", ip), ("apocenters", ia)):
        require(np.all(np.diff(i) > 0), f"{kind} are not increasing",
                key="order")
        # (those of a trend and a small modulation drift)
        require(np.all(np.diff(ph[i]) >= 0.85 * K), f"{kind} are less than "
                "an orbit apart", key="close")
    clean = method not in FITS or syn.c["e0"] < 0.4
    if clean:
        require(alternate(tp, ta), f"pericenters {tp} and apocenters {ta} do "
                "not alternate", key="alternate")
    if method not in FITS:
        y = method_data(d, method, m)
        noise = 1e-7 * np.ptp(y) if method in RESIDUAL else 1e-10 * np.ptp(y)
        for kind, i, s in (("pericenters", ip, 1), ("apocenters", ia, -1)):
            z = s * y
            i = i[(i > 0) & (i < m - 1)]
            ok = ((z[i] >= z[i - 1] - noise) & (z[i] >= z[i + 1] - noise))
            require(np.all(ok), f"{kind} at {t[i[~ok]]} are not local "
                    "extrema of the data", key="local")
            # all of those in the data
            v = z[1:-1]
            every = 1 + np.flatnonzero((v > z[:-2] + noise)
                                       & (v > z[2:] + noise))
            inner = every[(every > i[0]) & (every < i[-1])]
            lost = inner[~np.isin(inner, i)]
            require(len(lost) == 0, f"{kind} at {t[lost]} are missing",
                    key="missing")
            # and up to the ends of the data, if they are prominent
            # (very eccentric ones have pericenters too narrow for the default)
            if 0.1 < syn.c["e0"] < 0.42 and case["find"] is None:
                out = np.sum(every < i[0]) + np.sum(every > i[-1])
                a = np.sum(every < i[0])
                b = np.sum((every > i[-1]) & (ph[every] < ph[i[-1]] + 9 * K))
                lim = 2 if method in PLAIN else 1
                require(a <= 1 and b <= 1 + lim, f"{a} {kind} before and {b} "
                        "after those reported", key="ends")
    else:
        # the fits locate the extrema of the orbit
        for kind, tx, phase in (("pericenters", tp, 0.0),
                                ("apocenters", ta, np.pi)):
            want = syn.anomaly_times(phase) + syn.c["tshift"]
            off = np.array([np.min(np.abs(want - v)) for v in tx])
            lim = 0.12 * TWO_PI / syn.n(np.clip(
                tx - syn.c["tshift"], 0, syn.t_insp))
            if kind == "pericenters" and syn.c["e0"] < 0.3:
                require(np.all(off[1:-1] < lim[1:-1]),
                        f"{kind} are far from those of the orbit: {off}",
                        key="fits")
    if not case["mid"]:
        return dict(nontrivial=len(tp) > 3, labels=labels)
    # mid points
    ex = dict(extra)
    ex["treat_mid_points_between_pericenters_as_apocenters"] = True
    q, e = try_call(d, method, tref=x, extra=ex, nexcl=case["nexcl"])
    if e is not None:
        require("outside" in str(e) or "found" in str(e) or "xtrem" in str(e),
                f"mid points: {e!r}", key="mid-raised")
        raise Discard("too few extrema for mid points")
    h = q["gwecc_object"]
    up, ua = np.asarray(h.t_pericenters), np.asarray(h.t_apocenters)
    if method not in FITS:
        # (some at the ends are only good with apocenters around them)
        i = np.isin(up, tp) | (up < tp[0]) | (up > tp[-1])
        require(np.all(i), "pericenters change with the mid points",
                key="mid-pericenters")
    require(alternate(up, ua), "mid points and pericenters do not alternate",
            key="mid")
    inner = ua[(ua > up[0]) & (ua < up[-1])]
    require(len(inner) == len(up) - 1, f"{len(inner)} mid points between "
            f"{len(up)} pericenters", key="mid")
    off = np.max(np.abs(inner - 0.5 * (up[1:] + up[:-1])))
    require(off < 1.01 * syn.dt, f"apocenters are {off / syn.dt:.2f} samples "
            "off the mid points", key="mid")
    return dict(nontrivial=len(tp) > 3, labels=labels + ["mid"])


def defect_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.15, 0.45), norb=(15, 26), ppo=(60, 90),
                         ratio=(1.5, 2.2), kinds=("kepler",)),
        rep=st.sampled_from(["hlm", "amp"]),
        what=st.sampled_from(["gap", "double"]),
        end=st.sampled_from(["start", "end"]), k=st.integers(1, 3),
        depth=rfloat(0.2, 0.6, 2), width=rfloat(0.04, 0.09, 3),
        fr=st.lists(rfloat(0.02, 0.98, 3), min_size=1, max_size=5)))


def run_defect(case):
    """One extremum missing, or one too many, near an end."""
    syn = Synth(case["syn"])
    d0 = build(syn, "Amplitude", "amp")
    t = np.asarray(d0["t"], float)
    amp, ph = amp_of(d0).copy(), phase_of(d0)
    x = float(t[0] + 0.5 * syn.t_insp)
    extra = {"omega_gw_extrema_interpolation_method": "spline",
             "extrema_finding_kwargs": {"width": 3}}
    r, e = try_call(d0, "Amplitude", tref=x, extra=copy.deepcopy(extra))
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    tp, ta = np.asarray(g.t_pericenters), np.asarray(g.t_apocenters)
    n, k = len(tp), case["k"]
    if n < 12 or len(ta) < 12:
        raise Discard("too few orbits")
    j = k if case["end"] == "start" else n - 1 - k
    ip = index_of(t, tp, syn.dt)
    ia = index_of(t, ta, syn.dt)
    # apocenters on both sides of the pericenter
    lo, hi = ia[ia < ip[j]], ia[ia > ip[j]]
    if len(lo) == 0 or len(hi) == 0:
        raise Discard("at the end")
    if case["what"] == "gap":
        a, b = lo[-1], hi[0]
        amp[a:b + 1] = np.linspace(amp[a], amp[b], b - a + 1)
        left, right = ip[:j], ip[j + 1:]
    else:
        w = case["width"] * (t[hi[0]] - t[lo[-1]])
        amp *= 1 - case["depth"] * np.exp(-((t - tp[j]) / w) ** 2)
        left, right = ip[:j], ip[j + 1:]
    if case["rep"] == "hlm":
        d = {"t": t, "hlm": {(2, 2): amp * np.exp(-1j * ph)}}
    else:
        d = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph}}
    r, e = try_call(d, "Amplitude", tref=x, extra=copy.deepcopy(extra))
    require(e is None, f"a {case['what']} makes it fail: {e!r}", key="raised")
    h = r["gwecc_object"]
    up, ua = np.asarray(h.t_pericenters), np.asarray(h.t_apocenters)
    jp, ja = index_of(t, up, syn.dt), index_of(t, ua, syn.dt)
    require(alternate(up, ua), "pericenters and apocenters do not alternate",
            key="alternate")
    for kind, i in (("pericenters", jp), ("apocenters", ja)):
        dp = np.diff(ph[i])
        require(np.all(dp >= K), f"a pair of {kind} closer than an orbit is "
                "kept", key="close")
        q = dp[1:] / dp[:-1]
        require(np.all((q < 1.5) & (q > 1 / 1.5)), f"{kind} with a gap are "
                f"kept (ratios of separations {q.min():.2f} to "
                f"{q.max():.2f})", key="gap")
    # what is on the good side of the defect stays
    good = right if case["end"] == "start" else left
    good = good[1:-1]
    require(np.all(np.isin(good, jp)), "pericenters away from the defect are "
            "lost", key="lost")
    # and is measured as without the defect
    side = tp[j + 2] if case["end"] == "start" else tp[j - 2]
    f = np.array(case["fr"])
    if case["end"] == "start":
        xs = side + (h.tmax - side) * f
    else:
        xs = h.tmin + (side - h.tmin) * f
    xs = xs[(xs >= max(h.tmin, g.tmin)) & (xs <= min(h.tmax, g.tmax))]
    if len(xs):
        a = call(d0, "Amplitude", tref=xs, extra=copy.deepcopy(extra))
        b = call(d, "Amplitude", tref=xs, extra=copy.deepcopy(extra))
        from ..meas import ang
        dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
        require(dl < 1e-9, "the mean anomaly away from the defect changes by "
                f"{dl:.1e}", key="anomaly")
        de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
        require(de < 5e-3, "the eccentricity away from the defect changes by "
                f"{de:.1e}", key="ecc")
    return dict(nontrivial=True, labels=[case["what"], case["end"]])


def narrow_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.2, 0.6), norb=(12, 26), ppo=(60, 110)),
        method=st.sampled_from([m for m in METHODS if m not in FITS]),
        rep=st.sampled_from(["hlm", "amp"]), q=st.integers(1, 6),
        nexcl=st.sampled_from([2, 2, 1, 3])))


def run_narrow(case):
    """A width that some of the pericenters are too narrow for.

    Those kept are found by scipy.signal.find_peaks; of several pericenters
    without an apocenter in between at one end of the data, or the other way
    round, the documentation keeps the one next to the others.
    """
    syn = Synth(case["syn"])
    method = case["method"]
    d = build(syn, method, case["rep"])
    t = np.asarray(d["t"], float)
    x = float(t[0] + 0.3 * syn.t_insp)
    r, e = try_call(d, method, tref=x, nexcl=case["nexcl"])
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    y = method_data(d, method, len(g.t))
    ip = index_of(t, np.asarray(g.t_pericenters), syn.dt)
    w = peak_widths(y, ip[1:-1])[0]
    if case["q"] >= len(w) - 4:
        raise Discard("too few orbits")
    width = 1.004 * float(w[-case["q"]])
    want = []
    for s in (1, -1):
        p, info = find_peaks(s * y, width=width)
        # (others could be on either side of the limit by rounding)
        near = find_peaks(s * y, width=0.998 * width)[0]
        far = find_peaks(s * y, width=1.002 * width)[0]
        if len(near) != len(p) or len(far) != len(p):
            raise Discard("a peak on the limit of the width")
        want.append(p)
    if min(len(p) for p in want) < 4:
        raise Discard("too few orbits")
    for p in want:
        step = np.diff(phase_of(d)[p])
        if np.any(step < K) or np.any(step > 1.3 * K):
            raise Discard("extrema are missing within")
    ev = sorted([(i, 0) for i in want[0]] + [(i, 1) for i in want[1]])
    kinds = [k for _, k in ev]
    # the last of the first run to the first of the last run
    a = next(i for i in range(len(ev) - 1) if kinds[i + 1] != kinds[i])
    b = next(i for i in range(len(ev) - 1, 0, -1)
             if kinds[i - 1] != kinds[i])
    extra = max(a, len(ev) - 1 - b)
    ev, kinds = ev[a:b + 1], kinds[a:b + 1]
    if any(u == v for u, v in zip(kinds, kinds[1:])):
        raise Discard("extrema are missing within")
    r, e = try_call(d, method, nexcl=case["nexcl"], tref=float(
        t[ev[len(ev) // 2][0]]), extra={"extrema_finding_kwargs": {
            "width": width}})
    if e is not None and min(kinds.count(0), kinds.count(1)) < 4:
        raise Discard("too few extrema")
    require(e is None, f"{extra} extra extrema: {e!r}", key="raised")
    h = r["gwecc_object"]
    for k, name in enumerate(("pericenters", "apocenters")):
        have = index_of(t, np.asarray(getattr(h, "t_" + name)), syn.dt)
        keep = [i for i, kk in ev if kk == k]
        require(np.array_equal(have, keep), f"{name} {have} are kept instead "
                f"of {keep} out of {list(want[k])}", key="extra")
    return dict(nontrivial=extra > 0, labels=[
        method, "2 or more" if extra > 1 else "1" if extra else "none"])


# --- finely sampled data, where the fits refine their extrema ---------------
def fine_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.35), norb=(8, 13), ppo=(850, 1400),
                         tshift=st.sampled_from([0.0, -4000.0])),
        method=st.sampled_from(FITS + FITS + METHODS), rep=st.sampled_from(
            ["hlm", "amp"]),
        step=st.sampled_from([12, 16, 20]), refine=st.booleans()))


def run_fine(case):
    syn = Synth(case["syn"])
    method = case["method"]
    d = build(syn, method, case["rep"])
    s = case["step"]
    coarse = {k: v[::s] if k[0] == "t" else {m: y[::s] for m, y in v.items()}
              for k, v in d.items()}
    # (a sampling at which the frequency is that of the waveform)
    x = float(d["t"][0] + 0.5 * syn.t_insp)
    extra = {"omega_gw_extrema_interpolation_method": "spline",
             "refine_extrema": case["refine"]}
    r, e = try_call(d, method, tref=x, extra=dict(extra))
    q, e2 = try_call(coarse, method, tref=x, extra=dict(extra))
    if e is not None and method in FITS and case["refine"]:
        _, e3 = try_call(d, method, tref=x, extra=dict(
            extra, refine_extrema=False))
        require(e3 is not None, f"only refined extrema fail: {e!r}",
                key="fine-raised")
    if e2 is not None or (e is not None and method in FITS):
        raise Discard("not measurable")
    require(e is None, f"the waveform sampled {s} times as finely: {e!r}",
            key="fine-raised")
    g, h = r["gwecc_object"], q["gwecc_object"]
    period = TWO_PI / syn.n_end
    for kind in ("pericenters", "apocenters"):
        u, v = (np.asarray(getattr(a, "t_" + kind)) for a in (g, h))
        lo, hi = max(u[0], v[0]), min(u[-1], v[-1])
        u, v = (a[(a > lo - 0.3 * period) & (a < hi + 0.3 * period)]
                for a in (u, v))
        require(len(u) == len(v), f"{len(u)} {kind} between those found in "
                f"fewer samples, there {len(v)}", key="fine-number")
        lim = (0.05 * TWO_PI / syn.n0 if method in FITS
               else 0.03 * TWO_PI / syn.n0 if case["refine"]
               else 2.5 * s * syn.dt)
        require(np.max(np.abs(u - v)) < lim, f"{kind} move by "
                f"{np.max(np.abs(u - v)) / syn.dt:.1f} samples, or "
                f"{np.max(np.abs(u - v)) / s / syn.dt:.1f} of those taken",
                key="fine-times")
    if method not in FITS:
        return dict(nontrivial=True, labels=[method])
    t = np.asarray(g.t) - g.t_merger
    y = np.asarray(g.data_for_finding_extrema)
    ph = np.asarray(g.phase_gw)
    moved = 0
    for kind, name in (("pericenters", "periastron_info"),
                       ("apocenters", "apastron_info")):
        with quiet():
            loc = np.asarray(g.find_extrema(kind))
        info = [np.asarray(a) for a in getattr(g, name)]
        require([len(a) for a in info] == [len(loc)] * 3, f"{name} has "
                f"{[len(a) for a in info]} entries for {len(loc)} {kind}",
                key="fine-info")
        if not case["refine"]:
            require(np.array_equal(info[0], t[loc])
                    and np.array_equal(info[1], y[loc])
                    and np.array_equal(info[2], ph[loc]),
                    f"{name} is not that of the {kind}", key="fine-info")
            continue
        dt = np.max(np.abs(info[0] - t[loc])) / syn.dt
        require(dt < 1.5, f"{name}: times are {dt:.1f} samples from the "
                f"{kind}", key="fine-info")
        moved += np.sum(info[0] != t[loc])
        a = np.max(np.abs(info[1] - np.interp(info[0], t, y)))
        b = np.max(np.abs(info[2] - np.interp(info[0], t, ph)))
        require(a < 3e-5 * np.ptp(y) and b < 3e-5, f"{name}: data and phase "
                f"are off by {a:.1e} and {b:.1e}", key="fine-info")
    return dict(nontrivial=not case["refine"] or moved > 3, labels=[
        method, "refined" if case["refine"] else "sampled"])


SUBS = [
    Sub("fine", fine_st, run_fine, 110, 3000,
        "the times of the extrema are refined between the samples, or the "
        "data are sampled up to 20 times as finely"),
    Sub("narrow", narrow_st, run_narrow, 320, 6000,
        "there are extra pericenters or apocenters at an end"),
    Sub("clean", case_st, run, 500, 10000,
        "more than three pericenters are reported"),
    Sub("defect", defect_st, run_defect, 200, 4000,
        "a pericenter is removed or doubled near one end of the data"),
]
