"""C18: only the data before the excluded merger matter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require
from ..meas import (FITS, PLAIN, RESIDUAL, ang, build, call, fref_window,
                    method_st, options_st, rfloat, synth_params, try_call,
                    with_options)
from ..synth import TWO_PI, Synth
from .c11 import amp_of, phase_of

ID = "C18"
ASSUMPTIONS = [
    "the merger is the maximum of the amplitude; changes leave the samples "
    "around it, the phase there and the monotonicity of the phase alone"]
K = 2 * TWO_PI


def fields():
    return dict(
        syn=synth_params(e0=(0.06, 0.4), norb=(10, 24), ppo=(45, 70),
                         tshift=st.sampled_from([0.0, 300.0])),
        method=method_st(), rep=st.sampled_from(["hlm", "amp", "omega"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        nexcl=st.sampled_from([2, 2, 1, 3, 1.5, 2.25, 0.5]),
        domain=st.sampled_from(["time", "time", "frequency"]),
        opts=options_st(),
        fr=st.lists(rfloat(0.02, 0.98, 3), min_size=1, max_size=5))


def local_st(tier):
    f = fields()
    f.update(
        amp1=rfloat(0, 0.6, 2), k1=st.integers(1, 9),
        dph1=rfloat(-0.2, 0.2, 2), amp2=rfloat(0, 1, 2),
        dph2=rfloat(0, 1.5, 2),
        tail=st.sampled_from(["same", "cut", "longer", "flat"]),
        modes=st.sampled_from([0, 0, 0.1, 0.3]))
    return st.fixed_dictionaries(f)


def cut_index(ph, i, nexcl):
    return int(np.argmin(np.abs(ph[:i + 1] - (ph[i] - K * nexcl))))


def window(n, a, b):
    """Smooth, and zero outside [a, b]."""
    w = np.zeros(n)
    if b - a > 4:
        w[a:b] = np.sin(np.linspace(0, np.pi, b - a)) ** 2
    return w


def data_of(case, t, amp, ph, zero, modes=0.0):
    d = {"t": t}
    d.update(zero)
    if case["rep"] == "hlm":
        d["hlm"] = {(2, 2): amp * np.exp(-1j * ph)}
        if modes:
            d["hlm"][(3, 3)] = modes * amp * np.exp(-1.5j * ph)
        return d
    d["amplm"], d["phaselm"] = {(2, 2): amp}, {(2, 2): ph}
    if case["rep"] == "omega":
        d["omegalm"] = {(2, 2): np.gradient(ph, t)}
    if modes:
        d["amplm"][(3, 3)] = modes * amp
        d["phaselm"][(3, 3)] = 1.5 * ph
        if case["rep"] == "omega":
            d["omegalm"][(3, 3)] = 1.5 * np.gradient(ph, t)
    return d


def base(case):
    syn = Synth(case["syn"])
    d0 = build(syn, case["method"], "amp")
    t = np.asarray(d0["t"], float)
    amp, ph = amp_of(d0), phase_of(d0)
    i = int(np.argmax(amp))
    if not 10 < i < len(t) - 8:
        raise Discard("no merger")
    zero = {k: v for k, v in d0.items() if k.endswith("_zeroecc")}
    if case["rep"] == "hlm" and zero:
        zero = {"t_zeroecc": d0["t_zeroecc"], "hlm_zeroecc": {
            (2, 2): d0["amplm_zeroecc"][(2, 2)]
            * np.exp(-1j * d0["phaselm_zeroecc"][(2, 2)])}}
    elif case["rep"] == "omega" and zero:
        zero["omegalm_zeroecc"] = {(2, 2): np.gradient(
            d0["phaselm_zeroecc"][(2, 2)], d0["t_zeroecc"])}
    return syn, t, amp, ph, i, zero


def run_local(case):
    syn, t, amp, ph, i, zero = base(case)
    nexcl, method = case["nexcl"], case["method"]
    n = len(t)
    c = cut_index(ph, i, nexcl)
    extra, _ = with_options(
        {"omega_gw_extrema_interpolation_method": case["interp"]},
        case["opts"], method)
    d = data_of(case, t, amp, ph, zero)
    mid = float(t[0] + 0.5 * (t[c] - t[0]))
    r, e = try_call(d, method, tref=mid, extra=dict(extra), nexcl=nexcl)
    if e is not None:
        if "outside" in str(e) or "less than" in str(e) or \
                "found" in str(e) or "ufficient" in str(e):
            raise Discard("not measurable")
        raise e
    g = r["gwecc_object"]
    if case["domain"] == "time":
        x, key = g.tmin + (g.tmax - g.tmin) * np.array(case["fr"]), "tref"
    else:
        (lo, hi) = fref_window(d, method, g, extra)
        x, key = lo + (hi - lo) * np.array(case["fr"]), "fref"
    a = call(d, method, extra=dict(extra), nexcl=nexcl, **{key: x})
    # change everything that is excluded
    c1 = c + 5
    # the width given to the peak finder is a quarter of the last orbit but
    # one, whether that is excluded or not
    p1 = max(c1, cut_index(ph, i, 1) + 5)
    if "extrema_finding_kwargs" in extra:
        p1 = c1
    amp2, ph2 = amp.copy(), ph.copy()
    wave = np.cos(np.linspace(0, np.pi * case["k1"], n))
    amp2 = amp2 * (1 + case["amp1"] * wave * window(n, c1, i - 4))
    amp2[:i - 3] = np.minimum(amp2[:i - 3], np.maximum(
        amp[:i - 3], 0.97 * amp[i]))
    step = np.min(np.diff(ph[c:i])) if i > c else 0
    w = window(n, p1, i - 4)
    if np.any(np.diff(w)):
        # keep the phase increasing
        lim = 0.5 * step / np.max(np.abs(np.diff(w)))
        ph2 = ph2 + min(1, lim) * np.sign(case["dph1"]) * w * min(
            1, abs(case["dph1"]) * 5)
    tail = np.arange(n) > i + 4
    amp2[tail] *= case["amp2"]
    ph2[tail] += case["dph2"] * np.linspace(0, 1, tail.sum())
    t2 = t
    if case["tail"] == "cut":
        t2, amp2, ph2 = t[:i + 5], amp2[:i + 5], ph2[:i + 5]
    elif case["tail"] == "longer":
        m = 50
        t2 = np.append(t, t[-1] + syn.dt * np.arange(1, m + 1))
        amp2 = np.append(amp2, amp2[-1] * 0.5 ** np.arange(1, m + 1))
        ph2 = np.append(ph2, ph2[-1] + (ph[i] - ph[i - 1])
                        * np.arange(1, m + 1))
    elif case["tail"] == "flat":
        amp2[tail] = 1e-3 * amp[i]
    if np.any(amp2[np.arange(len(amp2)) != i] > amp[i]):
        raise Discard("the merger moves")
    if np.any(np.diff(ph2) <= 0):
        raise Discard("phase not increasing")
    changed = not (len(t2) == n and np.allclose(amp2, amp, rtol=1e-3)
                   and np.allclose(ph2, ph, atol=1e-3))
    d2 = data_of(case, t2, amp2, ph2, zero, case["modes"])
    b, e = try_call(d2, method, extra=dict(extra), nexcl=nexcl, **{key: x})
    require(e is None, f"fails after a change of the excluded data: {e!r}",
            key="raised")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    require(np.array_equal(ga.t, gb.t), "the time range changes from "
            f"{ga.t[0]}, {ga.t[-1]} to {gb.t[0]}, {gb.t[-1]}", key="range")
    for k in ("t_pericenters", "t_apocenters"):
        u, v = getattr(ga, k), getattr(gb, k)
        require(len(u) == len(v) and np.allclose(
            u, v, rtol=0, atol=1e-6 * syn.dt), f"{k} change", key="extrema")
    out = key + "_out"
    require(np.allclose(a[out], b[out], rtol=1e-12), f"{out} changes",
            key="out")
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    require(de < 1e-8 and dl < 1e-8, "excluded data change the eccentricity "
            f"by {de:.1e}, the mean anomaly by {dl:.1e}", key="value")
    return dict(nontrivial=changed, labels=[method, case["tail"],
                                            f"n{nexcl}"], de=de)


def count_st(tier):
    f = fields()
    f["nexcl"] = st.one_of(st.sampled_from([None, 0, 1, 2, 3, 4]),
                           rfloat(0, 6, 2))
    f["more"] = rfloat(0, 3, 2)
    f["modes"] = st.sampled_from([0, 0, 0.2])
    return st.fixed_dictionaries(f)


def run_count(case):
    syn, t, amp, ph, i, zero = base(case)
    method, nexcl = case["method"], case["nexcl"]
    extra, _ = with_options(
        {"omega_gw_extrema_interpolation_method": case["interp"]},
        case["opts"], method)
    d = data_of(case, t, amp, ph, zero, case["modes"])
    x = float(t[0] + 0.4 * (t[i] - t[0]))
    a, e = try_call(d, method, tref=x, extra=dict(extra), nexcl=nexcl)
    if e is not None:
        if nexcl is None or nexcl < 1.5 or method in FITS:
            # the merger is a maximum, but not a pericenter
            return dict(nontrivial=False, labels=["refused"])
        if "outside" in str(e) or "found" in str(e) or "ufficient" in str(e):
            raise Discard("not measurable")
        raise e
    g = a["gwecc_object"]
    m = len(g.t)
    if nexcl is None:
        require(np.array_equal(g.t, t), "with nothing excluded only "
                f"{m} of {len(t)} samples are used", key="none")
        return dict(nontrivial=True, labels=[method, "none"])
    require(np.array_equal(g.t, t[:m]), "the data used are not the first "
            "part of the input", key="prefix")
    off = (ph[i] - ph[m - 1]) / K - nexcl
    one = max(ph[m] - ph[m - 1], ph[m - 1] - ph[m - 2]) / K
    one += max(ph[i + 1] - ph[i], ph[i] - ph[i - 1]) / K
    require(-1.1 * one < off < 2.1 * one, f"the data used end "
            f"{(ph[i] - ph[m - 1]) / K:.3f} orbits before the merger, "
            f"{nexcl} asked for", key="count")
    # excluding more takes away the end
    b, e = try_call(d, method, tref=x, extra=dict(extra),
                    nexcl=nexcl + case["more"])
    if e is None:
        h = b["gwecc_object"]
        k = len(h.t)
        require(k <= m and np.array_equal(h.t, g.t[:k]), "excluding more "
                "orbits gives more data", key="prefix")
        require(np.array_equal(h.omega_gw, g.omega_gw[:k])
                and np.array_equal(h.amp_gw, g.amp_gw[:k]),
                "the data depend on the number of excluded orbits",
                key="data")
        if method in PLAIN and nexcl >= 2:
            for s in ("t_pericenters", "t_apocenters"):
                u, v = getattr(g, s), getattr(h, s)
                # one at the new end may be lost, and others with it
                require(len(v) <= len(u) and np.array_equal(v, u[:len(v)]),
                        f"{s} {v} are not the first of {u}", key="extrema")
            require(h.tmax <= g.tmax and h.tmin == g.tmin,
                    "the range grows", key="range")
    return dict(nontrivial=True, labels=[method, "n%d" % nexcl])


SUBS = [
    Sub("local", local_st, run_local, 400, 8000,
        "excluded amplitudes or phases differ by more than a thousandth, or "
        "the number of samples does"),
    Sub("count", count_st, run_count, 250, 4000, "the call succeeds"),
]
