"""C30: evaluation between references, averages and derivatives."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

from ..core import Discard, Sub, require
from ..meas import (METHODS, build, fref_window, method_st,
                    orbits_speed_up, rfloat, synth_params, try_call)
from ..synth import TWO_PI, Synth

ID = "C30"
ASSUMPTIONS = [
    "integrals of derivatives use Simpson's rule on the samples and half way between them; second "
    "derivatives are those of the spline through the eccentricities on the "
    "data grid"]
AVG = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants",
       "omega_gw_zeroecc"]


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.03, 0.5), norb=(9, 20),
                         tshift=st.sampled_from([0.0, 0.0, -4000.0])),
        method=st.sampled_from(METHODS),
        interp=st.sampled_from(["spline", "rational_fit"]),
        refine=st.booleans(), mid=st.sampled_from([False, False, True]),
        avg=st.sampled_from(AVG),
        domain=st.sampled_from(["time", "time", "frequency"]),
        start=rfloat(0.02, 0.95, 3), scalar=st.booleans(),
        at=st.lists(st.one_of(rfloat(0, 1, 3), st.sampled_from([0.0, 1.0])),
                    min_size=1, max_size=6),
        steps=st.lists(st.sampled_from(
            ["value", "d1", "d2", "outside", "average", "integral",
             "bounds"]), min_size=2, max_size=7),
        out=st.sampled_from([1e-6, 1e-3, 0.1, 3.0]),
        order=st.lists(st.sampled_from(AVG), min_size=2, max_size=5)))


def run(case):
    syn = Synth(case["syn"])
    method = case["method"]
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "refine_extrema": case["refine"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["mid"], "omega_gw_averaging_method": case["avg"]}
    data = build(syn, "ResidualAmplitude")
    x0 = float(data["t"][0] + 0.5 * syn.t_insp)
    r, e = try_call(data, method, tref=x0, extra=dict(extra))
    if e is not None:
        raise Discard("not measurable")
    g0 = r["gwecc_object"]
    lo, hi = float(g0.tmin), float(g0.tmax)
    if case["domain"] == "time":
        x = lo + case["start"] * (hi - lo)
        kw = dict(tref=float(x) if case["scalar"] else np.array([x]))
    else:
        f = fref_window(data, method, g0, extra)
        x = f[0] + (0.05 + 0.9 * case["start"]) * (f[1] - f[0])
        kw = dict(fref=float(x) if case["scalar"] else np.array([x]))
    r, e = try_call(data, method, extra=dict(extra), **kw)
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    require((g.tmin, g.tmax) == (lo, hi), f"the measured range "
            f"{g.tmin, g.tmax} depends on the reference", key="range")
    t = lo + (hi - lo) * np.array(case["at"])
    t[np.array(case["at"]) == 1.0] = hi
    fresh, e = try_call(data, method, tref=t, extra=dict(extra))
    require(e is None, f"{type(e).__name__} at times in the range: {e}",
            key="range")
    if {"average", "bounds"} & set(case["steps"]):
        orbits_speed_up(data, g)
    kinds = set()
    # samples of the data and the points half way between them
    fine = np.asarray(data["t"])
    fine = fine[(fine >= lo) & (fine <= hi)]
    fine = np.sort(np.append(fine, 0.5 * (fine[1:] + fine[:-1])))
    for what in case["steps"]:
        kinds.add(what)
        if what == "value":
            for fn, k in ((g.compute_eccentricity, "eccentricity"),
                          (g.compute_mean_anomaly, "mean_anomaly")):
                y = np.asarray(fn(t))
                require(np.array_equal(y, fresh[k]), f"{k} at {t} is {y}, a "
                        f"measurement there gives {fresh[k]}", key="value")
                y = [float(np.squeeze(fn(float(u)))) for u in t]
                require(np.allclose(y, fresh[k], rtol=0, atol=1e-12),
                        f"{k} evaluated one by one is {y}, not {fresh[k]}",
                        key="value")
        elif what == "outside":
            d = case["out"] * TWO_PI / syn.n0
            for u in (lo - d, hi + d, np.append(t, hi + d),
                      np.append(lo - d, t)):
                for fn in (g.compute_eccentricity, g.compute_mean_anomaly,
                           g.derivative_of_eccentricity):
                    try:
                        fn(u)
                    except Exception:  # noqa: BLE001
                        continue
                    require(False, f"{fn.__name__} accepts a time {d} "
                            "outside of the measured range", key="outside")
        elif what in ("d1", "d2", "integral"):
            n = 2 if what == "d2" else 1
            low = (lambda u: g.compute_eccentricity(u)) if n == 1 else (
                lambda u: g.derivative_of_eccentricity(u, n=1))
            scale = np.ptp(low(fine)) + 1e-9 * np.max(np.abs(low(fine)))
            dy = g.derivative_of_eccentricity(fine, n=n)
            require(np.all(np.isfinite(dy)) and dy.shape == fine.shape,
                    f"derivative {n} is not finite", key="derivative")
            m = (len(fine) - 1) // 8
            for a, b in ((0, 8 * m), (0, 2 * m), (4 * m, 6 * m)):
                want = low(fine[[a, b]])
                got = simpson(dy[a:b + 1], x=fine[a:b + 1])
                err = abs(got - (want[1] - want[0]))
                # rational fits may bend within a few samples
                tol = 2e-4 if n == 1 and case["interp"] == "spline" else 1e-2
                require(err < tol * scale,
                        f"derivative {n} integrates to {got}, the change is "
                        f"{want[1] - want[0]}", key="derivative")
            y = g.derivative_of_eccentricity(t, n=n)
            z = [float(np.squeeze(g.derivative_of_eccentricity(
                float(u), n=n))) for u in t]
            require(np.allclose(y, z, rtol=1e-9, atol=1e-15),
                    "derivatives one by one differ", key="derivative")
            if n == 1:
                require(np.array_equal(
                    y, g.derivative_of_eccentricity(t)),
                    "n=1 is not the default", key="derivative")
        elif what == "average":
            def new():
                return try_call(data, method, extra=dict(extra), **kw)[0][
                    "gwecc_object"]
            average(g, data, syn, case["order"], new)
        elif what == "bounds":
            bounds(g, case["avg"])
    # what was measured is still there
    again, e = try_call(data, method, extra=dict(extra), **kw)
    for k in ("eccentricity", "mean_anomaly"):
        require(np.array_equal(np.asarray(getattr(g, k)), again[k])
                and np.array_equal(r[k], again[k]),
                f"{k} of the object changes through evaluations",
                key="state")
    return dict(nontrivial=len(kinds) > 1, labels=[
        method, case["interp"], "refined" if case["refine"] else "samples"]
        + sorted(kinds))


def average(g, data, syn, order, new):
    for i, m in enumerate(order + AVG):
        t, w = g.get_omega_gw_average(m)
        t, w = np.asarray(t), np.asarray(w)
        if i < len(order):
            t0, w0 = new().get_omega_gw_average(m)
            require(np.array_equal(t, t0) and np.array_equal(w, w0),
                    f"{m} after {order[:i]} is not the one of a new "
                    "measurement", key="average-history")
            continue
        require(len(t) == len(w) and len(t) > 3 and np.all(np.diff(t) > 0)
                and np.all(np.isfinite(w)), f"{m}: not a curve",
                key="average")
        require(np.all(np.isin(t, data["t"])), f"{m}: times are not those "
                "of the data", key="average")
        if m == "mean_of_extrema_interpolants":
            p = g.omega_gw_pericenters_interp(t)
            a = g.omega_gw_apocenters_interp(t)
            require(np.allclose(w, 0.5 * (p + a), rtol=1e-12, atol=0),
                    f"{m}: not the mean", key="average")
        # all of them follow the mean orbital motion
        tt = t - syn.c["tshift"]
        truth = 2 * (1 + syn.kadv(tt)) * syn.n(tt)
        s = 0.7 if m == "mean_of_extrema_interpolants" else 0.3
        if m == "mean_of_extrema_interpolants":
            wp, wa = syn.omega_extrema(tt)
            truth, s = 0.5 * (wp + wa), 0.3
        k = slice(len(t) // 8, -len(t) // 8)
        require(np.max(np.abs(w / truth - 1)[k]) < s, f"{m}: is off by "
                f"{np.max(np.abs(w / truth - 1)[k]):.2f}", key="average")
    t0, w0 = g.get_omega_gw_average()
    t1, w1 = g.get_omega_gw_average(
        g.extra_kwargs["omega_gw_averaging_method"])
    require(np.array_equal(t0, t1) and np.array_equal(w0, w1),
            "the default is not the chosen method", key="average")


def bounds(g, avg):
    t, w = g.get_omega_gw_average(avg)
    if np.any(np.diff(w) <= 0):
        return
    f = g.get_fref_bounds()
    require(np.isclose(f[0], min(w) / TWO_PI, rtol=1e-9)
            and np.isclose(f[1], max(w) / TWO_PI, rtol=1e-9),
            f"bounds {f}, the average spans {min(w) / TWO_PI} to "
            f"{max(w) / TWO_PI}", key="bounds")


SUBS = [Sub("evaluate", case_st, run, 600, 8000,
            "two or more kinds of evaluation after one measurement")]
