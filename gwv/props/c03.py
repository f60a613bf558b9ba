"""C03: contract of the returned dictionary."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, require
from ..meas import (TWO_PI, build, fref_window, method_st, options_st,
                    probe_options, rfloat,
                    synth_params, try_call, with_options)
from ..synth import Synth

ID = "C03"
AVG = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants",
       "omega_gw_zeroecc"]


def common(tier):
    return dict(
        syn=synth_params(), method=method_st(),
        opts=options_st(), rep=st.sampled_from(["hlm", "amp"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        # positions in units of the allowed interval; 0 and 1 are the ends
        fr=st.lists(st.one_of(rfloat(-0.6, 1.6, 3),
                              st.sampled_from([0.0, 1.0]),
                              rfloat(0, 1, 3)),
                    min_size=1, max_size=14),
        as_type=st.sampled_from(["array", "array", "list", "tuple",
                                 "scalar", "npscalar", "0d"]))


def extra_of(case):
    e = {"omega_gw_extrema_interpolation_method": case["interp"]}
    if "avg" in case:
        e["omega_gw_averaging_method"] = case["avg"]
    return with_options(e, case.get("opts", {}), case["method"])


def cast(vals, kind):
    if kind == "list":
        return [float(v) for v in vals]
    if kind == "tuple":
        return tuple(float(v) for v in vals)
    if kind == "scalar":
        return float(vals[0])
    if kind == "npscalar":
        return np.float64(vals[0])
    if kind == "0d":
        return np.array(vals[0])
    return np.array(vals)


def check_out(o, x_in, lo, hi, key, kind, hi_open):
    other = "fref_out" if key == "tref_out" else "tref_out"
    require(set(o) == {key, "eccentricity", "mean_anomaly", "gwecc_object"},
            f"keys of the returned dictionary are {sorted(o)}")
    require(other not in o, f"{other} returned")
    x = np.atleast_1d(np.asarray(x_in))
    ok = (x >= lo) & ((x < hi) if hi_open else (x <= hi))
    want = x[ok]
    scalar = kind in ("scalar", "npscalar", "0d")
    for name in (key, "eccentricity", "mean_anomaly"):
        v = o[name]
        if scalar:
            require(np.ndim(v) == 0, f"scalar reference but {name} has "
                    f"shape {np.shape(v)}", key="scalar-type")
        else:
            require(isinstance(v, np.ndarray) and v.ndim == 1
                    and len(v) == len(want),
                    f"{name} is not a 1d array of {len(want)} elements",
                    key="array-type")
    got = np.atleast_1d(o[key])
    require(np.array_equal(got, want),
            f"{key} is not the input restricted to [{lo}, {hi}]: "
            f"{got} instead of {want}", key="out-subset")
    e = np.atleast_1d(o["eccentricity"])
    l = np.atleast_1d(o["mean_anomaly"])
    require(np.all(np.isfinite(e)) and np.all(e > 0) and np.all(e < 1),
            f"eccentricity outside (0, 1): {e}", key="ecc-range")
    require(np.all(np.isfinite(l)) and np.all(l >= 0) and np.all(l < TWO_PI),
            f"mean anomaly outside [0, 2 pi): {l}", key="anomaly-range")
    return want


def run_time(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"])
    extra, nexcl = extra_of(case)
    g0 = probe_options(d, case["method"], extra, nexcl, case.get("opts"))
    lo, hi = g0.tmin, g0.tmax
    x = [lo if f == 0.0 else hi if f == 1.0 else lo + f * (hi - lo)
         for f in case["fr"]]
    tref = cast(x, case["as_type"])
    xs = np.atleast_1d(np.asarray(tref))
    n_in = int(np.sum((xs >= lo) & (xs <= hi)))
    o, err = try_call(d, case["method"], tref=tref, extra=dict(extra),
                      nexcl=nexcl)
    if n_in == 0:
        require(err is not None, "no exception although every reference time "
                "is outside the allowed interval", key="all-outside")
        # and the evaluators do not extrapolate either
        for fn in (g0.compute_eccentricity, g0.compute_mean_anomaly):
            try:
                fn(xs)
            except Exception:
                continue
            raise Violation("evaluating outside [tmin, tmax] did not raise",
                            key="extrapolates")
        return dict(nontrivial=True, labels=["none-inside"])
    if err is not None:
        raise Violation(f"{n_in} of {len(xs)} reference times are allowed but "
                        f"the call raised {type(err).__name__}: {err}",
                        key="raised")
    check_out(o, tref, lo, hi, "tref_out", case["as_type"], hi_open=False)
    g = o["gwecc_object"]
    if n_in < len(xs):
        for fn in (g.compute_eccentricity, g.compute_mean_anomaly):
            try:
                fn(xs)
            except Exception:
                continue
            raise Violation("evaluating outside [tmin, tmax] did not raise",
                            key="extrapolates")
    return dict(nontrivial=True,
                labels=[case["as_type"],
                        "partial" if n_in < len(xs) else "all-inside"])


def run_freq(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"],
              zeroecc=("Residual" in case["method"]
                       or case["avg"] == "omega_gw_zeroecc"))
    extra, nexcl = extra_of(case)
    g0 = probe_options(d, case["method"], extra, nexcl, case.get("opts"))
    lo, hi = fref_window(d, case["method"], g0, extra)
    x = [lo if f == 0.0 else hi if f == 1.0 else lo + f * (hi - lo)
         for f in case["fr"]]
    fref = cast(x, case["as_type"])
    xs = np.atleast_1d(np.asarray(fref))
    # the upper end itself may or may not be kept (the documentation says
    # both); it is not generated unless it has company inside
    inside = (xs >= lo) & (xs < hi)
    n_in = int(np.sum(inside))
    o, err = try_call(d, case["method"], fref=fref, extra=dict(extra),
                      nexcl=nexcl)
    if n_in == 0:
        if np.any(xs == hi):
            return dict(nontrivial=False)
        require(err is not None, "no exception although every reference "
                "frequency is outside the allowed interval",
                key="all-outside")
        return dict(nontrivial=True, labels=["none-inside"])
    if err is not None:
        raise Violation(f"{n_in} of {len(xs)} reference frequencies are "
                        f"allowed but the call raised "
                        f"{type(err).__name__}: {err}", key="raised")
    closed = len(np.atleast_1d(o["fref_out"])) == int(
        np.sum((xs >= lo) & (xs <= hi)))
    check_out(o, fref, lo, hi, "fref_out", case["as_type"],
              hi_open=not closed)
    return dict(nontrivial=True,
                labels=[case["as_type"], case["avg"],
                        "partial" if n_in < len(xs) else "all-inside"])


SUBS = [
    Sub("time", lambda tier: st.fixed_dictionaries(common(tier)), run_time,
        800, 12000, "the call was made with references inside, outside or "
        "on the edge of the allowed interval"),
    Sub("frequency", lambda tier: st.fixed_dictionaries(
        dict(common(tier), avg=st.sampled_from(AVG))), run_freq,
        800, 12000, "the call was made with references inside, outside or "
        "on the edge of the allowed interval"),
]
