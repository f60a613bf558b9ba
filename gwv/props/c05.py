"""C05: the origin of the time axis has no physical meaning."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, require
from ..meas import (ang, build, fref_window, method_st, options_st,
                    probe_options, rfloat,
                    rounding_tol, synth_params, try_call, with_options)
from ..synth import TWO_PI, Synth

ID = "C05"


def dyadic(case):
    """Parameters whose sampling step is a power of two."""
    c = dict(case["syn"])
    dt = 2.0 ** case["dtexp"]
    c["n0"] = TWO_PI / (c["ppo"] * c["ratio"] * dt)
    return c


def strategy(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(norb=(16, 32)), method=method_st(),
        dtexp=st.integers(-3, 3),
        opts=options_st(),
        domain=st.sampled_from(["time", "frequency"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        segment=st.sampled_from([None, None, None, 8, 10]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants"]),
        # in units of the step: negative, zero-crossing and far away origins
        shift=st.one_of(st.integers(-4000, 4000),
                        st.sampled_from([0, -1, 2 ** 16, -2 ** 16, 10 ** 6]),
                        st.integers(-2 ** 20, 2 ** 20)),
        zshift=st.integers(-2000, 2000),
        fr=st.lists(rfloat(0.03, 0.97, 3), min_size=1, max_size=6)))


def shifted(d, dt, s, zs):
    out = dict(d)
    out["t"] = d["t"] + s * dt
    if "t_zeroecc" in d:
        # the quasicircular waveform has an origin of its own
        out["t_zeroecc"] = d["t_zeroecc"] + zs * dt
    return out


def run(case):
    c = dyadic(case)
    syn = Synth(c)
    dt = 2.0 ** case["dtexp"]
    d = build(syn, case["method"])
    # exact times, measured from the merger: as the library prefers them
    n = len(d["t"])
    npre = len(d["t_zeroecc"]) - n if "t_zeroecc" in d else 0
    m = int(round(syn.t_merger0() / dt))
    d["t"] = (np.arange(n) - m) * dt
    if npre:
        d["t_zeroecc"] = (np.arange(n + npre) - npre - m) * dt
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    seg = case["segment"]
    extra, nexcl = with_options(extra, case.get("opts", {}), case["method"])
    g = probe_options(d, case["method"], extra, nexcl, case.get("opts"))
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = (fref_window(d, case["method"], g, extra), "fref",
                             "fref_out")
    x = lo + (hi - lo) * np.array(sorted(case["fr"]))
    if case["domain"] == "time":
        x = np.round(x / dt * 64) / 64 * dt
        x = x[(x >= lo) & (x <= hi)]
        if len(x) == 0:
            return dict(nontrivial=False)
    if seg:
        extra["use_only_these_many_orbits"] = seg
        x = x[:1]
    a, ea = try_call(d, case["method"], extra=dict(extra),
                      nexcl=nexcl, **{kw: x})
    s = case["shift"]
    d2 = shifted(d, dt, s, s + case["zshift"])
    x2 = x + s * dt if case["domain"] == "time" else x
    b, eb = try_call(d2, case["method"], extra=dict(extra),
                      nexcl=nexcl, **{kw: x2})
    if ea is not None or eb is not None:
        if ea is not None and eb is not None:
            # too short a segment is refused either way
            if seg or case.get("opts"):
                return dict(nontrivial=False, labels=["both-refused"])
            raise ea
        raise Violation(
            f"moving the time origin by {s} steps turns a result into an "
            f"error or back: {ea!r} / {eb!r}", key="raised")
    want = a[key] + s * dt if case["domain"] == "time" else a[key]
    require(len(want) == len(b[key]) and np.allclose(
        b[key], want, rtol=1e-12, atol=1e-9 * dt),
            f"moving the time origin changes {key}", key="ref-out")
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    etol, ltol = rounding_tol(case, a["gwecc_object"], b["gwecc_object"])
    require(de < etol, f"moving the time origin by {s} steps changes the "
            f"eccentricity by {de:.2e}", key="ecc")
    require(dl < ltol, f"moving the time origin by {s} steps changes the "
            f"mean anomaly by {dl:.2e} rad", key="anomaly")
    return dict(nontrivial=s != 0,
                labels=[case["domain"], case["method"],
                        "segment" if seg else "full"])


SUBS = [Sub("shift", strategy, run, 900, 16000,
            "the origin is moved by at least one step")]
