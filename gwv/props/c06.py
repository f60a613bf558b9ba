"""C06: units of time and strain, and the orbital phase origin, are gauge."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, require
from ..meas import (FITS, ang, build, fref_window, method_st,
                    options_st, probe_options, rfloat, rounding_tol, synth_params,
                    try_call,
                    with_options)
from ..synth import TWO_PI, Synth

ID = "C06"
MTSUN = 4.925490947641267e-06


def strategy(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(norb=(16, 32)), method=method_st(),
        domain=st.sampled_from(["time", "frequency"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants",
                             "omega_gw_zeroecc"]),
        segment=st.sampled_from([None, None, None, 10]),
        rep=st.sampled_from(["hlm", "amp"]),
        opts=options_st(),
        # power of two or an arbitrary factor, e.g. solar masses in seconds
        amp=st.one_of(st.integers(-80, 60).map(lambda i: ["pow2", i]),
                      rfloat(1e-3, 50, 4).map(lambda x: ["mul", x]),
                      st.just(["mul", 3e-22])),
        # the documented units are total masses (frequencies of 0.01 to 1) and
        # seconds (10 to 1000); curve fitting has absolute tolerances that
        # much longer units would run into
        time=st.one_of(st.integers(-24, 2).map(lambda i: ["pow2", i]),
                       rfloat(5, 200, 1).map(lambda m: ["msun", m])),
        phase=st.one_of(st.just(0.0), rfloat(-3.1, 3.1, 3)),
        fr=st.lists(rfloat(0.03, 0.97, 3), min_size=1, max_size=6)))


def factor(f):
    kind, x = f
    return 2.0 ** x if kind == "pow2" else x * MTSUN if kind == "msun" else x


def rescale(d, amp, time, phase):
    out = {}
    for k, v in d.items():
        if k.startswith("t"):
            out[k] = v * time
        elif k.startswith("hlm"):
            out[k] = {m: h * (amp * np.exp(-1j * phase) if phase else amp)
                      for m, h in v.items()}
        elif k.startswith("amplm"):
            out[k] = {m: a * amp for m, a in v.items()}
        elif k.startswith("phaselm"):
            out[k] = {m: p + phase for m, p in v.items()}
    return out


def run(case):
    c = dict(case["syn"])
    # a power-of-two step, so that power-of-two units are exact
    c["n0"] = TWO_PI / (c["ppo"] * c["ratio"] * 1.0)
    syn = Synth(c)
    method = case["method"]
    z = "Residual" in method or case["avg"] == "omega_gw_zeroecc"
    d = build(syn, method, case["rep"], zeroecc=z)
    n = len(d["t"])
    if z:
        npre = len(d["t_zeroecc"]) - n
        d["t_zeroecc"] = np.arange(n + npre) * 1.0 - npre
    d["t"] = np.arange(n) * 1.0
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    extra, nexcl = with_options(extra, case.get("opts", {}), method)
    g = probe_options(d, method, extra, nexcl, case.get("opts"))
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = (fref_window(d, method, g, extra), "fref",
                             "fref_out")
    x = lo + (hi - lo) * np.array(case["fr"])
    if case["segment"]:
        extra["use_only_these_many_orbits"] = case["segment"]
        x = x[:1]
    sa, sx = factor(case["amp"]), factor(case["time"])
    scale = sx if case["domain"] == "time" else 1 / sx
    a, ea = try_call(d, method, extra=dict(extra),
                      nexcl=nexcl, **{kw: x})
    b, eb = try_call(rescale(d, sa, sx, case["phase"]), method,
                     extra=dict(extra),
                      nexcl=nexcl, **{kw: x * scale})
    if ea is not None or eb is not None:
        if ea is not None and eb is not None:
            if case["segment"] or case.get("opts"):
                return dict(nontrivial=False, labels=["both-refused"])
            raise ea
        # rounding may drop the extremum that ends the allowed interval
        if case["time"][0] != "pow2" and (min(case["fr"]) < 0.2
                                          or max(case["fr"]) > 0.8):
            raise Discard("end of the interval moved")
        raise Violation("a change of units turns a result into an error or "
                        f"back: {ea!r} / {eb!r}", key="raised")
    require(np.allclose(b[key], a[key] * scale, rtol=1e-12, atol=0),
            f"a change of units changes {key}", key="ref-out")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    same = (len(ga.t_pericenters) == len(gb.t_pericenters)
            and len(ga.t_apocenters) == len(gb.t_apocenters)
            and np.allclose(gb.t_pericenters, ga.t_pericenters * sx,
                            rtol=1e-9)
            and np.allclose(gb.t_apocenters, ga.t_apocenters * sx,
                            rtol=1e-9))
    if not same:
        # Rounding may move an extremum found by an iterative fit by one
        # sample, and decide whether one at either end of the data is kept.
        exact = case["time"][0] == "pow2" and case["amp"][0] == "pow2" \
            and case["phase"] == 0
        require(method in FITS or not exact,
                "a change of units changes the extrema", key="extrema")
        for u, v in ((ga.t_pericenters, gb.t_pericenters / sx),
                     (ga.t_apocenters, gb.t_apocenters / sx)):
            lo2, hi2 = max(u[0], v[0]) - 1.5, min(u[-1], v[-1]) + 1.5
            uu, vv = (w[(w >= lo2) & (w <= hi2)] for w in (u, v))
            require(len(uu) == len(vv) and np.max(np.abs(uu - vv)) < 1.5
                    and abs(len(u) - len(v)) <= 2
                    and len(uu) >= max(len(u), len(v)) - 2,
                    "a change of units changes the extrema", key="extrema")
        if len(ga.t_pericenters) != len(gb.t_pericenters) \
                or len(ga.t_apocenters) != len(gb.t_apocenters):
            return dict(nontrivial=False, labels=["end-extremum"])
        etol = max(2e-3, rounding_tol(case, ga, gb)[0])
        ltol = 4 * TWO_PI / syn.c["ppo"]
    else:
        etol, ltol = rounding_tol(case, ga, gb)
    require(de < etol, "a change of units changes the eccentricity by "
            f"{de:.2e}", key="ecc")
    require(dl < ltol, "a change of units changes the mean anomaly by "
            f"{dl:.2e} rad", key="anomaly")
    return dict(nontrivial=not (sa == 1 and sx == 1 and case["phase"] == 0),
                labels=[case["domain"], method,
                        "same-extrema" if same else "moved-by-a-sample"])


SUBS = [Sub("gauge", strategy, run, 900, 16000,
            "at least one of the three transformations is not the identity")]
