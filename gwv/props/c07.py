"""C07: equivalent descriptions of a waveform give the same answers."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, require
from ..meas import (FITS, ang, build, fref_window, method_st, options_st,
                    probe_options,
                    rfloat, rounding_tol, synth_params, to_amp_phase,
                    try_call, with_options)
from ..synth import TWO_PI, Synth

ID = "C07"

VARIANTS = ["amp-phase", "amp-phase-mod2pi", "omega", "extra-modes",
            "key-order", "unknown-keys", "unused-zeroecc",
            "noncontiguous"]


def strategy(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(), method=method_st(),
        opts=options_st(),
        domain=st.sampled_from(["time", "frequency"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants",
                             "omega_gw_zeroecc"]),
        variants=st.lists(st.sampled_from(VARIANTS), min_size=1, max_size=3,
                          unique=True),
        turns=st.integers(-3, 3),
        modes=st.lists(st.sampled_from(
            [[2, 1], [3, 3], [2, -2], [4, 4], [3, 2], [2, 0]]),
            min_size=1, max_size=3, unique_by=tuple),
        small=rfloat(1e-3, 0.02, 4),
        fr=st.lists(rfloat(0.03, 0.97, 3), min_size=1, max_size=6)))


def deriv(y, dt):
    """Fourth-order derivative: central inside, one-sided at the ends."""
    r = np.empty(len(y))
    r[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / 12
    c = np.array([[-25, 48, -36, 16, -3], [-3, -10, 18, -6, 1]]) / 12
    r[:2] = c @ y[:5]
    r[-1] = -c[0] @ y[-1:-6:-1]
    r[-2] = -c[1] @ y[-1:-6:-1]
    return r / dt


def transform(d, name, case):
    dt = d["t"][1] - d["t"][0]
    if name in ("amp-phase", "amp-phase-mod2pi"):
        if "hlm" in d:
            d = to_amp_phase(d)
        if name.endswith("2pi"):
            for tag in ("", "_zeroecc"):
                if "phaselm" + tag in d:
                    d["phaselm" + tag] = {
                        m: p + TWO_PI * case["turns"]
                        for m, p in d["phaselm" + tag].items()}
        return d
    if name == "omega":
        src = d if "phaselm" in d else to_amp_phase(d)
        d = dict(d)
        for tag in ("", "_zeroecc"):
            if "phaselm" + tag in src:
                tt = src["t" + tag]
                d["omegalm" + tag] = {
                    m: deriv(p, tt[1] - tt[0])
                    for m, p in src["phaselm" + tag].items()}
        return d
    if name == "extra-modes":
        out = dict(d)
        eps = case["small"]
        for tag in ("", "_zeroecc"):
            for lm in map(tuple, case["modes"]):
                m = lm[1]
                if "hlm" + tag in d:
                    h = d["hlm" + tag][(2, 2)]
                    ph = -np.unwrap(np.angle(h)) / 2 * m
                    out["hlm" + tag] = dict(out["hlm" + tag])
                    out["hlm" + tag][lm] = eps * np.abs(h) * np.exp(-1j * ph)
                if "amplm" + tag in d:
                    for q, f in (("amplm", eps), ("phaselm", m / 2),
                                 ("omegalm", m / 2)):
                        if q + tag in d:
                            out[q + tag] = dict(out[q + tag])
                            out[q + tag][lm] = f * d[q + tag][(2, 2)]
                elif "omegalm" + tag in d:
                    out["omegalm" + tag] = dict(out["omegalm" + tag])
                    out["omegalm" + tag][lm] = (
                        m / 2 * d["omegalm" + tag][(2, 2)])
        return out
    if name == "key-order":
        return {k: d[k] for k in sorted(d, reverse=True)}
    if name == "unknown-keys":
        return dict(d, params_dict={"q": 1.0}, note="anything",
                    hlm_other={(2, 2): np.zeros(3)})
    if name == "unused-zeroecc":
        return d          # handled by the caller
    if name == "noncontiguous":
        def nc(a):
            b = np.empty(2 * len(a), a.dtype)
            b[::2] = a
            b[1::2] = np.nan
            return b[::2]
        return {k: ({m: nc(a) for m, a in v.items()} if isinstance(v, dict)
                    and k != "params_dict" and k != "hlm_other"
                    else nc(v) if isinstance(v, np.ndarray) else v)
                for k, v in d.items()}
    raise AssertionError(name)


def run(case):
    syn = Synth(case["syn"])
    method = case["method"]
    z = "Residual" in method or case["avg"] == "omega_gw_zeroecc"
    d = build(syn, method, "hlm", zeroecc=z)
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    extra, nexcl = with_options(extra, case.get("opts", {}), method)
    g = probe_options(d, method, extra, nexcl, case.get("opts"))
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = (fref_window(d, method, g, extra), "fref",
                             "fref_out")
    x = lo + (hi - lo) * np.array(case["fr"])
    a, err = try_call(d, method, extra=dict(extra),
                      nexcl=nexcl, **{kw: x})
    if err is not None:
        if case.get("opts"):
            raise Discard("refused with these options")
        raise err
    b_data = d
    if "unused-zeroecc" in case["variants"] and not z:
        b_data = build(syn, method, "hlm", zeroecc=True)
    # amplitude/phase conversion first: the others adapt to the form
    for name in sorted(case["variants"], key=VARIANTS.index):
        b_data = transform(b_data, name, case)
    b, err = try_call(b_data, method, extra=dict(extra),
                      nexcl=nexcl, **{kw: x})
    if err is not None:
        raise Violation(f"{case['variants']} makes the measurement raise "
                        f"{type(err).__name__}: {err}", key="raised")
    require(np.array_equal(a[key], b[key]), f"{key} depends on "
            f"{case['variants']}", key="ref-out")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    same = (len(ga.t_pericenters) == len(gb.t_pericenters)
            and len(ga.t_apocenters) == len(gb.t_apocenters)
            and np.allclose(gb.t_pericenters, ga.t_pericenters)
            and np.allclose(gb.t_apocenters, ga.t_apocenters))
    if same:
        etol, ltol = rounding_tol(case, ga, gb)
    else:
        require(method in FITS, f"{case['variants']} changes the extrema",
                key="extrema")
        etol = max(2e-3, rounding_tol(case, ga, gb)[0])
        ltol = 4 * TWO_PI / syn.c["ppo"]
    require(de < etol, f"{case['variants']} changes the eccentricity by "
            f"{de:.2e}", key="ecc")
    require(dl < ltol, f"{case['variants']} changes the mean anomaly by "
            f"{dl:.2e} rad", key="anomaly")
    return dict(nontrivial=True, labels=case["variants"] + [method])


SUBS = [Sub("representation", strategy, run, 900, 16000,
            "the input was given in another, equivalent form")]
