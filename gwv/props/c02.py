"""C02: e_gw and mean anomaly follow the published definition."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline

from ..core import Sub, require
from ..meas import (METHODS, TWO_PI, ang, build, call, method_st, pick_times,
                    probe, rfloat, synth_params)
from ..synth import Synth, egw_from_omegas

ID = "C02"


def deriv4(y, dt):
    """Central fourth-order derivative (interior points only are used)."""
    r = np.full(len(y), np.nan)
    r[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / (12 * dt)
    return r


def strategy(interp):
    def make(tier):
        return st.fixed_dictionaries(dict(
            syn=synth_params(), method=method_st(),
            rep=st.sampled_from(["hlm", "amp"]),
            midpoints=st.booleans(),
            refine=st.booleans(),
            interp=st.just(interp),
            nexcl=st.sampled_from([1, 2, 2, 3.5]),
            fr=st.lists(rfloat(0, 1), min_size=1, max_size=12)))
    return make


def run(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["midpoints"], "refine_extrema": case["refine"]}
    g = probe(d, case["method"], extra=dict(extra),
              nexcl=case["nexcl"])["gwecc_object"]
    t = pick_times(g, case["fr"])
    t = np.clip(t, g.tmin, g.tmax)
    o = call(d, case["method"], tref=t, extra=dict(extra),
             nexcl=case["nexcl"])
    g = o["gwecc_object"]
    tp, ta = np.asarray(g.t_pericenters), np.asarray(g.t_apocenters)
    require(g.tmin == max(tp[0], ta[0]), "tmin is not max(first pericenter, "
            "first apocenter)")
    require(g.tmax == min(tp[-1], ta[-1]), "tmax is not min(last pericenter, "
            "last apocenter)")
    require(np.all(np.diff(tp) > 0) and np.all(np.diff(ta) > 0),
            "extrema times are not increasing")
    # every extremum is a sample of the input
    tin = d["t"]
    ip = np.searchsorted(tin, tp - 1e-9 * syn.dt)
    ia = np.searchsorted(tin, ta - 1e-9 * syn.dt)
    require(np.allclose(tin[ip], tp, rtol=0, atol=1e-6 * syn.dt)
            and np.allclose(tin[ia], ta, rtol=0, atol=1e-6 * syn.dt),
            "an extremum is not at a sample of the input times")
    phase = (d["phaselm"][(2, 2)] if "phaselm" in d
             else -np.unwrap(np.angle(d["hlm"][(2, 2)])))
    om = deriv4(phase, tin[1] - tin[0])
    wp_data, wa_data = om[ip], om[ia]
    if case["interp"] == "spline":
        wp = InterpolatedUnivariateSpline(
            tp, wp_data, k=min(3, len(tp) - 1))(t)
        wa = InterpolatedUnivariateSpline(
            ta, wa_data, k=min(3, len(ta) - 1))(t)
        e_ref = egw_from_omegas(wp, wa)
        err = np.max(np.abs(o["eccentricity"] - e_ref))
        require(err < 1e-6, "eccentricity differs from the value that the "
                f"reported extrema give through Eqs. (4) and (8) by {err:.2e}",
                key="egw-formula")
        scale = None
    else:
        # rational fit: smooth curves through the extrema. The interpolants
        # have to reproduce the data well, and e_gw has to follow from them.
        fp, fa = g.omega_gw_pericenters_interp, g.omega_gw_apocenters_interp
        rp = np.max(np.abs(fp(tp) / wp_data - 1))
        ra = np.max(np.abs(fa(ta) / wa_data - 1))
        scale = max(rp, ra)
        lim = 0.06 if syn.c["e0"] < 0.3 else 0.25
        require(rp < lim and ra < lim, "fits through the extrema miss the "
                f"frequencies there by {rp:.2e}, {ra:.2e} (relative)",
                key="fit-quality")
        e_ref = egw_from_omegas(fp(t), fa(t))
        err = np.max(np.abs(o["eccentricity"] - e_ref))
        require(err < 1e-9, "eccentricity differs from the value its own "
                f"frequency interpolants give by {err:.2e}",
                key="egw-formula")
    # mean anomaly: from 0 to 2 pi linearly between consecutive pericenters
    k = np.clip(np.searchsorted(tp, t, side="right") - 1, 0, len(tp) - 2)
    l_ref = TWO_PI * (t - tp[k]) / (tp[k + 1] - tp[k])
    lerr = np.max(ang(o["mean_anomaly"], l_ref))
    require(lerr < 1e-7, "mean anomaly is not linear in time between the "
            f"pericenters (off by {lerr:.2e} rad)", key="anomaly-formula")
    # public evaluators agree with the returned values
    e2 = g.compute_eccentricity(t)
    l2 = g.compute_mean_anomaly(t)
    require(np.max(np.abs(e2 - o["eccentricity"])) < 1e-12
            and np.max(ang(l2, o["mean_anomaly"])) < 1e-9,
            "compute_eccentricity/compute_mean_anomaly disagree with the "
            "returned values")
    inside = tp[(tp >= g.tmin) & (tp <= g.tmax)]
    lp = g.compute_mean_anomaly(inside)
    require(np.max(ang(lp, 0)) < 1e-9, "mean anomaly is not 0 at pericenters")
    return dict(nontrivial=len(t) > 1 and len(tp) > 4,
                labels=[case["method"], case["interp"],
                        "midpoints" if case["midpoints"] else "apocenters"])


RULE = "at least two reference times and more than four pericenters"
SUBS = [
    Sub("spline", strategy("spline"), run, 640, 12000, RULE),
    Sub("rational", strategy("rational_fit"), run, 640, 12000, RULE),
]
