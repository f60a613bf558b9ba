"""C04: the value at a reference point depends on that point only."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, require
from ..meas import (ang, build, call, fref_window, method_st, options_st,
                    probe_options, rfloat,
                    synth_params, with_options)
from ..synth import Synth

ID = "C04"


def strategy(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(), method=method_st(),
        opts=options_st(),
        domain=st.sampled_from(["time", "frequency"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants"]),
        fr=st.lists(rfloat(0.001, 0.999, 3), min_size=2, max_size=10),
        perm=st.randoms(use_true_random=False).map(
            lambda r: r.randrange(10 ** 6)),
        dup=st.integers(0, 9), single=st.integers(0, 9),
        outside=st.booleans()))


def run(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    extra, nexcl = with_options(extra, case.get("opts", {}), case["method"])
    g = probe_options(d, case["method"], extra, nexcl, case.get("opts"))
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        (lo, hi), kw, key = (fref_window(d, case["method"], g, extra), "fref",
                             "fref_out")
    x = lo + (hi - lo) * np.array(case["fr"])

    def m(v):
        o = call(d, case["method"], extra=dict(extra),
                      nexcl=nexcl, **{kw: v})
        return o[key], o["eccentricity"], o["mean_anomaly"]

    def close(a, b, what, key_):
        require(np.max(np.abs(np.atleast_1d(a[1]) - np.atleast_1d(b[1])))
                < 1e-10 and np.max(ang(np.atleast_1d(a[2]),
                                       np.atleast_1d(b[2]))) < 1e-7,
                what, key=key_)
        require(np.array_equal(np.atleast_1d(a[0]), np.atleast_1d(b[0])),
                what + " (reference values)", key=key_)

    base = m(x)
    order = np.random.RandomState(case["perm"]).permutation(len(x))
    p = m(x[order])
    close(p, [b[order] for b in base],
          "permuting the reference values changes the answers", "order")
    i = case["single"] % len(x)
    s = m(float(x[i]))
    close(s, [b[i] for b in base],
          "a scalar reference gives another answer than in an array",
          "scalar")
    j = case["dup"] % len(x)
    idx = np.concatenate([np.arange(len(x)), [j, j]])
    close(m(x[idx]), [b[idx] for b in base],
          "repeating a reference value changes the answers", "duplicate")
    if case["outside"]:
        w = hi - lo
        y = np.concatenate([[hi + 0.2 * w], x, [lo - 0.1 * w, hi + w]])
        close(m(y), base, "references outside the allowed interval change "
              "the answers at the others", "outside")
    return dict(nontrivial=len(set(case["fr"])) > 1,
                labels=[case["domain"], case["method"]])


SUBS = [Sub("pointwise", strategy, run, 560, 10000,
            "at least two distinct reference values")]
