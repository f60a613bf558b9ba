"""C13: failure for nearly circular data is zero only when asked for."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import find_peaks

from ..core import Discard, Sub, require
from ..meas import (FITS, METHODS, build, method_st, rfloat, synth_params,
                    try_call)
from ..synth import TWO_PI, Synth
from .c11 import amp_of, phase_of

ID = "C13"
ASSUMPTIONS = [
    "orbits are counted by the phase of the (2, 2) mode: 4 pi per orbit, in "
    "the data up to the requested number of orbits before the merger"]
OPT = "return_zero_if_small_ecc_failure"
FORM = ("tref_out", "fref_out", "eccentricity", "mean_anomaly")


def same_form(a, b):
    """Same kind of object: Python/NumPy scalar, or 1d array."""
    return np.ndim(a) == np.ndim(b)


def refs_of(case, d, lo, hi):
    x = [lo + (hi - lo) * f for f in case["fr"]]
    if case["shape"] == "float":
        return float(x[0])
    if case["shape"] == "list":
        return [float(v) for v in x]
    return np.array(x)


def window(d, nexcl):
    """Indices of the data that end nexcl orbits before the merger."""
    amp, ph = amp_of(d), phase_of(d)
    i = int(np.argmax(amp))
    if nexcl == 0:
        return slice(0, i + 1), ph
    # 2 * 2 pi per orbit
    j = int(np.searchsorted(ph, ph[i] - nexcl * 2 * TWO_PI))
    return slice(0, j), ph


def check_zero(case, x, res, key):
    e, l, out = res["eccentricity"], res["mean_anomaly"], res[key]
    require(np.all(np.asarray(e) == 0) and np.all(np.asarray(l) == 0),
            f"eccentricity {e}, mean anomaly {l} although both should be "
            "zero", key="zero")
    n = 0 if case["shape"] == "float" else 1
    for k, v in (("eccentricity", e), ("mean_anomaly", l), (key, out)):
        require(np.ndim(v) == n, f"{k} has {np.ndim(v)} dimensions for a "
                f"reference with {n}", key="form")
        require(np.size(v) == np.size(x), f"{k} has {np.size(v)} elements "
                f"for {np.size(x)} references", key="form")
    require(np.array_equal(np.atleast_1d(out), np.atleast_1d(x)),
            f"{key} is {out}, asked for {x}", key="form")
    other = "fref_out" if key == "tref_out" else "tref_out"
    require(other not in res or res[other] is None,
            f"{other} is reported for references that are given as {key}",
            key="form")
    require("gwecc_object" in res, "no gwecc_object", key="form")


def both(d, case, kw, **more):
    """(result, error) without the option, with False, with True."""
    out = []
    for v in (None, False, True):
        extra = dict(more)
        if v is not None:
            extra[OPT] = v
        out.append(try_call(d, case["method"], extra=extra,
                            nexcl=case["nexcl"], **kw))
    return out


def agree(a, b, what):
    (ra, ea), (rb, eb) = a, b
    require((ea is None) == (eb is None), f"{what}: {ea!r} became {eb!r}",
            key="changes")
    if ea is not None:
        require(type(ea) is type(eb) and str(ea) == str(eb),
                f"{what}: {ea!r} became {eb!r}", key="changes")
        return
    for k in FORM:
        require((k in ra) == (k in rb), f"{what}: {k} appears or vanishes",
                key="changes")
        if k in ra:
            require(np.array_equal(ra[k], rb[k])
                    and same_form(ra[k], rb[k]),
                    f"{what}: {k} changes from {ra[k]} to {rb[k]}",
                    key="changes")


def fields(e0):
    return dict(
        syn=synth_params(e0=e0, norb=(3, 18), ppo=(45, 70),
                         tshift=st.sampled_from([0.0, 500.0])),
        method=method_st(),
        nexcl=st.sampled_from([2, 2, 1, 0, 3]),
        rep=st.sampled_from(["hlm", "amp"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        domain=st.sampled_from(["time", "time", "frequency"]),
        shape=st.sampled_from(["float", "array", "list"]),
        mid=st.booleans(), few=st.sampled_from([None, None, 8, 12]),
        fr=st.lists(rfloat(0.1, 0.9, 3), min_size=1, max_size=4,
                    unique=True))


def small_st(tier):
    f = fields((0.1, 0.1))
    f["loge"] = rfloat(-9, -0.5, 2)
    return st.fixed_dictionaries(f)


def setup(case, e0=None):
    p = dict(case["syn"])
    if e0 is not None:
        p["e0"] = e0
    syn = Synth(p)
    d = build(syn, case["method"], case["rep"])
    w, ph = window(d, case["nexcl"])
    t = np.asarray(d["t"], float)[w]
    if len(t) < 20:
        raise Discard("no data")
    key = "tref_out" if case["domain"] == "time" else "fref_out"
    if case["domain"] == "time":
        x = refs_of(case, d, t[0], t[-1])
        kw = dict(tref=x)
    else:
        om = np.gradient(ph[w], t)
        x = refs_of(case, d, np.min(om) / TWO_PI, np.max(om) / TWO_PI)
        kw = dict(fref=x)
    return syn, d, w, ph, t, x, kw, key


def monotonic(y):
    # above the rounding of the data
    return np.all(np.diff(y) > -1e-9 * np.max(np.abs(y)))


def run(case):
    syn, d, w, ph, t, x, kw, key = setup(case, 10.0 ** case["loge"])
    more = {"omega_gw_extrema_interpolation_method": case["interp"],
            "treat_mid_points_between_pericenters_as_apocenters":
                case["mid"]}
    if case["few"]:
        more["use_only_these_many_orbits"] = case["few"]
    absent, off, on = both(d, case, kw, **more)
    agree(absent, off, f"{OPT}=False instead of the default")
    norb = (ph[w][-1] - ph[w][0]) / (2 * TWO_PI)
    labels = [case["method"], case["domain"]]
    if off[1] is None:
        agree(off, on, f"{OPT}=True for data that can be measured")
        return dict(nontrivial=True, labels=labels + ["measured"])
    # smooth data: nothing that could be an extremum
    amp = amp_of(d)[w]
    om = np.gradient(ph[w], t)
    flat = case["loge"] < -5.5 and case["method"] in (
        "Amplitude", "Frequency") and monotonic(amp) and monotonic(om)
    if on[1] is None:
        # zero was put in place of a failure
        check_zero(case, x, on[0], key)
        require(norb > 4.9, f"zero is returned for data of only {norb:.2f} "
                "orbits", key="short")
        n = len(find(d, case["method"], w, amp, om))
        # shallow and therefore narrow extrema may be missed
        require(n < 2 or case["method"] not in ("Amplitude", "Frequency")
                or case["loge"] < -0.9,
                f"zero is returned although there are {n} maxima and minima "
                "of both kinds", key="enough")
        return dict(nontrivial=True, labels=labels + ["zero"])
    # both fail
    require(type(on[1]) is type(off[1]) and str(on[1]) == str(off[1]),
            f"the error {off[1]!r} becomes {on[1]!r}", key="changes")
    if flat:
        require(case["few"] or norb < 5.1, "no zero is returned for "
                f"circular data of {norb:.2f} orbits", key="not-zero")
        return dict(nontrivial=True, labels=labels + ["short"])
    return dict(nontrivial=norb > 1, labels=labels + ["fails"])


def find(d, method, w, amp, om):
    """Clear maxima, or clear minima, whichever are fewer, of the data."""
    y = amp if method == "Amplitude" else om
    y = y[2:-2]
    dy = np.diff(y)
    noise = 1e-9 * np.max(np.abs(y))
    up = np.where(dy > noise, 1, np.where(dy < -noise, -1, 0))
    up = up[up != 0]
    turn = np.diff(up)
    mx, mn = np.flatnonzero(turn < 0), np.flatnonzero(turn > 0)
    return mx if len(mx) < len(mn) else mn


def circ_st(tier):
    f = fields((0.1, 0.1))
    f["few"] = st.none()
    f["method"] = st.sampled_from(["Amplitude", "Frequency"])
    return st.fixed_dictionaries(f)


def run_circ(case):
    """Exactly circular: there is nothing to find."""
    syn, d, w, ph, t, x, kw, key = setup(case, 0.0)
    amp, om = amp_of(d)[w], np.gradient(ph[w], t)
    if not (np.all(np.diff(amp) > 0) and np.all(np.diff(om)[2:-2] > 0)):
        raise Discard("not monotonic")
    norb = (ph[w][-1] - ph[w][0]) / (2 * TWO_PI)
    absent, off, on = both(
        d, case, kw,
        treat_mid_points_between_pericenters_as_apocenters=case["mid"])
    for r, e in (absent, off):
        require(e is not None, f"circular data give eccentricity "
                f"{r and r['eccentricity']} without the option",
                key="no-error")
        require("xtrem" in str(e) or "centers" in str(e),
                f"the error is not about extrema: {e!r}", key="message")
    if norb > 5.05:
        require(on[1] is None, f"no zero for {norb:.2f} orbits of circular "
                f"data: {on[1]!r}", key="not-zero")
        check_zero(case, x, on[0], key)
    elif norb < 4.95:
        require(on[1] is not None, "zero is returned for data of "
                f"{norb:.2f} orbits", key="short")
    else:
        raise Discard("borderline")
    return dict(nontrivial=True, labels=[
        case["method"], case["domain"], "long" if norb > 5 else "short"])


def one_st(tier):
    f = fields((0.1, 0.5))
    f["few"] = st.none()
    f["method"] = st.sampled_from([m for m in METHODS if m not in FITS])
    f["drop"] = st.sampled_from(["pericenters", "apocenters"])
    f["left"] = st.integers(0, 2)
    f["nexcl"] = st.sampled_from([2, 2, 1, 3])
    return st.fixed_dictionaries(f)


def run_one(case):
    """Extrema of one kind only, the others being too low for the finder."""
    from .c20 import method_data
    syn, d, w, ph, t, x, kw, key = setup(case)
    g, e = try_call(d, case["method"], tref=float(0.5 * (t[0] + t[-1])),
                    nexcl=case["nexcl"])
    if e is not None:
        raise Discard("not measurable")
    g = g["gwecc_object"]
    y = method_data(d, case["method"], len(g.t))
    n = case["left"]
    sign = 1 if case["drop"] == "pericenters" else -1
    v = np.sort(sign * y[find_peaks(sign * y)[0]])
    if len(v) < n + 2:
        raise Discard("too few extrema")
    h = 0.5 * (v[-1 - n] + v[-n]) if n else v[-1] + 1e-3 * np.ptp(y)
    more = {"omega_gw_extrema_interpolation_method": case["interp"],
            "treat_mid_points_between_pericenters_as_apocenters":
                case["mid"],
            "extrema_finding_kwargs": {"height": float(h), "width": 1}}
    counts = [len(find_peaks(s * y, height=h, width=1)[0]) for s in (1, -1)]
    if case["mid"]:
        counts[1] = max(counts[0] - 1, 0)
    absent, off, on = both(d, case, kw, **more)
    agree(absent, off, f"{OPT}=False instead of the default")
    if off[1] is None:
        agree(off, on, f"{OPT}=True for data that can be measured")
    norb = (ph[len(y) - 1] - ph[0]) / (2 * TWO_PI)
    if min(counts) >= 2:
        if off[1] is not None:
            agree(off, on, f"{OPT}=True with {counts} extrema")
        return dict(nontrivial=False, labels=["enough"])
    require(off[1] is not None, f"{counts} extrema are enough", key="no-error")
    if abs(norb - 5) < 0.1:
        raise Discard("borderline")
    if norb > 5:
        require(on[1] is None, f"no zero for {norb:.2f} orbits with {counts} "
                f"pericenters and apocenters: {on[1]!r}", key="not-zero")
        check_zero(case, x, on[0], key)
    else:
        require(on[1] is not None, "zero is returned for data of "
                f"{norb:.2f} orbits", key="short")
    return dict(nontrivial=True, labels=[
        case["method"], "mid" if case["mid"] else case["drop"], str(counts),
        "long" if norb > 5 else "short"])


BREAK = ["tref-outside", "no-22", "nan", "unequal", "bad-method", "bad-key",
         "fref-outside", "no-companion", "neg-excl", "mono", "empty",
         "merger-first"]


def other_st(tier):
    f = fields((0.1, 0.4))
    f["bad"] = st.sampled_from(BREAK)
    f["circular"] = st.booleans()
    f["few"] = st.none()
    return st.fixed_dictionaries(f)


def run_other(case):
    """Errors that have nothing to do with the eccentricity stay."""
    bad = case["bad"]
    circ = case["circular"] and bad not in ("tref-outside", "fref-outside",
                                            "mono")
    syn, d, w, ph, t, x, kw, key = setup(case, 0.0 if circ else None)
    case = dict(case)
    more = {}
    T = t[-1] - t[0]
    if bad == "tref-outside":
        kw = dict(tref=t[0] - 0.1 * T)
    elif bad == "fref-outside":
        kw = dict(fref=1e-7)
    elif bad == "no-22":
        for k in ("hlm", "amplm", "phaselm"):
            if k in d:
                d[k] = {(2, 1): d[k][(2, 2)]}
    elif bad == "nan":
        k = "hlm" if "hlm" in d else "amplm"
        y = d[k][(2, 2)].copy()
        y[:] = np.nan
        d[k] = {(2, 2): y}
    elif bad == "unequal":
        d["t"] = d["t"][:-3]
    elif bad == "bad-method":
        case["method"] = "Amplitudes"
    elif bad == "bad-key":
        more["refine"] = True
    elif bad == "no-companion":
        if "Residual" not in case["method"]:
            case["method"] = "ResidualAmplitude"
        d = {k: v for k, v in d.items() if "zeroecc" not in k}
    elif bad == "neg-excl":
        case["nexcl"] = 10000
    elif bad == "mono":
        d["t"] = d["t"][::-1].copy()
    elif bad == "empty":
        kw = dict(tref=np.array([]))
    elif bad == "merger-first":
        d["t"] = d["t"].copy()
        d["t"][5:] += 3.3 * syn.dt
    absent, off, on = both(d, case, kw, **more)
    agree(absent, off, f"{OPT}=False instead of the default")
    if off[1] is None:
        agree(off, on, OPT)
        return dict(nontrivial=False, labels=[bad, "accepted"])
    if "extrem" in str(off[1]) or "centers" in str(off[1]):
        # too few extrema after all
        return dict(nontrivial=False, labels=[bad, "extrema"])
    require(on[1] is not None, f"{bad}: the error {off[1]!r} is hidden: "
            f"{on[0] and on[0]['eccentricity']}", key="hidden")
    require(type(on[1]) is type(off[1]) and str(on[1]) == str(off[1]),
            f"{bad}: {off[1]!r} becomes {on[1]!r}", key="changes")
    return dict(nontrivial=True, labels=[bad])


SUBS = [
    Sub("small", small_st, run, 1000, 8000,
        "the calls were classified: measured, replaced by zero, or failed "
        "with more than one orbit of data"),
    Sub("circular", circ_st, run_circ, 400, 3000,
        "strictly monotonic data away from the five-orbit limit"),
    Sub("one-kind", one_st, run_one, 480, 4000,
        "fewer than two pericenters or apocenters are found"),
    Sub("other", other_st, run_other, 400, 3000,
        "the call fails for a reason other than the number of extrema"),
]
