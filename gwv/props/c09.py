"""C09: invalid input is rejected with an explanation, never measured."""
import numpy as np
from hypothesis import strategies as st

from .. import boot
from ..core import Discard, Sub, Violation, quiet, require
from ..meas import (FITS, METHODS, PLAIN, RESIDUAL, build, call, method_st,
                    probe, rfloat, synth_params, to_amp_phase, try_call)
from ..precess import aligned_modes
from ..synth import TWO_PI, Synth
from .c11 import amp_of, peak_time, phase_of

ID = "C09"
ASSUMPTIONS = [
    "only corruptions that the documentation or the code's own checks name "
    "as invalid are generated; arrays with NaN or of different lengths are "
    "not among them"]

# Accidents inside the code are not a refusal.
ACCIDENTS = (TypeError, IndexError, AttributeError, ZeroDivisionError,
             NameError, AssertionError, RuntimeError, ArithmeticError,
             np.linalg.LinAlgError)

WORDS = ["widths", "ext", "Degrees", "method", "interp", "num_orbit",
         "order", "threshold", "kk", "foo_bar", "debug_level", "tref_in"]
TAGS = ["", "_zeroecc"]


def unknown(case, allowed=()):
    w = case["word"]
    while w in allowed:
        w += "_x"
    return w


class Skip(Exception):
    """This corruption does not apply to this call."""


# Each corruption edits the call in place and returns (exception types or
# None, words of which one must be in the message).

def need_companion(c, case):
    if "t_zeroecc" not in c["data"]:
        raise Skip
    if c["method"] not in RESIDUAL:
        c["method"] = RESIDUAL[case["i"] % 2]


def both_refs(c, case):
    c["tref"], c["fref"] = c["t_ok"], c["f_ok"]
    return (KeyError,), ["tref_in", "fref_in"]


def neither_ref(c, case):
    c["tref"] = c["fref"] = None
    return (KeyError,), ["tref_in", "fref_in"]


def bad_method(c, case):
    m = c["method"]
    c["method"] = [m.lower(), m + " ", m[:-1], "Residual", "", None,
                   m + "Fits" + case["word"]][case["i"] % 7]
    return None, ["method"]


def bad_frame(c, case):
    c["kw"]["frame"] = ["Inertial", "co-precessing", "", None, "ecliptic",
                        case["word"]][case["i"] % 6]
    return (ValueError,), ["frame"]


def bad_option(c, case):
    from_case = unknown(case)
    k = {"widths": "extrema_finding_kwarg", "ext": "spline_kwargs",
         "method": "omega_gw_average_method"}.get(from_case, from_case)
    c["extra"][k] = [None, True, {}, 3][case["i"] % 4]
    return (ValueError,), [k]


def nested(opt, allowed, **need):
    def f(c, case):
        if need.get("fits") and c["method"] not in FITS:
            c["method"] = FITS[case["j"] % 2]
        if need.get("precessing"):
            c["kw"]["precessing"] = True
        k = unknown(case, allowed)
        v = dict(c["extra"].get(opt) or {})
        v[k] = [None, 1, 0.5, "x"][case["i"] % 4]
        c["extra"][opt] = v
        return (ValueError,), [k]
    return f


SPLINE_KEYS = ("w", "bbox", "k", "ext", "check_finite")


def bad_interp(c, case):
    c["extra"]["omega_gw_extrema_interpolation_method"] = [
        "Spline", "rational", "linear", "", None, "pchip"][case["i"] % 6]
    return None, ["omega_gw"]


def bad_average(c, case):
    c["tref"], c["fref"] = None, c["f_ok"]
    c["extra"]["omega_gw_averaging_method"] = [
        "orbit_averaged", "mean", "", None, "omega_gw_zero", "mean_motion"
        ][case["i"] % 6]
    return (KeyError,), ["averaging"]


def average_without_companion(c, case):
    if c["method"] in RESIDUAL:
        c["method"] = PLAIN[case["i"] % 2]
    for k in list(c["data"]):
        if k.endswith("_zeroecc"):
            del c["data"][k]
    c["tref"], c["fref"] = None, c["f_ok"]
    c["extra"]["omega_gw_averaging_method"] = "omega_gw_zeroecc"
    return None, ["zeroecc"]


def no_time(c, case):
    del c["data"]["t"]
    return None, ["'t'", "time"]


def no_modes(c, case):
    for k in ("hlm", "amplm", "phaselm", "omegalm"):
        c["data"].pop(k, None)
    return None, ["hlm"]


def half_polar(c, case):
    """Amplitude without phase or the other way round."""
    d = to_amp_phase(c["data"])
    # an unused companion may be incomplete
    tag = TAGS[case["i"] % 2] if c["method"] in RESIDUAL else ""
    del d[["amplm", "phaselm"][case["j"] % 2] + tag]
    if case["j"] % 3 == 0 and not tag:
        for x in TAGS:
            if "phaselm" + x in d:
                d["omegalm" + x] = {m: np.gradient(p, d["t" + x]) for m, p in
                                    d["phaselm" + x].items()}
    c["data"] = d
    return None, ["amplm", "phaselm", "hlm"]


def two_forms(c, case):
    """The same modes both as hlm and as amplitude and phase."""
    d = to_amp_phase(c["data"]) if "hlm" in c["data"] else dict(c["data"])
    tag = TAGS[case["i"] % 2] if "t_zeroecc" in d else ""
    d["hlm" + tag] = {m: d["amplm" + tag][m] * np.exp(
        -1j * d["phaselm" + tag][m]) for m in d["amplm" + tag]}
    drop = [(), ("amplm",), ("phaselm",)][case["j"] % 3]
    for k in drop:
        del d[k + tag]
    c["data"] = d
    return None, ["hlm"]


def no_companion(c, case):
    if c["method"] not in RESIDUAL:
        c["method"] = RESIDUAL[case["i"] % 2]
    for k in list(c["data"]):
        if k.endswith("_zeroecc") and (case["j"] % 2 or k[0] != "t"):
            del c["data"][k]
    return None, ["zeroecc"]


def _edit_modes(d, tag, f):
    for k in ("hlm", "phaselm", "omegalm"):
        k += tag
        if k in d:
            d[k] = {m: f(k, v) for m, v in d[k].items()}


def phase_sign(c, case):
    """h = A exp(+i phase): the phase decreases."""
    _edit_modes(c["data"], "", lambda k, v: np.conj(v) if k[0] == "h" else -v)
    return None, ["phase", "omega"]


def negative_omega(c, case):
    """omegalm of the wrong sign next to a right phase."""
    d = to_amp_phase(c["data"]) if "hlm" in c["data"] else dict(c["data"])
    d["omegalm"] = {m: -np.gradient(p, d["t"])
                    for m, p in d["phaselm"].items()}
    c["data"] = d
    return None, ["omega"]


def negative_exclusion(c, case):
    c["nexcl"] = [-1, -2, -0.5, -10, -1e-3][case["i"] % 5]
    return (ValueError,), ["num_orbits_to_exclude"]


def too_much_exclusion(c, case):
    c["nexcl"] = c["norb"] + 5 + case["i"]
    return None, ["orbits"]


def all_but_few(c, case):
    """An exclusion that leaves a handful of samples, or none."""
    d = c["data"]
    t, ph, am = np.asarray(d["t"], float), phase_of(d), amp_of(d)
    end = np.interp(peak_time(t, am), t, ph)
    left = case["i"] % 8
    c["nexcl"] = (end - ph[left] - 1e-6 * (ph[1] - ph[0])) / (4 * np.pi)
    return None, ["orbits", "found", "too short"]


def nonuniform(c, case):
    """One sample, or all later ones, off the grid."""
    t = np.array(c["data"]["t"], float)
    i = int(case["x"] * 0.6 * len(t)) + 1
    dt = (t[1] - t[0]) * case["size"]
    if case["j"] % 3 == 0:
        t[i] += dt
    elif case["j"] % 3 == 1:
        t[i:] += dt
    else:
        t[i:] = t[i] + (t[i:] - t[i]) * (1 + case["size"])
    c["data"]["t"] = t
    return None, ["uniform"]


def nonuniform_companion(c, case):
    need_companion(c, case)
    t = np.array(c["data"]["t_zeroecc"], float)
    i = int(case["x"] * 0.9 * len(t)) + 1
    t[i if case["j"] % 2 else slice(i, None)] += \
        (t[1] - t[0]) * case["size"]
    c["data"]["t_zeroecc"] = t
    return None, ["uniform"]


def reversed_time(c, case):
    """Decreasing times."""
    d = c["data"]
    d["t"] = d["t"][::-1].copy()
    return None, None


def companion_starts_late(c, case):
    need_companion(c, case)
    d = c["data"]
    i = np.searchsorted(d["t_zeroecc"], d["t"][0])
    i += 2 + int(case["x"] * 0.5 * len(d["t"]))
    for k in d:
        if k == "t_zeroecc":
            d[k] = d[k][i:]
        elif k.endswith("_zeroecc"):
            d[k] = {m: v[i:] for m, v in d[k].items()}
    return None, ["zeroecc"]


def refs_outside(c, case):
    out = []
    if case["j"] % 2:
        c["fref"], (lo, hi), n = None, c["t_lim"], "tref"
        span = hi - lo
        eps = 1e-3 * span
    else:
        c["tref"], (lo, hi), n = None, c["f_lim"], "fref"
        span = hi - lo
        eps = 1e-3 * lo
    for s in case["where"]:
        out.append(lo - eps - abs(s) * span if s < 0 else
                   hi + eps + s * span)
    if n == "fref":
        out = [f for f in out if f > 0] or [2 * hi]
    c[n] = [np.array(out), out, out[0]][case["i"] % 3]
    return None, ["range", "outside", "empty"]


def bad_debug(c, case):
    """Needs a message to be shown: an unrecognised entry gives one."""
    c["data"]["unrelated"] = 1
    c["debug"] = [3, -2, 5, 0.5, 10, -1.5][case["i"] % 6]
    return (ValueError,), ["debug_level"]


def strict_debug(c, case):
    c["data"]["unrelated_" + case["word"]] = 1
    c["debug"] = 2
    return None, ["unrelated_" + case["word"]]


def _precess(c):
    d = c["data"]
    for tag in TAGS:
        if "hlm" + tag in d:
            d["hlm" + tag] = aligned_modes(d["hlm" + tag][(2, 2)], 1e-3)
    c["kw"]["precessing"] = True


def missing_mode(c, case):
    """Inertial data need every l = 2 mode."""
    if "hlm" not in c["data"]:
        raise Skip
    _precess(c)
    c["kw"]["frame"] = "inertial"
    m = [-2, -1, 0, 1, 2][case["i"] % 5]
    d = c["data"]
    if case["j"] % 2:
        d["hlm"] = {k: v for k, v in d["hlm"].items() if k != (2, m)}
        if not d["hlm"]:
            raise Skip
    else:
        d["hlm"] = {(2, 2): d["hlm"][(2, 2)]}
    return "any", None


def missing_m2(c, case):
    """Precessing data need (2, -2) in any frame."""
    c["kw"].update(precessing=True, frame="coprecessing")
    return None, ["-2"]


def bad_filter_type(c, case):
    if "hlm" not in c["data"]:
        raise Skip
    _precess(c)
    d = c["data"]
    for tag in TAGS:
        if "hlm" + tag in d:
            # enough asymmetry for the filter to be used
            d["hlm" + tag][(2, -2)] = 0.5 * d["hlm" + tag][(2, -2)]
    c["kw"]["frame"] = "coprecessing"
    c["extra"]["filter_kwargs"] = {"no_such_filter_option": 1}
    return (ValueError,), ["no_such_filter_option"]


CORRUPTIONS = {
    f.__name__: f for f in (
        both_refs, neither_ref, bad_method, bad_frame, bad_option, bad_interp,
        bad_average, average_without_companion, no_time, no_modes, half_polar,
        two_forms, no_companion, phase_sign, negative_omega,
        negative_exclusion, too_much_exclusion, all_but_few, nonuniform,
        nonuniform_companion, reversed_time, companion_starts_late,
        refs_outside, bad_debug, strict_debug, missing_mode, missing_m2,
        bad_filter_type)}
CORRUPTIONS["nested_extrema"] = nested(
    "extrema_finding_kwargs",
    ("height", "threshold", "distance", "prominence", "width", "wlen",
     "rel_height", "plateau_size"))
CORRUPTIONS["nested_general"] = nested("general_interp_kwargs", SPLINE_KEYS)
CORRUPTIONS["nested_special"] = nested(
    "special_interp_kwargs_for_omega_gw_extrema",
    SPLINE_KEYS + ("degrees", "max_iterations", "verbose", "tol"))
CORRUPTIONS["nested_fits"] = nested(
    "kwargs_for_fits_methods",
    ("nPN", "fit_bounds_max_amp_factor",
     "fit_bounds_max_nPN_factor", "prominence_factor", "distance_factor",
     "num_orbits", "return_diagnostics"), fits=True)


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.08, 0.4), norb=(13, 16), ppo=(45, 55)),
        method=method_st(METHODS[:4] * 2 + METHODS[4:]),
        rep=st.sampled_from(["hlm", "amp"]),
        domain=st.sampled_from(["time", "frequency"]),
        scalar=st.booleans(), companion=st.booleans(),
        interp=st.sampled_from(["spline", "rational_fit"]),
        zero=st.booleans(), debug=st.sampled_from([-1, 0, 1]),
        whats=st.lists(st.sampled_from(sorted(CORRUPTIONS)), min_size=6,
                       max_size=12, unique=True),
        word=st.sampled_from(WORDS), i=st.integers(0, 40),
        j=st.integers(0, 5), x=rfloat(0, 1, 3),
        size=st.sampled_from([1e-3, 1e-2, 0.1, 0.3, 0.45]),
        where=st.lists(rfloat(-0.9, 5, 2), min_size=1, max_size=3)))


_limits = {}


def limits(d, method, interp):
    """[tmin, tmax] and [fmin, fmax] of the valid call."""
    g = probe(dict(d), method,
              extra={"omega_gw_extrema_interpolation_method": interp}
              )["gwecc_object"]
    with quiet():
        try:
            f = g.get_fref_bounds()
        except Exception:
            raise Discard("orbit averages do not increase with time")
    return (g.tmin, g.tmax), f


def run(case):
    syn = Synth(case["syn"])
    method = case["method"]
    d = build(syn, method, case["rep"],
              zeroecc=case["companion"] or method in RESIDUAL)
    tl, fl = limits(d, method, case["interp"])
    labels = []
    c = valid_call(case, d, tl, fl, syn)
    _, err = go(c)
    if err is not None and c["fref"] is not None and "monoton" in str(err):
        raise Discard("orbit averages do not increase with time")
    require(err is None, f"the valid call raises {type(err).__name__}: {err}",
            key="valid-raises")
    for what in case["whats"]:
        c = valid_call(case, d, tl, fl, syn)
        try:
            types, words = CORRUPTIONS[what](c, case)
        except Skip:
            continue
        labels.append(what)
        judge(what, types, words, *go(c))
    return dict(nontrivial=bool(labels), labels=labels + [method])


def valid_call(case, d, tl, fl, syn):
    c = dict(
        data={k: dict(v) if isinstance(v, dict) else v
              for k, v in d.items()},
        method=case["method"], tref=None, fref=None, nexcl=2,
        debug=case["debug"], kw={}, norb=syn.c["norb"], t_lim=tl, f_lim=fl,
        extra={"omega_gw_extrema_interpolation_method": case["interp"],
               # the fallback for small eccentricity hides nothing
               "return_zero_if_small_ecc_failure": case["zero"]})
    x = np.array([0.3, 0.6])
    c["t_ok"] = tl[0] + x * (tl[1] - tl[0])
    c["f_ok"] = fl[0] + x * (fl[1] - fl[0])
    if case["scalar"]:
        c["t_ok"], c["f_ok"] = float(c["t_ok"][0]), float(c["f_ok"][0])
    if case["domain"] == "time":
        c["tref"] = c["t_ok"]
    else:
        c["fref"] = c["f_ok"]
    return c


def go(c):
    return try_call(c["data"], c["method"], tref=c["tref"], fref=c["fref"],
                    extra=c["extra"], nexcl=c["nexcl"], debug=c["debug"],
                    **c["kw"])


def judge(what, types, words, res, err):
    require(err is not None,
            f"{what}: measured as if valid, eccentricity "
            f"{res and np.atleast_1d(res['eccentricity'])[:3]}", key=what)
    if types == "any":
        return
    msg = str(err)
    require(not isinstance(err, ACCIDENTS),
            f"{what}: breaks down with {type(err).__name__}: {msg}",
            key=what + "-accident")
    if types:
        require(isinstance(err, types), f"{what}: raises "
                f"{type(err).__name__}, not {types[0].__name__}: {msg}",
                key=what + "-type")
    if words:
        require(any(w.lower() in msg.lower() for w in words)
                and len(msg) > 12,
                f"{what}: the message does not say what is wrong: "
                f"{type(err).__name__}: {msg}", key=what + "-message")


# ---- loaders -----------------------------------------------------------

def load_st(tier):
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(["origin", "option", "missing", "docs",
                              "defaults"]),
        origin=st.sampled_from(["LAL", "LVCNR", "LVCNR_hack", "EOB", "EMRI",
                                "SXSCatalog_old"]),
        word=st.sampled_from(WORDS), i=st.integers(0, 20)))


def run_load(case):
    from gw_eccentricity import load_data
    with quiet():
        o = case["origin"]
        w = case["word"]
        bad = [o.lower(), o + "_x", "", w, "lal", o + " "][case["i"] % 6]
        if bad in load_data.get_available_waveform_origins():
            bad = "no-such-origin"
        if case["what"] in ("docs", "defaults", "origin"):
            f = {"docs": lambda: load_data.get_load_waveform_docs(bad),
                 "defaults": lambda: load_data.get_load_waveform_defaults(
                     bad),
                 "origin": lambda: load_data.load_waveform(bad)}
            token = bad
            f = f[case["what"]]
        elif case["what"] == "option":
            kw = load_data.get_load_waveform_defaults(o)
            while w in kw:
                w += "_x"
            kw[w] = case["i"]
            token = w

            def f():
                return load_data.load_waveform(o, **kw)
        else:
            kw = load_data.get_load_waveform_defaults(o)
            none = [k for k in sorted(kw) if kw[k] is None]
            # the file (or system) to load is never given
            token = None

            def f():
                return load_data.load_waveform(o, **kw)
            if not none or o in ("LAL",):
                raise Discard("nothing is missing in the defaults")
        try:
            f()
        except Exception as e:  # noqa: BLE001
            require(token is None or token in str(e),
                    f"{case['what']}: {type(e).__name__} does not name "
                    f"{token!r}: {e}", key="load-message")
            return dict(nontrivial=True, labels=[case["what"], o])
        raise Violation(f"{case['what']} {token!r} of {o} is accepted",
                        key="load-" + case["what"])


SUBS = [Sub("call", case_st, run, 800, 8000,
            "the uncorrupted call succeeds and a corruption applies to it; "
            "a case tries several corruptions of one call"),
        Sub("load", load_st, run_load, 300, 1500,
            "an unknown origin or option is given, or a required one is "
            "missing")]
