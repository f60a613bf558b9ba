"""Case generation and measurement helpers shared by the property modules."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline

from . import boot  # noqa: F401
from .core import Discard, Violation, quiet  # noqa: F401
from .synth import Synth

TWO_PI = 2 * np.pi

METHODS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency",
           "AmplitudeFits", "FrequencyFits"]
PLAIN = ["Amplitude", "Frequency"]
RESIDUAL = ["ResidualAmplitude", "ResidualFrequency"]
FITS = ["AmplitudeFits", "FrequencyFits"]


def rfloat(lo, hi, digits=4):
    """Floats with few digits, so that printed cases are readable."""
    k = 10 ** digits
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(
        lambda i: i / k)


def synth_params(e0=(0.05, 0.5), norb=(14, 32), ppo=(45, 90), ratio=(2.0, 4.0),
                 k=(0.0, 0.15), n0=(0.006, 0.03), kinds=("kepler", "quad"),
                 tshift=None, dyadic_dt=False, amp=(0.05, 3.0)):
    """Strategy for the parameter dict of one synthetic inspiral."""
    d = dict(
        e0=rfloat(*e0), l0=rfloat(0, 6.28, 3), n0=rfloat(*n0, 5),
        norb=st.integers(*norb), ratio=rfloat(*ratio, 2),
        p=rfloat(0.9, 1.15, 2), k=rfloat(*k), phi0=rfloat(-3, 3, 2),
        amp=rfloat(*amp, 3), kind=st.sampled_from(list(kinds)),
        ppo=st.integers(*ppo))
    d["tshift"] = tshift if tshift is not None else st.just(0.0)
    d["merger"] = st.just(True)
    return st.fixed_dictionaries(d).map(with_precession)


def with_precession(c):
    """Make the pericenter advance resolvable by the sampling.

    General relativity always gives a positive advance.  The library relies
    on it: (2, 2) phase differences below 4 pi between successive extrema
    are taken for spurious extrema.  With extrema located to one sample, the
    advance per orbit has to exceed the phase swept in one sample.
    """
    c = dict(c)
    e0, r = c["e0"], c["ratio"]
    ee = e0 * r ** (-c["p"])
    need = max((1 + e0)**2 / (1 - e0**2)**1.5 / r,
               (1 + ee)**2 / (1 - ee**2)**1.5 / r ** (2. / 3)) / c["ppo"]
    c["k"] = round(1.2 * need + c["k"], 4)
    return c


def safe_e0(method, e0):
    """Map e0 into the range where every extremum exists for the method."""
    return e0


def method_st(methods=METHODS, weights=None):
    return st.sampled_from(list(methods))


def options_st():
    """Documented options that any relation has to survive ({} half the time).
    """
    return st.one_of(st.just({}), st.fixed_dictionaries({}, optional=dict(
        mid=st.booleans(), refine=st.booleans(),
        nexcl=st.sampled_from([1, 1.5, 2.5, 3]),
        fits=st.fixed_dictionaries({}, optional=dict(
            num_orbits=st.integers(3, 4),
            num_orbits_for_global_fit=st.integers(7, 12),
            distance_factor=rfloat(0.4, 0.6, 2),
            prominence_factor=rfloat(0.015, 0.03, 3))),
        gk=st.integers(2, 5), sk=st.integers(2, 4),
        degrees=st.tuples(st.integers(1, 4), st.integers(1, 4)),
        width=st.integers(2, 8))))


def with_options(extra, opts, method):
    """(extra_kwargs, num_orbits_to_exclude_before_merger) with the options.
    """
    extra = dict(extra)
    rat = extra.get("omega_gw_extrema_interpolation_method",
                    "rational_fit") == "rational_fit"
    if opts.get("mid"):
        extra["treat_mid_points_between_pericenters_as_apocenters"] = True
    if opts.get("refine") and method in FITS:
        extra["refine_extrema"] = True
    if "fits" in opts and method in FITS:
        extra["kwargs_for_fits_methods"] = dict(opts["fits"])
    if "gk" in opts:
        extra["general_interp_kwargs"] = {"k": opts["gk"]}
    if "sk" in opts and not rat:
        extra["special_interp_kwargs_for_omega_gw_extrema"] = \
            {"k": opts["sk"]}
    if "degrees" in opts and rat:
        extra["special_interp_kwargs_for_omega_gw_extrema"] = \
            {"degrees": tuple(opts["degrees"])}
    if "width" in opts and method not in FITS:
        extra["extrema_finding_kwargs"] = {"width": opts["width"]}
    return extra, opts.get("nexcl", 2)


def needs_zeroecc(method):
    return "Residual" in method


def build(syn, method=None, rep="hlm", zeroecc=None):
    """Input dictionary for a Synth object."""
    z = needs_zeroecc(method) if zeroecc is None and method else bool(zeroecc)
    d = syn.data("hlm", zeroecc=z)
    if rep == "hlm":
        return d
    return to_amp_phase(d)


def to_amp_phase(d):
    out = {k: v for k, v in d.items() if not k.startswith("hlm")}
    for tag in ("", "_zeroecc"):
        if "hlm" + tag in d:
            out["amplm" + tag] = {m: np.abs(h)
                                  for m, h in d["hlm" + tag].items()}
            out["phaselm" + tag] = {m: -np.unwrap(np.angle(h))
                                    for m, h in d["hlm" + tag].items()}
    return out


def call(data, method, tref=None, fref=None, extra=None, nexcl=2, debug=-1,
         **kw):
    """measure_eccentricity with the library's chatter silenced."""
    from gw_eccentricity import measure_eccentricity
    with quiet():
        return measure_eccentricity(
            tref_in=tref, fref_in=fref, method=method, dataDict=data,
            num_orbits_to_exclude_before_merger=nexcl,
            extra_kwargs=extra, debug_level=debug, **kw)


def try_call(*a, **k):
    try:
        return call(*a, **k), None
    except Exception as e:  # noqa: BLE001  (classified by the caller)
        return None, e


def pick_times(g, fracs, pad=0.0):
    """Times at the given fractions of [tmin, tmax]."""
    f = np.asarray(fracs, float)
    return g.tmin + (g.tmax - g.tmin) * (pad + (1 - 2 * pad) * f)


def probe(data, method, extra=None, nexcl=2, frac=0.5, **kw):
    """First measurement: discover tmin/tmax of a waveform.

    Uses the time array's middle as the reference time.
    """
    t = data["t"]
    tref = t[0] + frac * (t[-1] - t[0])
    return call(data, method, tref=float(tref), extra=extra, nexcl=nexcl, **kw)


def probe_options(data, method, extra, nexcl, opts, **kw):
    """As probe; options may make the library refuse a waveform."""
    try:
        return probe(data, method, extra=copy.deepcopy(extra),
                     nexcl=nexcl, **kw)["gwecc_object"]
    except Exception:
        if not opts:
            raise
        raise Discard("refused with these options")


def ang(a, b):
    """Circular distance."""
    d = np.abs(np.asarray(a) - np.asarray(b)) % TWO_PI
    return np.minimum(d, TWO_PI - d)


def snapshot(obj):
    """Deep copy of nested dict/list/array input, for mutation checks."""
    return copy.deepcopy(obj)


def same(a, b, path="input"):
    """None if identical (types, dtypes, bits), else a description."""
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, dict):
        if list(a.keys()) != list(b.keys()):
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            r = same(a[k], b[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return (f"{path}: array {a.dtype}{a.shape} became "
                    f"{b.dtype}{b.shape}")
        if a.tobytes() != b.tobytes():
            i = np.flatnonzero(a != b)
            return f"{path}: {len(i)} array elements changed"
        return None
    if a != b and not (a != a and b != b):
        return f"{path}: {a!r} became {b!r}"
    return None


def extrema_averages(data, g):
    """(t, <omega>) between neighbouring extrema of one kind, sorted by time.

    Eqs. (12) and (13) of arXiv:2302.11257, from the caller's data.
    """
    t = np.asarray(data["t"], float)
    phase = (data["phaselm"][(2, 2)] if "phaselm" in data
             else -np.unwrap(np.angle(data["hlm"][(2, 2)])))
    out = []
    for x in (g.t_pericenters, g.t_apocenters):
        x = np.asarray(x, float)
        i = np.clip(np.searchsorted(t, x - 0.5 * (t[1] - t[0])), 0,
                    len(t) - 1)
        out.append((0.5 * (x[1:] + x[:-1]),
                    np.diff(phase[i]) / np.diff(x)))
    tm = np.concatenate([o[0] for o in out])
    w = np.concatenate([o[1] for o in out])
    k = np.argsort(tm, kind="stable")
    return tm[k], w[k]


def orbits_speed_up(data, g):
    """Discards waveforms whose orbit averages do not increase with time."""
    _, w = extrema_averages(data, g)
    if np.any(np.diff(w) < 1e-6 * w[:-1]):
        raise Discard("orbit averages do not increase with time")


def fref_window(data, method, g, extra):
    """[fmin, fmax) in which this waveform can be measured by frequency.

    Reference frequencies need an average frequency that increases with
    time; the library documents that it refuses any other waveform.  Whether
    it increases is decided here, from the data and the reported extrema.
    """
    extra = extra or {}
    avg = extra.get("omega_gw_averaging_method", "orbit_averaged_omega_gw")
    if avg == "orbit_averaged_omega_gw":
        tm, w = extrema_averages(data, g)
        if np.any(np.diff(w) < 1e-6 * w[:-1]):
            raise Discard("orbit averages do not increase with time")
        t = np.asarray(data["t"], float)
        t = t[(t >= tm[0]) & (t <= tm[-1])]
        k = extra.get("general_interp_kwargs", {}).get("k", 3)
        w = InterpolatedUnivariateSpline(tm, w, k=k)(t)
        if np.any(np.diff(w) < 1e-9 * w[:-1]):
            raise Discard("orbit averages do not increase with time")
    elif avg == "mean_of_extrema_interpolants":
        t = np.asarray(data["t"], float)
        t = t[(t >= g.tmin) & (t <= g.tmax)]
        w = 0.5 * (g.omega_gw_pericenters_interp(t)
                   + g.omega_gw_apocenters_interp(t))
        if np.any(np.diff(w) < 1e-9 * w[:-1]):
            raise Discard("mean of the extrema does not increase with time")
    return g.get_fref_bounds()


def rounding_tol(case, ga, gb):
    """(eccentricity, anomaly) change that rounding of the input may cause.

    Splines and rational fits of the same degrees only pass rounding on.
    Rational fits choose their degrees by a monotonicity test, and the last
    digits may decide it; if the reference time is found from the mean of two
    such fits it moves with them.
    """
    if case["interp"] == "spline":
        return 1e-6, 1e-4
    moves = (case.get("domain") == "frequency"
             and case.get("avg") == "mean_of_extrema_interpolants")
    if ga.rational_fit_degrees == gb.rational_fit_degrees:
        return (1e-3, 0.05) if moves else (3e-4, 1e-3)
    return (3e-2, 0.3) if moves else (2e-2, 1e-3)
