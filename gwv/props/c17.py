"""C17: numerical building blocks are exact where they must be."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import rfloat

ID = "C17"
ASSUMPTIONS = ["rounding is judged relative to the largest value times a "
               "factor of up to 1e4 for nearly degenerate grids"]
EPS = np.finfo(float).eps


def utils():
    from gw_eccentricity import utils as u
    return u


def poly_st(maxdeg):
    return st.lists(rfloat(-3, 3, 2), min_size=1, max_size=maxdeg + 1)


# ---------------------------------------------------------------- derivative
def deriv_st(tier):
    return st.fixed_dictionaries(dict(
        c=poly_st(4), n=st.integers(5, 60), lo=rfloat(-2, 2, 2),
        width=rfloat(0.5, 3, 2), sdt=st.integers(-40, 40),
        sy=st.integers(-40, 40), kind=st.sampled_from(
            ["poly", "poly", "wave", "random"]),
        w=rfloat(0.3, 2, 2), ph=rfloat(0, 6, 2), n2=st.integers(12, 60),
        vals=st.lists(rfloat(-1, 1, 3), min_size=60, max_size=60),
        cplx=st.booleans(), ints=st.booleans()))


def run_deriv(case):
    D = utils().time_deriv_4thOrder
    n, kind = case["n"], case["kind"]
    x = case["lo"] + case["width"] * np.linspace(0, 1, n)
    dt = x[1] - x[0]
    labels = [kind]
    if kind == "poly" and case["ints"]:
        x, dt = np.arange(n), 1
        y = np.polyval([int(v) for v in case["c"]], x)
        dy = np.polyval(np.polyder([int(v) for v in case["c"]]), x)
        labels.append("ints")
    elif kind == "poly":
        y = np.polyval(case["c"], x)
        dy = np.polyval(np.polyder(case["c"]), x)
    elif kind == "wave":
        # fourth order: halving the step divides the error by 16
        w = case["w"]
        err = []
        for m in (200, 400):
            xx = np.linspace(0, 10, m + 1)
            e = np.abs(D(np.sin(w * xx + case["ph"]), xx[1]) - w * np.cos(
                w * xx + case["ph"]))
            # every point, the ones at the ends included
            err.append([np.max(e[:3]), np.max(e[3:-3]), np.max(e[-3:])])
        for name, a, b in zip(("start", "interior", "end"), *err):
            # the leading term of the error can vanish at the ends
            hi = 30 if name == "interior" else 1e9
            require(b < 1e-12 or (a < 1e-3 and 8 < a / b < hi) or
                    (name != "interior" and b < 2e-6 * w),
                    f"error at the {name}: {a:.2e} and with half the step "
                    f"{b:.2e}", key="order")
        return dict(nontrivial=True, labels=labels)
    else:
        y = np.array(case["vals"][:n])
        dy = None
    if case["cplx"]:
        y = y * (1 + 2j)
        dy = None if dy is None else dy * (1 + 2j)
    keep = y.copy()
    d = D(y, dt)
    require(np.array_equal(y, keep), "the data are changed", key="mutate")
    require(np.shape(d) == np.shape(y), f"shape {np.shape(d)} for "
            f"{np.shape(y)}", key="form")
    big = np.max(np.abs(y)) / dt
    if dy is not None:
        err = np.max(np.abs(d - dy))
        require(err <= 1e3 * EPS * big + 1e-300, "derivative of a polynomial "
                f"of degree {len(case['c']) - 1} is off by {err:.2e} at "
                f"{int(np.argmax(np.abs(d - dy)))} of {n}", key="exact")
    yf = y.astype(complex if case["cplx"] else float)
    d = D(yf, dt)
    # units
    a, b = 2.0 ** case["sdt"], 2.0 ** case["sy"]
    require(np.max(np.abs(D(b * yf, a * dt) * (a / b) - d))
            <= 4 * EPS * big, "depends on the units", key="unit")
    # reversal of time
    require(np.max(np.abs(D(yf[::-1].copy(), dt)[::-1] + d))
            <= 100 * EPS * big, "not odd under the reversal of time",
            key="reverse")
    # linear
    z = np.cos(np.arange(n) * 1.0)
    require(np.max(np.abs(D(yf + 3 * z, dt) - d - 3 * D(z, dt)))
            <= 1e3 * EPS * (big + 3 / dt), "not linear", key="linear")
    return dict(nontrivial=kind == "random" or len(case["c"]) > 2,
                labels=labels)


# ---------------------------------------------------------------- peak time
def peak_st(tier):
    return st.fixed_dictionaries(dict(
        n=st.integers(5, 60), at=rfloat(-0.05, 1.05, 3), h=rfloat(0.1, 5, 2),
        curv=rfloat(0.5, 4, 2), kind=st.sampled_from(
            ["parabola", "parabola", "uneven", "gauss", "rise"]),
        up=st.booleans(), s=st.integers(-30, 30), sy=st.integers(-30, 30),
        shift=st.sampled_from([0.0, 100.0, -3000.0]),
        jit=st.lists(rfloat(-0.3, 0.3, 3), min_size=60, max_size=60)))


def run_peak(case):
    P = utils().peak_time_via_quadratic_fit
    n = case["n"]
    t = np.arange(n) * 1.0
    if case["kind"] == "uneven":
        t = t + np.array(case["jit"][:n])
    t = t + case["shift"]
    tp = t[0] + case["at"] * (t[-1] - t[0])
    if case["kind"] == "gauss":
        s = 3.0 * case["curv"]
        f = case["h"] * np.exp(-((t - tp) / s) ** 2)
    elif case["kind"] == "rise":
        # chirping data that end before their peak
        if case["up"]:
            f = case["h"] * np.exp(case["curv"] * (t - t[0]) / n)
        else:
            f = case["h"] * (t[-1] - t + 1 + abs(case["at"]) * n) ** -0.25
        tp = t[-1]
    else:
        f = case["h"] - case["curv"] * (t - tp) ** 2
    with quiet():
        got, val = P(t.copy(), f.copy())
    inside = 2.5 < (tp - t[0]) < t[-1] - t[0] - 2.5
    scale = 1 + np.max(np.abs(f[np.argsort(np.abs(t - tp))[:5]]))
    if case["kind"] == "rise":
        q = np.polyfit(t[-5:] - t[-3], f[-5:], 2)
        vertex = t[-3] - q[1] / q[0] / 2
        known = q[0] > 0 and abs(got - vertex) < 1e-4 * (t[-1] - vertex)
        require(got >= t[-5], f"data that rise until their end at {t[-1]} "
                f"have the peak {val} at {got}",
                key="convex-end-vertex" if known else "rise")
    elif case["kind"] != "gauss":
        tol = 1e-9 * (1 + np.max(np.abs(t))) * max(1, case["h"])
        require(abs(got - tp) < tol, f"the peak of a parabola at {tp} is put "
                f"at {got}", key="time")
        require(abs(val - case["h"]) < 1e-8 * scale * (1 + abs(tp)),
                f"the maximum is {val}, not {case['h']}", key="value")
    elif inside:
        require(abs(got - tp) < 0.35, f"the peak at {tp} is put at {got}",
                key="time")
    # units
    a, b = 2.0 ** case["s"], 2.0 ** case["sy"]
    with quiet():
        g2, v2 = P(a * t, b * f)
    require(abs(g2 / a - got) < 1e-6 * (1 + abs(got - t[0]))
            and abs(v2 / b - val) < 1e-6 * scale,
            f"the peak {got}, {val} becomes {g2 / a}, {v2 / b} in units of "
            f"{a}, {b}", key="unit")
    # origin of time
    with quiet():
        g3, v3 = P(t + 64.0, f)
    require(abs(g3 - 64.0 - got) < 1e-8 * (1 + abs(got)),
            "depends on the origin of time", key="origin")
    return dict(nontrivial=case["kind"] != "parabola" or inside,
                labels=[case["kind"], "inside" if inside else "edge"])


# -------------------------------------------------------------- interpolation
def interp_st(tier):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 30), c=poly_st(3),
        jit=st.lists(rfloat(0.05, 1, 3), min_size=30, max_size=30),
        vals=st.lists(rfloat(-1, 1, 3), min_size=30, max_size=30),
        kind=st.sampled_from(["spline", "spline", "monotonic_spline",
                              "cubic_spline"]),
        what=st.sampled_from(["nodes", "nodes", "poly", "outside", "extra",
                              "order", "length", "monotone", "option"]),
        allow=st.booleans(), side=st.booleans(), k=st.integers(1, 5),
        d=rfloat(0.01, 3, 2), fr=st.lists(rfloat(0, 1, 3), min_size=1,
                                          max_size=8)))


def fails(f):
    try:
        with quiet():
            return f(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def run_interp(case):
    u = utils()
    n, kind, what = case["n"], case["kind"], case["what"]
    x = np.cumsum(case["jit"][:n])
    y = np.array(case["vals"][:n])
    new = x[0] + (x[-1] - x[0]) * np.array(case["fr"])
    new = np.clip(new, x[0], x[-1])
    labels = [kind, what]
    kw = {}
    if kind == "spline" and what != "option" and case["k"] < 5:
        kw["spline_kwargs"] = {"k": case["k"]}
    k = case["k"] if kw else 3
    opts = copy.deepcopy(kw)

    def I(new, x=x, y=y, **more):
        kk = dict(copy.deepcopy(kw), interpolator=kind)
        kk.update(more)
        return fails(lambda: u.interpolate(new, x, y, **kk))

    if kind == "cubic_spline":
        r, e = I(new)
        require(e is not None, "an unknown interpolator is accepted",
                key="refuse")
        return dict(nontrivial=n > 1, labels=labels)
    if n == 1:
        r, e = I(new)
        require(e is not None, "one point is interpolated", key="refuse")
        if kind == "spline" and what != "option":
            require("{" not in str(e), f"one point: {e}", key="refuse")
        return dict(nontrivial=True, labels=labels)
    r, e = I(new)
    require(e is None, f"{n} points: {type(e).__name__}: {e}", key="raised")
    require(np.shape(r) == np.shape(new), f"shape {np.shape(r)}", key="form")
    if what == "nodes":
        r, e = I(x)
        require(e is None and np.max(np.abs(r - y)) < 1e-9,
                f"misses its nodes: {r} for {y}", key="nodes")
        # an object or in one go
        with quiet():
            f = u.get_interpolant(x, y, interpolator=kind,
                                  **copy.deepcopy(kw))
            require(np.array_equal(f(x), r), "get_interpolant and "
                    "interpolate differ", key="helper")
    elif what == "poly":
        deg = 1 if kind == "monotonic_spline" else min(k, n - 1)
        c = case["c"][:deg + 1]
        yy = np.polyval(c, x)
        r, e = I(new, y=yy)
        want = np.polyval(c, new)
        tol = 1e-9 * (1 + np.max(np.abs(yy)))
        require(e is None and np.max(np.abs(r - want)) < tol,
                f"a polynomial of degree {len(c) - 1} is not reproduced by "
                f"order {k}: {r} for {want}", key="poly")
        if case["allow"] and kind == "spline":
            far = np.array([x[0] - case["d"], x[-1] + case["d"]])
            r, e = I(far, y=yy, allowExtrapolation=True)
            want = np.polyval(c, far)
            require(e is None and np.max(np.abs(r - want)) < 1e-5 * (
                1 + np.max(np.abs(want))) * (1 + case["d"] / (
                    x[-1] - x[0])) ** 4,
                f"extrapolation gives {r} ({e!r}) for {want}", key="extra")
    elif what in ("outside", "extra"):
        far = x[0] - case["d"] if case["side"] else x[-1] + case["d"]
        pts = np.append(new, far)
        r, e = I(pts, allowExtrapolation=(what == "extra"))
        if what == "outside":
            require(e is not None, f"extrapolates to {far}: {r}",
                    key="refuse")
            if kind == "spline":
                r, e = fails(lambda: u.get_interpolant(
                    x, y, interpolator=kind, **copy.deepcopy(kw))(pts))
                require(e is not None, f"the interpolant extrapolates to "
                        f"{far}: {r}", key="refuse")
        else:
            require(e is None and np.all(np.isfinite(r)),
                    f"extrapolation was asked for: {r} {e!r}", key="extra")
            r0, _ = I(new)
            require(np.allclose(r[:-1], r0, rtol=0, atol=1e-12),
                    "values inside depend on extrapolation", key="extra")
    elif what == "order":
        i = min(int(case["fr"][0] * n), n - 2)
        bad = x.copy()
        if case["side"]:
            bad[i + 1] = bad[i]
        else:
            bad[i], bad[i + 1] = bad[i + 1], bad[i]
        r, e = I(np.clip(new, np.min(bad), np.max(bad)), x=bad)
        require(e is not None, "points that are not increasing are accepted",
                key="refuse")
    elif what == "length":
        r, e = I(new, y=y[:-1])
        require(e is not None, "unequal lengths are accepted", key="refuse")
    elif what == "monotone":
        yy = np.sort(y)
        r, e = fails(lambda: u.interpolate(
            np.linspace(x[0], x[-1], 200), x, yy,
            interpolator="monotonic_spline"))
        require(e is None and np.all(np.diff(r) >= -1e-12),
                "monotonic_spline is not monotonic", key="monotone")
    else:
        r, e = fails(lambda: u.interpolate(
            new, x, y, spline_kwargs={"order": 2}))
        require(e is not None, "an unknown option is accepted", key="refuse")
    if n > 1 and kind == "spline":
        for part in ({}, {"k": k}, {"ext": 0}):
            keep = dict(part)
            I(new, spline_kwargs=part)
            require(part == keep, f"options {keep} are changed to {part}",
                    key="mutate")
        part = {"max_iterations": 3}
        fails(lambda: u.get_rational_fit(x, y, part))
        require(part == {"max_iterations": 3}, f"options are changed to "
                f"{part}", key="mutate")
    require(kw == opts, "options are changed", key="mutate")
    if kind == "spline":
        # complete options, with extrapolation as asked for or not
        full = dict(u.get_default_spline_kwargs(), k=k,
                    ext=2 if case["side"] else 0)
        keep = copy.deepcopy(full)
        for allow in (case["allow"], not case["allow"]):
            r, e = I(new, spline_kwargs=full, allowExtrapolation=allow)
            r0, _ = I(new, allowExtrapolation=allow)
            require(e is None and np.allclose(r, r0, rtol=0, atol=1e-9),
                    f"{keep} gives {r} ({e!r}), without ext {r0}", key="ext")
            require(full == keep, f"options {keep} are changed to {full}",
                    key="mutate")
    return dict(nontrivial=n > 2, labels=labels)


# --------------------------------------------------------------- dictionaries
NAMES = ["a", "b", "width", "k", "ext", "degrees"]


def dict_st(tier):
    val = st.one_of(st.none(), st.integers(-3, 3), st.just("x"),
                    st.just([1, None]))
    return st.fixed_dictionaries(dict(
        default=st.dictionaries(st.sampled_from(NAMES), val, max_size=5),
        user=st.one_of(st.none(), st.dictionaries(
            st.sampled_from(NAMES), val, max_size=4)),
        need=st.lists(st.sampled_from(NAMES), max_size=3, unique=True)))


def run_dict(case):
    u = utils()
    default, user = case["default"], case["user"]
    d0, u0 = copy.deepcopy(default), copy.deepcopy(user)
    r, e = fails(lambda: u.check_kwargs_and_set_defaults(
        copy.deepcopy(user), default, "options", "somewhere"))
    require(default == d0, "the defaults are changed", key="mutate")
    unknown = set(user or {}) - set(default)
    if unknown:
        require(isinstance(e, ValueError), f"unknown {unknown}: {e!r}",
                key="refuse")
        require(any(k in str(e) for k in unknown)
                and all(k in str(e) for k in default),
                f"the error does not help: {e}", key="message")
        return dict(nontrivial=True, labels=["unknown"])
    want = dict(d0)
    want.update(u0 or {})
    require(e is None and r == want, f"{user} with defaults {default} gives "
            f"{r} {e!r}", key="defaults")
    missing = [k for k in case["need"] if k in r and r[k] is None]
    need = [k for k in case["need"] if k in r]
    _, e = fails(lambda: u.raise_exception_if_none(r, need, "x", "y"))
    require((e is not None) == bool(missing), f"{missing} are None: {e!r}",
            key="none")
    return dict(nontrivial=bool(user) and len(default) > len(user),
                labels=["complete", "none" if missing else "given"])


def msg_st(tier):
    return st.fixed_dictionaries(dict(
        level=st.sampled_from([-1, 0, 1, 2, 2, 3, -2, 0.5, "1", None]),
        important=st.booleans(), point=st.booleans(),
        text=st.sampled_from(["something", "a\nb", "{x} 100%"])))


def run_msg(case):
    u = utils()
    level, imp = case["level"], case["important"]
    err = None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            u.debug_message(case["text"], level, important=imp,
                            point_to_verbose_output=case["point"])
        except Exception as e:  # noqa: BLE001
            err = e
    n = len(w)
    if level not in (-1, 0, 1, 2):
        require(isinstance(err, ValueError) and n == 0,
                f"debug_level={level!r}: {err!r}", key="level")
        return dict(nontrivial=True, labels=["unknown"])
    if level == 2:
        require(err is not None and case["text"] in str(err) and n == 0,
                f"debug_level=2: {err!r}, {n} warnings", key="raise")
    else:
        want = 1 if level == 1 or (level == 0 and imp) else 0
        require(err is None and n == want, f"debug_level={level}, "
                f"important={imp}: {n} warnings, {err!r}", key="warn")
        if n:
            require(case["text"] in str(w[0].message), "the warning is "
                    f"{w[0].message}", key="text")
    return dict(nontrivial=True, labels=[str(level)])


# ------------------------------------------------------------------ amplitude
def amp_st(tier):
    c = st.tuples(rfloat(-2, 2, 2), rfloat(-2, 2, 2))
    return st.fixed_dictionaries(dict(
        modes=st.lists(st.lists(c, min_size=6, max_size=6), min_size=1,
                       max_size=6),
        ph=rfloat(0, 6, 2), seed=st.integers(0, 5),
        wrong=st.sampled_from([None, None, None, "hlms", "omegalm"])))


def run_amp(case):
    A = utils().amplitude_using_all_modes
    keys = [(2, 2), (2, 1), (3, 3), (4, 4), (2, -2), (3, 2)]
    h = {k: np.array([complex(*v) for v in m])
         for k, m in zip(keys, case["modes"])}
    keep = copy.deepcopy(h)
    if case["wrong"]:
        _, e = fails(lambda: A(h, data_type=case["wrong"]))
        require(isinstance(e, KeyError), f"data_type={case['wrong']}: {e!r}",
                key="refuse")
        return dict(nontrivial=True, labels=["refused"])
    got = A(h)
    want = np.linalg.norm(np.array(list(h.values())), axis=0)
    require(np.allclose(got, want, rtol=1e-12, atol=1e-14),
            f"{got} is not the root of the sum of squares {want}",
            key="value")
    require(all(np.array_equal(h[k], keep[k]) for k in h),
            "the modes are changed", key="mutate")
    amps = {k: np.abs(v) for k, v in h.items()}
    a0 = copy.deepcopy(amps)
    require(np.allclose(A(amps, data_type="amplm"), want, rtol=1e-12,
                        atol=1e-14), "amplm and hlm differ", key="amplm")
    require(all(np.array_equal(amps[k], a0[k]) for k in amps),
            "the amplitudes are changed", key="mutate")
    return dict(nontrivial=len(h) > 1, labels=[f"{len(h)}"])


SUBS = [
    Sub("derivative", deriv_st, run_deriv, 1000, 12000,
        "a polynomial of at least second degree, a wave or random data"),
    Sub("peak", peak_st, run_peak, 800, 8000,
        "the peak is inside, or the data are not an even parabola"),
    Sub("interpolate", interp_st, run_interp, 1200, 12000,
        "more than two points, or too few"),
    Sub("options", dict_st, run_dict, 600, 6000,
        "unknown names, or some given and some completed"),
    Sub("messages", msg_st, run_msg, 300, 600, "every case"),
    Sub("amplitude", amp_st, run_amp, 400, 3000, "more than one mode"),
]
