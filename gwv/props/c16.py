"""C16: rational fits reproduce rational data."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import build, call, method_st, probe, rfloat, same, synth_params
from ..synth import Synth

ID = "C16"
ASSUMPTIONS = [
    "recovery is judged for denominators without roots within a quarter of "
    "the width of the data range around it, degrees up to four, and 1e-6 of "
    "the largest value"]


def lib():
    from gw_eccentricity import rational_fit, utils
    return rational_fit, utils


def fit(x, y, deg, tol=1e-7, it=100, **kw):
    rf, _ = lib()
    with quiet():
        r = rf.RationalFit(x, y, deg, **kw)
        r.fit(max_iterations=it, tol=tol)
    return r


def poly_from(u, roots, pairs, lead):
    """Polynomial in u in [-1, 1] from real roots and complex pairs."""
    y = np.full_like(u, lead)
    for r in roots:
        y = y * (u - r)
    for a, b in pairs:
        y = y * ((u - a) ** 2 + b ** 2)
    return y


def root_out():
    return st.one_of(rfloat(1.5, 4, 2), rfloat(-4, -1.5, 2))


def rat_st(tier):
    return st.fixed_dictionaries(dict(
        num_r=st.lists(rfloat(-2, 2, 2), max_size=2),
        num_c=st.lists(st.tuples(rfloat(-1, 1, 2), rfloat(0.3, 2, 2)),
                       max_size=1),
        den_r=st.lists(root_out(), max_size=2),
        den_c=st.lists(st.tuples(rfloat(-1, 1, 2), rfloat(0.6, 2, 2)),
                       max_size=1),
        lead=st.sampled_from([1.0, -1.0, 1e-3, 40.0]),
        more=st.integers(0, 1), npts=st.integers(0, 30),
        nodes=st.sampled_from(["uniform", "chebyshev", "random"]),
        jit=st.lists(rfloat(0, 1, 3), min_size=45, max_size=45),
        x0=st.sampled_from([0.0, 0.0, 1000.0, -1e5, 3.7]),
        half=st.sampled_from([1.0, 0.01, 500.0, 2e4]),
        container=st.sampled_from(["array", "array", "list", "tuple-deg"]),
        seed=st.integers(0, 5)))


def make_nodes(case, n):
    if case["nodes"] == "uniform":
        return np.linspace(-1, 1, n)
    if case["nodes"] == "chebyshev":
        return -np.cos(np.pi * np.arange(n) / (n - 1))
    # random, but never with a large gap: one node in each cell
    cells = np.linspace(-1, 1, n + 1)
    j = np.array(case["jit"][:n])
    u = cells[:-1] + (0.1 + 0.8 * j) * (cells[1] - cells[0])
    return (u - u[0]) / (u[-1] - u[0]) * 2 - 1


def function(case):
    def f(u):
        return (poly_from(u, case["num_r"], case["num_c"], case["lead"])
                / poly_from(u, case["den_r"], case["den_c"], 1.0))
    return f


def degrees(case):
    return (len(case["num_r"]) + 2 * len(case["num_c"]),
            len(case["den_r"]) + 2 * len(case["den_c"]))


def run_recover(case):
    f = function(case)
    m, n = degrees(case)
    # more in the numerator than needed does no harm
    m += case["more"]
    npts = min(m + n + 3 + case["npts"], 45)
    u = make_nodes(case, npts)
    y = f(u)
    x = case["x0"] + case["half"] * u
    # the function that the rounded nodes see
    un = (x - x[0]) / (x[-1] - x[0]) * 2 - 1
    y = f(un)
    big = np.max(np.abs(y))
    if big == 0:
        raise Discard("zero function")
    deg = [m, n] if case["container"] == "tuple-deg" else (m, n)
    xin, yin = ((list(x), list(y)) if case["container"] == "list"
                else (x.copy(), y.copy()))
    keep = copy.deepcopy((xin, yin))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fit(xin, yin, deg, tol=1e-7 * big)
        v = np.linspace(-1, 1, 301)
        v = np.clip(v, un[0], un[-1])
        xv = np.clip(x[0] + (v + 1) / 2 * (x[-1] - x[0]), x[0], x[-1])
        got = r(xv)
    require(same(keep, (xin, yin)) is None, "the input data are changed",
            key="mutate")
    require(isinstance(got, np.ndarray) and got.shape == xv.shape
            and np.all(np.isfinite(got)), "prediction is not a finite array",
            key="form")
    vv = (xv - x[0]) / (x[-1] - x[0]) * 2 - 1
    err = np.max(np.abs(got - f(vv))) / big
    noise = np.max(np.abs(x)) / case["half"] * 1e-13
    require(err < 1e-6 + 1e3 * noise, f"degrees {(m, n)} through {npts} "
            f"nodes: the fit is off by {err:.1e} of the largest value",
            key="recover")
    require(tuple(r.degrees) == (m, n), f"degrees are {r.degrees}",
            key="degrees")
    # scalars, and one element at a time
    k = [0, 17, 150, 300]
    for i in k:
        s = r(float(xv[i]))
        require(np.ndim(s) == 0 and abs(s - got[i]) <= 1e-9 * big
                and not isinstance(s, np.ndarray),
                f"a scalar gives {s!r}, in an array {got[i]!r}", key="scalar")
    p = np.random.RandomState(case["seed"]).permutation(len(xv))
    require(np.max(np.abs(r(xv[p]) - got[p])) <= 1e-9 * big,
            "the prediction depends on the order of the points", key="order")
    require(np.allclose(r(list(xv)), got, rtol=0, atol=1e-9 * big),
            "lists and arrays differ", key="form")
    return dict(nontrivial=n > 0, labels=[case["nodes"], f"den{n}"], err=err)


def data_st(tier):
    return st.fixed_dictionaries(dict(
        n=st.integers(6, 40), kind=st.sampled_from(
            ["chirp", "chirp", "smooth", "noisy", "step"]),
        T=rfloat(1.02, 3, 2), pw=rfloat(0.2, 1.5, 2), amp=rfloat(0.01, 10, 2),
        noise=st.lists(rfloat(-1, 1, 3), min_size=40, max_size=40),
        m=st.integers(0, 6), k=st.integers(0, 6),
        it=st.integers(1, 30), more=st.integers(1, 20),
        sx=st.integers(-20, 20), sy=st.integers(-20, 20),
        neg=st.booleans(), x0=st.sampled_from([0.0, 8.0, -1024.0]),
        ints=st.booleans()))


def data(case):
    n = case["n"]
    x = np.linspace(0, 1, n)
    if case["kind"] == "chirp":
        y = case["amp"] * (1 - x / case["T"]) ** (-case["pw"])
    elif case["kind"] == "smooth":
        y = case["amp"] * np.sin(3 * x * case["T"]) + case["pw"]
    elif case["kind"] == "noisy":
        y = case["amp"] * (1 + np.array(case["noise"][:n]))
    else:
        y = np.where(x < 0.5, 1.0, case["amp"])
    # on a grid, so that shifting and scaling is exact
    x = np.round(x * 2 ** 20) / 2 ** 20
    return x + case["x0"], y


def run_exact(case):
    """Relations that hold for any data, whatever the quality of the fit."""
    rf, utils = lib()
    x, y = data(case)
    m, k = case["m"], case["k"]
    if m + k + 1 >= len(x):
        m, k = rf.get_reduced_degrees((m, k), len(x))
    labels = [case["kind"], f"{m + k}"]
    try:
        r = fit(x, y, (m, k), it=case["it"], tol=0.0)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"fit of degrees {(m, k)} through {len(x)} points: "
                        f"{type(e).__name__}: {e}", key="raised")
    g = x[0] + (x[-1] - x[0]) * np.linspace(0, 1, 33)
    g = np.clip(np.round(g * 2 ** 20) / 2 ** 20, x[0], x[-1])
    with quiet():
        base = r(g)
        # scaling of the axes
        a, b = 2.0 ** case["sx"], 2.0 ** case["sy"]
        b = -b if case["neg"] else b
        ra = fit(a * x, y, (m, k), it=case["it"], tol=0.0)
        got = ra(a * g)
        require(np.array_equal(base, got, equal_nan=True)
                or close_fits(r, lambda v: ra(a * v), x, y, 1.0),
                "the fit depends on the unit of x: "
                f"{np.nanmax(np.abs(got - base)):.1e}", key="x-unit")
        rb = fit(x, b * y, (m, k), it=case["it"], tol=0.0)
        got = rb(g) / b
        d = np.nanmax(np.abs(got - base))
        require(np.array_equal(base, got, equal_nan=True)
                or d < 1e-5 * np.nanmax(np.abs(base))
                and r.history[-1]["cond"] > 1e9
                or close_fits(r, rb, x, y, b),
                f"the fit depends on the unit of y: {d:.1e}", key="y-unit")
        # shift of the origin
        s = 2.0 ** 12
        rs = fit(x + s, y, (m, k), it=case["it"], tol=0.0)
        got = rs(g + s)
        require(np.array_equal(base, got, equal_nan=True)
                or close_fits(r, lambda v: rs(v + s), x, y, 1.0),
                "the fit depends on the origin of x", key="origin")
        # the best of the iterations is kept
        node = r(x)
        res = np.linalg.norm(node - y)
        best = min(h["res_norm"] for h in r.history)
        require(res <= best * (1 + 1e-6) + 1e-9 * np.linalg.norm(y)
                * max(1, np.max(np.abs(1 / (q_of(r, x))))),
                f"the residual of the fit is {res:.3e}, an iteration had "
                f"{best:.3e}", key="best")
        # more iterations do not make it worse
        r2 = fit(x, y, (m, k), it=case["it"] + case["more"], tol=0.0)
        best2 = min(h["res_norm"] for h in r2.history)
        require(best2 <= best * (1 + 1e-12), "more iterations make the fit "
                f"worse: {best:.3e} to {best2:.3e}", key="iterations")
        # the helper of the library is the same fit
        opts = {"degrees": (m, k), "max_iterations": case["it"], "tol": 0.0}
        h = utils.get_rational_fit(x, y, opts)
        require(np.array_equal(h(g), base, equal_nan=True),
                "get_rational_fit gives another fit", key="helper")
    return dict(nontrivial=k > 0 and len(r.history) > 1, labels=labels)


def q_of(r, x):
    """Denominator at the nodes, normalised to its largest value."""
    rf, _ = lib()
    try:
        u = (np.asarray(x) - r.x_min) / (r.x_max - r.x_min) * 2 - 1
        V = rf._eval_arnoldi_basis(u, r.H, max(r.degrees), r.v0_norm)
        q = V[:, :r.degrees[1] + 1] @ r.b
        q = q / np.max(np.abs(q))
        return np.where(q == 0, 1e-300, q)
    except Exception:  # noqa: BLE001  (another layout: no weight)
        return np.ones(1)


def close_fits(r, rb, x, y, b):
    """Equally good fits, which is what rounding can leave undecided."""
    e1 = np.linalg.norm(r(x) - y)
    e2 = np.linalg.norm(rb(x) / b - y)
    return abs(e1 - e2) <= 1e-6 * np.linalg.norm(y)


BAD = ["len", "int", "one", "three", "negative", "unfitted", "kwarg",
       "outside", "few", "inside", "list-degrees"]


def bad_st(tier):
    return st.fixed_dictionaries(dict(
        bad=st.sampled_from(BAD), n=st.integers(6, 20),
        m=st.integers(0, 3), k=st.integers(0, 2),
        d=rfloat(0.001, 2, 3), side=st.booleans(), where=rfloat(0, 1, 3)))


def expect(kind, f, what):
    try:
        with quiet():
            f()
    except kind:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__}: {e}", key="refuse")
    raise Violation(f"{what} is accepted", key="refuse")


def run_bad(case):
    rf, utils = lib()
    n, m, k, bad = case["n"], case["m"], case["k"], case["bad"]
    if m + k + 1 >= n:
        m, k = 1, 1
    x = np.linspace(2.0, 5.0, n)
    y = 1 / (6.0 - x)
    C = rf.RationalFit
    if bad == "len":
        expect(ValueError, lambda: C(x, y[:-1], (m, k)), "unequal lengths")
    elif bad == "int":
        expect(ValueError, lambda: C(x, y, m), "a single degree")
    elif bad == "one":
        expect(ValueError, lambda: C(x, y, (m,)), "one degree")
    elif bad == "three":
        expect(ValueError, lambda: C(x, y, (m, k, 1)), "three degrees")
    elif bad == "negative":
        deg = (-1 - m, k) if case["side"] else (m, -1 - k)
        expect(ValueError, lambda: C(x, y, deg), f"degrees {deg}")
    elif bad == "unfitted":
        with quiet():
            r = C(x, y, (m, k))
        expect(ValueError, lambda: r(3.0), "evaluation before the fit")
    elif bad == "kwarg":
        expect((ValueError, KeyError, Exception),
               lambda: utils.get_rational_fit(
                   x, y, {"degrees": (m, k), "max_iter": 3}),
               "an unknown option")
    elif bad == "list-degrees":
        a, b = fit(x, y, [m, k]), fit(x, y, (m, k))
        require(np.array_equal(a(x), b(x)), "degrees as list or tuple differ",
                key="form")
    elif bad == "few":
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            C(x[:4], y[:4], (2, 1 + k))
        require(len(w) == 1, f"{len(w)} warnings for fewer points than "
                "parameters", key="warn")
    else:
        r = fit(x, y, (m, k))
        if bad == "outside":
            p = x[0] - case["d"] if case["side"] else x[-1] + case["d"]
        else:
            p = min(max(2.0 + 3.0 * case["where"], x[0]), x[-1])
        for arg in (float(p), np.array([3.0, p, 4.0]), [p]):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                r(arg)
            require((len(w) > 0) == (bad == "outside"),
                    f"{len(w)} warnings for a point {bad} of the range",
                    key="warn")
    return dict(nontrivial=True, labels=[bad])


def red_st(tier):
    return st.tuples(st.integers(0, 12), st.integers(0, 12),
                     st.integers(0, 30)).map(
                         lambda t: dict(m=t[0], k=t[1], n=t[2]))


def run_red(case):
    rf, _ = lib()
    m, k, n = case["m"], case["k"], case["n"]
    under = m + k + 1 >= n
    require(bool(rf.is_underdetermined((m, k), n)) == under,
            f"is_underdetermined({(m, k)}, {n}) is wrong", key="under")
    if n < 2:
        expect(ValueError, lambda: rf.get_reduced_degrees((m, k), n),
               f"reduction to {n} points")
        return dict(nontrivial=True, labels=["impossible"])
    a, b = rf.get_reduced_degrees((m, k), n)
    require(0 <= a <= m and 0 <= b <= k,
            f"degrees {(m, k)} are reduced to {(a, b)}", key="reduce")
    require(a + b + 1 < n, f"degrees {(a, b)} remain for {n} points",
            key="reduce")
    if not under:
        require((a, b) == (m, k), f"degrees {(m, k)} that are fine become "
                f"{(a, b)}", key="reduce")
    else:
        require(a + b + 2 == n or a + b == m + k,
                f"degrees {(m, k)} become {(a, b)} for {n} points: more than "
                "necessary", key="reduce")
        # the denominator goes first, in turns as long as both are left
        if a and b and m and k:
            require(m - a <= k - b <= m - a + 1,
                    f"degrees {(m, k)} become {(a, b)}: not in turns",
                    key="reduce")
    return dict(nontrivial=under, labels=["reduced" if under else "kept"])


def meas_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.06, 0.4), norb=(5, 26), ppo=(45, 60)),
        method=method_st(),
        deg=st.one_of(st.none(), st.tuples(st.integers(0, 9),
                                           st.integers(0, 9))),
        it=st.sampled_from([None, 5, 40]),
        fr=st.lists(rfloat(0.02, 0.98, 3), min_size=1, max_size=5)))


def run_meas(case):
    from ..meas import try_call
    syn = Synth(case["syn"])
    d = build(syn, case["method"])
    rk = {}
    if case["deg"] is not None:
        rk["degrees"] = tuple(case["deg"])
    if case["it"]:
        rk["max_iterations"] = case["it"]
    extra = {"omega_gw_extrema_interpolation_method": "rational_fit",
             "special_interp_kwargs_for_omega_gw_extrema": rk}
    keep = copy.deepcopy(extra)
    spl = {"omega_gw_extrema_interpolation_method": "spline"}
    t = d["t"]
    r0, e0 = try_call(d, case["method"], tref=float(t[len(t) // 2]),
                      extra=spl)
    if e0 is not None:
        raise Discard("not measurable")
    g0 = r0["gwecc_object"]
    x = g0.tmin + (g0.tmax - g0.tmin) * np.array(case["fr"])
    r, err = try_call(d, case["method"], tref=x, extra=extra)
    require(err is None, f"degrees {case['deg']}: {type(err).__name__}: "
            f"{err}", key="raised")
    require(extra == keep, "the caller's options are changed", key="mutate")
    g = r["gwecc_object"]
    require(np.array_equal(r["tref_out"], x)
            and np.array_equal(g.t_pericenters, g0.t_pericenters)
            and np.array_equal(g.t_apocenters, g0.t_apocenters),
            "times depend on the interpolation", key="times")
    e = r["eccentricity"]
    require(np.all(np.isfinite(e)) and np.all(e < 1), f"eccentricity {e}",
            key="finite")
    s = call(d, case["method"], tref=x, extra=spl)
    de = np.max(np.abs(e - s["eccentricity"]))
    labels = [case["method"]]
    deg = getattr(g, "rational_fit_degrees", None)
    for kind in ("pericenters", "apocenters"):
        tx = np.asarray(getattr(g, "t_" + kind))
        om = np.interp(tx, g.t, g.omega_gw)
        with quiet():
            fitted = getattr(g, f"omega_gw_{kind}_interp")(tx)
        off = np.max(np.abs(fitted / om - 1))
        # extrema are located to one sample: the values scatter
        require(len(tx) < 6 or off < 0.05, f"the fit misses omega_gw at the {kind} by "
                f"{off:.1e}", key="nodes")
        if deg:
            dk = deg[kind]
            require(dk is None or (len(dk) == 2 and min(dk) >= 0
                                   and sum(dk) + 1 < len(tx)),
                    f"degrees {dk} for {len(tx)} {kind}", key="degrees")
            labels.append("spline" if dk is None else f"m{dk[0]}")
    few = min(len(g.t_pericenters), len(g.t_apocenters)) < 6
    require(few or de < 0.03, f"the eccentricity differs by {de:.1e} from that with "
            "splines", key="spline")
    return dict(nontrivial=len(g.t_pericenters) > 3, labels=labels, de=de)


# --- choice of the degrees -------------------------------------------------
def adapt_st(tier):
    return st.fixed_dictionaries(dict(
        norb=st.one_of(st.integers(5, 34), st.sampled_from([19, 20, 21, 22,
                                                            41, 42, 61, 62])),
        n0=st.sampled_from([0.01, 0.02]), grow=st.sampled_from(
            [0.0, 0.0, 0.001, 0.05, 0.6]), pw=rfloat(0.3, 1.2, 1),
        ecc=rfloat(0.02, 0.5, 2), noise=st.sampled_from(
            [0.0, 0.0, 1e-4, 0.003, 0.03, 0.1]),
        r=st.lists(rfloat(-1, 1, 2), min_size=12, max_size=12),
        deg=st.one_of(st.none(), st.none(), st.sampled_from([(1, 1), (2, 2)]),
                      st.tuples(st.integers(0, 7), st.integers(0, 7))),
        it=st.sampled_from([None, 3, 30]),
        level=st.sampled_from([-1, 1])))


def extrema_data(case):
    """A frequency with chosen values at chosen extrema."""
    n = case["norb"]
    P = 2 * np.pi / case["n0"]
    dt = P / 40
    t = np.arange(int((n + 3) * P / dt)) * dt
    u = t / t[-1]
    base = 2.1 * case["n0"] * (1 + case["grow"] * (
        (1 - u / 1.3) ** (-case["pw"]) - 1))
    ip = np.round((np.arange(n) + 0.5) * P / dt).astype(int)
    ia = np.round((np.arange(n) + 1.0) * P / dt).astype(int)
    om = base.copy()
    r = np.array(case["r"])
    for j in range(n):
        for i, sg, q in ((ip[j], 1, 5), (ia[j], -1, 7)):
            a = sg * case["ecc"] * (1 - 0.5 * u[i]) + case["noise"] * r[
                (q * j + 3) % 12]
            om = om + a * base[i] * np.exp(-((t - t[i]) / (0.08 * P)) ** 2)
    ph = np.concatenate([[0], np.cumsum(0.5 * (om[1:] + om[:-1])) * dt])
    amp = 1 + 5 * np.exp(-((t - t[-1] + 0.6 * P) / (0.2 * P)) ** 2)
    return dict(t=t, amplm={(2, 2): amp}, phaselm={(2, 2): ph}), ip, ia


def adapted(x, y, deg, rk, dt, number):
    """Degrees and fit, as the documentation describes their choice."""
    rf, u = lib()
    if deg is None:
        deg = next(d for n, d in ((20, 3), (40, 4), (60, 5), (1e9, 6))
                   if number <= n)
        deg = (deg, deg)
    if rf.is_underdetermined(deg, len(x)):
        deg = rf.get_reduced_degrees(deg, len(x))
    xt = np.arange(x[0], x[-1], dt)
    xt = xt[xt <= x[-1]]

    def attempt(d):
        f = u.get_rational_fit(x, y, dict(rk, degrees=d))
        s = np.gradient(f(xt), xt[1] - xt[0])
        return f, not np.any(s[1:] / s[:-1] <= 0)
    f, ok = attempt(deg)
    if ok:
        while True:
            up = (deg[0] + 1, deg[1] + 1)
            if rf.is_underdetermined(up, len(x)):
                return deg, f, "highest"
            g, ok = attempt(up)
            if not ok:
                return deg, f, "raised"
            deg, f = up, g
    while not ok:
        if max(deg) <= 1:
            return None, u.get_interpolant(x, y), "spline"
        deg = (max(deg[0] - 1, 1), max(deg[1] - 1, 1))
        f, ok = attempt(deg)
    return deg, f, "lowered"


def run_adapt(case):
    import contextlib
    import io

    from .c33 import own
    d, ip, ia = extrema_data(case)
    dt = d["t"][1] - d["t"][0]
    loc = {"pericenters": ip, "apocenters": ia}
    rk = {}
    if case["it"]:
        rk["max_iterations"] = case["it"]
    deg = tuple(case["deg"]) if case["deg"] is not None else None
    mine = dict(rk) if deg is None else dict(rk, degrees=deg)
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as rec, \
            contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        o = own(lambda s, k: loc[k].copy())(
            d, tref_in=float(d["t"][ia[1]]),
            num_orbits_to_exclude_before_merger=1, debug_level=case["level"],
            extra_kwargs={"omega_gw_extrema_interpolation_method":
                          "rational_fit",
                          "special_interp_kwargs_for_omega_gw_extrema": mine})
        m = len(o.t)
        loc = {k: v[v < m] for k, v in loc.items()}
        o.measure_ecc()
    said = [str(w.message) for w in rec if w.category is UserWarning]
    how = {}
    number = max(len(o.pericenters_location), len(o.apocenters_location))
    with quiet():
        for k in ("pericenters", "apocenters"):
            i = np.asarray(getattr(o, k + "_location"))
            # the apocenters start from what was good for pericenters
            deg, f, how[k] = adapted(o.t[i], o.omega_gw[i], deg, rk, dt,
                                     number)
            have = o.rational_fit_degrees[k]
            require(have == deg, f"degrees {have} for {len(i)} {k}, {deg} "
                    f"are expected ({how[k]})", key="adapt")
            x = np.linspace(o.t[i[0]], o.t[i[-1]], 57)
            v = getattr(o, f"omega_gw_{k}_interp")(x)
            require(np.array_equal(v, f(x)), f"the curve through {k} is not "
                    f"that of degrees {deg}, off by "
                    f"{np.max(np.abs(v - f(x))):.1e}", key="adapt-values")
    fell = sum(1 for v in how.values() if v == "spline")
    said = [w for w in said if "Falling back to using spline" in w]
    require(len(said) == (fell if case["level"] == 1 else 0), f"{fell} fits "
            f"become splines, says so {len(said)} times at level "
            f"{case['level']}", key="adapt-warning")
    return dict(nontrivial=set(how.values()) != {"highest"},
                labels=sorted(set(how.values())))


SUBS = [
    Sub("recover", rat_st, run_recover, 500, 12000,
        "the denominator is not constant"),
    Sub("relations", data_st, run_exact, 400, 8000,
        "the denominator is not constant and more than one iteration is "
        "made"),
    Sub("refuse", bad_st, run_bad, 250, 2000, "every case"),
    Sub("reduce", red_st, run_red, 300, 6000,
        "the degrees have to be reduced, or cannot be"),
    Sub("adapt", adapt_st, run_adapt, 320, 5000,
        "some fit is not the highest degree possible"),
    Sub("measure", meas_st, run_meas, 200, 4000,
        "more than three pericenters"),
]
