"""C24: errors between two measurements are the true differences."""
import copy
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import METHODS, build, rfloat, same, synth_params, try_call
from ..synth import TWO_PI, Synth

ID = "C24"
ASSUMPTIONS = [
    "a time equal to an end of the common range may or may not be included"]


def compare(a, b, **kw):
    from gw_eccentricity.compare_methods import (
        compute_errors_between_methods as f)
    with quiet():
        return f(a, b, **kw)


def circular(x, y):
    """Smallest distance on the circle, by trying the three branches."""
    d = np.mod(x, TWO_PI) - np.mod(y, TWO_PI)
    return np.min(np.abs([d, d + TWO_PI, d - TWO_PI]), axis=0)


def judge(a, b, tmin, tmax, out, what):
    t, de, dl, e1, e2, l1, l2 = out
    lo = max(a.tmin, b.tmin, -np.inf if tmin is None else tmin)
    hi = min(a.tmax, b.tmax, np.inf if tmax is None else tmax)
    ta, tb = np.asarray(a.tref_out), np.asarray(b.tref_out)
    inside = ta[(ta > lo) & (ta < hi)]
    edge = ta[(ta == lo) | (ta == hi)]
    require(len({len(x) for x in out}) == 1, f"{what}: lengths "
            f"{[len(x) for x in out]}", key="lengths")
    require(np.isin(inside, t).all(), f"{what}: of {len(inside)} common "
            f"times {np.isin(inside, t).sum()} are compared", key="range")
    require(np.isin(t, np.concatenate([inside, edge])).all(),
            f"{what}: times outside the common range", key="range")
    ia = np.array([np.flatnonzero(ta == x)[0] for x in t], int)
    ib = np.array([np.argmin(np.abs(tb - x)) for x in t], int)
    for name, got, src, idx in (
            ("eccentricity 1", e1, a.eccentricity, ia),
            ("eccentricity 2", e2, b.eccentricity, ib),
            ("anomaly 1", l1, a.mean_anomaly, ia),
            ("anomaly 2", l2, b.mean_anomaly, ib)):
        require(np.array_equal(got, np.asarray(src)[idx]), f"{what}: {name} "
                "is not that of its time", key="values")
    require(np.allclose(de, np.abs(e1 - e2), rtol=1e-12, atol=1e-15),
            f"{what}: eccentricity errors", key="ecc-errors")
    want = circular(l1, l2)
    bad = np.abs(dl - want) > 1e-9
    if np.any(bad):
        i = np.flatnonzero(bad)[0]
        raise Violation(f"{what}: anomalies {l1[i]} and {l2[i]} differ by "
                        f"{want[i]}, reported {dl[i]}", key="ano-errors")


def stub_st(tier):
    ang = st.one_of(rfloat(0, 6.283, 3), st.sampled_from(
        [0.0, 1e-9, 6.283185307, 3.141592653589793, 3.2, 3.1]))
    row = st.tuples(rfloat(0, 1, 3), rfloat(0, 1, 3), ang, ang).map(list)
    return st.fixed_dictionaries(dict(
        rows=st.lists(row, min_size=2, max_size=30),
        cut=st.lists(st.integers(0, 30), min_size=4, max_size=4),
        t0=rfloat(-5000, 100, 1), dt=rfloat(0.1, 50, 1),
        tmin=st.one_of(st.none(), rfloat(-0.2, 1.2, 2)),
        tmax=st.one_of(st.none(), rfloat(-0.2, 1.2, 2))))


def run_stub(case):
    r = np.array(case["rows"])
    n = len(r)
    t = case["t0"] + case["dt"] * np.arange(n)
    c = case["cut"]

    def make(i, j, e, l):
        i = i % n
        j = n - j % (n - i)
        sel = slice(i, j)
        tt = t.copy()
        return SimpleNamespace(
            tref_in=tt, tref_out=tt[sel], tmin=tt[sel][0],
            tmax=tt[sel][-1] + 0.5 * case["dt"], eccentricity=r[sel, e],
            mean_anomaly=r[sel, l])
    a = make(c[0], c[1], 0, 2)
    b = make(c[2], c[3], 1, 3)
    kw = {}
    for k in ("tmin", "tmax"):
        if case[k] is not None:
            kw[k] = t[0] + case[k] * (t[-1] - t[0])
    before = copy.deepcopy((vars(a), vars(b)))
    lo, hi = max(a.tmin, b.tmin), min(a.tmax, b.tmax)
    try:
        out = compare(a, b, **kw)
    except Exception as e:  # noqa: BLE001
        x = max(lo, kw.get("tmin", -np.inf))
        y = min(hi, kw.get("tmax", np.inf))
        require(not np.any((t > x) & (t < y)), f"{type(e).__name__}: {e}, "
                "although times are common", key="spurious")
        return dict(nontrivial=False, labels=["nothing common"])
    require(same(before, (vars(a), vars(b))) is None, "the objects are "
            "modified", key="mutation")
    judge(a, b, kw.get("tmin"), kw.get("tmax"), out, "stub")
    # symmetric
    swap = compare(b, a, **kw)
    for i, j in ((0, 0), (1, 1), (2, 2), (3, 4), (5, 6)):
        require(np.allclose(out[i], swap[j], rtol=1e-12, atol=1e-12),
                "not symmetric", key="symmetric")
    # zero on itself
    me = compare(a, a)
    require(np.all(me[1] == 0) and np.all(me[2] == 0), "not zero for the "
            "same measurement", key="itself")
    # anomalies are angles
    b2 = SimpleNamespace(**vars(b))
    b2.mean_anomaly = b.mean_anomaly + TWO_PI
    more = compare(a, b2, **kw)
    require(np.allclose(more[2], out[2], atol=1e-9), "a turn more changes "
            "the error", key="ano-errors")
    return dict(nontrivial=len(out[0]) > 0, labels=["compared"])


def real_st(tier):
    two = st.lists(st.sampled_from(METHODS), min_size=2, max_size=2)
    return st.tuples(synth_params(e0=(0.1, 0.4), norb=(14, 22)), two,
                     st.lists(rfloat(0, 1, 3), min_size=3, max_size=40),
                     rfloat(0, 1, 2), rfloat(0, 1, 2), st.integers(1, 3),
                     st.booleans()).map(
        lambda x: dict(syn=x[0], methods=x[1], fr=sorted(x[2]), lo=x[3],
                       hi=x[4], nexcl=x[5], window=x[6]))


def run_real(case):
    data = build(Synth(case["syn"]), "ResidualAmplitude")
    t = data["t"]
    tref = t[0] + np.array(case["fr"]) * 0.9 * (t[-1] - t[0])
    tref = np.unique(tref)
    objs = []
    for i, m in enumerate(case["methods"]):
        out, e = try_call(data, m, tref=tref,
                          nexcl=case["nexcl"] if i else 2)
        if e is not None:
            raise Discard(f"not measured: {type(e).__name__}")
        objs.append(out["gwecc_object"])
    a, b = objs
    kw = {}
    if case["window"]:
        kw = dict(tmin=float(a.tmin + case["lo"] * (a.tmax - a.tmin)),
                  tmax=float(a.tmin + case["hi"] * (a.tmax - a.tmin)))
    lo = max(a.tmin, b.tmin, kw.get("tmin", -np.inf))
    hi = min(a.tmax, b.tmax, kw.get("tmax", np.inf))
    try:
        out = compare(a, b, **kw)
    except Exception as e:  # noqa: BLE001
        require(not np.any((tref > lo) & (tref < hi)),
                f"{type(e).__name__}: {e}, although times are common",
                key="spurious")
        return dict(nontrivial=False, labels=["nothing common"])
    judge(a, b, kw.get("tmin"), kw.get("tmax"), out,
          "/".join(case["methods"]))
    if len(out[0]) and not case["window"] and not any(
            "Fits" in m for m in case["methods"]):
        # the same inspiral: anomalies agree on the circle
        require(np.max(out[2]) < 1.0, f"anomaly errors of {np.max(out[2])} "
                "for the same inspiral", key="same-inspiral")
    return dict(nontrivial=len(out[0]) > 0, labels=case["methods"])


def bad_st(tier):
    return st.fixed_dictionaries(dict(
        n=st.integers(3, 20), d=rfloat(0.01, 5, 2), kind=st.sampled_from(
            ["tref", "length", "late", "early", "hole"])))


def run_bad(case):
    n = case["n"]
    t = np.arange(n) * 10.0

    def make(t, sel=slice(None)):
        return SimpleNamespace(
            tref_in=t, tref_out=t[sel], tmin=t[0], tmax=t[-1],
            eccentricity=np.full(len(t[sel]), 0.1),
            mean_anomaly=np.full(len(t[sel]), 1.0))
    a, b, kw = make(t), make(t), {}
    k = case["kind"]
    if k == "tref":
        b = make(t + case["d"])
    elif k == "length":
        b = make(t[:-1])
    elif k == "late":
        kw["tmin"] = t[-1] + case["d"]
    elif k == "early":
        kw["tmax"] = t[0] - case["d"]
    elif k == "hole":
        # different times came out of the same requested ones
        b = make(t, np.array([i != n // 2 for i in range(n)]))
    try:
        compare(a, b, **kw)
    except Exception:  # noqa: BLE001
        return dict(nontrivial=True, labels=[k])
    raise Violation(f"compared: {k}", key="refuse")


SUBS = [
    Sub("stub", stub_st, run_stub, 8000, 60000, "some times are common"),
    Sub("real", real_st, run_real, 96, 600, "some times are common"),
    Sub("refuse", bad_st, run_bad, 400, 2000, "every case"),
]
