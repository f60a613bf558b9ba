"""C34: the form in which input is given does not matter."""
import collections

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, require
from ..meas import (METHODS, build, fref_window, probe, rfloat, synth_params,
                    try_call)
from ..precess import aligned_modes, rotate
from ..synth import Synth

ID = "C34"
ASSUMPTIONS = [
    "forms are those that numpy turns into the same arrays: lists, tuples, "
    "ranges, pandas series, views, byte orders, numpy scalars; mode data "
    "that are no arrays may be refused"]
ONE = ["int", "np.float64", "np.float32", "np.int64", "0-d", "list", "tuple",
       "1-d", "series"]
MANY = ["list", "tuple", "series", "strided", "reversed view", "float32",
        "read-only", "big-endian", "range", "2-d", "nan", "column"]
DATA = ["strided", "big-endian", "read-only", "list", "series", "fortran",
        "keys", "ordered", "mode order"]
OPTIONS = ["none", "numpy bool", "numpy int", "integer", "float", "numpy str",
           "keys", "empty"]


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.08, 0.4), norb=(12, 20),
                         tshift=st.sampled_from([0.0, -3000.0])),
        method=st.sampled_from(METHODS),
        interp=st.sampled_from(["spline", "rational_fit"]),
        rep=st.sampled_from(["hlm", "amp"]), omegalm=st.booleans(),
        domain=st.sampled_from(["time", "time", "frequency"]),
        fr=st.lists(rfloat(0.05, 0.95, 3), min_size=2, max_size=4),
        mid=st.booleans(), refine=st.booleans(),
        orbits=st.sampled_from([None, None, 6, 7]),
        nexcl=st.sampled_from([1, 2, 3]), prec=st.sampled_from(
            [None, None, "inertial", "coprecessing"]),
        one=st.one_of(st.none(), st.sampled_from(ONE)), many=st.sampled_from(MANY),
        data=st.sampled_from([None] + DATA + DATA),
        options=st.sampled_from(OPTIONS)))


def view(a, form):
    a = np.asarray(a)
    if form == "strided":
        return np.repeat(a, 3)[1::3]
    if form == "reversed view":
        return np.array(a[::-1])[::-1]
    if form == "big-endian":
        return a.astype(a.dtype.newbyteorder(">"))
    if form == "read-only":
        a = a.copy()
        a.flags.writeable = False
        return a
    if form == "fortran":
        return np.asfortranarray(np.vstack([a, a, a]))[1]
    if form == "series":
        import pandas as pd
        return pd.Series(a, index=np.arange(len(a)) + 3)
    return a


def references(x, case):
    """x, in another form; also which of its values are meant."""
    if case["one"] is not None:
        v, f = x[0], case["one"]
        import pandas as pd
        return {"int": lambda: int(v) if v == int(v) else float(v),
                "np.float64": lambda: np.float64(v),
                "np.float32": lambda: np.float32(v),
                "np.int64": lambda: (np.int64(v) if v == int(v)
                                     else np.float64(v)),
                "0-d": lambda: np.array(v), "list": lambda: [v],
                "tuple": lambda: (v,), "1-d": lambda: np.array([v]),
                "series": lambda: pd.Series([v], index=["a"])}[f](), x[:1]
    f = case["many"]
    if f in ("list", "tuple"):
        return (list if f == "list" else tuple)(x.tolist()), x
    if f == "float32":
        return x.astype(np.float32), x
    if f == "range":
        k = int(x[0])
        if x[0] == k:
            return range(k, k + 3), np.array([k, k + 1.0, k + 2.0])
        return list(x), x
    if f == "2-d":
        return x[None, :], x
    if f == "column":
        return x[:, None], x
    if f == "nan":
        return np.append(x, np.nan), x
    return view(x, f), x


def dressed(d, form):
    """The same waveform in another form."""
    out = {}
    for k, v in d.items():
        if k[0] == "t":
            out[k] = view(v, form if form != "series" else None)
            continue
        items = list(v.items())
        if form == "mode order":
            items = items[::-1]
        new = {}
        for m, y in items:
            if form == "list":
                y = list(y)
            else:
                y = view(y, form)
            if form == "keys":
                m = (np.int64(m[0]), np.int32(m[1]))
            new[m] = y
        out[k] = collections.OrderedDict(new) if form == "ordered" else new
    if form == "ordered":
        out = collections.OrderedDict(reversed(list(out.items())))
    return out


def run(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], "hlm")
    kw = {}
    if case["prec"]:
        kw = dict(precessing=True, frame=case["prec"])
        for tag in ("", "_zeroecc"):
            if "hlm" + tag in d:
                d["hlm" + tag] = aligned_modes(d["hlm" + tag][(2, 2)])
                if case["prec"] == "inertial":
                    d["hlm" + tag] = rotate(d["hlm" + tag], 0.3, 0.4, 0.1)
    if case["rep"] == "amp":
        out = {}
        for k, v in d.items():
            if k[0] == "t":
                out[k] = v
            else:
                tag = k[3:]
                out["amplm" + tag] = {m: np.abs(h) for m, h in v.items()}
                out["phaselm" + tag] = {m: -np.unwrap(np.angle(h))
                                        for m, h in v.items()}
                if case["omegalm"] and not case["prec"]:
                    out["omegalm" + tag] = {
                        m: np.gradient(p, d["t" + tag])
                        for m, p in out["phaselm" + tag].items()}
        d = out
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "treat_mid_points_between_pericenters_as_apocenters":
             bool(case["mid"]), "refine_extrema": bool(case["refine"])}
    if case["orbits"]:
        extra["use_only_these_many_orbits"] = case["orbits"]
    nexcl = case["nexcl"]
    g, e = try_call(d, case["method"], tref=float(
        d["t"][0] + 0.5 * syn.t_insp), extra=dict(extra), nexcl=nexcl, **kw)
    if e is not None:
        raise Discard("not measurable")
    g = g["gwecc_object"]
    key = "tref"
    if case["domain"] == "time" or case["orbits"]:
        lo, hi = g.tmin, g.tmax
        # whole numbers are exact in every type
        x = np.round(lo + (hi - lo) * np.array(case["fr"]))
    else:
        key = "fref"
        try:
            lo, hi = g.get_fref_bounds()
        except Exception:  # noqa: BLE001
            raise Discard("no average frequency")
        x = (lo + (hi - lo) * np.array(case["fr"])).astype(
            np.float32).astype(float)
    ref, meant = references(x, case)
    if key == "tref" and case["orbits"]:
        ref, meant = float(x[0]), x[:1]
    a, e = try_call(d, case["method"], extra=dict(extra), nexcl=nexcl,
                    **{key: meant if len(meant) > 1 else float(meant[0])},
                    **kw)
    if e is not None:
        raise Discard("not measurable")
    # everything in another form
    new = dict(extra)
    form = case["options"]
    method, kw2 = case["method"], dict(kw)
    if form == "numpy bool":
        for k in list(new):
            if isinstance(new[k], bool):
                new[k] = np.bool_(new[k])
        if kw:
            kw2["precessing"] = np.bool_(True)
    elif form == "integer":
        for k in list(new):
            if isinstance(new[k], bool):
                new[k] = int(new[k])
        if kw:
            kw2["precessing"] = 1
    elif form == "numpy int":
        nexcl = np.int64(nexcl)
        for k in list(new):
            if type(new[k]) is int:
                new[k] = np.int64(new[k])
    elif form == "float":
        nexcl = float(nexcl)
    elif form == "numpy str":
        method = np.str_(method)
        new = {np.str_(k): np.str_(v) if isinstance(v, str) else v
               for k, v in new.items()}
    elif form == "keys":
        new = collections.OrderedDict(reversed(list(new.items())))
    elif form == "empty":
        new.update(kwargs_for_fits_methods={}, filter_kwargs={}) \
            if case["method"].endswith("Fits") else \
            new.update(filter_kwargs={})
    dd = dressed(d, case["data"]) if case["data"] else d
    b, e = try_call(dd, method, extra=new, nexcl=nexcl, **{key: ref}, **kw2)
    text = (f"references {type(ref).__name__} ({case['one'] or case['many']})"
            f", data {case['data']}, options {form}")
    if e is not None and (case["data"] in ("list", "series") or case[
            "data"] == "big-endian" and case["prec"] == "inertial"):
        # arrays are asked for; scri takes native numbers only
        return dict(nontrivial=False, labels=["refused"])
    require(e is None, f"{text}: {type(e).__name__}: {e}", key="raised")
    for k in (key + "_out", "eccentricity", "mean_anomaly"):
        u, v = np.ravel(np.asarray(a[k], float)), np.ravel(
            np.asarray(b[k], float))
        require(u.shape == v.shape, f"{text}: {len(v)} values of {k}, "
                f"{len(u)} from plain arrays", key="form")
        require(np.array_equal(u, v), f"{text}: {k} is {v}, {u} from "
                "plain arrays", key="form")
    return dict(nontrivial=True, labels=[
        case["one"] or case["many"], "data " + str(case["data"]),
        "options " + form])


SUBS = [Sub("forms", case_st, run, 1400, 12000, "every case that is measured")]
