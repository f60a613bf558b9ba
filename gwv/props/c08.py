"""C08: inputs are never modified; calls do not influence each other."""
import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, forked, quiet, require
from ..meas import (METHODS, build, probe, rfloat, same, snapshot,
                    synth_params, to_amp_phase)
from ..precess import aligned_modes, precession_angles, rotate
from ..synth import TWO_PI, Synth
from .c07 import deriv

ID = "C08"
ASSUMPTIONS = [
    "identical calls in identical processes are bit-for-bit repeatable with "
    "the single-threaded BLAS the checks use"]

OPTIONS = {
    "none": None,
    "empty": {},
    "spline": {"omega_gw_extrema_interpolation_method": "spline"},
    "rational": {"omega_gw_extrema_interpolation_method": "rational_fit",
                 "special_interp_kwargs_for_omega_gw_extrema":
                 {"degrees": (2, 2)}},
    "nested": {"omega_gw_extrema_interpolation_method": "spline",
               "special_interp_kwargs_for_omega_gw_extrema": {"k": 3},
               "general_interp_kwargs": {},
               "extrema_finding_kwargs": {"height": None}},
    "spline-ext": {"omega_gw_extrema_interpolation_method": "spline",
                   "general_interp_kwargs": {"k": 3, "bbox": [None, None]}},
    "width": {"extrema_finding_kwargs": {"width": 7}},
    "fits": {"kwargs_for_fits_methods": {"num_orbits": 3},
             "omega_gw_extrema_interpolation_method": "spline"},
    "mean-avg": {"omega_gw_averaging_method": "mean_of_extrema_interpolants"},
    "segment": {"use_only_these_many_orbits": 8,
                "omega_gw_extrema_interpolation_method": "spline"},
    "midpoints": {"treat_mid_points_between_pericenters_as_apocenters": True,
                  "omega_gw_extrema_interpolation_method": "spline"},
    "refine": {"refine_extrema": True,
               "omega_gw_extrema_interpolation_method": "spline"},
    "zero": {"return_zero_if_small_ecc_failure": True},
    "filter": {"filter_kwargs": {"do_not_filter": True}},
    "bad-key": {"no_such_option": 1},
    "bad-width": {"extrema_finding_kwargs": {"wide": 7}},
}
FORMS = ["hlm", "amp", "omega"]


def waveform_st():
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.08, 0.4), norb=(14, 20), ppo=(45, 60)),
        form=st.sampled_from(FORMS), modes=st.booleans(),
        precessing=st.sampled_from([False, False, True]),
        zeroecc=st.sampled_from([True, True, True, False]),
        readonly=st.booleans()))


def call_st():
    return st.fixed_dictionaries(dict(
        w=st.integers(0, 1), method=st.sampled_from(METHODS),
        opt=st.sampled_from(sorted(OPTIONS)),
        domain=st.sampled_from(["time"] * 6 + ["frequency"] * 5
                               + ["both", "none"]),
        ref=st.sampled_from(["array", "list", "scalar", "int", "array",
                             "list", "scalar", "outside"]),
        nexcl=st.sampled_from([2, 2, 2, 2, 2, 1, 1, 3, None, -1]),
        debug=st.sampled_from([-1, -1, 0, 1])))


def case_st(tier):
    return st.fixed_dictionaries(dict(
        ws=st.lists(waveform_st(), min_size=2, max_size=2),
        calls=st.lists(call_st(), min_size=2, max_size=6),
        perm=st.randoms(use_true_random=False).map(
            lambda r: r.sample(range(6), 6)),
        repeat=st.integers(0, 5)))


def make(w):
    syn = Synth(w["syn"])
    d = syn.data("hlm", zeroecc=w["zeroecc"])
    if w["precessing"]:
        full = {"t": d["t"], "hlm": None}
        for tag in ("", "_zeroecc"):
            if "hlm" + tag not in d:
                continue
            t = d["t" + tag]
            hp = aligned_modes(d["hlm" + tag][(2, 2)])
            ang = precession_angles(t, 0.3, 2e-4, 0.4, 0.05, 1e-3)
            full["t" + tag] = t
            full["hlm" + tag] = rotate(hp, *ang)
        d = full
    elif w["modes"]:
        for tag in ("", "_zeroecc"):
            if "hlm" + tag in d:
                h = d["hlm" + tag][(2, 2)]
                d["hlm" + tag][(3, 3)] = 0.01 * h
    if w["form"] != "hlm":
        src = to_amp_phase(d)
        if w["form"] == "omega":
            for tag in ("", "_zeroecc"):
                if "phaselm" + tag in src:
                    t = src["t" + tag]
                    src["omegalm" + tag] = {
                        m: deriv(p, t[1] - t[0])
                        for m, p in src["phaselm" + tag].items()}
        d = src
    if w["readonly"]:
        for v in d.values():
            for a in (v.values() if isinstance(v, dict) else [v]):
                a.setflags(write=False)
    return d


def reference(c, syn):
    """Shared mutable reference values, built once per history."""
    ts = c["syn"]["tshift"]
    lo, hi = ts + 0.25 * syn.t_insp, ts + 0.6 * syn.t_insp
    f = 2 * syn.n0 / TWO_PI * np.array([1.25, 1.4])
    return lo, hi, f


def later(g):
    """What a finished measurement says about its own range."""
    t = g.tmin + (g.tmax - g.tmin) * np.array([0.1, 0.5, 0.8])
    return (np.asarray(g.compute_eccentricity(t)).tobytes(),
            np.asarray(g.compute_mean_anomaly(t)).tobytes(),
            np.asarray(g.eccentricity).tobytes(),
            g.t.tobytes(), g.omega_gw.tobytes(), g.amp_gw.tobytes())


def history(case, order):
    """Run the calls in this order; returns {index: [outcome, ...]}."""
    from gw_eccentricity import measure_eccentricity
    ds = [make(w) for w in case["ws"]]
    opts = snapshot(OPTIONS)
    refs = []
    for w in case["ws"]:
        lo, hi, f = reference(w, Synth(w["syn"]))
        refs.append({
            ("time", "scalar"): lo, ("time", "list"): [hi, lo],
            ("time", "array"): np.array([hi, lo, hi]),
            ("time", "outside"): [lo, 1e9],
            ("time", "int"): np.array([int(lo), int(hi)]),
            ("frequency", "scalar"): f[0],
            ("frequency", "list"): [f[1], f[0]],
            ("frequency", "array"): np.array([f[1], f[0]]),
            ("frequency", "outside"): [f[0], 50.0],
            ("frequency", "int"): np.array([f[0]])})
    before = snapshot((ds, opts, refs))
    out, objs = {}, []
    err0 = np.geterr()
    for i in order:
        c = case["calls"][i]
        w = c["w"]
        kw = {}
        if c["domain"] in ("time", "both"):
            kw["tref_in"] = refs[w][("time", c["ref"])]
        if c["domain"] in ("frequency", "both"):
            kw["fref_in"] = refs[w][("frequency", c["ref"])]
        try:
            with quiet():
                r = measure_eccentricity(
                    method=c["method"], dataDict=ds[w],
                    num_orbits_to_exclude_before_merger=c["nexcl"],
                    precessing=case["ws"][w]["precessing"],
                    debug_level=c["debug"], extra_kwargs=opts[c["opt"]],
                    **kw)
            o = {k: (type(v).__name__, np.asarray(v).tobytes().hex())
                 for k, v in r.items() if k != "gwecc_object"}
            g = r["gwecc_object"]
            if hasattr(g, "tmin"):
                objs.append((c, g, later(g)))
        except Exception as e:  # noqa: BLE001
            o = f"{type(e).__name__}: {e}"
        for name, a, b in zip(("dataDict", "extra_kwargs", "reference"),
                              before, (ds, opts, refs)):
            diff = same(a, b, name)
            if diff:
                raise Violation(
                    f"{c['method']} call with options {c['opt']!r} changed "
                    f"its input: {diff}"[:500], key="mutated")
        out.setdefault(i, []).append(o)
    for c, g, was in objs:
        if later(g) != was:
            raise Violation("a finished measurement changed through later "
                            f"calls: {c}", key="object-changed")
    if np.geterr() != err0:
        raise Violation("numpy error handling changed by measurements",
                        key="errstate")
    return out


def run(case):
    n = len(case["calls"])
    order = list(range(n)) + [case["repeat"] % n]
    perm = [i for i in case["perm"] if i < n]
    with tempfile.TemporaryDirectory(prefix="gwv-c08-") as tmp:
        def child(order):
            os.chdir(tmp)
            return history(case, order)
        a = forked(lambda: child(order))
        b = forked(lambda: child(perm))
        left = os.listdir(tmp)
    require(not left, f"measurements left files behind: {left}", key="files")
    for i, outs in a.items():
        for o in outs[1:]:
            require(o == outs[0], "repeating the call gives another result: "
                    f"{case['calls'][i]}: {describe(outs[0], o)}",
                    key="repeat")
        require(b[i][0] == outs[0], "the result depends on the calls made "
                f"before: {case['calls'][i]}: {describe(outs[0], b[i][0])}",
                key="history")
    ok = sum(isinstance(o[0], dict) for o in a.values())
    return dict(nontrivial=ok > 0 and n > 1,
                labels=[f"{ok} of {n} succeed"]
                + [c["method"] for c in case["calls"]][:1])


def describe(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        f = {k: np.frombuffer(bytes.fromhex(v[1])) for k, v in a.items()}
        g = {k: np.frombuffer(bytes.fromhex(v[1])) for k, v in b.items()}
        return f"{f} vs {g}"
    short = [o if isinstance(o, str) else "a result" for o in (a, b)]
    return f"{short[0][:200]} vs {short[1][:200]}"


def ro_case(tier):
    return st.fixed_dictionaries(dict(
        w=waveform_st(), method=st.sampled_from(METHODS),
        opt=st.sampled_from([k for k in sorted(OPTIONS) if "bad" not in k]),
        fr=st.lists(rfloat(0.1, 0.9, 3), min_size=1, max_size=4),
        domain=st.sampled_from(["time", "frequency"])))


def run_ro(case):
    """Read-only input is measured exactly like writable input."""
    from gw_eccentricity import measure_eccentricity

    def one(readonly):
        w = dict(case["w"], readonly=readonly,
                 zeroecc="Residual" in case["method"] or case["w"]["zeroecc"])
        d = make(w)
        lo, hi, f = reference(w, Synth(w["syn"]))
        x = np.array(case["fr"])
        x = (lo + (hi - lo) * x if case["domain"] == "time"
             else f[0] + (f[1] - f[0]) * x)
        x.setflags(write=not readonly)
        kw = {"tref_in" if case["domain"] == "time" else "fref_in": x}
        try:
            with quiet():
                r = measure_eccentricity(
                    method=case["method"], dataDict=d, debug_level=-1,
                    precessing=w["precessing"],
                    extra_kwargs=snapshot(OPTIONS[case["opt"]]), **kw)
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"
        return {k: np.asarray(v).tobytes() for k, v in r.items()
                if k != "gwecc_object"}
    a, b = one(False), one(True)
    require(pickle.dumps(a) == pickle.dumps(b) or a == b,
            "read-only input is not measured like writable input: "
            f"{case['method']}, {case['opt']}: "
            f"{b if isinstance(b, str) else 'values differ'}",
            key="readonly")
    return dict(nontrivial=not isinstance(a, str),
                labels=[case["method"], case["w"]["form"], "raises"
                        if isinstance(a, str) else "measured"])


SUBS = [
    Sub("history", case_st, run, 200, 6000,
        "at least two calls, one of which succeeds"),
    Sub("readonly", ro_case, run_ro, 160, 4000,
        "the measurement succeeds on writable input"),
]
