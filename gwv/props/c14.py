"""C14: the orientation of the source frame does not matter."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, Violation, quiet, require
from ..meas import (FITS, ang, build, call, fref_window, method_st,
                    options_st, probe_options, rfloat, rounding_tol, same,
                    snapshot, synth_params, to_amp_phase, try_call, with_options)
from ..precess import (aligned_modes, precession_angles, rotate,
                       rotate_all)
from ..synth import TWO_PI, Synth

ID = "C14"
ASSUMPTIONS = [
    "the orbital angular momentum starts within 70 degrees of +z, so that "
    "the co-precessing frame has an orbit that is counterclockwise",
    "precession is slower than a third of the orbital frequency"]


def base_case(kind):
    def make(tier):
        return st.fixed_dictionaries(dict(
            kind=st.just(kind),
            opts=(st.just({}) if kind == "precession" else options_st()),
            syn=synth_params(e0=(0.08, 0.4), norb=(14, 24)),
            method=method_st(),
            domain=st.sampled_from(["time", "time", "frequency"]),
            interp=st.sampled_from(["spline", "rational_fit"]),
            avg=st.sampled_from(["orbit_averaged_omega_gw",
                                 "mean_of_extrema_interpolants"]),
            rep=st.sampled_from(["hlm", "amp"]),
            omegalm=st.booleans(),
            small=st.sampled_from([0.0, 0.0, 1e-3, 5e-3]),
            frame=st.sampled_from(["inertial", "coprecessing"]),
            flag=st.sampled_from(["bool", "bool", "bool", "numpy"]),
            a0=rfloat(-3.1, 3.1, 2), b0=rfloat(0, 1.2, 2),
            g0=rfloat(-3.1, 3.1, 2), az=rfloat(-3.1, 3.1, 2),
            bz=rfloat(0, 1.2, 2),
            rate=rfloat(-0.1, 0.1, 3), db=rfloat(0, 0.1, 2),
            fr=st.lists(rfloat(0.05, 0.95, 3), min_size=1, max_size=5)))
    return make


def with_modes(d, small):
    out = {k: v for k, v in d.items() if k[0] == "t"}
    for tag in ("", "_zeroecc"):
        if "hlm" + tag in d:
            out["hlm" + tag] = aligned_modes(d["hlm" + tag][(2, 2)], small)
    return out


def omega_of(d):
    """Add (inertial) omegalm, which the library has to recompute."""
    d = dict(d)
    for tag in ("", "_zeroecc"):
        if "phaselm" + tag in d:
            t = d["t" + tag]
            d["omegalm" + tag] = {m: np.gradient(p, t) for m, p in
                                  d["phaselm" + tag].items()}
    return d


def run(case):
    syn = Synth(case["syn"])
    method = case["method"]
    d = with_modes(build(syn, method, "hlm"), case["small"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "omega_gw_averaging_method": case["avg"]}
    kind = case["kind"]
    if kind == "same-frame":
        # reference: the orbit treated as nonprecessing
        ref_kw = {}
    else:
        ref_kw = dict(precessing=True, frame="coprecessing")
        if kind == "rotation" and case["small"]:
            ref_kw["frame"] = "inertial"
    extra, nexcl = with_options(extra, case["opts"], method)
    g = probe_options(d, method, extra, nexcl, case["opts"], **ref_kw)
    if case["domain"] == "time":
        lo, hi, kw, key = g.tmin, g.tmax, "tref", "tref_out"
    else:
        ref = d if kind == "same-frame" else {
            k: ({(2, 2): v[(2, 2)]} if isinstance(v, dict) else v)
            for k, v in d.items()}
        (lo, hi), kw, key = (fref_window(ref, method, g, extra), "fref",
                             "fref_out")
    x = lo + (hi - lo) * np.array(case["fr"])
    a = call(d, method, extra=dict(extra), nexcl=nexcl, **{kw: x}, **ref_kw)

    if kind == "same-frame":
        b_data, frame = d, case["frame"]
    else:
        frame = "inertial"
        b_data = dict(d)
        for tag, al, be in (("", case["a0"], case["b0"]),
                            ("_zeroecc", case["az"], case["bz"])):
            if "hlm" + tag not in d:
                continue
            t = d["t" + tag]
            if kind == "rotation":
                angles = (al, be, case["g0"])
            else:
                angles = precession_angles(
                    t - t[0], al, case["rate"] * syn.n0, min(be, 1.0),
                    case["db"], 0.03 * syn.n0)
            b_data["hlm" + tag] = rotate(d["hlm" + tag], *angles)
    if case["rep"] == "amp":
        b_data = to_amp_phase(b_data)
        if case["omegalm"] and frame == "inertial":
            b_data = omega_of(b_data)
    b, err = try_call(b_data, method, extra=dict(extra), nexcl=nexcl,
                      precessing=(True if case["flag"] == "bool"
                                  else np.bool_(True)),
                      frame=frame, **{kw: x})
    if err is not None:
        raise Violation(f"{kind}: measurement of the rotated waveform raises "
                        f"{type(err).__name__}: {err}", key="raised")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    same = (len(ga.t_pericenters) == len(gb.t_pericenters)
            and len(ga.t_apocenters) == len(gb.t_apocenters)
            and np.allclose(gb.t_pericenters, ga.t_pericenters)
            and np.allclose(gb.t_apocenters, ga.t_apocenters))
    etol, ltol = rounding_tol(case, ga, gb)
    if kind == "same-frame" and case["frame"] == "coprecessing":
        pass
    elif kind == "precession":
        # co-precessing transformation of data on a grid: its error is the
        # numerical integration of the frame
        etol = max(etol, 4e-3)
        ltol = 0.05 if case["domain"] == "time" else 0.3
    else:
        # transformation error (small modes tilt the frame)
        etol = max(etol, 1e-4 + 0.1 * case["small"])
        ltol = max(ltol, 1e-3)
        if case["domain"] == "frequency":
            ltol = max(ltol, 0.05)
    if not same:
        etol = max(etol, 4e-3)
        ltol = max(ltol, 4 * TWO_PI / syn.c["ppo"])
    require(len(a[key]) == len(b[key]) and np.array_equal(a[key], b[key]),
            f"{kind}: {key} depends on the frame", key="ref-out")
    de = np.max(np.abs(a["eccentricity"] - b["eccentricity"]))
    dl = np.max(ang(a["mean_anomaly"], b["mean_anomaly"]))
    require(de < etol, f"{kind} changes the eccentricity by {de:.2e}",
            key="ecc")
    require(dl < ltol, f"{kind} changes the mean anomaly by {dl:.2e} rad",
            key="anomaly")
    return dict(nontrivial=kind == "same-frame" or case["b0"] > 0.02,
                labels=[kind, method, case["rep"],
                        "same-extrema" if same else "moved"])


# --- the transformation of the data itself ---------------------------------
def data_case(tier):
    return st.fixed_dictionaries(dict(
        lo=st.integers(2, 4), more=st.integers(0, 2),
        extra=st.booleans(), tag=st.sampled_from(["", "_zeroecc"]),
        drop=st.one_of(st.none(), st.integers(0, 100)),
        n=st.integers(60, 200), w=rfloat(0.005, 0.05, 4),
        rate=rfloat(-0.2, 0.2, 2), a0=rfloat(-3.1, 3.1, 2),
        b0=rfloat(0, 1.2, 2), db=rfloat(0, 0.1, 2), seed=st.integers(0, 99)))


def run_data(case):
    """|h_lm| of all orders, seen from the frame that follows the orbit."""
    from gw_eccentricity.load_data import get_coprecessing_data_dict
    lo, hi = case["lo"], case["lo"] + case["more"]
    rng = np.random.default_rng(case["seed"])
    t = np.arange(case["n"]) * 1.0
    ph = case["w"] * t
    al = {}
    for ell in range(2, hi + 2):
        for m in range(0, ell + 1):
            # the others are too faint to turn the dominant direction
            a = rng.uniform(0.5, 1) * (1 + 0.3 * t / t[-1]) * (
                1 if m == ell else 0.1)
            if m == 0 and ell % 2:
                # of an orbit that is symmetric about its plane
                a = 0 * a
            h = a * np.exp(-1j * m * ph) + 0j
            al[(ell, m)] = h
            if m:
                al[(ell, -m)] = (-1) ** ell * np.conj(h)
    rot = rotate_all(al, *precession_angles(
        t, case["a0"], case["rate"] * case["w"], case["b0"], case["db"],
        case["w"] / 7))
    keep = [k for k in rot if case["extra"] or lo <= k[0] <= hi]
    modes = {k: rot[k] for k in keep}
    other = {"": "_zeroecc", "_zeroecc": ""}[case["tag"]]
    d = {"t" + case["tag"]: t, "hlm" + case["tag"]: modes,
         "t" + other: 2 * t, "hlm" + other: {(2, 2): rot[(2, 2)]}}
    inside = [k for k in modes if lo <= k[0] <= hi]
    if case["drop"] is not None:
        gone = sorted(inside)[case["drop"] % len(inside)]
        del modes[gone]
    before = snapshot(d)
    try:
        with quiet():
            out = get_coprecessing_data_dict(d, ell_min=lo, ell_max=hi,
                                             tag=case["tag"])
        err = None
    except Exception as e:  # noqa: BLE001
        err = e
    require(same(before, d) is None, "the data is modified",
            key="mutation")
    labels = [f"{lo} to {hi}", case["tag"] or "main"]
    if case["drop"] is not None:
        require(err is not None, f"data without {gone} is accepted",
                key="missing")
        return dict(nontrivial=True, labels=labels + ["missing"])
    require(err is None, f"{type(err).__name__}: {err}", key="data")
    got = {(int(a), int(b)): v for (a, b), v in
           out["hlm" + case["tag"]].items()}
    require(set(got) == set(inside), f"modes {sorted(got)}", key="data")
    require(np.array_equal(out["t" + case["tag"]], t)
            and np.array_equal(out["t" + other], 2 * t)
            and np.array_equal(out["hlm" + other][(2, 2)], rot[(2, 2)]),
            "what is not transformed is changed", key="data")
    for k, h in got.items():
        e = np.max(np.abs(np.abs(h) - np.abs(al[k])))
        require(e < 1e-8, f"|h_{k}| differs by {e:.1e} from that of the "
                "orbit", key="data")
    return dict(nontrivial=case["b0"] > 0.02, labels=labels)


RULE = "the frame is tilted by more than 0.02 rad, or (same-frame) the " \
    "orbit is treated as precessing"
SUBS = [Sub(k, base_case(k), run, n, 20 * n, RULE) for k, n in (
    ("same-frame", 360), ("rotation", 420), ("precession", 360))] + [
        Sub("data", data_case, run_data, 300, 5000, "the frame is tilted by "
            "more than 0.02 rad, or a mode is missing")]
