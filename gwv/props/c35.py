"""C35: leaving an option out is the same as giving its documented default."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, quiet, require
from ..meas import (FITS, METHODS, build, fref_window, pick_times, rfloat,
                    same, synth_params)
from ..precess import aligned_modes, rotate
from ..synth import Synth
from . import c22
from .c15 import asymmetric, to_h

ID = "C35"
ASSUMPTIONS = [
    "defaults are those stated in the documentation of the functions that "
    "take the options and in the functions it refers to for them"]
SPLINE = {"w": None, "bbox": [None, None], "k": 3, "ext": 2,
          "check_finite": False}
RATIONAL = {"degrees": None, "max_iterations": 20, "verbose": False,
            "tol": 1e-07}
FIND = {"height": None, "threshold": None, "distance": None,
        "prominence": None, "wlen": None, "rel_height": 0.5,
        "plateau_size": None}
PLAIN = {"omega_gw_extrema_interpolation_method": "rational_fit",
         "debug_plots": False,
         "omega_gw_averaging_method": "orbit_averaged_omega_gw",
         "treat_mid_points_between_pericenters_as_apocenters": False,
         "refine_extrema": False, "return_zero_if_small_ecc_failure": False,
         "use_only_these_many_orbits": None}
TOP = {"num_orbits_to_exclude_before_merger": 2, "precessing": False,
       "frame": "inertial", "debug_level": 0}
DICTS = ["special_interp_kwargs_for_omega_gw_extrema",
         "general_interp_kwargs", "extrema_finding_kwargs",
         "kwargs_for_fits_methods", "filter_kwargs"]
FITTING = ["fit_bounds_max_amp_factor", "fit_bounds_max_nPN_factor",
           "distance_factor", "num_orbits", "num_orbits_for_global_fit",
           "return_diagnostic_data", "nPN", "prominence_factor"]


def case_st(tier):
    def some(names, n):
        return st.lists(st.sampled_from(names), max_size=n, unique=True)
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.06, 0.4), norb=(13, 22),
                         tshift=st.sampled_from([0.0, -3000.0])),
        method=st.sampled_from(METHODS),
        domain=st.sampled_from(["time", "time", "frequency"]),
        fr=st.lists(rfloat(0.05, 0.95, 3), min_size=1, max_size=4),
        scalar=st.booleans(),
        kind=st.sampled_from(["plain", "plain", "plain", "inertial",
                              "coprecessing", "asymmetric"]),
        s=rfloat(0.5, 1.5, 2), empty=st.booleans(),
        # narrow peaks, which the default width of peaks keeps out
        ripple=st.sampled_from([0.0, 0.0, 0.01, 0.05]),
        # options that are not left at their default, in both measurements
        other=st.fixed_dictionaries({}, optional=dict(
            interp=st.just("spline"), mid=st.just(True),
            refine=st.just(True), orbits=st.sampled_from([6, 8]),
            average=st.just("mean_of_extrema_interpolants"),
            nexcl=st.sampled_from([1, 3]))),
        top=some(list(TOP), 4), plain=some(list(PLAIN), 7),
        dicts=some(DICTS, 5),
        # how much of each dictionary is given
        part=st.sampled_from(["all", "all", "half", "other half", "empty",
                              "None"])))


def defaults_of(name, case, extra):
    from gw_eccentricity import utils
    from gw_eccentricity.spin_filter import get_default_kwargs_for_filtering
    rat = extra.get("omega_gw_extrema_interpolation_method",
                    "rational_fit") == "rational_fit"
    if name == DICTS[0]:
        a, b = ((RATIONAL, utils.get_default_rational_fit_kwargs()) if rat
                else (SPLINE, utils.get_default_spline_kwargs()))
        require(a == b, f"defaults of the interpolation are {b}, not {a}",
                key="stated")
        return a
    if name == DICTS[1]:
        return SPLINE
    if name == DICTS[2]:
        return FIND
    if name == DICTS[3]:
        return None
    return get_default_kwargs_for_filtering()


def measure(d, extra, **kw):
    from gw_eccentricity import measure_eccentricity
    with quiet():
        return measure_eccentricity(dataDict=d, extra_kwargs=extra, **kw)


def run(case):
    syn = Synth(case["syn"])
    kw = dict(method=case["method"])
    d = build(syn, case["method"], "hlm")
    h = d["hlm"][(2, 2)]
    d["hlm"][(2, 2)] = h * (1 + case["ripple"] * syn.c["e0"] * np.cos(
        2 * np.pi * np.arange(len(h)) / 5.0))
    if case["kind"] == "asymmetric":
        d, _ = asymmetric(syn, case["s"] * syn.c["e0"], 0.1 * syn.c["e0"],
                          0.3, "Residual" in case["method"])
        d = to_h(d)
        kw.update(precessing=True, frame="coprecessing")
    elif case["kind"] != "plain":
        kw["precessing"] = True
        for tag in ("", "_zeroecc"):
            if "hlm" + tag in d:
                d["hlm" + tag] = aligned_modes(d["hlm" + tag][(2, 2)])
                if case["kind"] == "inertial":
                    d["hlm" + tag] = rotate(d["hlm" + tag], 0.3, 0.4, 0.1)
        if case["kind"] == "coprecessing":
            kw["frame"] = "coprecessing"
    o, extra = case["other"], {}
    for k, name in (("interp", "omega_gw_extrema_interpolation_method"),
                    ("mid", "treat_mid_points_between_pericenters_as_"
                     "apocenters"), ("refine", "refine_extrema"),
                    ("orbits", "use_only_these_many_orbits"),
                    ("average", "omega_gw_averaging_method")):
        if k in o:
            extra[name] = o[k]
    if "nexcl" in o:
        kw["num_orbits_to_exclude_before_merger"] = o["nexcl"]
    try:
        g = measure(d, {k: v for k, v in extra.items()
                        if k != "use_only_these_many_orbits"},
                    tref_in=float(d["t"][0] + 0.5 * syn.t_insp),
                    **kw)["gwecc_object"]
        if case["domain"] == "time" or "orbits" in o:
            ref = dict(tref_in=pick_times(g, case["fr"]))
        else:
            lo, hi = fref_window(d, case["method"], g, extra)
            ref = dict(fref_in=lo + (hi - lo) * np.array(case["fr"]))
        if case["scalar"] or "orbits" in o:
            ref = {k: float(v[0]) for k, v in ref.items()}
        base = extra or ({} if case["empty"] else None)
        a = measure(d, base if base is None else dict(base), **ref, **kw)
    except Discard:
        raise
    except Exception:  # noqa: BLE001
        raise Discard("not measurable")
    # the same, with more options given
    kw2, new = dict(kw), dict(extra)
    for k in case["top"]:
        kw2.setdefault(k, TOP[k])
    if case["kind"] != "plain" and "frame" not in kw:
        kw2["frame"] = "inertial"
    for k in case["plain"]:
        new.setdefault(k, PLAIN[k])
    full = 0
    for k in case["dicts"]:
        v = defaults_of(k, case, extra)
        if k == "kwargs_for_fits_methods":
            if case["method"] not in FITS:
                v = {}
            else:
                v = a["gwecc_object"].get_default_kwargs_for_fits_methods()
                require(set(v) >= set(FITTING) - {"nPN"},
                        f"options of the fits are {sorted(v)}", key="stated")
        items = sorted(v.items())
        if case["part"] == "None":
            continue
        v = dict({"all": items, "half": items[::2],
                  "other half": items[1::2], "empty": []}[case["part"]])
        if k == "extrema_finding_kwargs" and case["method"] in FITS:
            # these derive most of them from their own options
            v = {}
        full += len(v)
        new[k] = v
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in new.items()}
    text = (f"with the defaults of {sorted(set(new) - set(extra))} and "
            f"{sorted(set(kw2) - set(kw))} ({case['part']}) given")
    try:
        b = measure(d, new, **ref, **kw2)
    except Exception as e:  # noqa: BLE001
        require(False, f"{text}: {type(e).__name__}: {e}", key="raised")
    bad = same(keep, new)
    require(bad is None, f"{text}: {bad}", key="changed")
    for k in sorted(set(a) - {"gwecc_object"}):
        u, v = np.asarray(a[k]), np.asarray(b[k])
        require(u.shape == v.shape and np.array_equal(u, v),
                f"{text}: {k} is {v}, {u} without", key="differs")
    ga, gb = a["gwecc_object"], b["gwecc_object"]
    for k in ("t_pericenters", "t_apocenters"):
        require(np.array_equal(getattr(ga, k), getattr(gb, k)),
                f"{text}: {k} differ", key="differs")
    n = len(set(new) - set(extra)) + len(set(kw2) - set(kw))
    return dict(nontrivial=n > 0, labels=[
        case["method"], case["kind"], case["part"]])


# --- loaders ---------------------------------------------------------------
LOADERS = {
    "EOB": {"include_zero_ecc": False, "filepath_zero_ecc": None},
    "EMRI": {"include_zero_ecc": False, "filepath_zero_ecc": None,
             "start_time": None, "end_time": None, "deltaT": None,
             "include_geodesic_ecc": False},
    "LAL": {"deltaTOverM": 0.1, "physicalUnits": False, "M": None, "D": None,
            "include_zero_ecc": False}}


def load_st(tier):
    return st.one_of(
        c22.eob_st(tier).map(lambda c: dict(c, origin="EOB")),
        c22.emri_st(tier).map(lambda c: dict(c, origin="EMRI")),
        st.fixed_dictionaries(dict(
            origin=st.just("LAL"), q=rfloat(1, 3, 1), ecc=rfloat(0.05, 0.3, 2),
            l0=rfloat(0, 6, 1), M0=rfloat(0.025, 0.035, 3),
            dt=st.one_of(st.none(), st.sampled_from([1.0, 2.0])),
            named=st.booleans()))
    ).flatmap(lambda c: st.fixed_dictionaries(dict(
        c=st.just(c), given=st.lists(
            st.sampled_from(sorted(LOADERS[c["origin"]])), min_size=1,
            unique=True))))


def run_load(case):
    import h5py
    from gw_eccentricity.load_data import (
        get_load_waveform_defaults, load_waveform)
    c = case["c"]
    org = c["origin"]
    table = get_load_waveform_defaults(org)
    for k, v in LOADERS[org].items():
        require(k in table and table[k] == v and type(table[k]) is type(v),
                f"the default of {k} for {org} is {table.get(k)}, "
                f"documented is {v}", key="stated")

    def load(**kw):
        with quiet():
            return load_waveform(**kw)
    with c22.scratch() as tmp:
        if org == "LAL":
            kw = dict(approximant="EccentricTD", q=c["q"], chi1=[0, 0, 0.],
                      chi2=[0, 0, 0.], ecc=c["ecc"], mean_ano=c["l0"],
                      Momega0=c["M0"])
            if c["named"]:
                kw["origin"] = "LAL"
            if c["dt"]:
                kw["deltaTOverM"] = c["dt"]
        else:
            t = c22.times(c)
            amp, ph = c22.signal(c, t)
            h = amp * np.exp(-1j * ph)
            p = os.path.join(tmp, c["path"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            kw = dict(origin=org, filepath=p)
            if org == "EOB":
                c22.write_eob(p, t, h)
            else:
                with h5py.File(p, "w") as f:
                    f["Dataset1"] = np.array([t, h.real, h.imag]).T
                if c["start"] is not None:
                    kw["start_time"] = -c["start"] * c["T"]
                if c["dT"] is not None:
                    kw["deltaT"] = c["dT"]
        a = load(**kw)
        more = dict(kw)
        for k in case["given"]:
            more.setdefault(k, LOADERS[org][k])
        b = load(**more)
        require(same(a, b) is None, f"{org} with "
                f"{sorted(set(more) - set(kw))} given as documented: "
                f"{same(a, b)}", key="differs")
    return dict(nontrivial=len(more) > len(kw), labels=[org])


SUBS = [Sub("options", case_st, run, 260, 8000,
            "at least one default is given and the waveform is measured"),
        Sub("loaders", load_st, run_load, 100, 1000,
            "at least one default is given")]
