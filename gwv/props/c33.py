"""C33: definitions added by the user get the documented measurement."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.signal import find_peaks

from ..core import Discard, Sub, quiet, require
from ..meas import METHODS, ang, build, call, orbits_speed_up, rfloat, \
    synth_params, try_call
from ..synth import TWO_PI, Synth, egw_from_omegas
from .c20 import deriv4

ID = "C33"
ASSUMPTIONS = [
    "a definition is added by deriving from eccDefinition and giving "
    "find_extrema and the data it looks at, as the documentation says",
    "a pair of extrema whose separation is within rounding of a limit is not "
    "judged"]
K = 2 * TWO_PI


def own(find, label="Mine"):
    from gw_eccentricity.eccDefinition import eccDefinition

    class Mine(eccDefinition):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.data_for_finding_extrema = self.get_data_for_finding_extrema()
            self.label_for_data_for_finding_extrema = "y"
            self.method = label

        def get_data_for_finding_extrema(self):
            return self.amp_gw

        def find_extrema(self, extrema_type="pericenters"):
            return find(self, extrema_type)
    return Mine


def measure(cls, d, nexcl=2, level=-1, extra=None, **kw):
    with quiet():
        o = cls(d, num_orbits_to_exclude_before_merger=nexcl,
                debug_level=level, extra_kwargs=extra, **kw)
        return o.measure_ecc(), o


# --- the same extrema as a built-in method ---------------------------------
def same_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.5), norb=(9, 24)),
        method=st.sampled_from(METHODS), rep=st.sampled_from(["hlm", "amp"]),
        interp=st.sampled_from(["spline", "rational_fit"]),
        mid=st.booleans(), nexcl=st.sampled_from([1, 2, 2, 3]),
        domain=st.sampled_from(["time", "time", "frequency"]),
        fr=st.lists(rfloat(0.02, 0.98, 3), min_size=1, max_size=4)))


def run_same(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"])
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["mid"]}
    x = float(d["t"][0] + 0.5 * syn.t_insp)
    r, e = try_call(d, case["method"], tref=x, extra=dict(extra),
                    nexcl=case["nexcl"])
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    fr = np.array(case["fr"])
    if case["domain"] == "time":
        kw = {"tref_in": g.tmin + fr * (g.tmax - g.tmin)}
    else:
        orbits_speed_up(d, g)
        _, w = g.get_omega_gw_average()
        if np.any(np.diff(w) <= 0):
            raise Discard("the average frequency does not increase")
        kw = {"fref_in": (w[0] + fr * (w[-1] - w[0])) / TWO_PI}
    a, e = try_call(d, case["method"], tref=kw.get("tref_in"),
                    fref=kw.get("fref_in"), extra=dict(extra),
                    nexcl=case["nexcl"])
    if e is not None:
        raise Discard("not measurable")
    g = a["gwecc_object"]
    found = {k: g.find_extrema(k) for k in ("pericenters", "apocenters")}
    b, _ = measure(own(lambda s, k: found[k].copy()), d, case["nexcl"],
                   extra=dict(extra), **kw)
    for k in set(a) - {"gwecc_object"}:
        require(k in b and np.array_equal(a[k], b[k]), f"{k} is {b.get(k)} "
                f"with the extrema of {case['method']}, which gives {a[k]}",
                key="same")
    return dict(nontrivial=True, labels=[case["method"], case["domain"]])


# --- any set of extrema ----------------------------------------------------
def any_st(tier):
    op = st.tuples(st.sampled_from(["drop", "drop", "add", "add2"]),
                   st.booleans(), st.one_of(
                       rfloat(0, 1, 2), st.sampled_from(
                           [0.0, 0.1, 0.15, 0.85, 0.9, 1.0])),
                   rfloat(0.1, 0.9, 2))
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.1, 0.45), norb=(9, 26), ppo=(45, 70)),
        rep=st.sampled_from(["hlm", "amp"]),
        ops=st.lists(op, max_size=5), nexcl=st.sampled_from([1, 2, 2]),
        fr=st.lists(rfloat(0, 1, 3), min_size=1, max_size=6)))


class Close(Exception):
    """Too close to a limit to say."""


def sure(x, lim):
    if np.any(np.abs(np.asarray(x) - lim) < 1e-6):
        raise Discard("on a limit")


def jumps(loc, ph):
    """Cut at extrema missing near the ends."""
    d = np.diff(ph[loc])
    r = d[1:] / d[:-1]
    sure(r, 1.5)
    sure(1 / r, 1.5)
    mid = len(r) // 2
    late = [i for i in range(len(r)) if r[i] > 1.5 and i > mid]
    early = [i for i in range(len(r)) if r[i] < 1 / 1.5 and i < mid]
    hi = late[0] + 1 if late else len(loc) - 1
    lo = early[-1] + 1 if early else 0
    return loc[lo:hi + 1]


def close(loc, ph):
    """Cut at spurious extrema near the ends."""
    d = np.diff(ph[loc])
    sure(d, K)
    mid = len(d) // 2
    late = [i for i in range(len(d)) if d[i] < K and i > mid]
    early = [i for i in range(len(d)) if d[i] < K and i < mid]
    hi = late[0] if late else len(loc) - 1
    lo = early[-1] + 1 if early else 0
    return loc[lo:hi + 1]


def model(p, a, ph):
    p, a = close(jumps(p, ph), ph), close(jumps(a, ph), ph)
    if len(p) < 2 or len(a) < 2:
        return p, a
    ev = sorted([(i, 0) for i in p] + [(i, 1) for i in a])
    k = [x for _, x in ev]
    if len(set(k)) < 2:
        return p[:0], a[:0]
    i = next(i for i in range(len(ev) - 1) if k[i] != k[i + 1])
    j = next(j for j in range(len(ev) - 1, 0, -1) if k[j] != k[j - 1])
    ev = ev[i:j + 1]
    return (np.array([x for x, y in ev if y == 0], int),
            np.array([x for x, y in ev if y == 1], int))


def run_any(case):
    syn = Synth(case["syn"])
    d = build(syn, "Amplitude", case["rep"])
    t = np.asarray(d["t"], float)
    # what the data look like to the definition
    seen = {}

    def look(s, kind):
        seen["m"] = len(s.t)
        y = s.amp_gw if kind == "pericenters" else -s.amp_gw
        return find_peaks(y, width=3)[0]
    x = float(t[0] + 0.5 * syn.t_insp)
    try:
        _, o = measure(own(look), d, case["nexcl"], tref_in=x)
    except Exception:  # noqa: BLE001
        raise Discard("not measurable")
    y = np.abs(d["hlm"][(2, 2)]) if "hlm" in d else d["amplm"][(2, 2)]
    ph = (-np.unwrap(np.angle(d["hlm"][(2, 2)])) if "hlm" in d
          else np.asarray(d["phaselm"][(2, 2)], float))
    y = y[:seen["m"]]
    lists = {"pericenters": list(find_peaks(y, width=3)[0]),
             "apocenters": list(find_peaks(-y, width=3)[0])}
    changed = []
    for what, peri, where, off in case["ops"]:
        name = "pericenters" if peri else "apocenters"
        v = lists[name]
        j = int(round(where * (len(v) - 1)))
        if what == "drop" and len(v) > 5:
            v.pop(j)
            changed.append("drop")
        elif what.startswith("add") and j + 1 < len(v):
            i = int(round(v[j] + off * (v[j + 1] - v[j])))
            if i not in lists["pericenters"] + lists["apocenters"]:
                v.append(i)
                v.sort()
                changed.append("add")
    lists = {k: np.array(v, int) for k, v in lists.items()}
    p, a = model(lists["pericenters"], lists["apocenters"], ph)
    cls = own(lambda s, k: lists[k].copy())
    if len(p) < 2 or len(a) < 2:
        try:
            measure(cls, d, case["nexcl"], tref_in=x)
        except Exception:  # noqa: BLE001
            return dict(nontrivial=False, labels=["too few"])
        require(False, f"measures with {len(p)} good pericenters and "
                f"{len(a)} apocenters", key="few")
    if len(np.unique(np.concatenate([p, a]))) < len(p) + len(a):
        raise Discard("one place is both")
    lo, hi = max(t[p[0]], t[a[0]]), min(t[p[-1]], t[a[-1]])
    if hi - lo < 2 * syn.dt:
        raise Discard("nothing to measure")
    fr = np.sort(np.array(case["fr"]))
    xs = np.clip(lo + fr * (hi - lo), lo, hi)
    xs = xs[(xs >= t[p[0]]) & (xs <= t[p[-1]])]
    extra = {"omega_gw_extrema_interpolation_method": "spline"}
    try:
        r, g = measure(cls, d, case["nexcl"], tref_in=xs, extra=dict(extra))
    except Exception as e:  # noqa: BLE001
        require(False, f"pericenters at {p} and apocenters at {a} are good, "
                f"but {type(e).__name__}: {e}", key="raised")
    for name, want in (("pericenters", p), ("apocenters", a)):
        have = np.asarray(getattr(g, name + "_location"))
        require(np.array_equal(have, want), f"of the {name} "
                f"{list(lists[name])} with phases/4pi "
                f"{np.round(ph[lists[name]] / K, 2)}, those at {list(have)} "
                f"are used, not {list(want)}", key="choice")
    require(g.tmin == lo and g.tmax == hi, f"measures from {g.tmin} to "
            f"{g.tmax} instead of {lo} to {hi}", key="range")
    om = deriv4(ph, t[1] - t[0])
    w = [InterpolatedUnivariateSpline(t[i], om[i], k=min(3, len(i) - 1))(xs)
         for i in (p, a)]
    if np.all(w[0] > w[1]) and np.all(w[1] > 0):
        want = egw_from_omegas(*w)
        err = np.max(np.abs(r["eccentricity"] - want))
        require(err < 1e-6, "the eccentricity does not follow from the "
                f"extrema given, off by {err:.1e}", key="ecc")
    tp = t[p]
    k = np.clip(np.searchsorted(tp, xs, side="right") - 1, 0, len(tp) - 2)
    want = TWO_PI * (xs - tp[k]) / (tp[k + 1] - tp[k])
    err = np.max(ang(r["mean_anomaly"], want))
    require(err < 1e-7, "the mean anomaly does not follow from the "
            f"pericenters given, off by {err:.1e}", key="anomaly")
    cut = sum(len(v) for v in lists.values()) - len(p) - len(a)
    return dict(nontrivial=cut > 0, labels=sorted(set(changed))
                + (["cut"] if cut else ["all used"]))


SUBS = [
    Sub("same", same_st, run_same, 480, 4000, "every case"),
    Sub("any", any_st, run_any, 1600, 16000,
        "some of the extrema given are not usable"),
]
