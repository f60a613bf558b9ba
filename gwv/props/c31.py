"""C31: all methods agree on the waveforms of physical systems."""
import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, quiet, require
from ..meas import METHODS, ang, rfloat, try_call
from ..synth import TWO_PI

ID = "C31"
ASSUMPTIONS = [
    "systems are those of the installed EccentricTD approximant, which "
    "starts close to a pericenter whatever the mean anomaly it is given; "
    "its eccentricity parameter is another one than the measured "
    "eccentricity, which lies between 1.15 and 1.75 times as high"]


def case_st(tier):
    return st.fixed_dictionaries(dict(
        q=rfloat(1, 6, 2), e0=rfloat(0.03, 0.5, 3), w0=rfloat(0.0098, 0.014,
                                                              4),
        dt=st.sampled_from([0.5, 0.5, 0.3, 1.0]), l0=rfloat(0, 6.2, 1),
        methods=st.permutations(METHODS),
        interp=st.sampled_from(["rational_fit", "spline"]),
        refine=st.booleans(),
        fr=st.lists(rfloat(0.01, 0.9, 3), min_size=1, max_size=5)))


def run(case):
    from gw_eccentricity import load_data
    from gw_eccentricity import get_available_methods
    with quiet():
        names = list(get_available_methods())
        d = load_data.load_waveform(
            approximant="EccentricTD", q=case["q"], chi1=[0, 0, 0],
            chi2=[0, 0, 0], Momega0=case["w0"], ecc=case["e0"],
            mean_ano=case["l0"], include_zero_ecc=True,
            deltaTOverM=case["dt"])
    require(sorted(names) == sorted(METHODS), f"methods are {names}",
            key="methods")
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "refine_extrema": case["refine"]}
    # the integration of the approximant sometimes stops early
    phase = np.unwrap(np.angle(d["hlm"][(2, 2)]))
    if abs(phase[-1] - phase[0]) < 9 * 2 * TWO_PI:
        raise Discard("a few orbits only")
    # (see the known finding of C17: where the amplitude rises until the end
    # of the data, the merger may be put far from it)
    amp = abs(d["hlm"][(2, 2)])
    q = np.polyfit(np.arange(5) - 2, amp[-5:], 2)
    if np.argmax(amp) > len(amp) - 3 and not abs(q[1] / q[0]) < 1000:
        raise Discard("stopped while the amplitude rises")
    r, e = try_call(d, "ResidualAmplitude", tref=d["t"])
    require(e is None, f"{type(e).__name__}: {e}", key="raised")
    if len(r["gwecc_object"].t_pericenters) < 8:
        raise Discard("a few orbits only")
    g = {}
    for m in case["methods"]:
        r, e = try_call(d, m, tref=d["t"], extra=dict(extra))
        if e is None:
            g[m] = r["gwecc_object"]
        else:
            # plain methods need eccentricity enough for local extrema
            require(m in ("Amplitude", "Frequency") and case["e0"] < 0.04,
                    f"{m}: {type(e).__name__}: {e}", key="raised")
    if len(g) < 2:
        raise Discard("too circular")
    lo = max(x.tmin for x in g.values())
    hi = min(x.tmax for x in g.values())
    t = np.sort(lo + (hi - lo) * np.array(case["fr"]))
    base = g[[m for m in case["methods"] if m in g][0]]
    e0 = base.compute_eccentricity(t)
    l0 = base.compute_mean_anomaly(t)
    late = (t - lo) / (hi - lo)
    etol = 1e-3 + 3e-3 * np.maximum(0, late - 0.5)
    if case["interp"] == "rational_fit":
        etol = etol + 2e-3
    else:
        # extrema of a few orbits, on the grid
        etol = etol + 4e-3 * case["dt"]
    # pericenters are as sharp as the orbit is eccentric
    ltol = (0.02 + 0.004 / e0) * (1 + 3 * late**2)
    if case["refine"] is False:
        n = base.compute_eccentricity(t) * 0 + TWO_PI / np.diff(
            base.t_pericenters)[0]
        ltol = ltol + 2 * case["dt"] * n
    de = dl = 0.0
    for m, x in g.items():
        e, l = x.compute_eccentricity(t), x.compute_mean_anomaly(t)
        a, b = np.abs(e - e0), ang(l, l0)
        de, dl = max(de, np.max(a / etol)), max(dl, np.max(b / ltol))
        require(np.all(a < etol), f"{m} and {base.method} measure {e} and "
                f"{e0} at {np.round(late, 2)} of the range",
                key="eccentricity")
        require(np.all(b < ltol), f"{m} and {base.method} measure mean "
                f"anomalies {l} and {l0} at {np.round(late, 2)} of the "
                "range", key="anomaly")
        grid = np.linspace(x.tmin, x.tmin + 0.95 * (x.tmax - x.tmin), 300)
        y = x.compute_eccentricity(grid)
        require(np.all(np.diff(y) < 0), f"{m}: eccentricity increases",
                key="decreasing")
        ratio = y[0] / case["e0"]
        require(1.15 < ratio < 1.75, f"{m}: eccentricity {y[0]} of a system "
                f"with parameter {case['e0']}", key="system")
        n = TWO_PI / (x.t_pericenters[1] - x.t_pericenters[0])
        first = (n * (x.t_pericenters[0] - d["t"][0])) % TWO_PI
        # an extremum within half an orbit of the start is not used
        off = min(first, TWO_PI - first)
        require(off < 1.0, f"{m}: the system starts {off:.2f} from a "
                "pericenter", key="system")
    return dict(nontrivial=len(g) >= 4, labels=[
        f"{len(g)} methods", case["interp"]], de=de, dl=dl)


SUBS = [Sub("methods", case_st, run, 32, 800,
            "four or more methods on one waveform", timeout=120)]
