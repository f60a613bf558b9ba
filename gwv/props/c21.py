"""C21: LAL waveforms are requested and returned as documented."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, quiet, require
from ..meas import rfloat

ID = "C21"
ASSUMPTIONS = [
    "the waveform generator is replaced by a stand-in that records its "
    "arguments and returns a chirp built from them, except in the check "
    "'real'"]
APPROX = ["EccentricTD", "EccentricTD", "IMRPhenomT", "SEOBNRv4",
          "IMRPhenomD"]


def load(**kw):
    from gw_eccentricity.load_data import load_waveform
    with quiet():
        return load_waveform(**kw)


def tau_end(momega, q):
    eta = q / (1 + q) ** 2
    return 5 / (256 * eta) * momega ** (-8. / 3) * 0.02


def model(tau, momega, q, ecc, ano, s1, s2):
    """Dimensionless (amplitude, phase) of the stand-in."""
    T = tau_end(momega, q)
    u = np.clip(1 - tau / (T * 1.02), 1e-3, None)
    amp = momega ** (2. / 3) * u ** -0.25 * (
        1 + 0.3 * ecc * np.cos(momega * tau + ano)) * (
            1 + 0.1 * s1 + 0.05 * s2)
    w = np.where(tau > T, np.exp(-((tau - T) / (0.01 * T + 20)) ** 2), 1.0)
    ph = 2 * momega * T * (1 - u ** 0.625) + ecc * np.sin(
        momega * tau + ano)
    return amp * w, ph


class Generator:
    def __init__(self, late=0):
        self.calls = []
        self.late = late

    def __call__(self, m1, m2, s1x, s1y, s1z, s2x, s2y, s2z, distance,
                 inclination, phi_ref, longasc, ecc, ano, dt, f_low, f_ref,
                 params, approx):
        import lal
        import lalsimulation as ls
        c = dict(m1=m1, m2=m2, s1=(s1x, s1y, s1z), s2=(s2x, s2y, s2z),
                 distance=distance, inclination=inclination, phi_ref=phi_ref,
                 longasc=longasc, ecc=ecc, ano=ano, dt=dt, f_low=f_low,
                 f_ref=f_ref, approx=approx, params=params)
        self.calls.append(c)
        M = (m1 + m2) / lal.MSUN_SI
        MT = M * lal.MTSUN_SI
        q = m1 / m2
        mo = f_low * np.pi * MT
        T = tau_end(mo, q)
        # circular: shorter, for some
        start = 0.05 * T if (ecc < 1e-3 and self.late
                             and len(self.calls) <= 1 + self.late) else 0.0
        n = int((1.05 * T + 40 - start) / (dt / MT))
        tau = start + np.arange(n) * dt / MT
        a, ph = model(tau, mo, q, ecc, ano, s1z, s2z)
        y = (a * np.exp(-1j * ph) * MT * lal.C_SI / distance
             * lal.SpinWeightedSphericalHarmonic(0, 0, -2, 2, 2))
        out = []
        for name, v in (("hp", y.real), ("hc", -y.imag)):
            s = lal.CreateREAL8TimeSeries(
                name, lal.LIGOTimeGPS(-n * dt), 0.0, dt, lal.StrainUnit, n)
            s.data.data = v
            out.append(s)
        self.last = (tau, a, ph, ls)
        return tuple(out)


@contextlib.contextmanager
def stand_in(gen):
    import lalsimulation as ls
    old = ls.SimInspiralChooseTDWaveform
    ls.SimInspiralChooseTDWaveform = gen
    try:
        yield gen
    finally:
        ls.SimInspiralChooseTDWaveform = old


def case_st(tier):
    spin = st.one_of(st.just([0.0, 0.0, 0.0]),
                     rfloat(-0.99, 0.99, 2).map(lambda z: [0.0, 0.0, z]))
    return st.fixed_dictionaries(dict(
        approx=st.sampled_from(APPROX), q=rfloat(1, 8, 2), chi1=spin,
        chi2=spin, ecc=st.one_of(st.just(0.0), rfloat(0, 0.7, 3)),
        ano=rfloat(0, 6.28, 2), momega=rfloat(0.01, 0.03, 4),
        dt=st.sampled_from([None, 0.1, 0.5, 1.0, 2.0]),
        phys=st.booleans(), M=rfloat(3, 200, 1), D=rfloat(10, 5000, 0),
        zero=st.booleans(), late=st.integers(0, 3),
        container=st.sampled_from(["list", "array", "tuple", "ints"])))


def spin_of(case, key):
    v = case[key]
    if case["container"] == "array":
        return np.array(v)
    if case["container"] == "tuple":
        return tuple(v)
    if case["container"] == "ints" and not any(v):
        return [0, 0, 0]
    return list(v)


def kwargs_of(case):
    kw = dict(approximant=case["approx"], q=case["q"],
              chi1=spin_of(case, "chi1"), chi2=spin_of(case, "chi2"),
              ecc=case["ecc"], mean_ano=case["ano"], Momega0=case["momega"])
    if case["dt"] is not None:
        kw["deltaTOverM"] = case["dt"]
    if case["phys"]:
        kw.update(physicalUnits=True, M=case["M"], D=case["D"])
    if case["zero"]:
        kw["include_zero_ecc"] = True
    return kw


def close(a, b, tol=1e-12):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def check_call(c, case, ecc, momega=None):
    import lal
    import lalsimulation as ls
    M = (c["m1"] + c["m2"]) / lal.MSUN_SI
    MT = M * lal.MTSUN_SI
    if case["phys"]:
        require(close(M, case["M"]), f"total mass {M}, asked for {case['M']}",
                key="mass")
        require(close(c["distance"], case["D"] * 1e6 * lal.PC_SI),
                f"distance {c['distance'] / 1e6 / lal.PC_SI} Mpc, asked for "
                f"{case['D']}", key="distance")
    require(close(c["m1"] / c["m2"], case["q"]), "mass ratio "
            f"{c['m1'] / c['m2']}, asked for {case['q']}", key="q")
    require(tuple(c["s1"]) == tuple(case["chi1"])
            and tuple(c["s2"]) == tuple(case["chi2"]),
            f"spins {c['s1']}, {c['s2']}, asked for {case['chi1']}, "
            f"{case['chi2']}", key="spins")
    require(c["ecc"] == ecc, f"eccentricity {c['ecc']}, not {ecc}",
            key="ecc")
    require(c["ano"] == case["ano"], f"mean anomaly {c['ano']}, asked for "
            f"{case['ano']}", key="ano")
    dt = 0.1 if case["dt"] is None else case["dt"]
    require(close(c["dt"], dt * MT), f"step {c['dt'] / MT} M, asked for {dt}",
            key="step")
    # a GW frequency in Hz: twice the orbital frequency over 2 pi
    want = (case["momega"] if momega is None else momega) / np.pi / MT
    require(momega is not None or close(c["f_low"], want),
            f"starts at {c['f_low']} Hz, not {want}", key="f_low")
    require(c["f_ref"] == c["f_low"], "parameters are not given at the start",
            key="f_ref")
    require(c["inclination"] == 0 and c["phi_ref"] == 0
            and c["longasc"] == 0, "not face on", key="angles")
    require(c["approx"] == ls.GetApproximantFromString(case["approx"]),
            "another approximant", key="approximant")
    return MT


def check_out(t, h, c, tau, a, ph, case, MT, tag):
    import lal
    unit = MT if case["phys"] else 1.0
    dist = (MT * lal.C_SI / c["distance"]) if case["phys"] else 1.0
    require(len(t) == len(h) == len(tau), f"{tag}: {len(h)} samples, "
            f"{len(tau)} were generated", key="length")
    want = a * np.exp(-1j * ph) * dist
    err = np.max(np.abs(h - want)) / np.max(np.abs(want))
    require(err < 1e-9, f"{tag}: the (2, 2) mode is off by {err:.1e} of its "
            "largest value", key="mode")
    step = c["dt"] if case["phys"] else c["dt"] / MT
    require(np.max(np.abs(np.diff(t) / step - 1)) < 1e-6,
            f"{tag}: step {t[1] - t[0]}, not {step}", key="times")
    # the peak is at zero
    i = int(np.argmax(np.abs(h)))
    require(abs(t[i]) < 2.5 * step, f"{tag}: the peak is at "
            f"{t[i] / unit:.3f} M", key="peak")


def run(case):
    kw = kwargs_of(case)
    gen = Generator(late=case["late"] if case["zero"] else 0)
    with stand_in(gen):
        d = load(**kw)
        MT = check_call(gen.calls[0], case, case["ecc"])
        c = gen.calls[0]
        mo = c["f_low"] * np.pi * MT
        n = len(d["t"])
        tau = np.arange(n) * c["dt"] / MT
        a, ph = model(tau, mo, case["q"], case["ecc"], case["ano"],
                      c["s1"][2], c["s2"][2])
        require(list(d["hlm"]) == [(2, 2)], f"modes {list(d['hlm'])}",
                key="modes")
        gen2 = Generator()
        with stand_in(gen2):
            gen2(**dict((("m1", c["m1"]), ("m2", c["m2"]), ("s1x", 0),
                         ("s1y", 0), ("s1z", c["s1"][2]), ("s2x", 0),
                         ("s2y", 0), ("s2z", c["s2"][2]),
                         ("distance", c["distance"]), ("inclination", 0),
                         ("phi_ref", 0), ("longasc", 0),
                         ("ecc", max(c["ecc"], 1e-2)), ("ano", c["ano"]),
                         ("dt", c["dt"]), ("f_low", c["f_low"]),
                         ("f_ref", c["f_low"]), ("params", None),
                         ("approx", 0))))
        full = len(gen2.last[0])
        if not case["late"] or case["ecc"] >= 1e-3 or not case["zero"]:
            require(n == full, f"{n} samples, {full} were generated",
                    key="length")
            check_out(d["t"], d["hlm"][(2, 2)], c, tau, a, ph, case, MT,
                      "eccentric")
    zk = {k for k in d if "zeroecc" in k}
    if not case["zero"]:
        require(len(gen.calls) == 1 and not zk and set(d) == {"t", "hlm"},
                f"keys {sorted(d)} without a companion", key="keys")
        return dict(nontrivial=True, labels=[case["approx"]])
    require(zk == {"t_zeroecc", "hlm_zeroecc"}, f"keys {sorted(d)} with a "
            "companion", key="keys")
    require(len(gen.calls) >= 2, "no companion is generated", key="companion")
    last = gen.calls[-1]
    e0 = 1e-5 if case["approx"] == "EccentricTD" else 0
    check_call(last, case, e0, momega=0)
    require(last["f_low"] <= c["f_low"] * (1 + 1e-12)
            and close(last["m1"], c["m1"]) and last["dt"] == c["dt"]
            and last["distance"] == c["distance"],
            "the companion is another system", key="companion")
    require(d["t_zeroecc"][0] <= d["t"][0], "the companion starts at "
            f"{d['t_zeroecc'][0]}, the waveform at {d['t'][0]}",
            key="companion-length")
    tau, a, ph, _ = gen.last
    check_out(d["t_zeroecc"], d["hlm_zeroecc"][(2, 2)], last, tau, a, ph,
              case, MT, "companion")
    return dict(nontrivial=True, labels=[
        case["approx"], "companion", f"{len(gen.calls)} calls"])


BAD = ["q", "approximant", "chi1", "chi2", "ecc", "mean_ano", "Momega0",
       "spin", "spin2", "precessing", "precessing2", "two", "unknown", "noM",
       "noD", "origin"]


def bad_st(tier):
    f = dict(bad=st.sampled_from(BAD), s=rfloat(1.01, 3, 2),
             p=rfloat(1e-4, 0.5, 4), sign=st.sampled_from([-1, 1]),
             explicit=st.booleans())
    return st.tuples(case_st(tier), st.fixed_dictionaries(f)).map(
        lambda t: dict(t[0], **t[1]))


def run_bad(case):
    kw, bad = kwargs_of(case), case["bad"]
    if bad in kw and bad not in ("origin",):
        if case["explicit"]:
            kw[bad] = None
        else:
            del kw[bad]
    elif bad in ("spin", "spin2"):
        kw["chi1" if bad == "spin" else "chi2"] = [
            0.0, 0.0, case["sign"] * case["s"]]
    elif bad in ("precessing", "precessing2"):
        kw["chi1" if bad == "precessing" else "chi2"] = [
            case["sign"] * case["p"], 0.0, 0.1][::1]
    elif bad == "two":
        kw["chi1"] = [0.0, 0.0]
    elif bad == "unknown":
        kw["deltaT"] = 0.1
    elif bad in ("noM", "noD"):
        kw.update(physicalUnits=True, M=case["M"], D=case["D"])
        kw[bad[2]] = None
    elif bad == "origin":
        kw["origin"] = "Lal"
    gen = Generator()
    with stand_in(gen):
        try:
            load(**kw)
        except Exception:  # noqa: BLE001
            require(not gen.calls, f"{bad}: refused only after a waveform "
                    "was generated", key="refuse")
            return dict(nontrivial=True, labels=[bad])
    raise Violation(f"{bad}: accepted", key="refuse")


# --- the generator's own interface -----------------------------------------
def direct_st(tier):
    tiny = st.sampled_from([0.0, 0.0, 1e-7, -2e-6, 3e-6])
    aligned = st.tuples(tiny, tiny, rfloat(-0.9, 0.9, 2)).map(list)
    free = st.tuples(*[rfloat(-0.55, 0.55, 2)] * 3).map(list)
    return st.booleans().flatmap(lambda al: st.fixed_dictionaries(dict(
        approx=st.sampled_from(APPROX), q=rfloat(1, 8, 2),
        chi1=aligned if al else free, chi2=aligned if al else free,
        aligned=st.just(al), default=st.booleans(), ecc=rfloat(0, 0.7, 3),
        ano=rfloat(0, 6.28, 2), momega=rfloat(0.01, 0.03, 4),
        dt=st.sampled_from([0.1, 0.5, 1.0, 2.0]), inc=rfloat(0, 3.14, 2),
        ref=rfloat(0, 6.28, 2), asc=rfloat(0, 6.28, 2),
        tides=st.one_of(st.none(), st.tuples(rfloat(0, 3000, 1),
                                             rfloat(0, 3000, 1))),
        phys=st.booleans(), M=rfloat(3, 200, 1), D=rfloat(10, 5000, 0),
        kind=st.sampled_from(["list", "array", "tuple"]))))


def run_direct(case):
    import lal
    import lalsimulation as ls
    from gw_eccentricity.load_data import generate_LAL_waveform
    mk = {"list": list, "array": np.array, "tuple": tuple}[case["kind"]]
    chi = [mk(case["chi1"]), mk(case["chi2"])]
    before = [np.array(x) for x in chi]
    kw = dict(inclination=case["inc"], phi_ref=case["ref"],
              longAscNodes=case["asc"], eccentricity=case["ecc"],
              meanPerAno=case["ano"])
    if case["default"]:
        kw = {}
    if not case["aligned"]:
        kw["alignedSpin"] = False
    if case["tides"]:
        kw["lambda1"], kw["lambda2"] = case["tides"]
    if case["phys"]:
        kw.update(physicalUnits=True, M=case["M"], D=case["D"])
    gen = Generator()
    with stand_in(gen), quiet():
        t, h = generate_LAL_waveform(
            case["approx"], case["q"], chi[0], chi[1], case["dt"],
            case["momega"], **kw)
    require(all(np.array_equal(x, y) for x, y in zip(before, chi)),
            "the caller's spins are changed", key="spins-changed")
    require(len(gen.calls) == 1, f"{len(gen.calls)} waveforms", key="calls")
    c = gen.calls[0]
    v = dict(case)
    for k in ("chi1", "chi2"):
        v[k] = ([0, 0, case[k][2]] if case["aligned"] else case[k])
    ecc, ano = (0, 0) if case["default"] else (case["ecc"], case["ano"])
    angles = ((0, 0, 0) if case["default"] else
              (case["inc"], case["ref"], case["asc"]))
    require((c["inclination"], c["phi_ref"], c["longasc"]) == angles,
            f"angles {c['inclination'], c['phi_ref'], c['longasc']}, not "
            f"{angles}", key="angles")
    MT = check_call(dict(c, inclination=0, phi_ref=0, longasc=0),
                    dict(v, ano=ano), ecc)
    if case["tides"]:
        p = c["params"]
        require(p is not None, "no tidal parameters", key="tides")
        got = (ls.SimInspiralWaveformParamsLookupTidalLambda1(p),
               ls.SimInspiralWaveformParamsLookupTidalLambda2(p))
        require(got == tuple(case["tides"]), f"tidal parameters {got}, not "
                f"{case['tides']}", key="tides")
    else:
        require(c["params"] is None, "parameters nobody asked for",
                key="tides")
    tau, a, ph, _ = gen.last
    step = case["dt"] * (MT if case["phys"] else 1.0)
    require(np.allclose(t, step * np.arange(len(tau)), rtol=1e-12, atol=0),
            "times", key="times")
    unit = MT * lal.C_SI / c["distance"] if case["phys"] else 1.0
    want = (a * np.exp(-1j * ph) * unit
            * lal.SpinWeightedSphericalHarmonic(0, 0, -2, 2, 2))
    err = np.max(np.abs(h - want)) / np.max(np.abs(want))
    require(err < 1e-9, f"the strain is off by {err:.1e}", key="strain")
    return dict(nontrivial=True, labels=[
        "aligned" if case["aligned"] else "precessing",
        "tides" if case["tides"] else "no tides"])


def real_st(tier):
    return st.fixed_dictionaries(dict(
        q=rfloat(1, 4, 1), ecc=rfloat(0.05, 0.3, 2), ano=rfloat(0, 6, 1),
        momega=rfloat(0.012, 0.02, 3), dt=st.sampled_from([1.0, 2.0]),
        M=rfloat(5, 100, 0), D=rfloat(50, 2000, 0)))


def run_real(case):
    """Units only scale times and strain of what LAL really returns."""
    import lal
    kw = dict(approximant="EccentricTD", q=case["q"], chi1=[0, 0, 0],
              chi2=[0, 0, 0], ecc=case["ecc"], mean_ano=case["ano"],
              Momega0=case["momega"], deltaTOverM=case["dt"])
    a = load(**kw)
    b = load(physicalUnits=True, M=case["M"], D=case["D"], **kw)
    MT = case["M"] * lal.MTSUN_SI
    from gw_eccentricity import load_data
    require(close(load_data.time_dimless_to_mks(case["M"]), MT),
            "time_dimless_to_mks", key="unit")
    s = MT * lal.C_SI / (case["D"] * 1e6 * lal.PC_SI)
    s2 = load_data.amplitude_dimless_to_mks(case["M"], case["D"])
    require(close(s, s2, 1e-9), f"amplitude_dimless_to_mks is {s2}, not {s}",
            key="unit")
    n = min(len(a["t"]), len(b["t"]))
    require(abs(len(a["t"]) - len(b["t"])) <= 2, "lengths differ",
            key="length")
    # aligned at merger, which is at the end
    ta, tb = a["t"][-n:], b["t"][-n:] / MT
    require(np.max(np.abs(np.diff(tb) - case["dt"])) < 1e-6,
            "step in seconds", key="times")
    ha = np.abs(a["hlm"][(2, 2)])
    hb = np.abs(b["hlm"][(2, 2)]) / s
    require(abs(ha[0] / hb[0] - 1) < 1e-5 and abs(
        np.max(ha) / np.max(hb) - 1) < 1e-2, "strain in physical units",
        key="strain")
    require(abs(ta[0] - tb[0]) < 2 * case["dt"] + 1e-6 * abs(ta[0]),
            "times in physical units", key="times")
    # starts at the requested frequency, up to the eccentricity
    ph = -np.unwrap(np.angle(a["hlm"][(2, 2)]))
    k = int(2 * np.pi / case["momega"] / case["dt"])
    w = (ph[k] - ph[0]) / (k * case["dt"]) / 2
    require(abs(w / case["momega"] - 1) < 0.8, f"starts at {w}, asked for "
            f"{case['momega']}", key="frequency")
    return dict(nontrivial=True, labels=["real"])


SUBS = [
    Sub("request", case_st, run, 3000, 20000, "a waveform is generated"),
    Sub("refuse", bad_st, run_bad, 1200, 4000, "every case"),
    Sub("direct", direct_st, run_direct, 1600, 10000, "every case"),
    Sub("real", real_st, run_real, 16, 100, "every case"),
]
