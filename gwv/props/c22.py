"""C22: waveform files load as what was written to them."""
import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, quiet, require
from ..meas import rfloat
from . import c21

ID = "C22"
ASSUMPTIONS = [
    "files are written by the harness with h5py in a scratch directory",
    "the ROM data file LAL needs to estimate the starting frequency of a "
    "quasicircular companion is not installed: that estimate, and the "
    "reading of LVCNR files by LAL itself, are replaced by stand-ins"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="gwv22_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(**kw):
    from gw_eccentricity.load_data import load_waveform
    with quiet():
        return load_waveform(**kw)


def signal(case, t, circ=False):
    """Amplitude and phase (the mode is A exp(-i phase)) with peak at 0."""
    T, w0, e = case["T"], case["w0"], 0.0 if circ else case["e"]
    u = np.clip(-t, 0, None) / T
    amp = 0.1 + 0.25 * np.exp(-(t / (0.1 * T)) ** 2) + 0.05 * (1 - u * u)
    amp = amp * (1 + 0.2 * e * np.cos(w0 / 2 * t + case["ano"])
                 * (1 - np.exp(-(t / (0.1 * T)) ** 4)))
    ph = 2 * w0 * t + 0.1 * w0 * t * t / T + e * np.sin(
        w0 * t + case["ano"]) + case["phi0"]
    return amp, ph


def times(case):
    n = case["n"]
    t = np.linspace(-case["T"], case["after"] * case["T"], n)
    if case["jitter"]:
        rng = np.random.default_rng(case["seed"])
        d = t[1] - t[0]
        t = t + case["jitter"] * d * (rng.random(n) - 0.5)
    return t


def base(tier, **more):
    f = dict(T=rfloat(500, 4000, 0), w0=rfloat(0.02, 0.06, 3),
             e=rfloat(0, 0.5, 2), ano=rfloat(0, 6.2, 2),
             phi0=rfloat(-3, 3, 1), n=st.integers(1500, 4000),
             after=rfloat(0.02, 0.1, 2), jitter=st.sampled_from([0, 0, 0.4]),
             seed=st.integers(0, 99), shift=st.sampled_from(
                 [0.0, 0.0, 1234.5, -700.25, 1e5]))
    f.update(more)
    return st.fixed_dictionaries(f)


def same_up_to_peak(t, h, t_true, amp, ph, what, key):
    """h on t is exactly what was stored; t is t_true with peak at zero."""
    require(len(t) == len(h) == len(t_true), f"{what}: {len(t)} times, "
            f"{len(h)} samples, {len(t_true)} stored", key=key)
    require(np.max(np.abs(h - amp * np.exp(-1j * ph))) < 1e-12,
            f"{what}: the mode is not the stored one", key=key)
    off = t - t_true
    step = np.max(np.diff(t_true))
    require(np.ptp(off) < 1e-7 * (1 + abs(off[0])),
            f"{what}: the times are not the stored ones", key=key)
    require(abs(off[0]) < step, f"{what}: the peak is at {-off[0]:.3f}, "
            f"steps are {step:.3f}", key="peak")


# --- EOB -------------------------------------------------------------------
def eob_st(tier):
    return base(tier, zero=st.booleans(), path=st.sampled_from(
        ["EccTest_q1.h5", "EccTest/a.h5", "EOB_EccTest.hdf5"]),
        n2=st.integers(1500, 4000), bad=st.sampled_from(
            [None] * 6 + ["none", "nozero", "kwarg"]))


def write_eob(path, t, h):
    import h5py
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as f:
        f["t"] = t
        f["(2, 2)"] = h


def run_eob(case):
    with scratch() as d:
        t = times(case)
        amp, ph = signal(case, t)
        p = os.path.join(d, case["path"])
        write_eob(p, t + case["shift"], amp * np.exp(-1j * ph))
        t0 = np.linspace(-1.2 * case["T"], case["after"] * case["T"],
                         case["n2"])
        amp0, ph0 = signal(case, t0, True)
        p0 = os.path.join(d, "EccTest_zero.h5")
        write_eob(p0, t0 - case["shift"] / 2, amp0 * np.exp(-1j * ph0))
        kw = dict(origin="EOB", filepath=p)
        if case["zero"]:
            kw.update(include_zero_ecc=True, filepath_zero_ecc=p0)
        if case["bad"]:
            if case["bad"] == "none":
                kw["filepath"] = None
            elif case["bad"] == "nozero":
                kw.update(include_zero_ecc=True)
                kw.pop("filepath_zero_ecc", None)
            else:
                kw["deltaTOverM"] = 0.1
            try:
                load(**kw)
            except Exception:  # noqa: BLE001
                return dict(nontrivial=True, labels=["refused"])
            raise Violation(f"accepted: {case['bad']}", key="eob-refuse")
        out = load(**kw)
        want = {"t", "hlm"} | ({"t_zeroecc", "hlm_zeroecc"} if case["zero"]
                               else set())
        require(set(out) == want, f"keys {sorted(out)}", key="eob-keys")
        require(set(out["hlm"]) == {(2, 2)}, "modes", key="eob-keys")
        same_up_to_peak(out["t"], out["hlm"][(2, 2)], t, amp, ph,
                        "EOB", "eob")
        if case["zero"]:
            same_up_to_peak(out["t_zeroecc"], out["hlm_zeroecc"][(2, 2)], t0,
                            amp0, ph0, "EOB companion", "eob-zero")
    return dict(nontrivial=True, labels=["companion"] if case["zero"]
                else [])


# --- EMRI ------------------------------------------------------------------
def emri_st(tier):
    frac = st.one_of(st.none(), rfloat(0.3, 0.95, 2))
    return base(tier, zero=st.booleans(), geo=st.booleans(),
                explicit=st.booleans(), start=frac, end=st.one_of(
                    st.none(), rfloat(0.0, 0.25, 2)),
                dT=st.one_of(st.none(), rfloat(0.2, 2, 2)),
                path=st.sampled_from(
                    ["EMRI_e0.100.h5", "sub/q5_e0.250.h5",
                     "case01/EMRI_e0.100.h5", "e0_runs/EMRI_e0.500.h5"]),
                tail=st.booleans())


def run_emri(case):
    import h5py
    with scratch() as d:
        t = times(case)
        if case["tail"]:
            t = t[t <= t[-1] * 0 + 1e-9] if np.any(t > 0) else t
        amp, ph = signal(case, t)
        p = os.path.join(d, case["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        h = amp * np.exp(-1j * ph)
        with h5py.File(p, "w") as f:
            f["Dataset1"] = np.array([t + case["shift"], h.real, h.imag]).T
        ecc = 0.1 + 0.3 * np.linspace(1, 0, len(t)) ** 2
        with h5py.File(p[:-3] + "_ecc.h5", "w") as f:
            f["Dataset1"] = np.array([t + case["shift"], ecc]).T
        t0 = np.linspace(-1.2 * case["T"], case["after"] * case["T"], 2000)
        amp0, ph0 = signal(case, t0, True)
        h0 = amp0 * np.exp(-1j * ph0)
        if case["explicit"]:
            p0 = os.path.join(d, "zero.h5")
        else:
            name = os.path.basename(p)
            p0 = os.path.join(os.path.dirname(p),
                              name[:name.rfind("e0")] + "e0.000.h5")
        with h5py.File(p0, "w") as f:
            f["Dataset1"] = np.array([t0, h0.real, h0.imag]).T
        kw = dict(origin="EMRI", filepath=p)
        if case["zero"]:
            kw["include_zero_ecc"] = True
            if case["explicit"]:
                kw["filepath_zero_ecc"] = p0
        if case["geo"]:
            kw["include_geodesic_ecc"] = True
        T = case["T"]
        if case["start"] is not None:
            kw["start_time"] = -case["start"] * T
        if case["end"] is not None:
            kw["end_time"] = -case["end"] * T
        if case["dT"] is not None:
            kw["deltaT"] = case["dT"]
        out = load(**kw)
        want = {"t", "hlm"}
        if case["zero"]:
            want |= {"t_zeroecc", "hlm_zeroecc"}
        if case["geo"]:
            want |= {"e_geodesic"}
        require(set(out) == want, f"keys {sorted(out)}", key="emri-keys")
        step = np.max(np.diff(t))
        to, ho = out["t"], out["hlm"][(2, 2)]
        lo = t[0] if case["start"] is None else -case["start"] * T
        hi = t[-1] if case["end"] is None else -case["end"] * T
        extra = case["dT"] or 0
        # the documented default end is the peak
        ends = [hi] if case["end"] is not None else [t[-1], min(0, t[-1])]
        require(abs(to[0] - lo) < 2 * step, f"starts at {to[0]}, asked for "
                f"{lo}, steps {step}", key="emri-start")
        require(any(abs(to[-1] - x) < 2.6 * step + extra for x in ends),
                f"ends at {to[-1]}, asked for {hi}, steps {step}",
                key="emri-end")
        if case["dT"] is None:
            i = int(np.argmin(np.abs(h - ho[0])))
            n = len(to)
            require(n == len(ho), "lengths differ", key="emri-length")
            require(np.array_equal(h[i:i + n], ho), "not a part of the "
                    "stored mode", key="emri-mode")
            off = to - t[i:i + n]
        else:
            require(np.allclose(np.diff(to), case["dT"], rtol=1e-6),
                    f"step {to[1] - to[0]}, asked for {case['dT']}",
                    key="emri-step")
            # the peak offset is below a step; remove it by the phase
            off = None
            best = np.inf
            for o in np.linspace(-1, 1, 81) * step:
                a_, p_ = signal(case, to - o)
                err = np.max(np.abs(ho - a_ * np.exp(-1j * p_)))
                if err < best:
                    best, off = err, o
            tol = 2e-3 + 0.02 * step * 2.5 * case["w0"]
            require(best < tol, f"the interpolated mode is off by {best:.1e}",
                    key="emri-mode")
            off = np.array([off])
        require(abs(off[0]) < step and np.ptp(off) < 1e-6,
                f"the peak is at {-off[0]}, steps are {step}", key="peak")
        if case["geo"]:
            require(len(out["e_geodesic"]) == len(to), "geodesic "
                    "eccentricity has another length", key="emri-geo")
            w = np.interp(to - off[0], t, ecc)
            g = np.max(np.abs(out["e_geodesic"] - w))
            require(g < 1e-3 if case["dT"] else g < 1e-9,
                    f"geodesic eccentricity is off by {g:.1e}",
                    key="emri-geo")
        if case["zero"]:
            tz = out["t_zeroecc"]
            n = len(tz)
            require(n >= len(t0) - 1, "the companion is cut",
                    key="emri-zero")
            hz = out["hlm_zeroecc"][(2, 2)] * np.sqrt(2 * np.pi)
            require(np.max(np.abs(hz - h0[:n])) < 1e-12,
                    "the companion is not the stored one", key="emri-zero")
    return dict(nontrivial=True, labels=[
        "interpolated" if case["dT"] else "as stored",
        "companion" if case["zero"] else "alone"])


# --- LVCNR -----------------------------------------------------------------
def lv_st(tier):
    return base(tier, zero=st.booleans(), params=st.booleans(),
                dT=st.sampled_from([0.25, 0.5, 1.0, 1.7]),
                T=rfloat(1800, 4000, 0),
                junk=st.one_of(st.just(None), rfloat(0, 4, 1),
                               st.integers(0, 3)),
                off=rfloat(0, 30, 1), off2=rfloat(0, 10, 1),
                q=rfloat(1, 8, 2), s1=rfloat(-0.9, 0.9, 2),
                s2=rfloat(-0.9, 0.9, 2), factor=rfloat(0.2, 4, 2),
                kind=st.sampled_from(["hack", "hack", "lal"]),
                approximant=st.sampled_from([None, "IMRPhenomT",
                                             "IMRPhenomD"]),
                ecctext=st.integers(0, 3))


class FakeMode:
    def __init__(self, lm, y):
        self.l, self.m = lm
        self.next = None

        class D:
            pass
        self.mode = D()
        self.mode.data = D()
        self.mode.data.data = y


@contextlib.contextmanager
def patched(**kw):
    import lalsimulation as ls
    old = {k: getattr(ls, k) for k in kw}
    for k, v in kw.items():
        setattr(ls, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(ls, k, v)


def run_lv(case):
    import h5py
    import lal
    q = case["q"]
    kind = case["kind"]
    T = case["T"]
    rec = {}
    # in-plane spins where no aligned-spin companion is asked for
    k = 0 if case["zero"] or kind != "lal" else (case["seed"] // 2) % 4
    spins = [0.11 * (k & 1), -0.07 * (k & 1), case["s1"],
             0.13 * (k // 2), 0.02 * k, case["s2"]]

    def freq_of_time(t, m1, m2, s1z, s2z):
        MT = (m1 + m2) / lal.MSUN_SI * lal.MTSUN_SI
        rec["time"] = t / MT
        rec["foft"] = (m1 / m2, s1z, s2z)
        # invert the stand-in's duration
        eta = q / (1 + q) ** 2
        want = case["factor"] * t / MT
        mo = (want / (5 / (256 * eta) * 0.02)) ** (-3. / 8)
        return mo / np.pi / MT

    def get_spins(fref, M, path):
        rec["fref"] = fref
        return spins[:]

    def get_hlms(dt, m1, m2, distance, f_low, f_ref, *a):
        M = (m1 + m2) / lal.MSUN_SI
        MT = M * lal.MTSUN_SI
        rec["lal"] = dict(M=M, q=m1 / m2, f_low=f_low, dt=dt / MT)
        rec["spins"] = list(a[:6])
        rec["same_file"] = a[6] == p and f_ref == rec["fref"]
        t = np.arange(-T, case["after"] * T, dt / MT)
        amp, ph = signal(case, t)
        y = amp * np.exp(-1j * ph) * MT * lal.C_SI / distance
        rec["t"] = t
        a, b = FakeMode((2, 2), y), FakeMode((2, -2), np.conj(y))
        if case["seed"] % 2:
            a, b = b, a
        a.next = b
        return 0, a

    with scratch() as d:
        p = os.path.join(d, "nr.h5")
        t1 = times(dict(case, jitter=case["jitter"]))
        t1 = t1[t1 >= -T + case["off"]]
        t2 = np.linspace(-T + case["off2"],
                         case["after"] * T * (1 - 0.01 * case["off2"]),
                         case["n"] + 77)
        with h5py.File(p, "w") as f:
            for name, tt, i, s in (("amp", t1, 0, 1), ("phase", t2, 1, -1)):
                g = f.create_group(f"{name}_l2_m2")
                g["X"] = tt
                g["Y"] = s * signal(case, tt)[i]
            for k, v in dict(
                    mass1=q / (1 + q), mass2=1 / (1 + q), spin1x=0.0,
                    spin1y=0.0, spin1z=case["s1"], spin2x=0.0, spin2y=0.0,
                    spin2z=case["s2"], f_lower_at_1MSUN=2000.0,
                    eccentricity=case["e"], mean_anomaly=case["ano"]).items():
                f.attrs[k] = v
            text = case["ecctext"] if kind == "lal" else 0
            if text & 1:
                f.attrs["mean_anomaly"] = "n/a"
            if text & 2:
                f.attrs["eccentricity"] = "<1e-3"
        kw = dict(origin="LVCNR" if kind == "lal" else "LVCNR_hack",
                  filepath=p, deltaTOverM=case["dT"])
        if case["junk"] is not None:
            kw["num_orbits_to_remove_as_junk"] = case["junk"]
        if case["zero"]:
            kw["include_zero_ecc"] = True
            if case["approximant"]:
                kw["zero_ecc_approximant"] = case["approximant"]
        if case["params"]:
            kw["include_params_dict"] = True
        gen = c21.Generator()
        with c21.stand_in(gen), patched(
                SimIMRSEOBNRv4ROMFrequencyOfTime=freq_of_time,
                SimInspiralNRWaveformGetSpinsFromHDF5File=get_spins,
                SimInspiralNRWaveformGetHlms=get_hlms):
            out = load(**kw)
        want = {"t", "hlm"}
        if case["zero"]:
            want |= {"t_zeroecc", "hlm_zeroecc"}
        if case["params"]:
            want |= {"params_dict"}
        require(set(out) == want, f"keys {sorted(out)}", key="lv-keys")
        t, h = out["t"], out["hlm"]
        modes = {(2, 2), (2, -2)} if kind == "lal" else {(2, 2)}
        require(set(h) == modes, f"modes {sorted(h)}", key="lv-keys")
        require(np.allclose(np.diff(t), case["dT"], rtol=1e-6), "step "
                f"{t[1] - t[0]}, asked for {case['dT']}", key="lv-step")
        amp, ph = signal(case, t)
        # the peak is found from the samples
        if kind == "lal":
            k = len(rec["t"]) - len(t)
            off = t[0] - rec["t"][k]
            require(abs(off) < case["dT"], f"the peak is at {-off}",
                    key="peak")
            amp, ph = signal(case, t - off)
            require(abs(rec["lal"]["dt"] - case["dT"]) < 1e-9
                    and abs(rec["lal"]["q"] / q - 1) < 1e-9
                    and abs(rec["lal"]["f_low"] * rec["lal"]["M"] / 2000 - 1)
                    < 1e-9, f"LAL was asked for {rec['lal']}", key="lv-lal")
            require(rec["spins"] == spins and rec["same_file"],
                    f"LAL was asked for the spins {rec['spins']} of {spins}",
                    key="lv-lal")
            require(np.array_equal(h[(2, -2)], np.conj(h[(2, 2)])),
                    "modes are mixed up", key="lv-modes")
        err = np.max(np.abs(h[(2, 2)] - amp * np.exp(-1j * ph)))
        tol = 1e-9 if kind == "lal" else 3e-3 * (1 + case["jitter"])
        require(err < tol, f"{kind}: the mode is off by {err:.1e}",
                key="lv-mode")
        # what is removed is the requested number of orbits
        junk = 2 if case["junk"] is None else case["junk"]
        first = (rec["t"][0] + off) if kind == "lal" else max(t1[0], t2[0])
        last = (rec["t"][-1] + off) if kind == "lal" else min(t1[-1], t2[-1])
        fine = np.linspace(first, last, 40000)
        o = 0.0 if kind == "hack" else off
        pf = signal(case, fine - o)[1]
        i = min(int(np.argmin(np.abs(pf - pf[0] - 4 * np.pi * junk))),
                len(fine) - 1)
        require(abs(t[0] - fine[i]) < 2 * case["dT"] + (last - first) / 2e4,
                f"starts at {t[0]}, {junk} orbits end at {fine[i]}, the "
                f"data begin at {first}", key="junk")
        require(last - t[-1] < 1.01 * case["dT"] and t[-1] <= last + 1e-6,
                f"ends at {t[-1]}, the data at {last}", key="lv-end")
        if case["params"]:
            pd = out["params_dict"]
            ano = None if text & 1 else case["ano"]
            ecc = None if text & 2 else case["e"]
            require(set(pd) >= {"q", "chi1", "chi2", "ecc", "mean_ano"},
                    f"parameters {sorted(pd)}", key="params")
            require(abs(pd["q"] / q - 1) < 1e-9
                    and list(pd["chi1"]) == spins[:3]
                    and list(pd["chi2"]) == spins[3:]
                    and pd["ecc"] == ecc and pd["mean_ano"] == ano,
                    f"parameters {pd}", key="params")
        if case["zero"]:
            companion(out, gen, rec, case, t)
    return dict(nontrivial=True, labels=[
        kind, "companion" if case["zero"] else "alone"])


def companion(out, gen, rec, case, t):
    import lalsimulation as ls
    import lal
    tz, hz = out["t_zeroecc"], out["hlm_zeroecc"][(2, 2)]
    c = gen.calls[-1]
    require(c["ecc"] == 0 and abs(c["m1"] / c["m2"] / case["q"] - 1) < 1e-9
            and tuple(c["s1"]) == (0, 0, case["s1"])
            and tuple(c["s2"]) == (0, 0, case["s2"]),
            "the companion has other parameters", key="companion")
    want = case["approximant"] or "IMRPhenomT"
    require(c["approx"] == ls.GetApproximantFromString(want),
            "the companion is of another approximant", key="companion")
    require(abs(rec["time"] + t[0]) < 3 * case["dT"], "the companion's "
            f"duration is estimated for {rec['time']}, not {-t[0]}",
            key="companion")
    require(tz[0] <= t[0] + 1e-9, f"the companion starts at {tz[0]}, the "
            f"waveform at {t[0]}", key="companion-length")
    require(len(tz) == len(hz), "lengths", key="companion-length")
    tau, a, ph, _ = gen.last
    k = len(tau) - len(tz)
    M = (c["m1"] + c["m2"]) / lal.MSUN_SI
    require(k >= 0 and np.max(np.abs(
        hz - (a * np.exp(-1j * ph))[k:])) < 1e-9 * np.max(a),
            "the companion is not the generated waveform", key="companion")
    i = int(np.argmax(np.abs(hz)))
    step = c["dt"] / (M * lal.MTSUN_SI)
    require(abs(tz[i]) < 2.5 * step, f"the companion's peak is at {tz[i]}",
            key="peak")


SUBS = [
    Sub("eob", eob_st, run_eob, 400, 4000, "every case"),
    Sub("emri", emri_st, run_emri, 480, 4000, "every case"),
    Sub("lvcnr", lv_st, run_lv, 400, 3000, "every case"),
]
