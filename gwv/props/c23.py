"""C23: SXS simulations load with junk removed and metadata honoured."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, Violation, quiet, require
from ..meas import rfloat
from . import c21, c22

ID = "C23"
ASSUMPTIONS = c22.ASSUMPTIONS[:1] + [
    "files of the new catalog format are written with the installed sxs "
    "package, with trivial frames",
    "the memory correction is compared with the closed-form contribution of "
    "the (2, +-2) modes to the (2, 0) mode",
    "the ROM data file LAL needs to estimate the starting frequency of a "
    "quasicircular companion is not installed: that estimate is replaced by "
    "a stand-in"]
ALL = [(l, m) for l in (2, 3) for m in range(-l, l + 1)]


def case_st(tier, new=False):
    spin = st.one_of(st.just([0.0, 0.0, 0.0]), st.tuples(
        rfloat(-0.5, 0.5, 2), rfloat(-0.5, 0.5, 2),
        rfloat(-0.5, 0.5, 2)).map(list))
    return st.fixed_dictionaries(dict(
        new=st.just(new), T=rfloat(1200, 2200, 0), w0=rfloat(0.03, 0.06, 3),
        e=rfloat(0, 0.4, 2), ano=rfloat(0, 6, 1), phi0=rfloat(-3, 3, 1),
        after=rfloat(0.05, 0.1, 2), lead=rfloat(0, 200, 0),
        step=rfloat(0.4, 0.8, 2), dT=st.sampled_from([0.3, 0.5, 1.0, 1.5]),
        junk=st.one_of(st.none(), rfloat(0, 3, 1), st.integers(0, 3)),
        modes=st.one_of(st.none(), st.lists(
            st.sampled_from(ALL), min_size=1, max_size=6, unique=True)),
        horizons=st.booleans(), tilt=rfloat(0, 0.3, 2),
        hor_t0=st.sampled_from([0.0, 0.0, 30.0]), hratio=rfloat(0.8, 1.2, 2),
        order=st.sampled_from([None, 2, 3, 4]), params=st.booleans(),
        zero=st.booleans(), memory=st.sampled_from(
            [True, True, True, False, None] if new else [None]),
        q=st.one_of(rfloat(1, 8, 3), st.just(1.0), rfloat(0.9996, 1, 6)),
        chi1=spin, chi2=spin, relax=rfloat(100, 1100 if new else 500, 1), s1=rfloat(
            -0.9, 0.9, 2), s2=rfloat(-0.9, 0.9, 2),
        factor=rfloat(0.2, 4, 2), approximant=st.sampled_from(
            [None, "IMRPhenomT", "IMRPhenomD"]), extra=st.booleans()))


def coefficient(lm):
    l, m = lm
    if lm in ((2, 2), (2, -2)):
        return 1.0
    return 0.02 + 0.01 * l + 0.003 * m


def mode(case, t, lm):
    amp, ph = c22.signal(case, t)
    return coefficient(lm) * amp * np.exp(-0.5j * lm[1] * ph)


def raw_times(case):
    n = int(case["T"] * (1 + case["after"]) / case["step"])
    return np.linspace(-case["T"], case["after"] * case["T"], n)


def spins(case):
    """In-plane spins cannot have a companion from aligned models."""
    if case["zero"]:
        return [0.0, 0.0, case["s1"]], [0.0, 0.0, case["s2"]]
    return case["chi1"], case["chi2"]


def write(case, d):
    """Write all files; returns (physical times, offset of raw times)."""
    import h5py
    t = raw_times(case)
    off = case["T"] - case["lead"]
    raw = t + off
    order = case["order"] or 2
    if case["new"]:
        import quaternionic
        import sxs
        from sxs.waveforms.format_handlers import (
            rotating_paired_diff_multishuffle_bzip2 as fmt)
        data = np.array([mode(case, t, lm) for lm in ALL]).T
        w = sxs.WaveformModes(
            data, time=raw, time_axis=0, modes_axis=1, ell_min=2, ell_max=3,
            frame=quaternionic.array([[1.0, 0, 0, 0]] * len(t)),
            frame_type="corotating", data_type="h", spin_weight=-2,
            r_is_scaled_out=True, m_is_scaled_out=True)
        with quiet():
            fmt.save(w, os.path.join(d, f"Strain_N{order}.h5"),
                     L2norm_fractional_tolerance=1e-13)
    else:
        with h5py.File(os.path.join(
                d, "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "w") as f:
            for o in (2, 3, 4):
                g = f.create_group(f"Extrapolated_N{o}.dir")
                for lm in ALL:
                    h = mode(case, t, lm) * (1 if o == order else 0.9)
                    g[f"Y_l{lm[0]}_m{lm[1]}.dat"] = np.array(
                        [raw, h.real, h.imag]).T
    if case["horizons"]:
        with h5py.File(os.path.join(d, "Horizons.h5"), "w") as f:
            th = np.linspace(0, raw[-1], 3 * len(t) // 4)
            ph = orbital(case, th)
            c, s = np.cos(case["tilt"]), np.sin(case["tilt"])
            r = 10 - 5 * th / raw[-1]
            x = np.array([r * np.cos(ph), r * np.sin(ph)])
            # tilted about the x axis, with a drift of the centre
            pos = np.array([x[0], c * x[1], s * x[1]])
            drift = np.array([1e-3 * th, -2e-3 * th, 0 * th])
            for n, k in (("A", 1 / 3), ("B", -2 / 3)):
                g = f.create_group(f"Ah{n}.dir")
                g["CoordCenterInertial.dat"] = np.vstack(
                    [th + case["hor_t0"], pos * k + drift]).T
    q = case["q"]
    m1, m2 = 0.5 * q, 0.5
    a, b = spins(case)
    if case["new"]:
        meta = dict(reference_dimensionless_spin1=a,
                    reference_dimensionless_spin2=b, reference_mass1=m1,
                    reference_mass2=m2, relaxation_time=case["relax"],
                    reference_time=case["relax"], initial_mass1=3.0,
                    reference_eccentricity=0.1)
        with open(os.path.join(d, "metadata.json"), "w") as f:
            json.dump(meta, f)
    else:
        v = [("simulation-name", "test"), ("initial-mass1", 3.0),
             ("initial-dimensionless-spin1", "0.9, 0.9, 0.9"),
             ("relaxation-time", case["relax"]),
             ("reference-time", case["relax"] + 50),
             ("reference-mass1", m1), ("reference-mass2", m2),
             ("reference-dimensionless-spin1", ", ".join(map(repr, a))),
             ("reference-dimensionless-spin2", ",".join(map(repr, b))),
             ("remnant-mass", 0.95)]
        if case["extra"]:
            v = v[::-1]
        with open(os.path.join(d, "metadata.txt"), "w") as f:
            f.write("[metadata]\n" + "".join(f"{k} = {x}\n" for k, x in v))
    return t, off


def orbital(case, th):
    """Orbital phase in Horizons.h5 as a function of the time from start."""
    w = case["w0"] * case["hratio"]
    return 0.4 + w * th + 0.1 * w * th * th / case["T"]


def kwargs_of(case, d):
    kw = dict(origin="SXSCatalog" if case["new"] else "SXSCatalog_old",
              data_dir=d, deltaTOverM=case["dT"])
    if case["junk"] is not None:
        kw["num_orbits_to_remove_as_junk"] = case["junk"]
    if case["modes"] is not None:
        kw["mode_array"] = modes_of(case)
    if case["order"] is not None:
        kw["extrap_order"] = case["order"]
    if case["params"]:
        kw["include_params_dict"] = True
    if case["zero"]:
        kw["include_zero_ecc"] = True
        if case["approximant"]:
            kw["zero_ecc_approximant"] = case["approximant"]
    if case["memory"] is not None:
        kw["keep_memory"] = case["memory"]
    return kw


def modes_of(case):
    """The (2, 2) mode is needed, unless the horizons are there."""
    m = case["modes"]
    if m is None:
        return [(2, 2)]
    m = [tuple(x) for x in m]
    # (memory moves the peak of weak modes)
    if (2, 2) not in m and (not case["horizons"] or case["zero"]
                            or (case["new"] and not case["memory"])
                            or set(m) <= {(2, 0), (3, 0)}):
        m = m + [(2, 2)]
    if case["new"] and not case["memory"] and (2, 0) not in m:
        m = m + [(2, 0)]
    return m


def run(case):
    import lal
    rec = {}
    q = max(case["q"], 1.0)

    def freq_of_time(t, m1, m2, s1z, s2z):
        MT = (m1 + m2) / lal.MSUN_SI * lal.MTSUN_SI
        rec["time"] = t / MT
        eta = q / (1 + q) ** 2
        mo = (case["factor"] * t / MT / (5 / (256 * eta) * 0.02)) ** (-3. / 8)
        return mo / np.pi / MT

    with c22.scratch() as d:
        tt, off = write(case, d)
        gen = c21.Generator()
        with c21.stand_in(gen), c22.patched(
                SimIMRSEOBNRv4ROMFrequencyOfTime=freq_of_time):
            out = c22.load(**kwargs_of(case, d))
    want = {"t", "hlm"}
    if case["params"]:
        want |= {"params_dict"}
    if case["zero"]:
        want |= {"t_zeroecc", "hlm_zeroecc"}
    require(set(out) == want, f"keys {sorted(out)}", key="keys")
    modes = modes_of(case)
    require(set(out["hlm"]) == set(modes), f"modes {sorted(out['hlm'])}, "
            f"asked for {modes}", key="modes")
    t = out["t"]
    require(len(t) > 1 and np.allclose(np.diff(t), case["dT"], rtol=1e-6),
            "step", key="step")
    # the harness' times have the peak at zero
    removed = case["new"] and not case["memory"]
    tol = 4e-3
    o = best_offset(case, t, out["hlm"], removed)
    # (memory moves the peak a little)
    require(abs(o) < case["dT"] + 2.5 * removed, f"the peak is at {-o}", key="peak")
    for lm in modes:
        h = out["hlm"][lm]
        require(len(h) == len(t), "lengths", key="modes")
        diff = mode(case, t - o, lm) - h
        if removed:
            check_memory(case, t - o, off, lm, diff)
        else:
            err = np.max(np.abs(diff))
            require(err < tol, f"the mode {lm} is off by {err:.1e}",
                    key="mode-" + ("new" if case["new"] else "old"))
    # junk
    junk = 2 if case["junk"] is None else case["junk"]
    raw0 = t[0] - o + off
    if case["horizons"]:
        th = np.linspace(0, tt[-1] + off, 40000)
        ph = orbital(case, th)
        if case["tilt"]:
            # projected on the x-y plane
            ph = np.unwrap(np.arctan2(np.cos(case["tilt"]) * np.sin(ph),
                                      np.cos(ph)))
        i = int(np.argmin(np.abs(ph - ph[0] - 2 * np.pi * junk)))
        first = max(th[i], tt[0] + off)
        slack = 2 * case["step"]
    else:
        fine = np.linspace(tt[0], tt[-1], 40000)
        ph = c22.signal(case, fine)[1]
        i = int(np.argmin(np.abs(ph - ph[0] - 4 * np.pi * junk)))
        first = fine[i] + off
        slack = 0.2
    require(abs(raw0 - first) < slack + 1.5 * case["dT"],
            f"starts at {raw0:.1f} of the simulation, {junk} orbits end at "
            f"{first:.1f}", key="junk")
    require(abs(t[-1] - o - tt[-1]) < 1.01 * case["dT"],
            f"ends at {t[-1]}, the data at {tt[-1]}", key="end")
    if case["params"]:
        pd = out["params_dict"]
        a, b = spins(case)
        require(abs(pd["q"] - q) < 1e-9 and list(pd["chi1"]) == a
                and list(pd["chi2"]) == b and pd["t_relax"] == case["relax"],
                f"parameters {pd}", key="params")
    if case["zero"]:
        c22.companion(out, gen, rec, dict(case, q=q), t)
    return dict(nontrivial=True, labels=[
        "horizons" if case["horizons"] else "phase",
        "memory removed" if removed else "as stored",
        "companion" if case["zero"] else "alone"])


def best_offset(case, t, hlm, removed):
    """The (sub-step) offset of the times from those of the harness."""
    lm = (2, 2) if (2, 2) in hlm else max(hlm, key=lambda k: abs(k[1]))
    from scipy.optimize import minimize_scalar
    i = np.linspace(0, len(t) - 1, 400).astype(int)
    s = case["dT"] * 1.2 + 3 * removed

    def f(o):
        return np.sum(np.abs(mode(case, t[i] - o, lm) - hlm[lm][i]) ** 2)
    g = np.linspace(-s, s, 61)
    k = g[int(np.argmin([f(x) for x in g]))]
    return float(minimize_scalar(f, bounds=(k - s / 30, k + s / 30),
                                 method="bounded",
                                 options=dict(xatol=1e-7)).x)


def check_memory(case, t, off, lm, diff):
    """What is removed is the memory since the relaxation time."""
    if lm != (2, 0):
        err = np.max(np.abs(diff))
        require(err < 8e-3, f"removing memory changes the mode {lm} by "
                f"{err:.1e}", key="memory")
        return
    h = mode(case, t, (2, 2))
    hd = np.abs(np.gradient(h, t)) ** 2
    F = np.concatenate([[0], np.cumsum((hd[1:] + hd[:-1]) / 2 * np.diff(t))])
    F = F * np.sqrt(5 / (6 * np.pi)) / 7
    raw = t + off
    if raw[0] <= case["relax"] <= raw[-1]:
        base = np.interp(case["relax"], raw, F)
    else:
        # relaxed before what is left: only the growth is known
        base = F[0] - np.mean(diff[:3].real)
    err = np.max(np.abs(diff - (F - base)))
    require(err < 4e-4 + 0.04 * np.ptp(F), f"the removed memory is off by "
            f"{err:.1e} of {np.ptp(F):.1e}", key="memory")


BAD = ["no dir", "missing dir", "strain", "json", "metadata", "order",
       "mass ratio", "kwarg", "mode"]


def bad_st(tier):
    return st.tuples(case_st(tier), st.sampled_from(BAD),
                     rfloat(0.2, 0.9994, 4)).map(
        lambda x: dict(x[0], bad=x[1], qbad=x[2]))


def run_bad(case):
    bad = case["bad"]
    if bad == "mass ratio":
        case = dict(case, q=case["qbad"], params=True)
    if bad == "metadata":
        case = dict(case, params=True)
    with c22.scratch() as d:
        write(case, d)
        kw = kwargs_of(dict(case, zero=False), d)
        if bad == "no dir":
            kw["data_dir"] = None
        elif bad == "missing dir":
            kw["data_dir"] = os.path.join(d, "nope")
        elif bad in ("strain", "json"):
            os.remove(os.path.join(
                d, "rhOverM_Asymptotic_GeometricUnits_CoM.h5"))
        elif bad == "metadata":
            os.remove(os.path.join(d, "metadata.txt"))
        elif bad == "order":
            kw["extrap_order"] = 5
        elif bad == "kwarg":
            kw["keep_memory"] = True
        elif bad == "mode":
            kw["mode_array"] = [(2, 2), (4, 4)]
        try:
            c22.load(**kw)
        except Exception:  # noqa: BLE001
            return dict(nontrivial=True, labels=[bad])
    raise Violation(f"accepted: {bad}", key="refuse")


# --- downloading -----------------------------------------------------------
IDS = ["SXS:BBH:0001", "SXS:BBH:2527", "SXS:NSNS:0003", "SXS:BBH:00010"]


def call_st():
    return st.fixed_dictionaries(dict(
        sim=st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4]),
        lev=st.sampled_from([1, 1, 1, 0, 2, 3]),
        order=st.sampled_from([None, None, 2, 3, 4]),
        tag=st.sampled_from([None, "", "v3.0.0"]),
        dir=st.sampled_from(["plain", "plain", "home", "nested"]),
        fail=st.sampled_from([None, None, None, 0, 1, 2, 3])))


def down_st(tier):
    return st.lists(call_st(), min_size=1, max_size=6).map(
        lambda c: dict(calls=c))


class Server:
    """Stands in for the catalogue and the transfer."""

    def __init__(self):
        self.got, self.loaded, self.fail = [], [], None

    def files(self, sim):
        return {f"Lev{lev}:{n}": {"link": f"https://x/{sim}/{lev}/{n}"}
                for lev in range(3) for n in (
                    [f"Strain_N{o}.{e}" for o in (2, 3, 4)
                     for e in ("h5", "json")]
                    + ["metadata.json", "Horizons.h5", "metadata.txt"])}

    def load(self, *a, **k):
        self.loaded.append(k)
        return {s: {"files": self.files(s)} for s in IDS}

    def download(self, url, path, **k):
        if self.fail is not None and len(self.got) >= self.fail:
            raise RuntimeError(f"Failed to download {url}")
        self.got.append((url, os.path.abspath(path)))
        with open(path, "w") as f:
            f.write(url)
        return path


def run_down(case):
    import sxs
    import sxs.utilities
    from gw_eccentricity.load_data import download_sxs_waveform
    saved = (sxs.Simulations.load, sxs.utilities.download_file,
             os.environ.get("HOME"))
    done, resumed, labels = set(), 0, []
    with c22.scratch() as d:
        try:
            for c in case["calls"]:
                srv = Server()
                sxs.Simulations.load = srv.load
                sxs.utilities.download_file = srv.download
                os.environ["HOME"] = d
                sim = (IDS + ["SXS:BBH:9999"])[c["sim"]]
                kw = {}
                if c["order"] is not None:
                    kw["extrap_order"] = c["order"]
                if c["tag"] is not None:
                    kw["catalog_tag"] = c["tag"]
                root = {"plain": d, "home": d,
                        "nested": os.path.join(d, "a", "b")}[c["dir"]]
                srv.fail = c["fail"]
                try:
                    with quiet():
                        got = download_sxs_waveform(
                            sim, c["lev"],
                            "~" if c["dir"] == "home" else root, **kw)
                except (ValueError, KeyError, RuntimeError) as e:
                    got = e
                o = c["order"] or 2
                target = os.path.join(root, sim.replace(":", "_"),
                                      f"Lev{c['lev']}")
                want = {os.path.join(target, n):
                        f"https://x/{sim}/{c['lev']}/{n}" for n in (
                            f"Strain_N{o}.h5", f"Strain_N{o}.json",
                            "metadata.json", "Horizons.h5")}
                missing = [p for p in want if p not in done]
                for url, path in srv.got:
                    require(path in missing and want[path] == url,
                            f"{url} is fetched as {path}, which is "
                            + ("there" if path in done else "not it"),
                            key="fetch")
                done |= {p for _, p in srv.got}
                ok = (sim in IDS and (c["lev"] < 3 or not missing)
                      and (c["fail"] is None or c["fail"] >= len(missing)))
                require(ok != isinstance(got, Exception),
                        f"{c}: {got!r}", key="outcome")
                if sim not in IDS:
                    require(isinstance(got, ValueError), f"an unknown "
                            f"simulation gives {got!r}", key="unknown")
                if srv.loaded:
                    require(all((k.get("tag") or "") == (c["tag"] or "")
                                for k in srv.loaded), f"the catalogue is "
                            f"loaded with {srv.loaded}", key="tag")
                if not ok:
                    labels.append("failed")
                    continue
                require(os.path.abspath(got) == target, f"says {got}, the "
                        f"files belong in {target}", key="directory")
                for p, text in want.items():
                    require(os.path.exists(p) and open(p).read() == text,
                            f"{p} is missing or another file", key="file")
                resumed += 0 < len(missing) < 4
                labels.append("complete" if missing else "present")
        finally:
            sxs.Simulations.load, sxs.utilities.download_file = saved[:2]
            if saved[2] is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = saved[2]
    return dict(nontrivial=len(done) > 0, labels=sorted(set(labels)) + (
        ["resumed"] if resumed else []))


SUBS = [
    Sub("old", case_st, run, 300, 4000, "every case"),
    Sub("new", lambda tier: case_st(tier, True), run, 240, 3000, "every case"),
    Sub("refuse", bad_st, run_bad, 120, 1000, "every case"),
    Sub("download", down_st, run_down, 400, 8000, "files are fetched"),
]
