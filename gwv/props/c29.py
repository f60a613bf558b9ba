"""C29: plots show what was measured and change nothing."""
import logging
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import pp
from ..core import Discard, Sub, no_tex, quiet, require
from ..meas import METHODS, RESIDUAL, ang, build, orbits_speed_up, rfloat, \
    synth_params, try_call
from ..precess import aligned_modes
from ..synth import TWO_PI, Synth
from . import c11

ID = "C29"
ASSUMPTIONS = [
    "figures are drawn by matplotlib's Agg backend without TeX; curves are "
    "identified by their data, not by their order or style"]
logging.getLogger("matplotlib").setLevel(logging.ERROR)
PLOTS = ["eccentricity", "decc_dt", "mean_anomaly", "omega_gw",
         "omega_gw_average", "amp_gw", "phase_diff_ratio_between_extrema",
         "residual_omega_gw", "residual_amp_gw",
         "data_used_for_finding_extrema"]


def step_st():
    return st.fixed_dictionaries(dict(
        plot=st.sampled_from(PLOTS), given=st.booleans(),
        text=st.booleans(), fancy=st.booleans(),
        style=st.sampled_from(["Notebook", "APS", "Presentation", "APJ",
                               "Springer", "Elsevier"]),
        style_kw=st.sampled_from([{}, {}, {"lw": 3}, {"c": "k"}]),
        vline=st.booleans(), flag=st.booleans()))


def case_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.4), norb=(9, 18),
                         tshift=st.sampled_from([0.0, -4000.0])),
        method=st.sampled_from(METHODS),
        interp=st.sampled_from(["spline", "rational_fit"]),
        refine=st.sampled_from([False, False, True]),
        mid=st.sampled_from([False, False, True]), zeroecc=st.booleans(),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "mean_of_extrema_interpolants"]),
        domain=st.sampled_from(["time", "frequency"]),
        frs=st.lists(rfloat(0.05, 0.95, 3), min_size=1, max_size=3),
        debug=st.sampled_from([-1, -1, 0, 1]),
        steps=st.lists(step_st(), min_size=1, max_size=6)))


def measure(case, data, kw):
    extra = {"omega_gw_extrema_interpolation_method": case["interp"],
             "refine_extrema": case["refine"],
             "treat_mid_points_between_pericenters_as_apocenters":
             case["mid"], "omega_gw_averaging_method": case["avg"]}
    if case.get("plots"):
        extra["debug_plots"] = True
    if case.get("orbits"):
        extra["use_only_these_many_orbits"] = case["orbits"]
    if case.get("prec"):
        kw = dict(kw, precessing=True, frame="coprecessing")
    return try_call(data, case["method"], extra=extra,
                    debug=case["debug"], **kw)


def prepare(case):
    syn = Synth(case["syn"])
    data = build(syn, zeroecc=case["zeroecc"]
                 or case["method"] in RESIDUAL)
    if case.get("prec"):
        for tag in ("", "_zeroecc"):
            if "hlm" + tag in data:
                data["hlm" + tag] = aligned_modes(data["hlm" + tag][(2, 2)])
    x0 = float(data["t"][0] + 0.5 * syn.t_insp)
    r, e = measure(case, data, dict(tref=x0))
    if e is not None:
        raise Discard("not measurable")
    g = r["gwecc_object"]
    orbits_speed_up(data, g)
    frs = np.array(case["frs"])
    if case["domain"] == "time":
        x = g.tmin + frs * (g.tmax - g.tmin)
        kw = dict(tref=x if len(x) > 1 else float(x[0]))
    else:
        _, w = g.get_omega_gw_average()
        if np.any(np.diff(w) <= 0):
            raise Discard("the average frequency does not increase")
        x = (w[0] + frs * (w[-1] - w[0])) / TWO_PI
        kw = dict(fref=x if len(x) > 1 else float(x[0]))
    r, e = measure(case, data, kw)
    if e is not None:
        raise Discard("not measurable")
    return syn, data, kw, r


def lines(ax):
    """Curves and markers with data (no lines across the axes)."""
    out = []
    for x in ax.get_lines():
        u, v = (np.asarray(x.get_xdata(), float),
                np.asarray(x.get_ydata(), float))
        if x.get_transform() == ax.transData:
            out.append((u, v))
    return out


def shown(ax, x, y, text, tol=1e-9, circle=False):
    """One of the curves has exactly these points."""
    x, y = np.atleast_1d(x), np.atleast_1d(y)
    s = tol * max(1e-300, np.max(np.abs(y)))
    for u, v in lines(ax):
        if len(u) == len(x) and np.allclose(u, x, rtol=1e-12, atol=1e-9):
            d = ang(u * 0 + v, y) if circle else np.abs(v - y)
            if np.all(d <= (1e-9 if circle else s)):
                return
    require(False, f"{text} is not drawn", key="curve")


def along(ax, fn, lo, hi, text, tol=1e-9, circle=False):
    """One of the curves is fn over the measured range."""
    for u, v in lines(ax):
        if len(u) < 20 or u[0] < lo - 1e-6 or u[-1] > hi + 1e-6:
            continue
        y = np.asarray(fn(u))
        s = tol * np.max(np.abs(y))
        d = ang(v, y) if circle else np.abs(v - y)
        if np.all(d <= (1e-9 if circle else s)):
            step = np.max(np.diff(u))
            require(u[0] - lo <= step + 1e-9 and hi - u[-1] <= step + 1e-9,
                    f"{text} is only drawn from {u[0]} to {u[-1]}",
                    key="curve")
            return
    require(False, f"{text} is not drawn", key="curve")


def extrema(ax, g, y, text):
    """Markers at the extrema, on the curve."""
    for name in ("pericenters", "apocenters"):
        loc = np.asarray(getattr(g, name + "_location"))
        shown(ax, g.t[loc], np.asarray(y)[loc], f"{text}: the {name}")


def look(what, ax, g, st_, case):
    """The axes show the quantity."""
    lo, hi = g.tmin, g.tmax
    one = np.size(g.tref_out) == 1 and st_["vline"]
    if what == "eccentricity":
        along(ax, g.compute_eccentricity, lo, hi, "the eccentricity")
        if one:
            shown(ax, g.tref_out, g.eccentricity, "the reference")
    elif what == "mean_anomaly":
        along(ax, g.compute_mean_anomaly, lo, hi, "the mean anomaly",
              circle=True)
        if one:
            shown(ax, g.tref_out, g.mean_anomaly, "the reference")
    elif what == "decc_dt":
        along(ax, g.derivative_of_eccentricity, lo, hi, "the derivative")
    elif what == "omega_gw":
        shown(ax, g.t, g.omega_gw, "the frequency")
        extrema(ax, g, g.omega_gw, "the frequency")
        along(ax, g.omega_gw_pericenters_interp, lo, hi,
              "the curve through pericenters")
        along(ax, g.omega_gw_apocenters_interp, lo, hi,
              "the curve through apocenters")
    elif what == "omega_gw_average":
        t, w = g.get_omega_gw_average(case["avg"])
        shown(ax, t, w, "the average frequency")
    elif what == "amp_gw":
        shown(ax, g.t, g.amp_gw, "the amplitude")
        extrema(ax, g, g.amp_gw, "the amplitude")
    elif what.startswith("residual"):
        y = g.res_omega_gw if "omega" in what else g.res_amp_gw
        shown(ax, g.t, y, "the residual")
        extrema(ax, g, y, "the residual")
    elif what.startswith("data_used"):
        y = g.data_for_finding_extrema
        shown(ax, g.t, y, "the data")
        extrema(ax, g, y, "the data")
    else:
        for name in ("pericenters", "apocenters"):
            loc = np.asarray(getattr(g, name + "_location"))
            ph = g.phase_gw[loc] / 2
            d = np.diff(ph)
            if len(d) < 2:
                continue
            ratio = d[1:] / d[:-1]
            shown(ax, g.t[loc][2:], ratio, f"the ratio of phase "
                  f"differences of {name}", tol=1e-6)


def state(g, t):
    return [np.asarray(x, float) for x in (
        g.compute_eccentricity(t), g.compute_mean_anomaly(t),
        g.derivative_of_eccentricity(t), g.eccentricity, g.mean_anomaly,
        g.tref_out, g.t, g.omega_gw, g.t_pericenters, g.t_apocenters,
        *g.get_omega_gw_average())]


def run(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rc = dict(matplotlib.rcParams)
    try:
        return history(case, plt)
    finally:
        plt.close("all")
        matplotlib.rcParams.update(rc)


def history(case, plt):
    syn, data, kw, r = prepare(case)
    g = r["gwecc_object"]
    # as evaluated without any plot
    t = np.linspace(g.tmin, g.tmax, 50)
    f, e = measure(case, data, kw)
    want = state(f["gwecc_object"], t)
    kinds = []
    for s in case["steps"]:
        what = s["plot"]
        if what.startswith("residual") and not hasattr(g, "res_amp_gw"):
            what = "eccentricity"
        k = dict(add_help_text=s["text"], use_fancy_settings=s["fancy"],
                 style=s["style"])
        if what in ("eccentricity", "mean_anomaly",
                    "data_used_for_finding_extrema"):
            k["add_vline_at_tref"] = s["vline"]
        if what == "omega_gw_average":
            k["plot_orbit_averaged_omega_gw_between_extrema"] = s["flag"]
        if what in ("eccentricity", "mean_anomaly", "decc_dt"):
            k.update(s["style_kw"])
        if s["given"]:
            fig, ax = plt.subplots()
            k.update(fig=fig, ax=ax)
        with quiet():
            out = getattr(g, "plot_" + what)(**k)
            if s["given"]:
                got = ax
                require(out is ax, f"plot_{what} with fig and ax returns "
                        f"{type(out).__name__}", key="return")
            else:
                fig, got = out
                require(got.figure is fig, f"plot_{what} returns axes of "
                        "another figure", key="return")
            fig.canvas.draw()
        look(what, got, g, s, case)
        kinds.append(what)
        plt.close(fig)
    compare(state(g, t), want, kinds)
    return dict(nontrivial=len(kinds) > 0, labels=sorted(set(kinds)))


def compare(got, want, kinds):
    for a, b in zip(got, want):
        require(a.shape == b.shape and np.array_equal(a, b), "evaluations "
                f"differ after plotting {kinds}", key="state")


# --- all at once -----------------------------------------------------------
def all_st(tier):
    return st.tuples(case_st(tier), st.fixed_dictionaries(dict(
        twocol=st.booleans(), text=st.booleans(), fancy=st.booleans(),
        style=st.sampled_from([None, "Notebook", "APS"]),
        sharex=st.booleans()))).map(
            lambda p: dict(p[0], steps=[], diag=p[1]))


def run_all(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rc = dict(matplotlib.rcParams)
    try:
        syn, data, kw, r = prepare(case)
        g, c = r["gwecc_object"], case["diag"]
        t = np.linspace(g.tmin, g.tmax, 50)
        f, e = measure(case, data, kw)
        want = state(f["gwecc_object"], t)
        more = {} if c["sharex"] else {"sharex": False}
        with quiet():
            fig, axs = g.make_diagnostic_plots(
                add_help_text=c["text"], use_fancy_settings=c["fancy"],
                style=c["style"], twocol=c["twocol"], **more)
            fig.canvas.draw()
        have = hasattr(g, "res_amp_gw")
        names = ["eccentricity", "mean_anomaly", "omega_gw",
                 "data_used_for_finding_extrema", "decc_dt",
                 "phase_diff_ratio_between_extrema", "omega_gw_average"]
        if have:
            names += [n for n, m in (
                ("residual_amp_gw", "ResidualAmplitude"),
                ("residual_omega_gw", "ResidualFrequency"))
                if m != case["method"]]
        axs = [a for a in axs if a in fig.axes]
        require(len(axs) == len(names), f"{len(axs)} panels for "
                f"{len(names)} quantities", key="panels")
        for n in names:
            # in some panel
            last = None
            for a in axs:
                try:
                    look(n, a, g, dict(vline=True), case)
                    break
                except Exception as e:  # noqa: BLE001
                    last = e
            else:
                raise last
        compare(state(g, t), want, ["all"])
        return dict(nontrivial=True, labels=[case["method"],
                                             f"{len(names)} panels"])
    finally:
        plt.close("all")
        matplotlib.rcParams.update(rc)


# --- while measuring -------------------------------------------------------
def debug_st(tier):
    return st.tuples(case_st(tier), st.fixed_dictionaries(dict(
        orbits=st.sampled_from([None, 5, 7.5, 8]),
        prec=st.sampled_from([False, False, True])))).map(
            lambda p: dict(p[0], steps=[], debug=-1, **p[1]))


def run_debug(case):
    """debug_plots=True measures the same, and draws it."""
    import matplotlib.figure
    here = os.getcwd()
    out = tempfile.mkdtemp(prefix="gwv_c29_")
    keep = matplotlib.figure.Figure.savefig
    drawn = {}

    def savefig(self, fname, *a, **k):
        # (pages of a file with several are objects)
        drawn[os.path.basename(fname) if isinstance(fname, str) else 0] = [
            (lines(ax), [float(np.ravel(np.asarray(x.get_xdata(), float))[0])
                         for x in ax.get_lines()
                         if x.get_transform() != ax.transData])
            for ax in self.axes]
        return keep(self, fname, *a, **k)
    try:
        os.chdir(out)
        syn, data, kw, r = prepare(case)
        with no_tex():
            matplotlib.figure.Figure.savefig = savefig
            more, e = measure(dict(case, plots=True), data, kw)
        require(e is None, f"with debug_plots: {type(e).__name__}: {e}",
                key="debug")
        for k in ("eccentricity", "mean_anomaly"):
            require(np.array_equal(r[k], more[k]), f"{k} is {more[k]} with "
                    f"debug_plots, {r[k]} without", key="debug")
        files = [f for f in os.listdir(out) if os.path.getsize(f)]
        require(files, "debug_plots makes no file", key="debug")
        named = {f for f in drawn if f}
        require(named <= set(files) and (0 in drawn
                                         or named == set(files)),
                f"draws {sorted(named)}, the files are {sorted(files)}",
                key="files")
        seg = [f for f in files if "segment" in f]
        cut = bool(case["orbits"]) and len(r["gwecc_object"].t) < len(
            trimmed(data, case).t)
        # (one that turns out to be the whole waveform may be drawn as well)
        require(len(seg) == 1 if cut else len(seg) <= bool(case["orbits"]),
                f"files {files} with {case['orbits']} orbits", key="files")
        labels = [case["method"], case["domain"]]
        if seg:
            labels.append("segment")
            full, g = trimmed(data, case), r["gwecc_object"]
            (amp, _), (om, marks) = drawn[seg[0]][:2]
            for curves, name in ((amp, "amp_gw"), (om, "omega_gw")):
                for o, what in ((full, "the waveform"), (g, "the segment")):
                    hit = any(len(u) == len(o.t) and np.array_equal(u, o.t)
                              and np.array_equal(v, getattr(o, name))
                              for u, v in curves)
                    require(hit, f"{what} ({name}) is not in the figure of "
                            "the segment", key="segment")
            if case["domain"] == "time":
                x = np.atleast_1d(kw["tref"])
                want = sorted({float(x[0]), float(x[-1])})
                require(sorted(set(marks)) == want, f"marks {marks} instead "
                        f"of {want}", key="marks")
        return dict(nontrivial=True, labels=labels)
    finally:
        matplotlib.figure.Figure.savefig = keep
        os.chdir(here)
        shutil.rmtree(out)


def refused_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.15, 0.4), norb=(14, 22)),
        method=st.sampled_from(["Amplitude", "Frequency",
                                "ResidualAmplitude"]),
        avg=st.sampled_from(["orbit_averaged_omega_gw",
                             "omega_gw_zeroecc"]),
        size=rfloat(0.3, 0.9, 2), wave=rfloat(2, 6, 1)))


def run_refused(case):
    """The plot of an average that decreases comes with the same error."""
    import matplotlib.figure
    syn = Synth(case["syn"])
    d = build(syn, case["method"], zeroecc=True)
    if case["avg"] == "orbit_averaged_omega_gw":
        c11.modulate(d, syn, case["size"])
    else:
        t = d["t_zeroecc"]
        x = TWO_PI * case["wave"] * (t - t[0]) / syn.t_insp
        d["hlm_zeroecc"] = {m: h * np.exp(1j * 12 * case["size"] * np.sin(x))
                            for m, h in d["hlm_zeroecc"].items()}
    extra = {"omega_gw_averaging_method": case["avg"],
             "omega_gw_extrema_interpolation_method": "spline"}
    kw = dict(fref=syn.n(0.5 * syn.t_insp) / np.pi)
    _, e = try_call(d, case["method"], extra=dict(extra), **kw)
    if e is None or "non-monotonic" not in str(e):
        raise Discard("increases, or fails otherwise")
    here = os.getcwd()
    out = tempfile.mkdtemp(prefix="gwv_c29_")
    keep = matplotlib.figure.Figure.savefig
    drawn = {}

    def savefig(self, fname, *a, **k):
        drawn[os.path.basename(fname)] = [lines(ax) for ax in self.axes]
        return keep(self, fname, *a, **k)
    try:
        os.chdir(out)
        with no_tex():
            matplotlib.figure.Figure.savefig = savefig
            _, f = try_call(d, case["method"], extra=dict(
                extra, debug_plots=True), **kw)
        require(f is not None and type(f) is type(e) and
                str(f).split("\nTotal")[0] == str(e).split("\nTotal")[0],
                f"without plots: {brief(e)}, with debug_plots: {brief(f)}",
                key="refused")
        named = [n for n in drawn if n in str(f)]
        require(len(named) == 1 and os.path.getsize(named[0]),
                f"figures {sorted(drawn)}, the error says {f}",
                key="refused")
        y = drawn[named[0]][0][0][1]
        i = int(np.argmax(np.diff(y) <= 0))
        require(np.diff(y)[i] <= 0 and f"peak number {i}," in str(e)
                and str(y[i]) in str(e),
                f"{brief(e)}, the figure shows {y}", key="refused")
    finally:
        matplotlib.figure.Figure.savefig = keep
        os.chdir(here)
        shutil.rmtree(out)
    return dict(nontrivial=True, labels=[case["avg"]])


def brief(e):
    return f"{type(e).__name__}: {str(e)[:120]}"


def trimmed(data, case):
    """The measurement from the full waveform."""
    full = dict(case, orbits=None)
    r, e = measure(full, data, dict(tref=float(
        data["t"][0] + 0.5 * (data["t"][-1] - data["t"][0]))))
    if e is not None:
        raise Discard("not measurable as a whole")
    return r["gwecc_object"]


# --- posteriors ------------------------------------------------------------
# --- data of the fits, for diagnostics -------------------------------------
FIELDS = ["params", "t_extrema", "data_extrema", "t_ref", "f_fit"]


def fits_st(tier):
    return st.fixed_dictionaries(dict(
        syn=synth_params(e0=(0.05, 0.5), norb=(8, 24),
                         tshift=st.sampled_from([0.0, -4000.0])),
        method=st.sampled_from(["AmplitudeFits", "FrequencyFits"]),
        rep=st.sampled_from(["hlm", "amp"]), refine=st.booleans(),
        num=st.sampled_from([None, None, 5, 8]), debug=st.booleans(),
        fr=rfloat(0.05, 0.95, 3)))


def run_fits(case):
    syn = Synth(case["syn"])
    d = build(syn, case["method"], case["rep"])
    kw = dict(tref=float(d["t"][0] + (0.2 + 0.5 * case["fr"]) * syn.t_insp))
    fk = {} if case["num"] is None else {"num_orbits": case["num"]}
    extra = {"refine_extrema": case["refine"], "kwargs_for_fits_methods": fk}
    r, e = try_call(d, case["method"], extra=extra, debug=-1, **kw)
    extra["kwargs_for_fits_methods"] = dict(fk, return_diagnostic_data=True)
    r2, e2 = try_call(d, case["method"], extra=extra,
                      debug=int(case["debug"]) * 2 - 1, **kw)
    require((e is None) == (e2 is None) and type(e) is type(e2)
            and str(e) == str(e2), f"asked for data of the fits: {e2!r}, "
            f"otherwise {e!r}", key="fits-outcome")
    if e is not None:
        raise Discard("not measurable")
    g, g2 = r["gwecc_object"], r2["gwecc_object"]
    for k in ("eccentricity", "mean_anomaly"):
        require(np.array_equal(r[k], r2[k]), f"{k} is {r2[k]} with the data "
                f"of the fits, {r[k]} without", key="fits-value")
    require(not hasattr(g, "diagnostic_data_dict"), "data of the fits that "
            "nobody asked for", key="fits-data")
    dd = g2.diagnostic_data_dict
    t, y = dd["t"], dd["data"]
    want = d.get("amplm", None)
    if case["method"] == "AmplitudeFits":
        a = (np.abs(d["hlm"][(2, 2)]) if want is None else want[(2, 2)])
        require(len(a) >= len(y) and np.allclose(
            y / y[0], a[:len(y)] / a[0], rtol=1e-12),
            "the data are not the amplitude", key="fits-data")
    require(len(t) == len(y), "times and data differ in length",
            key="fits-data")
    n = 0
    for kind in ("pericenters", "apocenters"):
        size = {k: [sorted(x) for x in dd[k][kind]] for k in FIELDS}
        require(all(size[k] == size["params"] for k in FIELDS),
                f"{kind}: the fields do not belong together", key="fits-data")
        last = []
        for i, its in enumerate(size["params"]):
            for j in its:
                te = np.asarray(dd["t_extrema"][kind][i][j])
                de = np.asarray(dd["data_extrema"][kind][i][j])
                f, p = dd["f_fit"][kind][i][j], dd["params"][kind][i][j]
                require(len(te) == len(de) > 0, f"{kind}, fit {i}, "
                        f"iteration {j}: {len(te)} times, {len(de)} values",
                        key="fits-data")
                k = np.searchsorted(t, te)
                require(case["refine"] or (
                    np.array_equal(t[np.minimum(k, len(t) - 1)], te)
                    and np.array_equal(y[k], de)), f"{kind}: extrema that "
                    "are no points of the data", key="fits-points")
                require(np.all(np.isfinite(f(te, *p))), f"{kind}: a fit "
                        "that is not finite at its extrema", key="fits-fit")
                n += 1
            if its:
                last.append((i, its[-1]))
        loc = getattr(g2, kind + "_location")
        if case["refine"]:
            continue
        # the reported extrema are extrema of some fit
        seen = np.concatenate([dd["data_extrema"][kind][i][j]
                               for i, j in last])
        lost = [k for k in loc if y[k] not in seen]
        require(len(lost) <= 4, f"{kind}: {len(lost)} of {len(loc)} "
                "reported extrema are of no fit", key="fits-extrema")
    return dict(nontrivial=n > 10, labels=[
        case["method"], "refined" if case["refine"] else "sampled"])


def hist_st(tier):
    return st.fixed_dictionaries(dict(
        rows=st.lists(pp.row_st(), min_size=2, max_size=5),
        which=st.sampled_from(["egw", "lgw", "eccentricity",
                               "mean_per_ano"]),
        bins=st.integers(3, 12), given=st.booleans(),
        two=st.booleans(), frac=rfloat(0.2, 0.7, 2)))


def run_hist(case):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from gw_eccentricity.postprocess import PostProcess
    rc = dict(matplotlib.rcParams)
    df = pp.frame(case["rows"], range(len(case["rows"])))

    class Mine(PostProcess):
        def get_posterior(self, parameter_columns=None):
            return df
    try:
        with quiet():
            p = Mine("nowhere", pp.generator)
            s = pp.Synth(pp.params_of(case["rows"][0]))
            res = p.postprocess(tref=float(case["frac"] * s.t_insp),
                                n_jobs=1, method="Amplitude",
                                gw_eccentricity_kwargs={"debug_level": -1})
            k = {}
            if case["given"]:
                k["fig"], k["ax"] = plt.subplots()
            if case["which"] in ("egw", "lgw"):
                y = [getattr(r, case["which"]) for r in res.results
                     if r.status == "success"]
                k["two_col"] = case["two"]
            else:
                y = list(df[case["which"]])
            if not y:
                raise Discard("nothing measured")
            edges = np.linspace(0, 6.4 if case["which"] in (
                "lgw", "mean_per_ano") else 1, case["bins"] + 1)
            out = getattr(p, f"plot_{case['which']}_posterior")(
                bins=edges, **k)
        ax = out[1] if isinstance(out, tuple) else out
        if case["given"]:
            require(ax is k["ax"], "drawn to other axes", key="return")
        n = [q.get_height() for q in ax.patches]
        want = np.histogram(y, edges)[0]
        require(len(n) == len(want) and np.array_equal(n, want),
                f"the histogram has {n}, the samples are {want}",
                key="histogram")
        return dict(nontrivial=len(y) > 1, labels=[case["which"]])
    finally:
        plt.close("all")
        matplotlib.rcParams.update(rc)


SUBS = [
    Sub("plots", case_st, run, 100, 3000, "one or more plots"),
    Sub("diagnostic", all_st, run_all, 32, 800, "all panels"),
    Sub("debug", debug_st, run_debug, 24, 400, "a measurement with plots"),
    Sub("refused", refused_st, run_refused, 40, 600,
        "the average frequency decreases somewhere"),
    Sub("fits", fits_st, run_fits, 120, 2000, "more than ten iterations"),
    Sub("posterior", hist_st, run_hist, 40, 1000,
        "a histogram of two or more samples"),
]
