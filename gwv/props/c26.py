"""C26: post-processing measures each posterior sample on its own."""
import logging

import numpy as np
from hypothesis import strategies as st

from .. import pp
from ..core import Sub, Violation, no_tex, quiet, require
from ..meas import METHODS, call, rfloat, same, snapshot

ID = "C26"
ASSUMPTIONS = [
    "waveforms of the samples are closed-form inspirals made by the "
    "harness; failing samples raise, return something else than a "
    "dictionary, or cannot be measured"]
logging.getLogger("gw_eccentricity").setLevel(logging.CRITICAL)


def case_st(tier, n=(1, 8)):
    return st.integers(*n).flatmap(lambda n: st.fixed_dictionaries(dict(
        rows=st.lists(pp.row_st(), min_size=n, max_size=n),
        labels=st.one_of(st.just(list(range(n))), st.permutations(
            list(range(n))), st.lists(st.integers(0, 500), min_size=n,
                                      max_size=n, unique=True)),
        pick=st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1,
                                           max_size=n, unique=True)),
        array=st.booleans(), columns=st.booleans(),
        ref=st.sampled_from(["tref", "fref"]), frac=rfloat(0.2, 0.7, 2),
        method=st.sampled_from(METHODS),
        extra=st.sampled_from([None, {}, {"scale": 2.0}]),
        kwargs=st.sampled_from([0, 1, 2, 3]), jobs=st.just(1))))


COLS = ["e0", "l0", "n0", "norb", "ratio", "mass_1", "fault"]


def make(case):
    from gw_eccentricity.postprocess import PostProcess
    from gw_eccentricity.postprocess import filter_posterior_columns
    df = pp.frame(case["rows"], case["labels"])

    class Mine(PostProcess):
        def get_posterior(self, parameter_columns=None):
            if parameter_columns is None:
                return df
            return filter_posterior_columns(df, parameter_columns)
    kw = {}
    if case["columns"]:
        kw["parameter_columns"] = list(COLS)
    if case["extra"] is not None:
        kw["data_dict_generator_extra_kwargs"] = dict(case["extra"])
    return df, Mine("nowhere", pp.generator, **kw)


def gw_kwargs(case):
    k = {"debug_level": -1}
    if case["kwargs"] == 1:
        k["extra_kwargs"] = {
            "omega_gw_extrema_interpolation_method": "spline"}
    elif case["kwargs"] == 2:
        k["num_orbits_to_exclude_before_merger"] = 1
    elif case["kwargs"] == 3:
        # the bounds are those of the whole waveform all the same
        k["extra_kwargs"] = {"use_only_these_many_orbits": 7}
    return k


def reference(case):
    """A time or frequency that suits a typical sample."""
    r = case["rows"][0]
    s = pp.Synth(pp.params_of(r))
    t = case["frac"] * s.t_insp
    if case["ref"] == "tref":
        return dict(tref=float(t))
    return dict(fref=float((s.n(t) + s.kadv(t) * s.n(t)) / np.pi))


def direct(case, row, ref):
    """(egw, lgw) or None, from a measurement outside post-processing."""
    pp.CALLS.clear()
    try:
        with quiet():
            d = pp.generator(row, dict(case["extra"] or {}))
            if not isinstance(d, dict):
                return None
            from gw_eccentricity import measure_eccentricity
            out = measure_eccentricity(
                dataDict=d, method=case["method"],
                tref_in=ref.get("tref"), fref_in=ref.get("fref"),
                **snapshot(gw_kwargs(case)))
        return out["eccentricity"], out["mean_anomaly"]
    except Exception:  # noqa: BLE001
        return None


def selection(case):
    lab = list(case["labels"])
    if case["pick"] is None:
        return lab, None
    sel = [lab[i] for i in case["pick"]]
    return sel, (np.array(sel) if case["array"] else sel)


def run(case):
    df, p = make(case)
    before = df.copy(deep=True)
    ref = reference(case)
    sel, samples = selection(case)
    kw = gw_kwargs(case)
    k0 = snapshot(kw)
    pp.CALLS.clear()
    with quiet():
        res = p.postprocess(samples=samples, method=case["method"],
                            gw_eccentricity_kwargs=kw, n_jobs=case["jobs"],
                            **ref)
    calls = list(pp.CALLS)
    require(df.equals(before) and list(df.index) == list(before.index),
            "the posterior is modified", key="mutation")
    require(same(k0, kw) is None, "gw_eccentricity_kwargs are modified",
            key="mutation")
    rs = res.results
    require([r.sample_index for r in rs] == sel, "results are for "
            f"{[r.sample_index for r in rs]}, not {sel}", key="order")
    rows = dict(zip(case["labels"], case["rows"]))
    if case["jobs"] == 1:
        require(len(calls) == len(sel), f"{len(calls)} waveforms for "
                f"{len(sel)} samples", key="calls")
        for (params, extra), s in zip(calls, sel):
            want = {c: df.loc[s, c] for c in
                    (COLS if case["columns"] else df.columns)}
            require(set(params) == set(want) and all(
                params[c] == want[c] for c in want),
                f"sample {s} is generated with {params}", key="params")
            require(extra == (case["extra"] or {}), "extra arguments of the "
                    f"generator are {extra}", key="extra")
    good = []
    for r in rs:
        want = direct(case, rows[r.sample_index], ref)
        if want is None:
            require(r.status == "fail" and r.egw is None and r.lgw is None
                    and isinstance(r.error_message, str),
                    f"a sample that cannot be measured gives {r}",
                    key="fail")
        else:
            require(r.status == "success" and r.error_message is None,
                    f"a measurable sample gives {r}", key="success")
            require(r.egw == want[0] and r.lgw == want[1], f"sample "
                    f"{r.sample_index}: ({r.egw}, {r.lgw}), a direct "
                    f"measurement gives {want}", key="value")
            good.append(r)
    summary(p, res, rs, good)
    # once more, in another order
    with quiet():
        again = p.postprocess(samples=sel[::-1], method=case["method"],
                              gw_eccentricity_kwargs=kw, n_jobs=1, **ref)
    key = ("sample_index", "status", "egw", "lgw")
    a = [tuple(getattr(r, k) for k in key) for r in rs]
    b = [tuple(getattr(r, k) for k in key) for r in again.results[::-1]]
    require(a == b, "the order of samples matters", key="independent")
    n = len(good)
    return dict(nontrivial=n > 0, labels=[
        case["method"], "all measured" if n == len(rs) else "some fail"])


def summary(p, res, rs, good):
    d = res.to_dataframe()
    require(list(d["sample_index"]) == [r.sample_index for r in rs]
            and list(d["status"]) == [r.status for r in rs],
            "to_dataframe", key="frame")
    for c in ("egw", "lgw"):
        x = [getattr(r, c) for r in rs]
        y = [None if v is None or v != v else v for v in d[c]]
        require(x == y, f"to_dataframe: {c}", key="frame")
    require(res.success_only() == good, "success_only", key="frame")
    s = p.postprocess_summary()
    e = p.get_gw_eccentricity_posterior()
    require(s["total_samples"] == len(rs) and s["egw"] == e["egw"]
            == [r.egw for r in good] and s["lgw"] == e["lgw"]
            == [r.lgw for r in good] and abs(
                s["success_percentage"] - 100 * len(good) / len(rs)) < 1e-9,
            f"summary {s}", key="summary")


def run_bounds(case):
    df, p = make(case)
    sel, samples = selection(case)
    with quiet():
        res = p.get_fref_bounds(samples=samples, method=case["method"],
                                gw_eccentricity_kwargs=gw_kwargs(case),
                                n_jobs=case["jobs"])
    rs = res.results
    require([r.sample_index for r in rs] == sel, "results are for "
            f"{[r.sample_index for r in rs]}, not {sel}", key="order")
    rows = dict(zip(case["labels"], case["rows"]))
    good, n = [], 0
    for r in rs:
        row = rows[r.sample_index]
        try:
            with quiet():
                d = pp.generator(row, dict(case["extra"] or {}))
                kw = gw_kwargs(case)
                out = call(d, case["method"], tref=d["t"],
                           extra=kw.get("extra_kwargs"), nexcl=kw.get(
                               "num_orbits_to_exclude_before_merger", 2))
            want = out["gwecc_object"].get_fref_bounds()
        except Exception:  # noqa: BLE001
            want = None
        if want is None:
            require(r.status == "fail" and r.fref_min is None
                    and r.fref_max is None and r.error_message,
                    f"a sample that cannot be measured gives {r}",
                    key="fail")
            continue
        require(r.status == "success", f"a measurable sample gives {r}",
                key="success")
        require(r.fref_min == want[0] and r.fref_max == want[1],
                f"bounds of {r.sample_index} are {r}, not {want}",
                key="bounds")
        good.append(r)
        if case["kwargs"] == 3:
            n += 1
            continue
        # they are bounds: inside is measured, outside is refused
        for x, ok in ((0.02, True), (0.5, True), (0.98, True),
                      (-0.05, False), (1.05, False)):
            f = r.fref_min + x * (r.fref_max - r.fref_min)
            from gw_eccentricity import measure_eccentricity
            try:
                with quiet():
                    measure_eccentricity(
                        dataDict=d, fref_in=float(f), method=case["method"],
                        **gw_kwargs(case))
                got = True
            except Exception as e:  # noqa: BLE001
                got = False
                # the average may not increase
                if ok and "monotonic" in str(e):
                    continue
            require(got == ok, f"frequency at {x} of the bounds is "
                    f"{'measured' if got else 'refused'}", key="bounds")
            n += 1
    if good:
        lo, hi = res.get_minmax_fref()
        require(lo == max(r.fref_min for r in good)
                and hi == min(r.fref_max for r in good),
                f"common bounds {lo}, {hi}", key="common")
        require(res.success_only() == good, "success_only", key="frame")
    else:
        try:
            res.get_minmax_fref()
        except Exception:  # noqa: BLE001
            pass
        else:
            raise Violation("common bounds of no sample", key="common")
    return dict(nontrivial=n > 0, labels=[case["method"]])


def run_jobs(case):
    """Process-based workers first (ended here), then threads."""
    import joblib
    try:
        out = run(case)
    finally:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    with joblib.parallel_config(backend="threading"):
        run(case)
    return out


def jobs_st(tier):
    return case_st(tier, (3, 8)).map(lambda c: dict(c, jobs=2))


def bad_st(tier):
    return st.tuples(case_st(tier), st.sampled_from(
        ["both", "neither", "label", "column", "callable", "early",
         "summary", "plot", "frame", "abstract", "injection",
         "no-injection"])).map(lambda x: dict(x[0], bad=x[1]))


def run_bad(case):
    b = case["bad"]
    from gw_eccentricity.postprocess import PostProcess
    try:
        if b == "frame":
            class Mine(PostProcess):
                def get_posterior(self, parameter_columns=None):
                    return {"e0": [0.1]}
            Mine("nowhere", pp.generator)
        elif b == "callable":
            df, p = make(case)
            type(p)("nowhere", "generator")
        elif b == "column":
            df, p = make(case)
            type(p)("nowhere", pp.generator,
                    parameter_columns=COLS + ["chirp_mass"])
        elif b == "early":
            make(case)[1].get_gw_eccentricity_posterior()
        elif b == "summary":
            make(case)[1].postprocess_summary()
        elif b == "plot":
            p = make(case)[1]
            with no_tex():
                [p.plot_egw_posterior, p.plot_lgw_posterior][
                    case["array"]]()
        elif b == "abstract":
            PostProcess("nowhere", pp.generator)
        elif b == "injection":
            # given, but the class does not say how to read it
            df, p = make(case)
            type(p)("nowhere", pp.generator, injection_file="here"
                    ).get_injection_data_dict()
        elif b == "no-injection":
            df, p = make(case)
            type(p).get_injection_params = lambda self: dict(df.iloc[0])
            p.get_injection_data_dict()
        else:
            df, p = make(case)
            kw = dict(n_jobs=1)
            if b != "neither":
                kw["tref"] = 100.0
            if b == "both":
                kw["fref"] = 0.01
            if b == "label":
                kw["samples"] = [case["labels"][0], 1000]
            pp.CALLS.clear()
            with quiet():
                p.postprocess(**kw)
    except Exception:  # noqa: BLE001
        return dict(nontrivial=True, labels=[b])
    raise Violation(f"accepted: {b}", key="refuse")


# --- samples with the same label -------------------------------------------
def twin_st(tier):
    return st.tuples(case_st(tier, (2, 4)), st.integers(0, 3),
                     st.integers(0, 3)).map(
        lambda x: dict(x[0], pick=None, twins=x[1:]))


def run_twin(case):
    n = len(case["labels"])
    i, j = (k % n for k in case["twins"])
    labels = list(case["labels"])
    labels[i] = labels[j]
    case = dict(case, labels=labels)
    ref = reference(case)
    try:
        with quiet():
            df, p = make(case)
            res = p.postprocess(method=case["method"], n_jobs=1,
                                gw_eccentricity_kwargs=gw_kwargs(case),
                                **ref)
    except Exception:  # noqa: BLE001
        require(i != j, "labels that are unique are refused", key="twins")
        return dict(nontrivial=True, labels=["refused"])
    want = [direct(case, r, ref) for r in case["rows"]]
    got = list(res.results)
    require(len(got) == n, f"{len(got)} results of {n} samples",
            key="twins")
    for k, (g, w) in enumerate(zip(got, want)):
        require((g.egw is None) == (w is None)
                and (w is None or g.egw == w[0]), f"labels {labels}: result "
                f"{k} is {g.egw}, the sample gives {w}", key="twins")
    return dict(nontrivial=i != j, labels=["measured"])


SUBS = [
    Sub("samples", case_st, run, 100, 1500, "some sample is measured"),
    Sub("bounds", lambda tier: case_st(tier, (1, 4)), run_bounds, 40, 500,
        "some bounds are probed"),
    Sub("jobs", jobs_st, run_jobs, 6, 60, "some sample is measured",
        max_shards=2),
    Sub("twins", twin_st, run_twin, 40, 400, "two samples have one label"),
    Sub("refuse", bad_st, run_bad, 240, 2000, "every case"),
]
