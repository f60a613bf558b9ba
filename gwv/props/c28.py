"""C28: the command line does what its arguments say."""
import json
import logging
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import pp
from ..core import Discard, Sub, no_tex, quiet, require
from ..meas import METHODS, rfloat
from .c26 import COLS, direct, gw_kwargs, reference

ID = "C28"
ASSUMPTIONS = [
    "results files are written by Bilby itself and read through the command "
    "line's own reader; MPI ranks are threads that exchange pickled "
    "messages, with a generated order of arrival"]
logging.getLogger("gw_eccentricity").setLevel(logging.CRITICAL)
DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --- selections of samples -------------------------------------------------
def number(v):
    pad = st.sampled_from(["", "", " ", "  "])
    return st.tuples(pad, pad).map(lambda p: p[0] + str(v) + p[1])


def spec_st(n=None):
    """(text, the list it stands for); n: only indices below n."""
    hi = 60 if n is None else n - 1
    idx = st.integers(0, hi)
    lists = st.lists(idx, min_size=2, max_size=7).flatmap(
        lambda v: st.tuples(*[number(x) for x in v]).map(
            lambda p: (",".join(p), v)))
    ranges = st.tuples(idx, idx, st.integers(1, 4), st.booleans(),
                       st.booleans()).map(lambda a: (
                           "%s:%d%s" % ("" if a[3] and a[0] == 0 else a[0],
                                        a[1] + 1, f":{a[2]}" if a[4] else
                                        ""),
                           list(range(a[0], a[1] + 1, a[2] if a[4] else 1))))
    if n is None:
        ranges = st.one_of(ranges, st.tuples(idx, idx, st.integers(
            -3, -1)).map(lambda a: ("%d:%d:%d" % a, list(range(*a)))))
    else:
        ranges = ranges.filter(lambda x: x[1])
    return st.one_of(
        st.sampled_from(["all", "none", "ALL", "None", " all"]).map(
            lambda x: (x, None)),
        idx.flatmap(lambda v: number(v).map(lambda x: (x, [v]))),
        lists, lists, ranges, ranges)


def invalid_st():
    """Texts that are no selection."""
    word = st.sampled_from(["x", "1.5", "a1", "first", "-", "1e2", "0x3"])
    num = st.integers(0, 60).map(str)
    return st.one_of(
        word, st.lists(num, min_size=4, max_size=6).map(":".join),
        st.tuples(num, word).map(",".join), st.tuples(num, word).map(
            ":".join), num.map(lambda x: x + ":"),
        st.tuples(num, num, word).map(":".join),
        st.tuples(num, num).map(" ".join))


def run_samples(case):
    text, want = case["spec"]
    mod = pp.cli(pp.World(1))[0]
    if want == "invalid":
        try:
            got = mod.parse_samples(text)
        except ValueError:
            return dict(nontrivial=True, labels=["invalid"])
        require(False, f"--samples {text!r} selects {got}", key="invalid")
    got = mod.parse_samples(text)
    require(got == want, f"--samples {text!r} selects {got}, not {want}",
            key="samples")
    return dict(nontrivial=want is not None and len(want) > 1,
                labels=["none" if want is None else "range" if ":" in text
                        else "list"])


# --- the whole program -----------------------------------------------------
def case_st(tier):
    return st.integers(1, 6).flatmap(lambda n: st.fixed_dictionaries(dict(
        rows=st.lists(pp.row_st(), min_size=n, max_size=n),
        spec=spec_st(n), fmt=st.sampled_from(["csv", "json", "parquet"]),
        every=st.sampled_from([None, "none", 1, 2, 3]),
        size=st.sampled_from([1, 1, 2, 3, 4]), batch=st.integers(1, 4),
        seed=st.integers(0, 5), columns=st.sampled_from([None, "same",
                                                         "turned"]),
        ref=st.sampled_from(["tref", "fref"]), frac=rfloat(0.2, 0.7, 2),
        method=st.sampled_from(METHODS + [None]),
        extra=st.sampled_from([None, {}, {"scale": 2.0}]),
        kwargs=st.sampled_from([0, 1, 2]), fresh=st.booleans(),
        generator=st.sampled_from(["module", "file"]))))


def bilby_file(df, path):
    """A results file, as written by Bilby."""
    import bilby
    keys = [c for c in df.columns if c in ("e0", "l0")]
    r = bilby.result.Result(
        label="gwv", outdir=os.path.dirname(path), posterior=df,
        search_parameter_keys=keys, priors=bilby.core.prior.PriorDict(
            {k: bilby.core.prior.Uniform(0, 10) for k in keys}))
    with quiet():
        r.save_to_file(filename=path, overwrite=True)


def start(argv, size=1, seed=0):
    """Run main() on every rank."""
    saved = sys.argv
    sys.argv = ["postprocess_cli"] + argv
    w = pp.World(size, seed)
    try:
        with quiet():
            pp.run_ranks(w, lambda m, r: m.main())
    finally:
        sys.argv = saved
    return w


def arguments(case, out):
    df = pp.frame(case["rows"], range(len(case["rows"])))
    path = f"{out}/gwv_result.json"
    bilby_file(df, path)
    if case["generator"] == "file":
        gen = f"{out}/my_generator.py"
        with open(gen, "w") as f:
            f.write("from gwv import pp\n\n\ndef waveform(params, extra):\n"
                    "    return pp.generator(params, extra)\n")
        gen += ":waveform"
    else:
        gen = "gwv.pp:generator"
    a = ["--posterior-path", path, "--data-dict-generator", gen,
         "--samples", case["spec"][0], "--output-format", case["fmt"],
         "--output-dir", f"{out}/a/b", "--batch-size", str(case["batch"]),
         "--gw-eccentricity-kwargs", json.dumps(gw_kwargs(case))]
    ref = reference(case)
    for k, v in ref.items():
        a += [f"--{k}", repr(v)]
    if case["every"] is not None:
        a += ["--save-every", str(case["every"])]
    if case["method"]:
        a += ["--method", case["method"]]
    if case["extra"] is not None:
        a += ["--data-dict-generator-extra-kwargs",
              json.dumps(case["extra"])]
    cols = list(df.columns)
    if case["columns"]:
        cols = COLS if case["columns"] == "same" else COLS[::-1]
        a += ["--parameter-columns", (","
              if case["fresh"] else " , ").join(cols)]
    return df, a, ref, cols


def run_cli(case):
    out = tempfile.mkdtemp(prefix="gwv_c28_")
    try:
        return check_cli(case, out)
    finally:
        shutil.rmtree(out)


def check_cli(case, out):
    import pandas as pd
    df, argv, ref, cols = arguments(case, out)
    pp.CALLS.clear()
    w = start(argv, case["size"], case["seed"])
    calls = list(pp.CALLS)
    require(not w.left, f"ranks {w.left} are never told to stop", key="stop")
    path = f"{out}/a/b/eccentricity_results.{case['fmt']}"
    require(os.path.exists(path), "no results are written", key="output")
    if case["fmt"] == "csv":
        got = pd.read_csv(path, float_precision="round_trip")
    else:
        got = getattr(pd, "read_" + case["fmt"])(path)
    names = ["sample_index", "status", "egw", "lgw", "error_message"]
    require(list(got.columns) == cols + names, f"columns "
            f"{list(got.columns)}", key="columns")
    sel = case["spec"][1]
    if sel is None:
        sel = list(range(len(df)))
    require([int(x) for x in got["sample_index"]] == sel,
            f"--samples {case['spec'][0]!r} writes samples "
            f"{list(got['sample_index'])} instead of {sel}", key="rows")
    tol = 1e-9 if case["fmt"] == "json" else 0.0
    truth = dict(case, method=case["method"] or "AmplitudeFits")
    done, n = {}, 0
    for k, i in enumerate(sel):
        row = got.iloc[k]
        for c in cols:
            require(abs(row[c] - df.loc[i, c]) <= tol, f"sample {i}: {c} is "
                    f"{row[c]}, the posterior has {df.loc[i, c]}",
                    key="posterior")
        if i not in done:
            done[i] = direct(truth, case["rows"][i], ref)
        want = done[i]
        if want is None:
            require(row["status"] == "fail" and pd.isna(row["egw"])
                    and pd.isna(row["lgw"])
                    and isinstance(row["error_message"], str),
                    f"a sample that cannot be measured gives {dict(row)}",
                    key="fail")
            continue
        n += 1
        require(row["status"] == "success" and pd.isna(row["error_message"]),
                f"a measurable sample gives {dict(row)}", key="success")
        require(abs(row["egw"] - float(want[0])) <= tol
                and abs(row["lgw"] - float(want[1])) <= tol,
                f"sample {i}: ({row['egw']}, {row['lgw']}), a direct "
                f"measurement gives {want}", key="value")
    cp = f"{out}/a/b/checkpoint.parquet"
    every = case["every"] not in (None, "none")
    require(os.path.exists(cp) == every, "a checkpoint is "
            f"{'' if os.path.exists(cp) else 'not '}written with --save-every"
            f" {case['every']}", key="checkpoint")
    if every:
        saved = pd.read_parquet(cp)
        require(sorted(saved["sample_index"]) == sorted(
            sel if case["size"] == 1 else set(sel)) or
            len(set(sel)) < len(sel), "the checkpoint of a finished run has "
            f"samples {sorted(saved['sample_index'])}", key="checkpoint")
    if len(set(sel)) == len(sel):
        require(len(calls) == len(sel), f"{len(calls)} waveforms for "
                f"{len(sel)} samples", key="calls")
    for params, extra in calls:
        require(set(params) == set(cols) and extra == (case["extra"] or {}),
                f"a waveform is generated with {params}, {extra}",
                key="params")
    return dict(nontrivial=n > 0, labels=[
        case["fmt"], f"size-{case['size']}",
        "all" if case["spec"][1] is None else "some",
        "twice" if len(set(sel)) < len(sel) else "once"])


# --- what has to be refused ------------------------------------------------
BAD = ["both", "neither", "json", "not-object", "no-colon", "no-file",
       "no-module", "no-name", "not-callable", "samples", "format", "batch"]


def refuse_st(tier):
    return st.fixed_dictionaries(dict(
        bad=st.sampled_from(BAD), which=st.integers(0, 3),
        row=pp.row_st(bad=False), size=st.sampled_from([1, 1, 2])))


def run_refuse(case):
    out = tempfile.mkdtemp(prefix="gwv_c28_")
    try:
        c = dict(rows=[case["row"]], spec=("all", None), fmt="csv",
                 batch=2, kwargs=0, ref="tref", frac=0.4, every=None,
                 method="Amplitude", extra=None, columns=None,
                 generator="file", fresh=True)
        _, a, _, _ = arguments(c, out)
        bad, k = case["bad"], case["which"]
        if bad == "both":
            a += ["--fref", "0.01"]
        elif bad == "neither":
            i = a.index("--tref")
            del a[i:i + 2]
        elif bad in ("json", "not-object"):
            text = (["{", "{'a': 1}", "nothing", "{\"a\": }"][k]
                    if bad == "json" else ["[1]", "1", "\"a\"", "null"][k])
            a += [["--gw-eccentricity-kwargs",
                   "--data-dict-generator-extra-kwargs"][k % 2], text]
        elif bad == "samples":
            a += ["--samples", ["0:1:1:1", "x", "0,x", "0:y"][k]]
        elif bad == "format":
            a += ["--output-format", "hdf5"]
        elif bad == "batch":
            a += ["--batch-size", "many"]
        else:
            text = {"no-colon": "gwv.pp.generator",
                    "no-file": f"{out}/nothing.py:waveform",
                    "no-module": "gwv.nothing:waveform",
                    "no-name": "gwv.pp:nothing",
                    "not-callable": "gwv.pp:FAULTS"}[bad]
            a += ["--data-dict-generator", text]
        try:
            start(a, case["size"])
        except (SystemExit, ValueError, ImportError, AttributeError) as e:
            require(not isinstance(e, SystemExit) or e.code,
                    f"{bad}: exits with {e!r}", key="refuse")
        else:
            require(False, f"{bad}: {a} is accepted", key="refuse")
        require(not os.path.exists(f"{out}/a"), f"{bad}: files are written "
                "though the arguments are refused", key="refuse")
        return dict(nontrivial=True, labels=[bad])
    finally:
        shutil.rmtree(out)


# --- the class for Bilby's results -----------------------------------------
def bilby_st(tier):
    return st.fixed_dictionaries(dict(
        rows=st.lists(pp.row_st(), min_size=1, max_size=3),
        true=pp.row_st(bad=False), fmin=st.booleans(),
        columns=st.booleans(), ref=st.sampled_from(["tref", "fref"]),
        frac=rfloat(0.2, 0.7, 2), method=st.sampled_from(METHODS),
        extra=st.sampled_from([None, {"scale": 2.0}]),
        kwargs=st.sampled_from([0, 1, 2]), debug=st.booleans(),
        refs=st.sampled_from(["one", "one", "one", "one", "both", "none"]),
        missing=st.sampled_from(["", "", "", "posterior", "injection",
                                 "none", "column"])))


def run_bilby(case):
    out = tempfile.mkdtemp(prefix="gwv_c28_")
    try:
        return check_bilby(case, out)
    finally:
        shutil.rmtree(out)


def check_bilby(case, out):
    import pandas as pd
    from gw_eccentricity.postprocess import PostProcessForBilby
    df = pp.frame(case["rows"], range(len(case["rows"])))
    df["minimum_frequency"] = 17.5
    path, inj = f"{out}/gwv_result.json", f"{out}/injection.txt"
    if case["missing"] != "posterior":
        bilby_file(df, path)
    true = dict(case["true"])
    if case["fmin"]:
        true["minimum_frequency"] = 11.25
    if case["missing"] != "injection":
        pd.DataFrame([true]).to_csv(inj, sep=" ", index=False)
    cols = COLS[::-1] + ["minimum_frequency"]
    kw = dict(injection_file=None if case["missing"] == "none" else inj,
              data_dict_generator_extra_kwargs=case["extra"])
    if case["columns"]:
        kw["parameter_columns"] = cols
    if case["missing"] == "column":
        kw["parameter_columns"] = cols + ["absent"]
    try:
        with quiet():
            p = PostProcessForBilby(path, pp.generator, **kw)
    except Exception as e:  # noqa: BLE001
        require(case["missing"] in ("posterior", "column"),
                f"{type(e).__name__}: {e}", key="bilby")
        return dict(nontrivial=True, labels=["no " + case["missing"]])
    require(case["missing"] not in ("posterior", "column"), "a posterior "
            f"without its {case['missing']} is accepted", key="bilby")
    want = cols if case["columns"] else list(df.columns)
    require(sorted(p.posterior.columns) == sorted(want)
            and len(p.posterior) == len(df) and all(
                np.array_equal(p.posterior[c], df[c]) for c in want),
            "the posterior is not the one of the file", key="bilby")
    ref = reference(dict(case, rows=[case["true"]]))
    refs = dict(ref)
    if case["refs"] == "none":
        refs = {}
    elif case["refs"] == "both":
        refs = dict(dict(tref=10.0, fref=0.01), **ref)
    import matplotlib.pyplot as plt
    try:
        with quiet(), no_tex():
            pp.CALLS.clear()
            got = p.get_injection_egw_and_lgw(
                method=case["method"], gw_eccentricity_kwargs=gw_kwargs(
                    case), debug=case["debug"], **refs)
            call = pp.CALLS[-1]
            figures = len(plt.get_fignums())
    except Exception as e:  # noqa: BLE001
        got, call = e, None
    if case["refs"] != "one":
        require(isinstance(got, ValueError), "the injection is measured with "
                f"{case['refs']} of the references", key="references")
        return dict(nontrivial=True, labels=[case["refs"]])
    if case["missing"]:
        require(isinstance(got, Exception), f"the injection is measured "
                f"though there is no {case['missing']}", key="injection")
        return dict(nontrivial=True, labels=["no " + case["missing"]])
    fmin = 11.25 if case["fmin"] else 17.5
    if call is not None:
        require(call[0] == dict(true, minimum_frequency=fmin)
                and call[1] == (case["extra"] or {}),
                f"the injection is generated with {call}", key="injection")
    want = direct(case, case["true"], ref)
    if want is None:
        require(isinstance(got, Exception), "an injection that cannot be "
                f"measured gives {got}", key="injection")
        raise Discard("cannot be measured")
    require(not isinstance(got, Exception), f"{type(got).__name__}: {got}",
            key="injection")
    require(got[0] == want[0] and got[1] == want[1], f"the injection has "
            f"{got}, a direct measurement gives {want}", key="injection")
    require((figures > 0) == case["debug"], f"{figures} figures with "
            f"debug={case['debug']}", key="debug")
    return dict(nontrivial=True, labels=["measured"])


def samples_st(tier):
    return st.fixed_dictionaries(dict(spec=st.one_of(
        spec_st(), spec_st(), spec_st(), spec_st(),
        invalid_st().map(lambda x: (x, "invalid")))))


SUBS = [
    Sub("samples", samples_st, run_samples, 3000, 60000,
        "a selection of two or more samples, or a range"),
    Sub("cli", case_st, run_cli, 200, 4000,
        "at least one selected sample is measured"),
    Sub("refuse", refuse_st, run_refuse, 120, 1000,
        "arguments that have to be refused"),
    Sub("bilby", bilby_st, run_bilby, 120, 2000,
        "an injection that is measured, or input that has to be refused"),
]
