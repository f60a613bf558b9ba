"""C27: an interrupted post-processing run resumes where it was."""
import logging
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import pp
from ..core import Sub, require
from ..meas import METHODS, rfloat

ID = "C27"
ASSUMPTIONS = [
    "runs are killed during a measurement, while the master waits for a "
    "worker, or while a file is being written (which leaves half of it); "
    "MPI ranks are threads that exchange pickled messages, with a "
    "generated order of arrival"]
logging.getLogger("gw_eccentricity").setLevel(logging.CRITICAL)
SIZES = {"csv": "to_csv", "json": "to_json", "parquet": "to_parquet"}


def run_st(n):
    return st.fixed_dictionaries(dict(
        sel=st.one_of(st.none(), st.none(), st.lists(
            st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
        every=st.sampled_from([1, 2, 3, None, 5]),
        size=st.sampled_from([1, 1, 2, 3, 4]),
        batch=st.integers(1, 4), seed=st.integers(0, 5),
        kill=st.sampled_from(["measure", "wait", "checkpoint",
                              "checkpoint", "final", None]),
        spoil=st.sampled_from([None] * 5 + ["sample_index", "status"]),
        at=st.integers(0, n)))


def case_st(tier):
    return st.integers(2, 9 if tier == "quick" else 14).flatmap(
        lambda n: st.fixed_dictionaries(dict(
            rows=st.lists(pp.row_st(), min_size=n, max_size=n),
            # most are refused at once
            cheap=st.lists(st.sampled_from([1, 1, 1, 1, 0]), min_size=n,
                           max_size=n),
            labels=st.one_of(st.just(list(range(n))),
                             st.permutations(list(range(n))),
                             st.lists(st.integers(0, 99), min_size=n,
                                      max_size=n, unique=True)),
            runs=st.lists(run_st(n), min_size=1, max_size=4),
            last=run_st(n), fmt=st.sampled_from(sorted(SIZES)),
            frac=rfloat(0.3, 0.6, 2), method=st.sampled_from(METHODS))))


class Kill:
    """Interrupts a run; counts what is measured."""

    def __init__(self, case, run):
        self.case, self.run = case, run
        self.measured = []

    def __repr__(self):
        return "generator"  # is part of error messages

    def generator(self, params, extra):
        k = int(params["which"])
        if (self.run["kill"] == "measure" and self.run["size"] == 1
                and len(self.measured) >= self.run["at"]):
            raise KeyboardInterrupt("killed while measuring")
        self.measured.append(self.case["labels"][k])
        if self.case["cheap"][k]:
            raise RuntimeError(f"no waveform for {k}, e={params['e0']}")
        return pp.generator(params, extra)

    def __enter__(self):
        import pandas as pd
        self.pd, self.saved = pd, {}
        self.writes = 0
        for name in SIZES.values():
            self.saved[name] = getattr(pd.DataFrame, name)
            setattr(pd.DataFrame, name, self.writer(self.saved[name]))
        return self

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(self.pd.DataFrame, name, f)

    def writer(self, real):
        def write(df, path=None, *a, **k):
            out = real(df, path, *a, **k)
            if path is None:
                return out
            final = "eccentricity_results" in os.path.basename(str(path))
            if self.run["kill"] == ("final" if final else "checkpoint"):
                if final or self.writes >= self.run["at"] // 2:
                    with open(path, "r+b") as h:
                        h.truncate(os.path.getsize(path) // 2)
                    raise KeyboardInterrupt(f"killed while writing {path}")
            if not final:
                self.writes += 1
            return out
        return write


def config(case, run, out, gen):
    labels = case["labels"]
    sel = run["sel"]
    s = pp.Synth(pp.params_of(case["rows"][0]))
    return dict(
        posterior_type="bilby", posterior_path="", parameter_columns=None,
        output_dir=out, output_format=case["fmt"], save_every=run["every"],
        samples=None if sel is None else [labels[i] for i in sel],
        fref=None, tref=float(case["frac"] * s.t_insp),
        method=case["method"], batch_size=run["batch"],
        data_dict_generator=gen, data_dict_generator_extra_kwargs={},
        gw_eccentricity_kwargs={"debug_level": -1})


def one_run(case, run, out):
    """Returns (killed?, samples measured, samples the master got)."""
    rows = [dict(r, which=i) for i, r in enumerate(case["rows"])]
    df = pp.frame(rows, case["labels"])
    k = Kill(case, run)
    cfg = config(case, run, out, k.generator)
    w = pp.World(run["size"], run["seed"])
    if run["kill"] == "wait" and run["size"] > 1:
        w.kill_after = run["at"] // 2
    killed = False
    with k:
        try:
            pp.run_ranks(w, lambda m, r: m.worker(dict(cfg)) if r else
                         m.master(df, dict(cfg)))
        except KeyboardInterrupt:
            killed = True
    if run["size"] == 1:
        got = list(k.measured)
    else:
        got = [i for m in w.received for i in m[1]]
    require(killed or not w.left, f"ranks {w.left} are never told to stop",
            key="stop")
    return killed, list(k.measured), got


def drop_column(out, name):
    import pandas as pd
    path = f"{out}/checkpoint.parquet"
    if not os.path.exists(path):
        return False
    pd.read_parquet(path).drop(
        columns=name, errors="ignore").to_parquet(path)
    return True


def read(case, out):
    import pandas as pd
    path = f"{out}/eccentricity_results.{case['fmt']}"
    require(os.path.exists(path), "no results are written", key="output")
    return getattr(pd, "read_" + case["fmt"])(path)


def equal(a, b):
    """Same tables, up to how an absent value is written."""
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        u, v = a[c], b[c]
        na, nb = u.isna().to_numpy(), v.isna().to_numpy()
        if not np.array_equal(na, nb):
            return False
        if not all(p == q for p, q, m in zip(u, v, na) if not m):
            return False
    return True


def run(case):
    out = tempfile.mkdtemp(prefix="gwv_c27_")
    try:
        return check(case, out)
    finally:
        shutil.rmtree(out)


def check(case, out):
    labels = case["labels"]
    durable, ever, kills, resumed = set(), set(), 0, 0
    history = [dict(r) for r in case["runs"]]
    history.append(dict(case["last"], kill=None))
    for step, r in enumerate(history):
        sel = set(labels if r["sel"] is None else
                  [labels[i] for i in r["sel"]])
        if r["spoil"] and drop_column(out, r["spoil"]):
            # such a checkpoint does not count
            durable, ever = set(), set()
        killed, measured, got = one_run(case, r, out)
        text = f"run {step + 1} of {len(history)}"
        require(len(set(measured)) == len(measured),
                f"{text}: a sample is measured twice in one run",
                key="twice")
        require(set(measured) <= sel, f"{text}: a sample that was not "
                "selected is measured", key="selection")
        again = set(measured) & durable
        require(not again, f"{text}: samples {sorted(again)} are measured "
                "again though a checkpoint had them", key="again")
        need = sel - ever
        if not killed:
            require(need <= set(measured), f"{text}: samples "
                    f"{sorted(need - set(measured))} are never measured",
                    key="lost")
            require(not os.path.exists(out) or os.path.exists(
                f"{out}/eccentricity_results.{case['fmt']}"),
                f"{text}: no output", key="output")
        ever |= set(measured)
        resumed += bool(durable & sel)
        kills += killed
        # what must have survived this run
        every = r["every"]
        new = list(got)
        if every:
            n = (len(new) // every) * every
            if not killed:
                n = len(new)
            elif r["kill"] == "checkpoint":
                # the write that was killed does not count
                n = min(r["at"] // 2, len(new) // every) * every
            elif r["kill"] == "final":
                n = len(new)
            if r["kill"] == "measure" and killed:
                n = (r["at"] // every) * every
            if n > 0:
                durable = (durable & sel) | set(new[:n])
    final = read(case, out)
    # an uninterrupted run somewhere else
    other = tempfile.mkdtemp(prefix="gwv_c27_")
    try:
        one_run(case, dict(history[-1], size=1, every=None), other)
        want = read(case, other)
    finally:
        shutil.rmtree(other)
    if not equal(final, want):
        k = [c for c in want.columns if c not in final.columns
             or len(final) != len(want)
             or not equal(final[[c]], want[[c]])]
        require(False, f"the output differs from that of an uninterrupted "
                f"run in {k}: {final[k[:1]].to_dict('list') if k else ''} "
                f"instead of {want[k[:1]].to_dict('list') if k else ''}",
                key="result")
    return dict(nontrivial=kills > 0 and resumed > 0,
                labels=[f"kills-{kills}", "resumed" if resumed else "fresh",
                        case["fmt"], f"size-{history[-1]['size']}"])


SUBS = [Sub("resume", case_st, run, 300, 8000,
            "a history of runs, at least one of which was killed, with a "
            "later run that finds a checkpoint of what it selects")]
