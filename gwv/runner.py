"""Run the check of one property.

    python -m gwv.runner C05 [--tier quick|thorough] [--replay FILE]
                             [--only SUB] [--scale X] [--jobs N]

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run.
"""
import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import boot
from .core import (Violation, Discard, MALFORMED, quiet, jdump,
                   from_repo)

EVID = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known_findings.txt")
# Exit at the first violation without reducing it or writing evidence: for
# trying many mutants (tools/mutate.py).
FAILFAST = bool(os.environ.get("GWV_FAILFAST"))


class StopCampaign(KeyboardInterrupt):
    """Leaves the hypothesis engine (it only lets BaseExceptions through)."""


class CaseTimeout(BaseException):
    pass


def load_known(pid):
    """finding: property=<id> key=<key> <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                k, what = rest.split(" ", 1)
                out[k.split("=", 1)[1]] = what
    return out


def shard_seed(base, pid, sub, shard):
    h = hashlib.sha256(f"{base}/{pid}/{sub}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Execute one case; returns (status, info).

    status: ok | discard | violation | error
    """
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(sub.timeout)
    try:
        with quiet():
            info = sub.run(case)
        return "ok", info or {}
    except Discard as e:
        return "discard", {"why": str(e)}
    except Violation as e:
        return "violation", {"message": e.message, "key": e.key,
                             "detail": e.detail}
    except CaseTimeout:
        return "violation", {
            "message": f"no result within {sub.timeout} s", "key": "timeout",
            "detail": {}}
    except (Exception, SystemExit) as e:
        text = traceback.format_exc(limit=-8)
        if from_repo(e.__traceback__):
            return "violation", {
                "message": f"unexpected {type(e).__name__}: {e}",
                "key": f"raises-{type(e).__name__}",
                "detail": {"traceback": text}}
        if isinstance(e, MALFORMED):
            return "violation", {
                "message": "the result is not of the documented form: "
                           f"{type(e).__name__}: {e}",
                "key": f"form-{type(e).__name__}",
                "detail": {"traceback": text}}
        return "error", {"message": text}
    finally:
        signal.alarm(0)


def run_shard(args):
    (pid, subname, shard, nshards, n, base_seed, tier, deadline) = args
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    faulthandler.enable()
    mod = importlib.import_module("gwv.props." + pid.lower())
    sub = {s.name: s for s in mod.SUBS}[subname]
    known = load_known(pid)
    res = dict(sub=subname, evaluations=0, discards={}, labels={}, keys=set(),
               samples=[], violation=None, error=None, known={}, stopped=None,
               seconds=0.0)
    t_start = time.time()
    state = dict(first_fail=None, calls_after=0)

    def execute(case, shrinking=True):
        if time.time() > deadline and state["first_fail"] is None:
            res["stopped"] = "wall-clock budget"
            raise StopCampaign()
        if state["first_fail"] is not None:
            state["calls_after"] += 1
            if (time.time() - state["first_fail"] > 60
                    or state["calls_after"] > 300):
                raise StopCampaign()
        status, info = run_case(sub, case)
        if state["first_fail"] is None:
            res["evaluations"] += 1
        if status == "error":
            res["error"] = info["message"]
            raise StopCampaign()
        if status == "discard":
            res["discards"][info["why"]] = res["discards"].get(
                info["why"], 0) + 1
            return
        if status == "violation":
            if info["key"] is not None and info["key"] in known:
                res["known"][info["key"]] = res["known"].get(
                    info["key"], 0) + 1
                return
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            # hypothesis only revisits a failing case to make it simpler, so
            # the last failure seen is the most reduced one.
            res["violation"] = dict(
                property=pid, sub=subname, case=case, seed=base_seed,
                message=info["message"], key=info["key"],
                detail=json.loads(jdump(info["detail"])))
            if FAILFAST:
                raise StopCampaign()
            raise Violation(info["message"], key=info["key"])
        for lab in info.get("labels", ()):
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if info.get("nontrivial", True):
            res["keys"].add(hashlib.sha1(jdump(case).encode()).hexdigest())
            if len(res["samples"]) < 2:
                res["samples"].append(json.loads(jdump(case)))

    try:
        if shard == 0:
            for case in sub.fixed:
                execute(case)
        strat = sub.strategy(tier)
        if strat is not None and n > 0:
            @hypothesis.seed(shard_seed(base_seed, pid, subname, shard))
            @settings(max_examples=n, deadline=None, database=None,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(strat)
            def campaign(case):
                execute(json.loads(jdump(case)))
            with quiet():
                campaign()
    except StopCampaign:
        pass
    except Violation:
        pass
    except BaseException:
        if res["violation"] is None:
            res["error"] = traceback.format_exc()
    res["seconds"] = time.time() - t_start
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        with quiet():
            import gw_eccentricity  # noqa: F401
        if not os.path.realpath(gw_eccentricity.__file__).startswith(
                os.path.realpath(boot.REPO) + os.sep):
            raise RuntimeError("not testing the working tree: "
                               + gw_eccentricity.__file__)
        with quiet():
            mod = importlib.import_module("gwv.props." + pid.lower())
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: could not import the code under test")
        return 2
    subs = [s for s in mod.SUBS if not a.only or s.name == a.only]

    if a.replay:
        rec = json.load(open(a.replay))
        sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
        status, info = run_case(sub, rec["case"])
        print(status, json.dumps(json.loads(jdump(info)), indent=1))
        if status == "violation":
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0 if status in ("ok", "discard") else 2

    budget = 420 if tier == "quick" else 9 * 3600
    budget = float(os.environ.get("GWV_BUDGET", budget))
    deadline = t0 + budget
    jobs = []
    for s in subs:
        n = s.quick if tier == "quick" else s.thorough
        n = int(round(n * a.scale))
        nsh = max(1, min(s.max_shards, n // 4 if n >= 8 else 1))
        for k in range(nsh):
            nk = n // nsh + (1 if k < n % nsh else 0)
            jobs.append((pid, s.name, k, nsh, nk, seed, tier, deadline))
    # longest first would need timings; round-robin over sub-checks is enough
    jobs.sort(key=lambda j: j[2])
    results = []
    ctx = mp.get_context("fork")
    if a.jobs == 1:
        for j in jobs:
            results.append(run_shard(j))
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool
        try:
            with ProcessPoolExecutor(a.jobs, mp_context=ctx) as ex:
                futs = [ex.submit(run_shard, j) for j in jobs]
                if FAILFAST:
                    for f in as_completed(futs):
                        v = f.result()["violation"]
                        if v:
                            print(f"  {v['sub']}: {v['message']}"[:300])
                            print(f"VIOLATION property={pid} replay=-")
                            sys.stdout.flush()
                            for p in list(ex._processes.values()):
                                p.kill()
                            os._exit(1)
                for f in futs:
                    results.append(f.result())
        except BrokenProcessPool:
            print(f"ERROR property={pid}: a worker process died")
            return 2

    known = load_known(pid)
    errors = [r for r in results if r["error"]]
    viols = [r for r in results if r["violation"]]
    per_sub = {}
    allkeys = 0
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        keys = set().union(*[r["keys"] for r in rs]) if rs else set()
        allkeys += len(keys)
        labels, disc, kn = {}, {}, {}
        for r in rs:
            for src, dst in ((r["labels"], labels), (r["discards"], disc),
                             (r["known"], kn)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
        per_sub[s.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs),
            distinct_nontrivial=len(keys), rule=s.rule, labels=labels,
            discarded=disc, known_findings_hit=kn,
            stopped_early=[r["stopped"] for r in rs if r["stopped"]],
            cpu_s=round(sum(r["seconds"] for r in rs), 1))
    samples = []
    for s in subs:
        for r in results:
            if r["sub"] == s.name and r["samples"]:
                samples.append({"sub": s.name, "case": r["samples"][0]})
                break
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(
            mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=allkeys,
            rule="; ".join(f"[{s.name}] {s.rule}" for s in subs),
            samples=samples, subchecks=per_sub),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))

    for k, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    for name, d in per_sub.items():
        print(f"{pid}/{name}: {d['evaluations']} cases, "
              f"{d['distinct_nontrivial']} distinct non-trivial, "
              f"discarded {sum(d['discarded'].values())}, "
              f"cpu {d['cpu_s']} s, {d['labels']}")
    print(f"{pid}: wall {ev['wall_s']} s")
    if viols:
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r in viols:
            v = r["violation"]
            tag = v["sub"]
            if tag in seen:
                continue
            seen.add(tag)
            path = os.path.join(rdir, f"{pid}-{tag}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['sub']}: {v['message']}"[:600])
            print(f"  case: {jdump(v['case'])}"[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"ERROR in {pid}/{r['sub']}: {r['error']}"[:3000])
        return 2
    if ev["coverage"]["distinct_nontrivial"] == 0:
        print(f"ERROR property={pid}: no non-trivial case was explored")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
