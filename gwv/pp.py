"""Shared by the post-processing checks: samples, waveforms, a stand-in MPI."""
import importlib.util
import os
import queue
import random
import sys
import threading
import types

import numpy as np
from hypothesis import strategies as st

from . import boot
from .meas import build, rfloat, with_precession
from .synth import Synth

FAULTS = ["raise", "type", "circular", "nan", "short"]
CALLS = []


def row_st(bad=True):
    """Parameters of one posterior sample."""
    f = dict(e0=rfloat(0.1, 0.4, 3), l0=rfloat(0, 6.2, 2),
             n0=rfloat(0.008, 0.02, 4), norb=st.integers(9, 12),
             ratio=rfloat(2, 3, 1), mass_1=rfloat(10, 60, 2))
    f["fault"] = (st.sampled_from([0] * 8 + [1, 2, 3, 4, 5]) if bad
                  else st.just(0))
    return st.fixed_dictionaries(f)


def params_of(row):
    c = dict(e0=float(row["e0"]), l0=float(row["l0"]), n0=float(row["n0"]),
             norb=int(row["norb"]), ratio=float(row["ratio"]), p=1.05,
             k=0.02, ppo=45, kind="kepler", merger=True,
             amp=float(row.get("mass_1", 30.0)) / 30)
    return with_precession(c)


def generator(params, extra):
    """data_dict_generator: a closed-form inspiral for every sample."""
    CALLS.append((dict(params), dict(extra)))
    fault = FAULTS[int(params["fault"]) - 1] if params["fault"] else None
    if fault == "raise":
        raise RuntimeError("no waveform for this sample")
    syn = Synth(params_of(params))
    d = build(syn, extra.get("method", "ResidualAmplitude"))
    if extra.get("scale"):
        d["hlm"][(2, 2)] = d["hlm"][(2, 2)] * extra["scale"]
    if fault == "type":
        return [d]
    if fault == "circular":
        d["hlm"][(2, 2)] = np.exp(-1j * 0.02 * d["t"])
    elif fault == "nan":
        d["hlm"] = {(3, 3): d["hlm"][(2, 2)]}
    elif fault == "short":
        d["t"] = d["t"][:100]
    return d


def frame(rows, labels):
    import pandas as pd
    df = pd.DataFrame(rows, index=list(labels))
    df["eccentricity"] = [r["e0"] for r in rows]
    df["mean_per_ano"] = [r["l0"] for r in rows]
    return df


# --- a stand-in for MPI ----------------------------------------------------
class World:
    """In-process ranks: the master runs in the caller's thread.

    Workers run in threads.  When the master receives, all outstanding
    batches are first completed, and one of their results is then picked by
    the seed: a deterministic schedule.
    """

    def __init__(self, size, seed=0):
        self.size = size
        self.rng = random.Random(seed)
        self.to = [queue.Queue() for _ in range(size)]
        self.out = queue.Queue()
        self.ready = []
        self.outstanding = 0
        self.sent = []
        # the run is killed when this many batches were received
        self.kill_after = None
        self.received = []

    def comm(self, rank):
        return Comm(self, rank)


class Comm:
    def __init__(self, world, rank):
        self.w, self.rank = world, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.w.size

    def send(self, obj, dest, tag=0):
        import pickle
        obj = pickle.loads(pickle.dumps(obj))
        if self.rank == 0:
            self.w.sent.append((dest, obj))
            if not isinstance(obj, str):
                self.w.outstanding += 1
            self.w.to[dest].put(obj)
        else:
            self.w.out.put(obj)

    def recv(self, source=None, tag=0):
        w = self.w
        if self.rank:
            return w.to[self.rank].get(timeout=120)
        while w.outstanding:
            w.ready.append(w.out.get(timeout=120))
            w.outstanding -= 1
        if w.kill_after is not None and len(w.received) >= w.kill_after:
            raise KeyboardInterrupt("killed")
        if not w.ready:
            raise RuntimeError("the master waits for nobody: deadlock")
        # results arrive in some order; threads must not decide it
        w.ready.sort(key=lambda x: repr(x[0]))
        got = w.ready.pop(w.rng.randrange(len(w.ready)))
        w.received.append(got)
        return got

    def Abort(self, code=1):
        raise RuntimeError("MPI_Abort")


def load_cli(comm):
    """The command-line module, with the given communicator."""
    import mpi4py
    stub = types.ModuleType("mpi4py.MPI")
    stub.COMM_WORLD = comm
    stub.ANY_SOURCE = -1
    stub.ANY_TAG = -1
    saved = sys.modules.get("mpi4py.MPI"), getattr(mpi4py, "MPI", None)
    sys.modules["mpi4py.MPI"] = stub
    mpi4py.MPI = stub
    try:
        path = os.path.join(boot.REPO, "gw_eccentricity", "postprocess",
                            "postprocess_cli.py")
        name = f"gwv_cli_{comm.Get_rank()}"
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        return mod
    finally:
        if saved[0] is None:
            del sys.modules["mpi4py.MPI"]
        else:
            sys.modules["mpi4py.MPI"] = saved[0]
        if saved[1] is None:
            del mpi4py.MPI
        else:
            mpi4py.MPI = saved[1]


_MODS = {}


def cli(world):
    """Modules of all ranks, loaded once and rebound to this world."""
    out = []
    for r in range(world.size):
        c = world.comm(r)
        if (r, world.size) not in _MODS:
            _MODS[r, world.size] = (load_cli(c), c)
        mod, old = _MODS[r, world.size]
        old.w = world
        out.append(mod)
    return out


def run_ranks(world, call):
    """Run call(module, rank) on every rank; the master's error is raised."""
    mods = cli(world)
    errors, threads = [], []

    def work(r):
        try:
            call(mods[r], r)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)
            if world.size > 1:
                world.out.put(("error", r, repr(e)))
    for r in range(1, world.size):
        t = threading.Thread(target=work, args=(r,), daemon=True)
        t.start()
        threads.append(t)
    try:
        try:
            call(mods[0], 0)
        except BaseException:
            for r in range(1, world.size):
                world.to[r].put("STOP")
            raise
    finally:
        left = []
        for r, t in enumerate(threads, 1):
            t.join(0.5 if not left else 0.05)
            if t.is_alive():
                left.append(r)
                world.to[r].put("STOP")
                t.join(5)
        world.left = left
    if errors:
        raise errors[0]
    return mods
