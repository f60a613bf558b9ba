"""Vocabulary shared by the property modules and the runner."""
import contextlib
import io
import json
import os
import warnings

from . import boot


class Violation(Exception):
    """The property is broken by this case.

    ``key`` identifies the specific failing behaviour, for known findings.
    """

    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail


class Discard(Exception):
    """The case is outside the property's domain (counted, not hidden)."""


class Sub:
    """One executable clause of a property.

    name      short name, used in evidence and replay files
    strategy  callable(tier) -> hypothesis strategy of JSON-able cases
    run       callable(case) -> dict(nontrivial=bool, labels=[...])
    quick     number of generated cases in the quick tier
    thorough  number of generated cases in the thorough tier
    rule      what makes a case non-trivial, in words
    fixed     cases always run before generation starts
    """

    def __init__(self, name, strategy, run, quick, thorough=None, rule="",
                 fixed=(), timeout=240, max_shards=8):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule
        self.fixed = list(fixed)
        self.timeout = timeout
        self.max_shards = max_shards


@contextlib.contextmanager
def quiet():
    """Silence the library's progress output and warnings."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


@contextlib.contextmanager
def no_tex():
    """Draw with matplotlib's own text (LaTeX is not installed here)."""
    import matplotlib
    matplotlib.use("Agg")
    cls = matplotlib.RcParams
    keep, rc = cls.__setitem__, dict(matplotlib.rcParams)

    def put(self, key, val):
        keep(self, key, False if key == "text.usetex" else val)
    cls.__setitem__ = put
    try:
        yield
    finally:
        cls.__setitem__ = keep
        import matplotlib.pyplot as plt
        plt.close("all")
        matplotlib.rcParams.update(rc)


def jdump(obj):
    return json.dumps(obj, sort_keys=True, default=_default)


def _default(o):
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    return repr(o)


def from_repo(tb):
    """True if a frame of the traceback runs the code under test."""
    root = os.path.realpath(boot.REPO) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


# What judging a result raises when the result has another form than promised
# (missing entries, other lengths or types). Other exceptions of the harness
# itself are errors of the check, never violations.
MALFORMED = (LookupError, TypeError, ValueError, ArithmeticError)


def require(cond, message, key=None, **detail):
    if not cond:
        raise Violation(message, key=key, **detail)


def forked(fn):
    """Run fn() in a forked child and return its (picklable) result.

    The child starts from the state of this process, so that what the code
    under test remembers between calls is exactly what fn() made it do.
    """
    import pickle
    import signal
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", (e.message, e.key))
            except Discard as e:
                out = ("discard", str(e))
            except BaseException as e:  # noqa: BLE001
                out = ("repo" if from_repo(e.__traceback__) else
                       "form" if isinstance(e, MALFORMED) else "error",
                       (f"{type(e).__name__}: {e}", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked case died")
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(val[0], key=val[1])
    if kind == "discard":
        raise Discard(val)
    if kind == "repo":
        raise Violation(f"unexpected {val[0]}", key="raises",
                        traceback=val[1])
    if kind == "form":
        raise Violation(f"the result is not of the documented form: {val[0]}",
                        key="form", traceback=val[1])
    raise RuntimeError(val[1])
