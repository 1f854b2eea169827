"""Runs independent verification tasks in forked processes and merges what they record."""
import multiprocessing as mp, os, time, traceback
from .core import Unsupported


class Rec:
    """Records the calls a task makes on its Check."""
    METHODS = ("fn", "discharged", "bounded", "refuted", "undecided", "cover", "note")

    def __init__(self):
        self.calls = []
        self.solver_s = 0.0

    def __getattr__(self, name):
        if name in Rec.METHODS:
            def g(*a, **k):
                self.calls.append((name, a, k))
            return g
        raise AttributeError(name)


_TASKS = []


def _run(i):
    name, f, onfail = _TASKS[i]
    r = Rec()
    try:
        f(r)
    except Unsupported as e:
        r.note(f"{name}: outside the verifier's reach: {e}")
        try:
            if onfail:
                onfail(r, e)
            else:
                r.bounded(name, e, "none", 0)
        except Exception:
            r.note(f"{name}: the bounded stand-in failed: {traceback.format_exc()[-300:]}")
            r.bounded(name, e, "none", 0)
    except Exception:
        r.note(f"{name}: internal error {traceback.format_exc()[-300:]}")
        if onfail:
            try:
                onfail(r, Unsupported("internal error of the verifier: " + traceback.format_exc()[-200:]))
            except Exception:
                r.note(f"{name}: fallback failed too: {traceback.format_exc()[-300:]}")
                r.bounded(name, "internal error of the verifier", "none", 0)
        else:
            r.bounded(name, "internal error of the verifier", "none", 0)
    return i, _picklable(r.calls), r.solver_s


def _picklable(calls):
    import pickle
    out = []
    for c in calls:
        try:
            pickle.dumps(c)
            out.append(c)
        except Exception:
            out.append((c[0], tuple(_plain(x) for x in c[1]), {k: _plain(v) for k, v in c[2].items()}))
    return out


def _plain(x):
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return str(x)


def run_tasks(chk, tasks, procs=8):
    """tasks: list of (name, f(rec), onfail(rec, exc) | None)"""
    global _TASKS
    _TASKS = list(tasks)
    if os.environ.get("VF_SERIAL"):
        res = [_run(i) for i in range(len(_TASKS))]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as pool:
            res = pool.map(_run, range(len(_TASKS)), chunksize=1)
    for i, calls, s in sorted(res):
        chk.solver_s += s
        for name, a, k in calls:
            getattr(chk, name)(*a, **k)
