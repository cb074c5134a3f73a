"""worker process: explores subtrees of one harness instance; also runs concrete replays"""
import gc
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _paths():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(1, here)
    if VT not in sys.path:
        sys.path.append(VT)


_paths()


def load_harness(prop, hname):
    m = importlib.import_module("harness." + prop)
    for h in m.HARNESSES:
        if h.name == hname:
            return h
    raise KeyError(hname)


class FunctionRecorder:
    """names of the salabim functions that were executed symbolically"""

    def __init__(self, filename):
        self.names = {}
        self.filename = filename
        self.tool = 3
        mon = sys.monitoring
        mon.use_tool_id(self.tool, "symex")
        mon.register_callback(self.tool, mon.events.PY_START, self.cb)
        mon.set_events(self.tool, mon.events.PY_START)

    def cb(self, code, off):
        if code.co_filename == self.filename:
            self.names[code.co_qualname] = code.co_firstlineno
        return sys.monitoring.DISABLE


def _alarm(signum, frame):
    from .core import PathTimeout

    raise PathTimeout("path time limit")


def worker_main(conn, prop, opts):
    out = sys.stdout
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    from . import core, world

    sim, mod = world.load(symbolic=True)
    rec = FunctionRecorder(mod.__file__)
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(3000)
    import harness.common as common

    common.bind(sim, mod)
    gc.collect()
    gc.freeze()
    eng = None
    cur = None
    while True:
        task = conn.recv()
        if task is None:
            break
        hname, params, items, slice_s, path_limit = task
        try:
            res = explore(core, common, prop, hname, params, items, slice_s, opts, rec)
        except Exception as e:
            res = dict(error=f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
        conn.send(res)


_npaths = [0]


def explore(core, common, prop, hname, params, items, slice_s, opts, rec):
    h = load_harness(prop, hname)
    eng = core.Engine(query_timeout_ms=opts["query_ms"])
    eng.dump_unsat = []
    eng.dump_limit = opts.get("dump", 0)
    core.ENG = eng
    frontier = list(items)
    t_end = time.time() + slice_s
    samples = []
    distinct_decisions = 0
    errors = []
    t_path = opts.get("path_s", 20)
    while frontier:
        prefix, model = frontier.pop()
        eng.begin(prefix, model)
        nviol = len(eng.violations)
        ended = "complete"
        signal.setitimer(signal.ITIMER_REAL, t_path)
        try:
            try:
                common.fresh()
                h.fn(eng, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.PathAbort:
            ended = "aborted"
            eng.stats["aborted"] += 1
        except core.PathTimeout as e:
            ended = "timeout"
            eng.stats["timeouts"] += 1
            try:
                m = eng.witness()
                if m is not None:
                    eng._violate("hang", f"no termination: {e}", m)
            except core.EngineSignal:
                pass
        except core.Divergence as e:
            ended = "error"
            errors.append("divergence: " + str(e))
        except core.Unsupported as e:
            ended = "error"
            errors.append("unsupported: " + str(e) + "\n" + traceback.format_exc(limit=-6))
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            if isinstance(e, core.z3.Z3Exception):
                ended = "error"
                errors.append("z3: " + str(e) + "\n" + tb)
            else:
                ended = "exception"
                try:
                    m = eng.witness()
                except Exception:
                    m = None
                if m is not None:
                    eng._violate("exception", f"{type(e).__name__}: {e}", m, detail=tb)
        if ended != "aborted":
            eng.stats["paths"] += 1
        if ended == "complete":
            n = eng.stats["paths"]
            if n <= opts["samples"] or (n & (n - 1)) == 0:
                try:
                    m = eng.nice_model()
                except Exception:
                    m = None
                if m is not None and m.get("exact", True):
                    samples.append(dict(values=eng.values_of(m), log=eng.eval_log(m), labels=sorted(eng.path_labels)))
        frontier.extend(eng.alts)
        _npaths[0] += 1
        if _npaths[0] % 200 == 0:
            gc.collect()
        if len(errors) > 3 or eng.violations and len(eng.violations) >= opts.get("max_viol", 3):
            break
        if time.time() > t_end:
            break
    eng.alts = []
    return dict(
        stats=eng.stats,
        frontier=frontier,
        reached=eng.reached,
        violations=[dict(kind=v.kind, msg=v.msg, values=v.values, detail=v.detail) for v in eng.violations],
        samples=samples,
        errors=errors,
        functions=rec.names,
        unsat=eng.dump_unsat,
    )


# --------------------------------------------------------------------------
def replay_main(spec):
    """run concrete cases on the real code, no stubs, no solver; one JSON line per case"""
    real_out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from . import world
    from .concrete import Concrete, Skip, ViolationFound

    sim, mod = world.load(symbolic=False)
    import harness.common as common

    common.bind(sim, mod)
    cases = json.load(open(spec))
    limit = float(os.environ.get("VERIF_REPLAY_S", "20"))

    class Hang(BaseException):
        pass

    def on_alarm(s, f):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    for c in cases["cases"]:
        h = load_harness(cases["property"], c["harness"])
        S = Concrete(c["values"])
        r = dict(outcome="ok")
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            try:
                common.fresh()
                h.fn(S, **c["params"])
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Skip:
            r = dict(outcome="skip")
        except ViolationFound as e:
            r = dict(outcome="violated", msg=str(e))
        except Hang:
            r = dict(outcome="hang", msg=f"no termination within {limit} s")
        except Exception as e:
            r = dict(outcome="exception", msg=f"{type(e).__name__}: {e}", tb=traceback.format_exc(limit=-6))
        r["log"] = S.eval_log()
        r["labels"] = sorted(S.reached)
        r["checks"] = S.nchecks
        real_out.write(json.dumps(r) + "\n")
        real_out.flush()


if __name__ == "__main__":
    replay_main(sys.argv[1])
