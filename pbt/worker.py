"""PyPy side of the harness: executes one generated case per request line.

stdin  : one JSON object per line {"m": module, "f": function, "a": args}
stdout : one JSON object per line {"k": "ok"|"fail"|"rej", ...}

Runs under the interpreter the repository targets, with PYTHONPATH=/repo.  The
code under test may print; its stdout is redirected away from the protocol.
"""
import importlib
import json
import os
import random
import sys
import traceback
import warnings

warnings.simplefilter("ignore")

_proto = os.fdopen(os.dup(1), "w", encoding="utf-8")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
sys.stdout = open(os.devnull, "w")

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def _coverage(out):
    """record the executed lines of the package under test (tools/cov.py)"""
    import atexit
    seen = set()

    def local(fr, ev, arg):
        if ev == "line":
            seen.add((fr.f_code.co_filename, fr.f_lineno))
        return local

    def glob(fr, ev, arg):
        return local if "/pytracer/" in fr.f_code.co_filename else None
    sys.settrace(glob)

    def dump():
        sys.settrace(None)
        with open(os.path.join(out, "%d.json" % os.getpid()), "w") as f:
            json.dump(sorted(seen), f)
    atexit.register(dump)
    import signal
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(0))


def main():
    if os.environ.get("PBT_COV"):
        _coverage(os.environ["PBT_COV"])
    import numpy as np
    from cases.base import Violation, Reject
    import cases.base as base

    sys.setrecursionlimit(3000)
    mods = {}
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = mods.get(req["m"])
            if mod is None:
                mod = mods[req["m"]] = importlib.import_module("cases." + req["m"])
            fn = getattr(mod, req["f"])
        except BaseException:
            out = {"k": "harness", "msg": traceback.format_exc()}
            _proto.write(json.dumps(out) + "\n")
            _proto.flush()
            continue
        np.random.seed(12345)
        random.seed(12345)
        np.seterr(all="ignore")
        base.begin_case()
        try:
            r = fn(req["a"])
            labels = base.labels()
            nt = bool(base.nontrivial() if r is None else r)
            out = {"k": "ok", "nt": nt, "l": labels}
        except Reject:
            out = {"k": "rej"}
        except Violation as e:
            out = {"k": "fail", "msg": str(e)}
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb][-6:]
            out = {"k": "fail", "msg": "exception %s: %s at %s" % (type(e).__name__, e, " <- ".join(reversed(where)))}
        _proto.write(json.dumps(out) + "\n")
        _proto.flush()


if __name__ == "__main__":
    main()
