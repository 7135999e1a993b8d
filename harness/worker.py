"""Runs scenarios of one check against the code in /repo and writes trace lines."""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")


class Hang(Exception):
    pass


def main():
    check_id, d, skip, limit = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    repo = os.environ["VERIF_REPO"]
    import numpy as np

    np.seterr(all="ignore")
    mod = importlib.import_module("checks." + check_id.lower())
    open(os.path.join(d, "started"), "w").close()
    with open(os.path.join(d, "in.json")) as f:
        todo = json.load(f)
    out = open(os.path.join(d, "out.ndjson"), "a")
    err0 = None
    try:
        import pyswarms

        here = os.path.realpath(os.path.dirname(pyswarms.__file__))
        if here != os.path.realpath(os.path.join(repo, "pyswarms")):
            print("wrong pyswarms: " + here)
            os.unlink(os.path.join(d, "started"))
            sys.exit(3)
        import logging

        # The library logs to the console and to report.log of the scratch cwd;
        # checks that look at this configure it themselves
        if not getattr(mod, "KEEP_LOGGING", False):
            logging.disable(logging.CRITICAL)
    except Exception:
        err0 = traceback.format_exc()

    def on_alarm(*a):
        raise Hang("no result within %ds" % limit)

    signal.signal(signal.SIGALRM, on_alarm)
    for i, sc in todo[skip:]:
        rec = {"i": i}
        if err0:
            rec.update(error=err0[-1500:], kind="import")
        else:
            try:
                np.random.seed((sc.get("seed", 0) * 7919 + 17) % (2 ** 32))
                signal.alarm(limit)
                try:
                    got = mod.run(sc)
                    rec.update(got if isinstance(got, dict) else {"lines": got})
                finally:
                    signal.alarm(0)
            except Hang as e:
                rec.update(error="hang: " + str(e) + "\n" + traceback.format_exc()[-900:], kind="hang")
            except MemoryError:
                rec.update(error="MemoryError", kind="crash")
            except Exception as e:
                # The scenarios run through on the unchanged code, so an exception,
                # wherever it surfaces, is a deviation of the code under test
                kind = "machinery" if isinstance(e, ModuleNotFoundError) else "exception"
                rec.update(error=traceback.format_exc()[-1500:], kind=kind)
        out.write(json.dumps(rec, separators=(",", ":"), default=_default) + "\n")
        out.flush()


def _default(o):
    import numpy as np

    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


main()
