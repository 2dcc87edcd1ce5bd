"""Concrete replay: run a harness case against the real code with given input values.
usage: /opt/venv/bin/python -m sx.replay REQUEST.json   (list of {harness, case, params, values})
Prints one JSON line per request: {"status": "ok"|"violation"|"assume"|"error", "msg": ...}"""
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


LIMIT = 30


class Hang(BaseException):
    pass


def alarm(sig, frame):
    raise Hang()


def one(req):
    from sx import ctx as ctxmod
    mod = importlib.import_module("harness." + req["harness"])
    root = tempfile.mkdtemp(prefix="sxr")
    w = os.path.join(root, "w")
    os.mkdir(w)
    cwd = os.getcwd()
    os.chdir(w)
    c = ctxmod.RealCtx(req["values"], w, req.get("tier", "quick"))
    out = {}
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 1)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 ** 30, 2 ** 30))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        mod.run(c, req["case"], **req.get("params", {}))
        out = {"status": "ok"}
    except Hang:
        out = {"status": "violation", "msg": "the call does not end (still running after %d s)" % LIMIT}
    except ctxmod.CheckFailed as ex:
        out = {"status": "violation", "msg": str(ex)}
    except ctxmod.AssumeFailed:
        out = {"status": "assume"}
    except ctxmod.Stop:
        out = {"status": "ok"}
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        out = {"status": "exception", "type": type(ex).__name__, "msg": "%s: %s" % (type(ex).__name__, ex),
               "where": ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-4:]]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    out["covers"] = c.covers
    out["asserts"] = c.asserts
    return out


def main():
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    with open(sys.argv[1]) as fd:
        reqs = json.load(fd)
    import logging
    logging.disable(logging.CRITICAL)
    for r in reqs:
        # each request in its own child, so that patches and module state do not leak
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                sys.stdout = open(os.devnull, "w")
                res = one(r)
            except BaseException as ex:
                res = {"status": "error", "msg": "%s: %s" % (type(ex).__name__, ex)}
            with os.fdopen(wr, "w") as f:
                f.write(json.dumps(res))
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            data = f.read()
        os.waitpid(pid, 0)
        print(data or json.dumps({"status": "error", "msg": "child died"}), flush=True)


if __name__ == "__main__":
    main()
