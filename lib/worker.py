"""
Worker: executes cases against resistics (runs on the interpreter of the code
under test, PyPy 3.9, importing the package from /repo).

Protocol: JSON lines on stdin {"kind":..., "case":...}, JSON lines on the
original stdout {"status": "ok"|"fail"|"error", ...}.
"""
import sys
import os
import json
import shutil
import tempfile
import traceback
import importlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    prop = sys.argv[1]
    scratch = sys.argv[2]
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)

    def reply(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()

    try:
        import resource

        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.dont_write_bytecode = True
        warnings.simplefilter("ignore")
        import numpy, pandas, scipy.signal, scipy.interpolate  # noqa
        import pydantic, attotime, loguru, tqdm  # noqa

        if prop == "C26":
            import plotly.graph_objects  # noqa
        # never trust byte code of the code under test: always from source
        sys.pycache_prefix = os.path.join(scratch, "pycache")
        sys.path.insert(0, os.path.join(VERIF, "checks"))
        sys.path.insert(0, os.path.join(VERIF, "lib"))
        sys.path.insert(0, os.path.join(VERIF, "stubs"))
        sys.path.insert(0, REPO)
        os.chdir(scratch)
        loguru.logger.remove()
        import resistics.common

        src = os.path.abspath(resistics.common.__file__)
        if not src.startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError("resistics imported from " + src)
        import hlib

        mod = importlib.import_module(prop.lower() + "_run")
    except BaseException as e:  # the tree does not import: no verdict
        reply({"status": "error", "msg": "start: " + traceback.format_exc()})
        return
    reply({"status": "ready"})

    n = 0
    for line in sys.stdin:
        req = json.loads(line)
        n += 1
        tmp = os.path.join(scratch, "case%d" % n)
        ctx = hlib.Ctx(tmp)
        fn = getattr(mod, "run_" + req["kind"], None)
        res = {}
        try:
            if fn is None:
                raise hlib.HarnessError("no kind " + req["kind"])
            fn(req["case"], ctx)
            res["status"] = "ok"
        except hlib.Violation as e:
            res = {"status": "fail", "msg": str(e)[:2000]}
        except hlib.HarnessError as e:
            res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = tb[-1].filename if tb else ""
            harness = inner.startswith(VERIF) and (
                isinstance(e, (ImportError, NameError))
                or (isinstance(e, AttributeError) and "module '" in str(e))
            )
            if harness:
                res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
            else:
                short = "".join(traceback.format_exception_only(type(e), e))
                where = [
                    "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
                    for f in tb[-4:]
                ]
                res = {
                    "status": "fail",
                    "msg": "unexpected exception %s at %s"
                    % (short.strip()[:1200], " < ".join(reversed(where))),
                }
        res["nt"] = ctx.nt
        res["labels"] = sorted(ctx.labels)
        res["known"] = sorted(ctx.known_hits)
        if ctx.tmp_made:
            shutil.rmtree(tmp, ignore_errors=True)
        reply(res)


if __name__ == "__main__":
    main()
