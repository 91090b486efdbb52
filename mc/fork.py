"""Run a function in a forked process of its own (state of classes and modules does not come back)."""
import os, pickle, signal
from .core import Violation


def forked(fn, *args):
    """fn(*args) in a child; a Violation raised there is raised here."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            try:
                res = (True, fn(*args))
            except Violation as v:
                res = (False, (v.msg, repr(v.detail)[:6000]))
            except BaseException as e:
                import traceback
                res = (False, ("unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc()[-3000:]))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    os.close(wr)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died")
    ok, res = pickle.loads(data)
    if not ok:
        raise Violation(*res)
    return res
