"""Run the ucis command, in this process or in one of its own."""
import contextlib, io, os, subprocess, sys
from collections import namedtuple
from .core import REPO

Result = namedtuple("Result", "rc out err")


def run(argv, cwd=None, interrupts=False):
    """ucis.__main__.main with these arguments; an escaped exception counts as exit status 1 (as it would for the process)."""
    from ucis.__main__ import main
    out, err = io.StringIO(), io.StringIO()
    old, pwd = sys.argv, os.getcwd()
    sys.argv = ["ucis"] + list(argv)
    rc = 0
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as e:
                if e.code is None:
                    rc = 0
                elif isinstance(e.code, int):
                    rc = e.code & 0xff
                else:
                    rc = 1
                    err.write(str(e.code))
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, KeyboardInterrupt) and not interrupts:
                    raise
                import traceback
                rc = 1
                err.write(traceback.format_exc())
    finally:
        sys.argv = old
        os.chdir(pwd)
    return Result(rc, out.getvalue(), err.getvalue())


def spawn(argv, cwd=None, env=None, how="module", **kw):
    e = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1")
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    start = {"module": ["-m", "ucis"], "main": ["-m", "ucis.__main__"], "script": ["-c", "import sys\nfrom ucis.__main__ import main\nsys.exit(main())"]}[how]
    p = subprocess.run([sys.executable] + start + list(argv), cwd=cwd, env=e, capture_output=True, timeout=80, **kw)
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
