#!/usr/bin/env python3
"""tools/seed.py SPEC.py...: build and confirm planted bugs in a scratch copy; confirmed ones go to seeded/<id>/.

A SPEC defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=300, env=env)


def tests(w):
    r = sh("PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider ve/unit 2>&1 | tail -3" % w, w)
    return "25 passed" in r.stdout and "failed" not in r.stdout, r.stdout


def main():
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec)
        w = tempfile.mkdtemp(prefix="seedw", dir="/tmp")
        try:
            sh("git -C /repo archive HEAD | tar x -C %s" % w, "/")
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", w)
            d = os.path.join("/verif/seeded", s["ID"])
            os.makedirs(d + ".tmp", exist_ok=True)
            with open(d + ".tmp/demo.py", "w") as f:
                f.write(s["DEMO"].lstrip())
            with open(d + ".tmp/demo.sh", "w") as f:
                f.write(DEMO_SH)
            os.chmod(d + ".tmp/demo.sh", 0o755)
            r0 = sh(["bash", d + ".tmp/demo.sh"], w)
            for fn, old, new in s["EDITS"]:
                p = os.path.join(w, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit("%s: edit of %s matches %d times" % (s["ID"], fn, t.count(old)))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff", w).stdout
            r1 = sh(["bash", d + ".tmp/demo.sh"], w)
            ok, out = tests(w)
            good = r0.returncode == 0 and r1.returncode != 0 and ok
            print(s["ID"], "OK" if good else "REJECTED", "demo0=%d demo1=%d tests=%s" % (r0.returncode, r1.returncode, ok))
            if not good:
                print(r0.stdout[-800:], r0.stderr[-1500:], r1.stdout[-300:], out[-600:])
                shutil.rmtree(d + ".tmp")
                continue
            print("   ", (r1.stdout + r1.stderr).strip().split("\n")[-1][:200])
            with open(d + ".tmp/patch.diff", "w") as f:
                f.write(diff)
            with open(d + ".tmp/meta.json", "w") as f:
                json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
                f.write("\n")
            if os.path.exists(d):
                shutil.rmtree(d)
            os.rename(d + ".tmp", d)
        finally:
            shutil.rmtree(w)


main()
