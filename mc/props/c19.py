"""C19: a failing command says so and never destroys existing results."""
import gzip, json, os, pickle, shutil, signal, stat, sys, tempfile
from .. import cli
from ..core import *
from ..model import *
from ..ops import *
from ..xmlref import *
from ..xmldoc import *
from .. import yamlref
from .c18 import start_models, write_xml, write_yaml, check_db_file, groups, flat
from .c17 import STAMP, xdocs, ydocs, preload

LEVEL = "fault_enumeration"
RULE = ("every failing input kind x command x position x state of the output path; a truncation at every byte of the input files; an exception at every call of a ucis function and at every opening of a file "
        "of each command scenario; a failing argument vector; each execution compares the whole scratch directory before and after")
ASSUMPTIONS = ["failures of the storage while the finished text is being written (disk full) are left open", "an exception injected after the complete output was written may leave that complete output",
               "commands whose output path is one of their inputs are only judged when they fail"]


# ---------------------------------------------------------------- the scratch directory
def tree_of(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(base, n)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir", stat.S_IMODE(os.stat(p).st_mode))
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", stat.S_IMODE(os.stat(p).st_mode), f.read())
    return out


def delta(a, b):
    return sorted((n, "appeared" if n not in a else "vanished" if n not in b else "changed") for n in set(a) | set(b) if a.get(n) != b.get(n))


def failed(r, before, after, what, need=True):
    """Exit status, message and file state of a command that could not do its job."""
    if r.rc == 0:
        if need:
            raise Violation("%s: exit status 0" % what, {"stdout": r.out[:1500], "stderr": r.err[:1500], "files": delta(before, after)})
        return False
    if r.rc < 0:
        raise Violation("%s: killed by signal %d" % (what, -r.rc))
    if not r.err.strip() and "error" not in r.out.lower():
        raise Violation("%s: exit status %d without an error message" % (what, r.rc), r.out[:500])
    d = delta(before, after)
    if d:
        raise Violation("%s failed, but %s" % (what, ", ".join("%s %s" % x for x in d)))
    return True


OUTSTATES = ["absent", "old", "empty-old", "link", "readonly"]


def put_out(p, state):
    if state in ("old", "readonly"):
        with open(p, "w") as f:
            f.write("precious results\n" * 300)
        if state == "readonly":
            os.chmod(p, 0o444)
    elif state == "empty-old":
        open(p, "w").close()
    elif state == "link":
        with open(p + ".target", "w") as f:
            f.write("precious results\n" * 300)
        os.symlink(p + ".target", p)


# ---------------------------------------------------------------- inputs that cannot be used
def goods(tmp):
    A, Bm, Y = start_models()
    g = {}
    for n, m in (("g0", A), ("g1", Bm)):
        write_xml(os.path.join(tmp, n + ".xml"), m)
        write_yaml(os.path.join(tmp, n + ".yaml"), m)


BAD_BOTH = ["missing", "directory", "empty", "junk", "text", "other-format", "json-report", "dangling-link", "link-loop", "long-name", "below-file", "missing-dir", "nul-bytes", "gzip-junk", "lz4", "binary-old-ucis"]
BAD_XML = ["malformed", "half", "invalid-element", "invalid-attr", "dangling-cross", "other-root", "two-roots", "bad-encoding", "undeclared-entity", "gzip-half", "gzip-crc", "gzip-invalid", "html", "schema-itself", "bad-utf8", "unbound-prefix",
           "entity-loop", "bad-file-ref", "bad-count"]
BAD_YAML = ["syntax", "half", "invalid-type", "invalid-late", "late-cross", "tag", "two-documents", "list-root", "scalar-root", "null", "tabs", "undefined-alias", "bad-utf8", "missing-name", "null-coverage"]


def bad_input(tmp, kind, fmt, name):
    """Create the unusable input; returns its path."""
    p = os.path.join(tmp, name)
    X, Y = xdocs(), ydocs()
    good = X["A"] if fmt == "xml" else Y["A"]

    def put(d):
        with open(p, "wb") as f:
            f.write(d if isinstance(d, bytes) else d.encode("utf-8"))
        return p
    if kind == "missing":
        return p
    if kind == "missing-dir":
        return os.path.join(tmp, "nodir", name)
    if kind == "below-file":
        put("x")
        return os.path.join(p, "x." + fmt)
    if kind == "directory":
        os.mkdir(p)
        return p
    if kind == "dangling-link":
        os.symlink(os.path.join(tmp, "nowhere"), p)
        return p
    if kind == "link-loop":
        os.symlink(p, p)
        return p
    if kind == "long-name":
        return os.path.join(tmp, "n" * 300)
    simple = {"empty": b"", "junk": bytes(range(256)), "text": "Hello, this is not coverage data: <at all\n- x\n", "other-format": Y["A"] if fmt == "xml" else X["A"],
              "json-report": '{"coverage": 12.5, "covergroups": 3}', "nul-bytes": b"\0" * 100, "gzip-junk": gzip.compress(b"junk: <"), "lz4": b"\x04\x22\x4d\x18" + b"\0" * 60,
              "binary-old-ucis": b"UCISDB\x00\x01\xff\xfe\x80", "bad-utf8": good.replace("i", "\udcff", 1).encode("utf-8", "surrogateescape")}
    if kind == "json-report" and fmt == "yaml":
        return put('{"coverage": 12.5, "covergroups": 3}')
    if kind in simple:
        return put(simple[kind])
    if fmt == "xml":
        cut = X["A"]
        h = {"malformed": X["malformed"], "half": cut[:len(cut) // 2], "invalid-element": X["invalid"], "invalid-attr": cut.replace(' key="0"', ' kex="0"', 1), "dangling-cross": X["dangling"],
             "other-root": "<ROOT>" + "</ROOT>", "two-roots": cut + cut[cut.index("<", 1):], "bad-encoding": '<?xml version="1.0" encoding="klingon"?>\n' + cut, "undeclared-entity": cut.replace('"top"', '"&nope;"'),
             "html": "<html><body>Not found</body></html>", "unbound-prefix": cut.replace("<sourceFiles", "<q:sourceFiles", 1), "entity-loop": '<!DOCTYPE UCIS [<!ENTITY a "&b;"><!ENTITY b "&a;">]>\n' + cut.replace('"top"', '"&a;"', 1),
             "bad-file-ref": cut.replace('file="1"', 'file="x"', 1),
             "bad-count": cut.replace('coverageCount="', 'coverageCount="x', 1)}
        if kind == "gzip-half":
            z = gzip.compress(cut.encode())
            return put(z[:len(z) // 2])
        if kind == "gzip-crc":
            z = bytearray(gzip.compress(cut.encode()))
            z[-6] ^= 0x55
            return put(bytes(z))
        if kind == "gzip-invalid":
            return put(gzip.compress(X["invalid"].encode()))
        if kind == "schema-itself":
            return put(open(os.path.join(VERIF, "mc/ref/ucis.xsd"), "rb").read())
        d = h[kind]
        if kind not in ("other-root", "html") and d == cut:
            raise RuntimeError("harness: %s changes nothing" % kind)
        return put(d)
    g = json.loads(Y["A"])
    h = {"syntax": "coverage: {covergroups: [", "half": Y["A"][:len(Y["A"]) // 2], "invalid-type": Y["invalid"], "late-cross": Y["late"], "tag": "coverage: !!python/name:os.system {}\n", "two-documents": Y["A"] + "\n---\n" + Y["A"],
         "list-root": "[" + Y["A"] + "]", "scalar-root": "coverage", "null": "~", "tabs": "coverage:\n\tcovergroups: []\n", "undefined-alias": "coverage: *x\n", "null-coverage": "coverage:\n"}
    if kind == "invalid-late":
        b = json.loads(Y["B"])
        b["coverage"]["covergroups"][-1]["name"] = 5
        return put(json.dumps(b))
    if kind == "missing-name":
        del g["coverage"]["covergroups"][0]["instances"][0]["coverpoints"][-1]["name"]
        return put(json.dumps(g))
    return put(h[kind])


def kinds_of(fmt):
    return BAD_BOTH + (BAD_XML if fmt == "xml" else BAD_YAML)


def command(cmd, tmp, fmt, files, out, of=None):
    a = [cmd] + (["-if", fmt] if fmt != "xml" else [])
    if cmd == "report" and of:
        a += ["-of", of]
    if out:
        a += ["-o", out]
    return a + files


def sp_inputs():
    """Every unusable input at every position of every command."""
    def f(ch):
        fmt = ch.all(["xml", "yaml"])
        kind = ch.all(kinds_of(fmt))
        cmd = ch.all(["convert", "merge", "report-txt", "report-json", "report-stdout"])
        pos, n = ch.all([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]) if cmd == "merge" else (0, 1)
        state = ch.all(OUTSTATES) if cmd != "report-stdout" else "absent"
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            bad = bad_input(tmp, kind, fmt, "bad." + fmt)
            out = os.path.join(tmp, "out.xml")
            put_out(out, state)
            files = [bad if k == pos else os.path.join(tmp, "g%d.%s" % (k % 2, fmt)) for k in range(n)]
            c = cmd.split("-")
            of = {"json": "json"}.get(c[-1]) if c[0] == "report" else None
            argv = command(c[0], tmp, fmt, files, None if cmd == "report-stdout" else out, of)
            ch.state((fmt, kind, cmd, pos, n, state))
            before = tree_of(tmp)
            r = cli.run(argv)
            ch.op()
            failed(r, before, tree_of(tmp), "%s (%s input: %s, argument %d of %d, output %s)" % (cmd, fmt, kind, pos + 1, n, state))
            ch.outcome = kind
    return f


def sp_truncated(step):
    """Every truncation of the input files."""
    def f(ch):
        fmt = ch.all(["xml", "gzip", "yaml"])
        data = (xdocs()["A"] if fmt != "yaml" else yamlref.dump_yaml(json.loads(ydocs()["A"]))).encode("utf-8")
        if fmt == "gzip":
            data = gzip.compress(data, mtime=0)
        n = ch.all(list(range(0, len(data), 1 if fmt == "gzip" else step)))
        cmd = ch.all(["convert", "merge", "report"])
        cut = data[:n]
        f2 = "yaml" if fmt == "yaml" else "xml"
        if fmt == "xml" and conforms(cut) is None:
            raise Prune()
        if fmt == "yaml":
            import yaml
            try:
                d = yaml.safe_load(cut)
                bad = yamlref.invalid(d)
                if bad is None or bad == "open":
                    raise Prune()
            except yaml.YAMLError:
                pass
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            p, out = os.path.join(tmp, "cut"), os.path.join(tmp, "out")
            with open(p, "wb") as g:
                g.write(cut)
            put_out(out, "old")
            ch.state((fmt, n, cmd))
            before = tree_of(tmp)
            r = cli.run(command(cmd, tmp, f2, [os.path.join(tmp, "g0." + f2), p] if cmd == "merge" else [p], out))
            ch.op()
            if fmt == "gzip" and r.rc == 0 and len(data) - n <= 8:
                return                       # only the checksum trailer is missing; the coverage is complete
            failed(r, before, tree_of(tmp), "%s (input cut to %d of %d bytes, %s)" % (cmd, n, len(data), fmt))
    return f


# ---------------------------------------------------------------- formats and outputs
def sp_formats():
    """Unknown, unusable and not writable formats."""
    def f(ch):
        cmd = ch.all(["convert", "merge", "report"])
        state = ch.all(OUTSTATES)
        which = ch.all(["-if", "-of"])
        bad = ["nope", "", "XML", "Xml", " xml", "xml ", "xml,yaml", "libucis", "mem", "None", "all", "*", "é"] + (["yaml", "txt", "json"] if which == "-of" and cmd != "report" else ["xml", "yaml", "html", "TXT"] if which == "-of" else ["txt", "json", "yaml"])
        b = ch.all(bad)
        other = ch.all([None, "xml", "yaml"]) if which == "-of" else None
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            out = os.path.join(tmp, "out")
            put_out(out, state)
            src = os.path.join(tmp, "g0." + (other or "xml"))
            a = [cmd, which, b] + (["-if", other] if other else []) + ["-o", out, src] + ([src] if cmd == "merge" else [])
            ch.state(a[:3] + [other, state])
            before = tree_of(tmp)
            r = cli.run(a)
            ch.op()
            failed(r, before, tree_of(tmp), " ".join(a[:3]))
            ch.outcome = b
    return f


def sp_outputs():
    """Output paths that cannot be written."""
    def f(ch):
        cmd = ch.all(["convert", "merge", "report-txt", "report-json"])
        fmt = ch.all(["xml", "yaml"])
        where = ch.all(["missing-dir", "is-dir", "is-full-dir", "below-file", "long-name", "dangling-link-dir", "link-loop", "empty-name", "trailing-slash", "missing-trailing-slash", "dot", "below-link-to-file", "deep-missing"])
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            P = lambda n: os.path.join(tmp, n)
            out = P("out")
            if where == "missing-dir":
                out = P("nodir/out")
            elif where == "deep-missing":
                out = P("a/b/c/out")
            elif where == "is-dir":
                os.mkdir(out)
            elif where == "is-full-dir":
                os.mkdir(out)
                put_out(P("out/data"), "old")
            elif where in ("below-file", "below-link-to-file"):
                put_out(P("f"), "old" if where == "below-file" else "link")
                out = P("f/out")
            elif where == "long-name":
                out = P("o" * 300)
            elif where == "dangling-link-dir":
                os.symlink(P("nodir/x"), out)
            elif where == "link-loop":
                os.symlink(out, out)
            elif where == "empty-name":
                out = ""
            elif where == "trailing-slash":
                os.mkdir(out)
                out += "/"
            elif where == "missing-trailing-slash":
                out += "/"
            elif where == "dot":
                out = "."
            c = cmd.split("-")
            a = [c[0], "-if", fmt] + (["-of", c[1]] if len(c) > 1 else []) + ["-o", out, P("g0." + fmt)]
            ch.state((cmd, fmt, where))
            before = tree_of(tmp)
            r = cli.run(a, cwd=tmp)
            ch.op()
            failed(r, before, tree_of(tmp), "%s to an output that is %s" % (cmd, where))
            ch.outcome = where
    return f


ODD = {"c-0": "\0", "c-1": "\x01", "c-b": "\x0b", "c-1f": "\x1f", "fffe": "\ufffe", "ffff": "\uffff", "surrogate": "\ud800", "low-surrogate": "\udfff", "c-8": "\x08"}


def sp_render():
    """Databases that cannot be rendered: characters no XML document or no text file can hold, at every name."""
    def f(ch):
        cmd = ch.all(["convert", "merge", "merge-last", "report-txt", "report-json"])
        odd = ch.all(list(ODD))
        where = ch.all(["group", "instance", "coverpoint", "bin", "ignorebin", "illegalbin", "cross", "crossbin", "last-bin"])
        state = ch.all(OUTSTATES)
        s = "n" + ODD[odd] + "m"
        d = json.loads(ydocs()["B" if where == "illegalbin" else "A"])
        g = d["coverage"]["covergroups"][0]
        i = g["instances"][-1] if where == "last-bin" else g["instances"][0]
        if where == "group":
            g["name"] = s
        elif where == "instance":
            i["name"] = s
        elif where == "coverpoint":
            for x in g["instances"]:
                old = x["coverpoints"][0]["name"]
                x["coverpoints"][0]["name"] = s
                for c in x.get("crosses", []):
                    c["coverpoints"] = [s if y == old else y for y in c["coverpoints"]]
        elif where in ("bin", "last-bin"):
            cp = [c for c in i["coverpoints"] if c["bins"]]
            cp[-1 if where == "last-bin" else 0]["bins"][-1]["name"] = s
        elif where in ("ignorebin", "illegalbin"):
            cp = [c for c in i["coverpoints"] if c.get(where + "s")]
            cp[0][where + "s"][0]["name"] = s
        else:
            x = i["crosses"][0]
            if where == "cross":
                x["name"] = s
            else:
                x["bins"][-1]["name"] = s
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            p, out = os.path.join(tmp, "odd.yaml"), os.path.join(tmp, "out")
            with open(p, "w") as h:
                h.write(json.dumps(d))
            put_out(out, state)
            c = cmd.split("-")
            fs = [os.path.join(tmp, "g0.yaml"), p] if cmd == "merge-last" else [p]
            a = [c[0], "-if", "yaml"] + (["-of", c[1]] if c[0] == "report" else []) + ["-o", out] + fs
            ch.state((cmd, odd, where, state))
            before = tree_of(tmp)
            r = cli.run(a)
            ch.op()
            after = tree_of(tmp)
            ch.outcome = r.rc
            what = "%s with %s in the name of a %s" % (cmd, odd, where)
            if c[0] == "report":
                if not failed(r, before, after, what, need=False):
                    t = after["out.target" if state == "link" else "out"][2].decode("utf-8")
                    want = c[1] == "json" and [] or text_or_json(p, c[1])
                    if c[1] == "txt" and t != want:
                        raise Violation("%s: exit status 0 but the report is not complete" % what)
                    if c[1] == "json":
                        json.loads(t)
                return
            failed(r, before, after, what)
    return f


def text_or_json(p, of):
    from ucis.rgy.format_rgy import FormatRgy
    db = FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)
    return text_report(db) if of == "txt" else json_report(db)


def sp_usage():
    """Argument vectors that make no command."""
    def f(ch):
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            P = lambda n: os.path.join(tmp, n)
            out, x = P("out"), P("g0.xml")
            put_out(out, "old")
            vec = [[], ["nope"], ["convert"], ["merge"], ["report"], ["convert", x], ["convert", "-o", out], ["merge", "-o", out], ["merge", x], ["report", "-o", out], ["report", x, x], ["convert", "-o", out, x, x],
                   ["convert", "-o"], ["convert", "-o", out, "-if"], ["convert", "--nope", "-o", out, x], ["report", "-x", x], ["merge", "-o", out, "--output-fmt", "xml", x], ["Convert", "-o", out, x], ["convert", "-o", out, ""],
                   ["merge", "-o", out, x, ""], ["report", ""], ["report", "-o", out, ""], ["convert", "-o", out, "+" + x], ["merge", "-o", out, "+" + x], ["+convert", "-o", out, x], ["list-db-formats", "x"], ["list-rpt-formats", "-o", out],
                   ["merge", "-o", out, "-l"], [x], ["-o", out, x], ["convert", "-o", out, "-"], ["report", "-"], [""], ["convert", "-o", "", x]]
            v = ch.all(vec)
            ch.state([a.replace(tmp, "") for a in v])
            before = tree_of(tmp)
            r = cli.run(v, cwd=tmp)
            ch.op()
            failed(r, before, tree_of(tmp), "ucis %r" % ([a.replace(tmp, "") for a in v],))
    return f


# ---------------------------------------------------------------- injected failures
SCEN = [("convert", "xml"), ("convert", "yaml"), ("merge", "xml"), ("merge", "yaml"), ("report-txt", "xml"), ("report-txt", "yaml"), ("report-json", "xml"), ("report-stdout", "xml")]
FAULTS = {"RuntimeError": lambda: RuntimeError("injected"), "OSError": lambda: OSError(5, "injected"), "MemoryError": lambda: MemoryError(), "RecursionError": lambda: RecursionError("injected"),
          "ValueError": lambda: ValueError("injected"), "KeyboardInterrupt": lambda: KeyboardInterrupt()}
BASEDIR = None


def fault(n):
    return FAULTS[n]()


def run_scenario(sc, tmp):
    cmd, fmt = sc
    c = cmd.split("-")
    files = [os.path.join(tmp, "g0." + fmt)] + ([os.path.join(tmp, "g1." + fmt)] if c[0] == "merge" else [])
    return cli.run(command(c[0], tmp, fmt, files, None if cmd == "report-stdout" else os.path.join(tmp, "out"), "json" if c[-1] == "json" else None), interrupts=True)


def injected(sc, state, k, kind, tmp, mode):
    """Run scenario sc; raise at the k-th point (None: only count).  Runs in a process of its own.
    Returns (result, number of points, description of the point)."""
    cmd, fmt = sc
    import ucis
    root = os.path.dirname(os.path.abspath(ucis.__file__)) + os.sep
    out = os.path.join(tmp, "out")
    st = {"n": 0, "where": None, "opened": False}
    targets = {out, os.path.realpath(out)}

    def tracer(frame, event, arg):
        fn = frame.f_code.co_filename
        if event != "call" or not fn.startswith(root):
            return None
        rel = fn[len(root):]
        if st["opened"] and not (rel.startswith("mem" + os.sep) or os.sep not in rel):
            return None                     # only the database is still consulted
        st["n"] += 1
        if k is None:
            st.setdefault("seen", []).append((rel, frame.f_code.co_name))
        if k is not None and st["n"] == k + 1:
            st["where"] = "%s:%s" % (rel, frame.f_code.co_name)
            sys.settrace(None)
            raise fault(kind)
        return None

    def audit(event, args):
        if event != "open" or not isinstance(args[0], str):
            return
        p, m, fl = args[0], args[1], args[2]
        wr = isinstance(fl, int) and fl & (os.O_WRONLY | os.O_RDWR)
        if mode == "open" and not st.get("off") and (os.path.abspath(p).startswith(tmp + os.sep) or os.path.abspath(p).startswith(root)) and not p.endswith((".py", ".pyc")):
            st["n"] += 1
            if k is not None and st["n"] == k + 1:
                st["where"] = "open " + os.path.basename(p)
                raise fault(kind)
        if wr and (p in targets or os.path.abspath(p) in targets):
            st["opened"] = True
    sys.addaudithook(audit)
    if mode == "call":
        sys.settrace(tracer)
    try:
        r = run_scenario(sc, tmp)
    finally:
        sys.settrace(None)
        st["off"] = True
    return r, st["n"], st["where"] if k is not None else st.get("seen")


def child(fn):
    """fn() in a forked process; its result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = ("ok", fn())
            except BaseException as e:
                import traceback
                res = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died")
    k, v = pickle.loads(data)
    if k == "err":
        raise RuntimeError("harness: " + v)
    return v


def prepared():
    global BASEDIR
    if BASEDIR is None:
        with tempfile.TemporaryDirectory(prefix="c19b") as tmp:
            goods(tmp)
            BASEDIR = tree_of(tmp)
    return BASEDIR


def restore(tmp):
    for n, v in prepared().items():
        with open(os.path.join(tmp, n), "wb") as f:
            f.write(v[2])


POINTS = {}


def warm_up():
    """Run every scenario once, so that what the process keeps (parsed schemas, imported modules) is there and the points are the same in every later execution."""
    for sc in SCEN:
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            restore(tmp)
            run_scenario(sc, tmp)


def cold(req):
    """The same as injected(), in a fresh python process."""
    import subprocess
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\nfrom mc.props import c19\nc19.cold_main()" % VERIF], input=pickle.dumps(req), capture_output=True, timeout=80,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(REPO, "src")))
    if p.returncode or not p.stdout:
        raise RuntimeError("harness: " + p.stderr.decode("utf-8", "replace")[-2000:])
    return pickle.loads(p.stdout)


def cold_main():
    req = pickle.loads(sys.stdin.buffer.read())
    sys.path.insert(0, os.path.join(REPO, "src"))
    preload()
    res = injected(*req)
    sys.stdout.buffer.write(pickle.dumps(res))
    sys.stdout.flush()
    os._exit(0)


def few_of(seen):
    occ = {}
    for i, w in enumerate(seen):
        occ.setdefault(w, []).append(i)
    return occ, sorted({i for l in occ.values() for i in l[:2] + l[-1:]})


def count_points():
    warm_up()
    for sc in SCEN:
        for mode in ("call", "open"):
            with tempfile.TemporaryDirectory(prefix="c19") as tmp:
                restore(tmp)
                put_out(os.path.join(tmp, "out"), "absent")
                r, n, seen = child(lambda: injected(sc, "absent", None, None, tmp, mode))
                if r.rc != 0:
                    raise Violation("%s on good input: exit status %d: %s" % (sc, r.rc, r.err[-500:]))
                p = os.path.join(tmp, "out")
                full = STAMP.sub("", open(p, encoding="utf-8").read()) if os.path.exists(p) else None
                occ, few = few_of(seen) if seen else ({}, list(range(n)))
                POINTS[(sc, mode)] = (n, full, r.out, few)
                if mode == "call":
                    os.path.exists(p) and os.remove(p)
                    _, nc, seenc = cold((sc, "absent", None, None, tmp, mode))
                    occc, fewc = few_of(seenc)
                    more = {w for w in occc if len(occc[w]) > len(occ.get(w, []))}
                    POINTS[(sc, "cold")] = (nc, full, r.out, [i for i in fewc if seenc[i] in more])


def sp_inject(mode, kinds, states, few=False):
    """few: only the first two and the last call of each function."""
    def f(ch):
        sc = ch.all(SCEN)
        n, full, sout, some = POINTS[(sc, mode)]
        k = ch.all(some if few else list(range(n)))
        kind = ch.all(kinds)
        state = ch.all(states) if sc[0] != "report-stdout" else "absent"
        ch.state((sc, k, kind, state, mode))
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            restore(tmp)
            out = os.path.join(tmp, "out")
            put_out(out, state)
            before = tree_of(tmp)
            if mode == "cold":
                r, _, where = cold((sc, state, k, kind, tmp, "call"))
            else:
                r, _, where = child(lambda: injected(sc, state, k, kind, tmp, mode))
            ch.op()
            after = tree_of(tmp)
            ch.outcome = where
            what = "%s with %s at %s (point %d)" % (sc, kind, where, k)
            o = {"link": "out.target"}.get(state, "out")
            complete = False
            if o in after and after[o] != before.get(o):
                try:
                    complete = STAMP.sub("", after[o][2].decode("utf-8")) == full
                except UnicodeDecodeError:
                    pass
            if r.rc == 0:
                if sc[0] == "report-stdout":
                    if r.out != sout:
                        raise Violation("%s: exit status 0 but the report is not complete" % what, r.out[:1000])
                elif not complete:
                    raise Violation("%s: exit status 0 but the output is not complete" % what, r.err[:1000])
                d = [x for x in delta(before, after) if x[0] != o]
                if d:
                    raise Violation("%s: %s" % (what, d))
                return
            if complete:                       # failed after the result was in place
                before = dict(before)
                before[o] = after[o]
            failed(r, before, after, what)
    return f


def sp_same(quick):
    """The output path is one of the inputs and the command fails."""
    def f(ch):
        fmt = ch.all(["xml", "yaml"])
        cmd = ch.all(["convert", "merge0", "merge1", "report"])
        kind = ch.all(["bad-second", "bad-format", "bad-self"])
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            P = lambda n: os.path.join(tmp, n)
            bad = bad_input(tmp, "half", fmt, "bad." + fmt)
            g = P("g0." + fmt)
            if kind == "bad-format":
                a = [cmd.rstrip("01"), "-if", fmt, "-of", "nope", "-o", g, g]
            elif kind == "bad-self":
                a = [cmd.rstrip("01"), "-if", fmt, "-o", bad] + ([g] if cmd == "merge1" else []) + [bad]
            elif cmd.startswith("merge"):
                a = ["merge", "-if", fmt, "-o", g] + ([g, bad] if cmd == "merge0" else [bad, g])
            else:
                raise Prune()
            ch.state((fmt, cmd, kind))
            before = tree_of(tmp)
            r = cli.run(a)
            ch.op()
            failed(r, before, tree_of(tmp), "%s with its input as output (%s)" % (cmd, kind))
    return f


def sp_process(quick):
    """Real processes, also without the rights, without a standard output, with a full one."""
    def f(ch):
        how = ch.all(["module", "script"] if quick else ["module", "main", "script"])
        case = ch.all(["missing", "half", "bad-format", "no-dir", "usage", "none", "render", "stdout-full", "stdout-closed", "out-full", "surrogate-txt"])
        cmd = ch.all(["convert", "merge", "report"])
        ch.state((how, case, cmd))
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            P = lambda n: os.path.join(tmp, n)
            out = P("out")
            put_out(out, "old")
            pre, a, kw = [], [cmd, "-o", out], {}
            if case == "missing":
                a += [P("missing.xml")]
            elif case == "half":
                a += [bad_input(tmp, "half", "xml", "h.xml")]
            elif case == "bad-format":
                a += ["-of", "nope", P("g0.xml")]
            elif case == "no-dir":
                a = [cmd, "-o", P("nodir/out"), P("g0.xml")]
            elif case == "usage":
                a = a[:3]
            elif case == "none":
                a = []
            elif case in ("render", "surrogate-txt"):
                if (case == "render") == (cmd == "report"):
                    raise Prune()
                d = json.loads(ydocs()["A"])
                d["coverage"]["covergroups"][0]["name"] = "\x01" if case == "render" else "\ud800"
                with open(P("r.yaml"), "w") as h:
                    h.write(json.dumps(d))
                a = [cmd, "-if", "yaml", "-o", out, P("r.yaml")]
            elif case == "out-full":
                a = [cmd, "-o", "/dev/full", P("g0.xml")]
            elif cmd != "report":
                raise Prune()
            else:
                a = ["report", P("g0.xml")]
            before = tree_of(tmp)
            r = spawn_full(a, how, case) if case.startswith("stdout") else cli.spawn(a, how=how)
            ch.op()
            failed(r, before, tree_of(tmp), "process %s %s" % (cmd, case))
    return f


def spawn_full(a, how, case):
    import subprocess
    e = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1")
    start = {"module": ["-m", "ucis"], "main": ["-m", "ucis.__main__"], "script": ["-c", "import sys\nfrom ucis.__main__ import main\nsys.exit(main())"]}[how]
    if case == "stdout-full":
        with open("/dev/full", "w") as full:
            p = subprocess.run([sys.executable] + start + a, stdout=full, stderr=subprocess.PIPE, env=e, timeout=80)
    else:
        p = subprocess.run([sys.executable] + start + a, stdout=None, stderr=subprocess.PIPE, env=e, timeout=80, preexec_fn=lambda: os.close(1))
    return cli.Result(p.returncode, "", p.stderr.decode("utf-8", "replace"))


def sp_rights():
    """Files the user may not read, write or create (as an unprivileged user)."""
    def f(ch):
        case = ch.all(["input", "output", "output-dir", "input-dir"])
        cmd = ch.all(["convert", "merge", "report"])
        fmt = ch.all(["xml", "yaml"])
        ch.state((case, cmd, fmt))
        with tempfile.TemporaryDirectory(prefix="c19") as tmp:
            goods(tmp)
            P = lambda n: os.path.join(tmp, n)
            os.mkdir(P("d"))
            out, src = P("d/out"), P("d/in")
            os.rename(P("g0." + fmt), src)
            if case != "output-dir":
                put_out(out, "old")
            os.chmod(tmp, 0o755)
            os.chmod(src, 0o000 if case == "input" else 0o644)
            if case != "output-dir":
                os.chmod(out, 0o444 if case == "output" else 0o666)
            if case == "input-dir":
                os.rename(src, P("in"))
                os.mkdir(P("p"))
                os.rename(P("in"), P("p/in"))
                os.chmod(P("p"), 0)
                src = P("p/in")
            os.chmod(P("d"), 0o555 if case == "output-dir" else 0o777)
            a = [cmd, "-if", fmt, "-o", out, src] + ([src] if cmd == "merge" else [])
            before = tree_of(tmp)

            def go():
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                    os.environ["USER"] = os.environ["LOGNAME"] = "nobody"
                import ucis
                if not os.access(os.path.dirname(os.path.abspath(ucis.__file__)), os.R_OK | os.X_OK):
                    return None
                return cli.run(a)
            r = child(go)
            if r is None:
                raise Prune()
            ch.op()
            failed(r, before, tree_of(tmp), "%s without the right to use the %s" % (cmd, case))
    return f


def spaces(tier):
    q = tier == "quick"
    preload()
    prepared()
    count_points()
    kinds = ["RuntimeError", "KeyboardInterrupt"] if q else list(FAULTS)
    return [
        Space("inputs", sp_inputs(), 0, "unusable inputs at every position"),
        Space("truncated", sp_truncated(7 if q else 1), 0, "inputs cut at every byte"),
        Space("formats", sp_formats(), 0, "formats that cannot be used"),
        Space("outputs", sp_outputs(), 0, "output paths that cannot be written"),
        Space("render", sp_render(), 0, "databases that cannot be rendered"),
        Space("usage", sp_usage(), 0, "argument vectors"),
        Space("same-path", sp_same(q), 0, "output path equal to an input"),
        Space("inject-call", sp_inject("call", kinds, ["old", "absent"], few=True), 0, "a failure at the first two calls and the last call of every ucis function"),
    ] + ([] if q else [
        Space("inject-every", sp_inject("call", kinds[:1], OUTSTATES), 0, "a failure at every call of a ucis function"),
        Space("inject-interrupt", sp_inject("call", ["KeyboardInterrupt"], ["old"]), 0, "an interrupt at every call of a ucis function"),
    ]) + [
        Space("inject-cold", sp_inject("cold", ["RuntimeError"], ["old"], few=True), 0, "a failure inside what only the first command of a process executes"),
        Space("inject-open", sp_inject("open", ["OSError", "MemoryError"], OUTSTATES), 0, "a failure at every opening of a file"),
        Space("process", sp_process(q), 0, "real processes"),
        Space("rights", sp_rights(), 0, "missing permissions"),
    ]
