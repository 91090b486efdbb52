"""C17: results do not depend on what was processed before."""
import gzip, io, json, os, pickle, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from ..core import *
from ..model import *
from ..gen import *
from ..ops import *
from ..hist import observe_nodes, plain_nodes, realise
from ..xmldoc import tree, serialise, Style
from ..yamlref import data_of
from .c11 import base

ASSUMPTIONS = ["every sequence runs in a forked process of its own; the reference result of each call comes from a process that does nothing else",
               "the time of writing recorded in a document is not part of the result"]

# ---------------------------------------------------------------- what is processed
B = Bin
MODELS = [
    DB((INST("top", "du", 1, (CG("cg", 1, (CP("p", 1, (B("a", "B", 1, 1), B("b", "B", 2, 1), B("z", "I", 1, 3))), CP("q", 2, (B("a", "B", 1, 0), B("l", "L", 1, 2), B("h", "B", 1, 6)))),
                                 (CR("x", 1, ("p", "q"), (B("<a,a>", "B", 1, 1), B("<b,a>", "B", 1, 0))),),
                                 (CI("i0", 1, (CP("p", 1, (B("a", "B", 1, 1), B("b", "B", 2, 1), B("z", "I", 1, 3))), CP("q", 2, (B("a", "B", 1, 0), B("l", "L", 1, 2), B("h", "B", 1, 6)))),
                                     (CR("x", 1, ("p", "q"), (B("<a,a>", "B", 1, 1), B("<b,a>", "B", 1, 0))),)),)),)),)),
    # the same names with other contents
    DB((INST("top", "du2", 1, (CG("cg", 3, (CP("q", 3, (B("b", "B", 4, 9),)), CP("p", 1, (B("a", "L", 4, 5), B("c", "B", 4, 2)))),
                                  (CR("x", 2, ("q", "p", "q"), (B("<a,a>", "B", 2, 7),)),), (CI("i0", 4, (CP("q", 3, (B("b", "B", 4, 9),)), CP("p", 1, (B("a", "L", 4, 5), B("c", "B", 4, 2)))),
                                                                                           (CR("x", 2, ("q", "p", "q"), (B("<a,a>", "B", 2, 7),)),)),
                                                                   CI("i1", 1, (CP("q", 3, (B("b", "B", 4, 1),)), CP("p", 1, (B("a", "L", 4, 0), B("c", "B", 4, 0)))), ()))),
                                 CG("cg2", 1, (), (), ()))), INST("u", "du2", 2, (), (INST("top", "du", 1, (CG("cg", 1, (CP("p", 1, (B("a", "B", 1, 2),)),), (), (CI("i0", 1, (CP("p", 1, (B("a", "B", 1, 2),)),), ()),)),)),)))),
    DB(()),
]
UNWRITABLE = DB((INST("top", "du", 1, (CG("cg", 1, (), (), (CI("i", 1, (CP("p", 1, (B("a", "B", 1, 1), B("\x01", "B", 1, 1))),), ()),)),)),))
FILES = [["a.sv", "b.sv"], ["b.sv", "c.sv", "a.sv"], [], ["a.sv"]]


ZERO = (0, 0, 0)


def make_db(n):
    m = UNWRITABLE if n == 3 else MODELS[n]
    c = [0]

    def src(db):
        from ucis.source_info import SourceInfo
        fs = FILES[n]
        if not fs:
            return None
        if c[0] < len(fs):
            fh[c[0]] = db.createFileHandle(fs[c[0]], "/w%d" % n)
        c[0] += 1
        return SourceInfo(fh[(c[0] - 1) % len(fs)], c[0], n)
    fh = {}
    db = build(m, src=src)
    realise(db, plain_nodes([2, 1, 0, 0][n]))
    return db


XDOCS = None


def xdocs():
    global XDOCS
    if XDOCS is None:
        s = Style()
        A, Bd = [serialise(tree(base(k), s), s) for k in (0, 1)]
        bad = A.replace("<coverpoint ", "<cowerpoint ", 1).replace("</coverpoint>", "</cowerpoint>", 1)
        assert bad != A
        i = A.rindex("<crossExpr>")
        dang = A[:i] + "<crossExpr>nowhere</crossExpr>" + A[A.index("</crossExpr>", i) + len("</crossExpr>"):]
        XDOCS = dict(A=A, B=Bd, malformed=A[:len(A) * 2 // 3], invalid=bad, dangling=dang)
    return XDOCS


def ydocs():
    a, b = (data_of(m) for m in MODELS[:2])
    late = json.loads(json.dumps(b))
    late["coverage"]["covergroups"][0]["instances"][1]["crosses"] = [{"name": "x", "coverpoints": ["nowhere"], "bins": [{"name": "v", "count": 1}]}]
    inv = json.loads(json.dumps(a))
    inv["coverage"]["covergroups"][0]["instances"][0]["coverpoints"][1]["bins"] = "many"
    d = {k: json.dumps(v) for k, v in dict(A=a, B=b, late=late, invalid=inv).items()}
    d["syntax"] = d["A"][:-20]
    return d


# ---------------------------------------------------------------- views of results
def src_of(o):
    s = o.getSourceInfo()
    return None if s is None else (s.file.getFileName() if s.file is not None else None, s.line, s.token)


def dump(db):
    u = api()
    from ucis.cover_type_t import CoverTypeT
    from ucis.scope_type_t import ScopeTypeT

    def sc(s):
        items = [(c.getName(), int(c.getCoverData().type), c.getCoverData().data, c.getCoverData().at_least, c.getCoverData().goal, c.getCoverData().weight)
                 for c in s.coverItems(CoverTypeT.ALL if hasattr(CoverTypeT, "ALL") else -1)]
        return (int(s.getScopeType()), s.getScopeName(), s.getWeight(), s.getGoal(), src_of(s), items, [sc(x) for x in s.scopes(ScopeTypeT.ALL)])
    return (observe(db), [sc(x) for x in db.scopes(ScopeTypeT.ALL)], observe_nodes(db))


def norm(x):
    """Plain comparable data."""
    return repr(x)


STAMP = re.compile(r'writtenTime="[^"]*"|date="(?!2024-01-02)[^"]*"')


class BadStream:
    def __init__(self, n):
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise OSError("stream failed")
        return len(s)

    def flush(self):
        pass


# ---------------------------------------------------------------- one process's life
class World:
    def __init__(self, tmp, ver=(ZERO, 0, 0)):
        self.tmp = tmp
        self.ver = list(ver)
        self.dbs = {}
        self.own = {}
        self.kept = []                # (what, view, expected) of earlier results
        self.yd, self.xd = ydocs(), xdocs()
        self.files()

    def path(self, n):
        return os.path.join(self.tmp, n)

    def put(self, n, s):
        with open(self.path(n), "w", encoding="utf-8") as f:
            f.write(s)
        os.utime(self.path(n), (10 ** 9, 10 ** 9))

    def files(self):
        x, y = [self.xd["AB"[self.ver[1] % 2]]], [self.yd["AB"[self.ver[2] % 2]]]
        n = max(map(len, (self.xd["A"], self.xd["B"])))
        self.put("f.xml", x[0] + "\n" * (n - len(x[0])))
        n = max(map(len, (self.yd["A"], self.yd["B"])))
        self.put("f.yaml", y[0] + "\n" * (n - len(y[0])))
        self.put("g.xml", self.xd["B"])

    def db(self, n):
        if n not in self.dbs:
            self.dbs[n] = make_db(n)
        return self.dbs[n]

    def shared(self, cls, worker, *a):
        if worker != "S":
            return cls(*a)
        k = (cls.__name__,)
        if k not in self.own:
            self.own[k] = cls(*a)
        return self.own[k]

    # every operation returns (view function, object kept) or a plain value
    def do(self, op):
        f = op.split(":")
        return getattr(self, "op_" + f[0])(*f[1:])

    def fmt_if(self, n, kind="db"):
        from ucis.rgy.format_rgy import FormatRgy
        k = (n, kind)
        if k not in self.own:
            r = FormatRgy.inst()
            self.own[k] = (r.getDatabaseDesc(n) if kind == "db" else r.getReportDesc(n)).fmt_if()
        return self.own[k]

    def op_rx(self, doc, worker):
        from ucis.xml.xml_reader import XmlReader
        from ucis.xml.xml_factory import XmlFactory
        if doc == "path":
            arg = self.path("f.xml")
        elif worker in "XI":
            arg = io.BytesIO(self.xd[doc].encode())
        else:
            arg = io.StringIO(self.xd[doc])
        if worker == "X":
            db = XmlFactory.read(arg)
        elif worker == "I":
            db = self.fmt_if("xml").read(arg)
        else:
            db = self.shared(XmlReader, worker).read(arg)
        return dump, db

    def op_ry(self, doc, worker):
        from ucis.yaml.yaml_reader import YamlReader
        if doc == "path":
            return dump, self.fmt_if("yaml").read(self.path("f.yaml"))
        arg = io.StringIO(self.yd[doc])
        return dump, self.shared(YamlReader, worker).load(arg)

    def op_wx(self, n, worker):
        from ucis.xml.xml_writer import XmlWriter
        from ucis.xml.xml_factory import XmlFactory
        db = self.db(int(n))
        if worker == "bad":
            self.shared(XmlWriter, "S").write(BadStream(0), db)
            return None
        if worker == "X":
            p = self.path("out.xml")
            XmlFactory.write(db, p)
            with open(p, encoding="utf-8") as g:
                return STAMP.sub("", g.read())
        out = io.StringIO()
        self.shared(XmlWriter, worker).write(out, db)
        return STAMP.sub("", out.getvalue())

    def op_mg(self, which, worker):
        from ucis.merge.db_merger import DbMerger
        dst = new_db()
        src = [self.db(int(c)) if c != "n" else None for c in which]
        self.shared(DbMerger, worker).merge(dst, src)
        return dump, dst

    def op_br(self, n):
        return obs_report, build_report(self.db(int(n)) if n != "n" else None)

    def op_tx(self, n, worker):
        from ucis.report.format_rpt_text import FormatRptText
        f = self.shared(FormatRptText, "S" if worker in ("S", "bad") else "F")
        if worker in ("S", "bad"):
            f.details = True
        out = BadStream(4) if worker == "bad" else io.StringIO()
        f.report(self.db(int(n)), out, [])
        return out.getvalue()

    def op_js(self, n, worker):
        from ucis.report.format_rpt_json import FormatRptJson
        f = self.shared(FormatRptJson, "S" if worker in ("S", "bad") else "F")
        out = BadStream(5) if worker == "bad" else io.StringIO()
        f.report(self.db(int(n)), out, [])
        return out.getvalue()

    def op_tf(self, n, mode):
        """The formatter of an already built report, asked again and again."""
        from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
        k = ("tf", n, self.ver[0] if n == "0" else ZERO)
        if k not in self.own:
            class Out(io.StringIO):
                fail = 10 ** 9

                def write(s, x):
                    s.fail -= 1
                    if s.fail < 0:
                        raise OSError("stream failed")
                    return super(Out, s).write(x)
            fp = Out()
            f = TextCoverageReportFormatter(build_report(self.db(int(n))), fp)
            f.details = f.order_bins_by_hit = True
            self.own[k] = (f, fp)
        f, fp = self.own[k]
        f.details = mode != "brief"
        f.order_bins_by_hit = mode in ("ok", "bad")
        f.round = 3 if mode == "plain" else 2
        fp.seek(0)
        fp.truncate()
        fp.fail = 3 if mode == "bad" else 10 ** 9
        f.report()
        return fp.getvalue()

    def op_cli(self, *argv):
        import contextlib
        from ucis.__main__ import main
        a = [self.path(x[1:]) if x[0] == "@" else x for x in argv]
        out, err = io.StringIO(), io.StringIO()
        old = sys.argv
        sys.argv = ["ucis"] + a
        rc = 0
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    main()
                except SystemExit as e:
                    rc = 0 if e.code in (None, 0) else 1
        finally:
            sys.argv = old
        o = None
        if "-o" in a and rc == 0:
            with open(a[a.index("-o") + 1], encoding="utf-8") as f:
                o = STAMP.sub("", f.read())
            os.unlink(a[a.index("-o") + 1])
        return rc, out.getvalue() if rc == 0 else None, o

    # operations that change what later calls are given
    def change(self, which):
        """Database 0 as the caller changes it; the three ways commute."""
        u = api()
        db = self.db(0)
        self.recheck()
        v = list(self.ver[0])
        i = list(db.scopes(u.UCIS_INSTANCE))[0]
        g = list(i.scopes(u.UCIS_COVERGROUP))[0]
        c = list(g.scopes(u.UCIS_COVERINSTANCE))[0]
        if which == 0:
            list(g.scopes(u.UCIS_COVERPOINT))[0].createBin("n%d" % v[0], None, 1, 0, "n", u.UCIS_CVGBIN)
        elif which == 1:
            for s in (g, c):
                list(list(s.scopes(u.UCIS_COVERPOINT))[0].coverItems(u.UCIS_CVGBIN))[1].incrementCover(1)
        else:
            for s in (g, c, list(g.scopes(u.UCIS_COVERPOINT))[1], list(c.scopes(u.UCIS_COVERPOINT))[1]):
                s.setWeight(s.getWeight() + 3)
            for h in db.historyNodes(u.HistoryNodeKind.ALL):
                h.setComment("changed %d" % v[2])
        v[which] += 1
        self.ver[0] = tuple(v)
        self.kept = [k for k in self.kept if k[0] != "arg0"]
        self.kept.append(("arg0", dump, db, norm(dump(db))))
        return None

    def op_grow(self):
        return self.change(0)

    def op_hit(self):
        return self.change(1)

    def op_tune(self):
        return self.change(2)

    def op_swap(self):
        self.ver[1] += 1
        self.ver[2] += 1
        self.files()
        return None

    def op_scribble(self):
        """The caller changes every result it has been given."""
        u = api()
        self.recheck()
        for what, view, obj, exp in self.kept:
            if what.startswith("arg"):
                continue
            if view is obs_report:
                for g in obj.covergroups:
                    g.coverpoints.clear()
                    g.name = "scribble"
                obj.covergroups.clear()
                obj.coverage = -1
            else:
                def rec(s):
                    for x in s.scopes(-1):
                        rec(x)
                        x.setWeight(77)
                        for c in x.coverItems(-1):
                            c.getCoverData().data += 1000
                            c.getCoverData().at_least += 1
                rec(obj)
                du = obj.createScope("scribble", None, 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, 0)
                obj.createInstance("scribble", None, 1, u.UCIS_OTHER, u.UCIS_INSTANCE, du, u.UCIS_INST_ONCE)
                obj.createFileHandle("scribble.sv", None)
                obj.createHistoryNode(None, "scribble", "s", u.HistoryNodeKind.TEST)
                for h in obj.historyNodes(u.HistoryNodeKind.ALL):
                    h.setComment("scribble")
        self.kept = [k for k in self.kept if k[0].startswith("arg")]
        return None

    def recheck(self):
        for what, view, obj, exp in self.kept:
            if norm(view(obj)) != exp:
                raise Violation("%s changed by a later operation" % ("the database given to an operation" if what.startswith("arg") else "the result of " + what))

    def run(self, op):
        """Normalised result."""
        had = set(self.dbs)
        try:
            r = self.do(op)
        except CaseTimeout:
            raise
        except Violation:
            raise
        except Exception as e:
            res = "error %s" % type(e).__name__
        else:
            if isinstance(r, tuple) and len(r) == 2 and callable(r[0]):
                res = norm(r[0](r[1]))
                self.kept.append((op, r[0], r[1], res))
            else:
                res = norm(r)
        for n in set(self.dbs) - had:
            if not any(k[0] == "arg%d" % n for k in self.kept):
                self.kept.append(("arg%d" % n, dump, self.dbs[n], norm(dump(make_db(n)))))
        return res


def versions(op):
    """Which arguments of an operation have versions: (m0, f.xml, f.yaml)."""
    f = op.split(":")
    k = f[0]
    if k in CHANGE:
        return None
    m = k in ("wx", "br", "tx", "js", "tf") and f[1] == "0" or k == "mg" and "0" in f[1]
    x = k == "rx" and f[1] == "path" or "@f.xml" in f
    y = k == "ry" and f[1] == "path" or "@f.yaml" in f
    return m, x, y


READS = ["rx:%s:%s" % (d, w) for d in ("A", "B", "malformed", "dangling", "path") for w in "SX"] + ["rx:invalid:X", "rx:A:F", "rx:B:I"]
YREADS = ["ry:%s:S" % d for d in ("A", "B", "syntax", "invalid", "late")] + ["ry:path:I", "ry:A:F"]
WRITES = ["wx:0:S", "wx:1:S", "wx:2:S", "wx:3:S", "wx:0:bad", "wx:0:F", "wx:1:X"]
MERGES = ["mg:01:S", "mg:2:S", "mg:10n:S", "mg:01:F", "mg:0:S"]
REPORTS = ["br:0", "br:1", "br:n"]
TEXTS = ["tx:0:S", "tx:1:S", "tx:0:bad", "tx:0:F", "tf:0:ok", "tf:0:bad", "tf:0:plain", "tf:1:ok", "tf:1:brief"]
JSONS = ["js:0:S", "js:1:S", "js:1:bad", "js:0:F", "js:2:S"]
CLIS = ["cli:report:@f.xml", "cli:report:-if:yaml:-of:json:@f.yaml", "cli:report:-of:nope:@f.xml", "cli:report:@f.yaml", "cli:merge:-o:@o.xml:@f.xml:@g.xml", "cli:convert:-o:@o.xml:-if:yaml:@f.yaml",
        "cli:list-db-formats"]
CHANGE = ["grow", "hit", "tune", "swap", "scribble"]
ONCE = CHANGE[:3]
ALL = READS + YREADS + WRITES + MERGES + REPORTS + TEXTS + JSONS + CLIS + CHANGE
BASE = {}


def baseline_main():
    """Run in a process of its own: one operation on fresh objects."""
    op, ver, out = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
    with tempfile.TemporaryDirectory(prefix="c17b") as tmp:
        w = World(tmp, (ZERO, ver[1], ver[2]))
        for k, n in enumerate(ver[0]):
            for _ in range(n):
                w.change(k)
        r = w.run(op)
        w.recheck()
    with open(out, "w") as f:
        f.write(r)


def version_list(op, depth):
    m, x, y = versions(op)
    ms = [(a, b, c) for a in range(depth + 1) for b in range(depth + 1 - a) for c in range(depth + 1 - a - b)]
    return [(a, b, b2) for a in (ms if m else (ZERO,)) for b in ((0, 1) if x else (0,)) for b2 in ((0, 1) if y else (0,))]


def baselines(ops, depth):
    jobs = []
    for op in ops:
        if versions(op) is not None:
            for v in version_list(op, depth):
                jobs.append((op, v))
    d = tempfile.mkdtemp(prefix="c17r")

    def one(k):
        op, v = jobs[k // 2]
        if k % 2 and v != (ZERO, 0, 0):
            return "", None
        env = dict(os.environ, PYTHONHASHSEED=str(1 + 4 * (k % 2)), PYTHONPYCACHEPREFIX=os.path.join(d, "pyc"))
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        out = os.path.join(d, str(k))
        p = subprocess.run([sys.executable, "-c", "from mc.props.c17 import baseline_main; baseline_main()", op, json.dumps(v), out], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=300)
        if p.returncode:
            return None, p.stderr
        with open(out) as f:
            return f.read(), None
    try:
        with ThreadPoolExecutor(8) as ex:
            res = [one(0)] + list(ex.map(one, range(1, 2 * len(jobs))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for k, (op, v) in enumerate(jobs):
        (a, ea), (b, eb) = res[2 * k], res[2 * k + 1]
        if a is None or b is None:
            raise Violation("operation %s does not complete in a fresh process: %s" % (op, (ea or eb)[-1500:]))
        BASE[(op, v)] = (a, b if v == (ZERO, 0, 0) else a)


def key(op, ver):
    m, x, y = versions(op)
    return op, (ver[0] if m else ZERO, ver[1] % 2 if x else 0, ver[2] % 2 if y else 0)


def live(seq):
    """Run one sequence in this process; returns None or (message, detail)."""
    with tempfile.TemporaryDirectory(prefix="c17") as tmp:
        w = World(tmp)
        try:
            for k, op in enumerate(seq):
                ver = tuple(w.ver)
                r = w.run(op)
                if versions(op) is None:
                    if r != "None":
                        return "%s failed: %s" % (op, r), None
                    continue
                exp = BASE[key(op, ver)][0]
                if r != exp:
                    return "after %s: %s gives another result than in a fresh process" % (seq[:k], op), {"got": r[:3000], "fresh process": exp[:3000]}
            w.recheck()
        except Violation as v:
            return "%s (sequence %s)" % (v.msg, seq), v.detail
    return None


def forked(seq):
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            try:
                res = live(seq)
            except BaseException as e:
                import traceback
                res = ("unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    os.close(wr)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation("the process died in sequence %s" % (seq,))
    return pickle.loads(data)


def run(ch, seq):
    ch.state(seq)
    v = forked(seq)
    ch.op(len(seq))
    ch.outcome = seq[-1]
    if v:
        raise Violation(*v)


def sp_fresh(ops):
    """The reference results themselves: two fresh processes (other hash seeds) and a forked one agree."""
    L = [op for op in ops if versions(op) is not None]

    def f(ch):
        op = ch.all(L)
        vs = [k for k in BASE if k[0] == op]
        for k in vs:
            if BASE[k][0] != BASE[k][1]:
                raise Violation("%s gives different results in two fresh processes" % (op,), {"1": BASE[k][0][:3000], "2": BASE[k][1][:3000]})
        run(ch, [op])
    return f


def sp_seq(ops, depth, last=None):
    def f(ch):
        seq = [ch.all(ops) for _ in range(depth - 1)]
        x = ch.all(last or ops)
        if versions(x) is None:
            raise Prune()
        run(ch, seq + [x])
    return f


def sp_repeat(first, ns, last):
    """One operation many times, then another."""
    def f(ch):
        a, n = ch.all(first), ch.all(ns)
        b = ch.all(last)
        if versions(b) is None or a in ONCE:
            raise Prune()
        run(ch, [a] * n + [b])
    return f


def sp_tours():
    """All rotations and strides of the whole alphabet: every operation late in a long mixed history."""
    N = [o for o in ALL if o not in ONCE]

    def f(ch):
        st = ch.all([s for s in range(1, len(N)) if all(s % p or len(N) % p for p in range(2, len(N)))])
        o = ch.all(list(range(0, len(N), 4)))
        run(ch, [N[(o + k * st) % len(N)] for k in range(len(N))])
    return f


CORE = ["rx:A:S", "rx:B:S", "rx:malformed:S", "rx:dangling:S", "rx:path:X", "rx:B:X", "ry:A:S", "ry:B:S", "ry:late:S", "ry:path:I", "wx:0:S", "wx:1:S", "wx:3:S", "mg:01:S", "mg:10n:S", "mg:2:S",
        "br:0", "tx:0:S", "tx:0:bad", "tx:1:S", "js:0:S", "js:1:S", "js:1:bad"] + CHANGE


def preload():
    import ucis.__main__
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_reader import XmlReader
    from ucis.xml.xml_writer import XmlWriter
    from ucis.yaml.yaml_reader import YamlReader
    from ucis.merge.db_merger import DbMerger
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter


def spaces(tier):
    q = tier == "quick"
    preload()
    baselines(ALL, 2 if q else 3)
    out = [
        Space("fresh", sp_fresh(ALL), 0, "each operation alone, in three processes"),
        Space("pairs", sp_seq(ALL, 2), 0, "all ordered pairs of operations"),
        Space("triples", sp_seq(CORE if q else ALL, 3), 0, "all sequences of three operations"),
        Space("repeat", sp_repeat(ALL, [12] if q else [4, 20, 70, 300], CORE if q else ALL), 0, "an operation repeated, then another"),
        Space("tours", sp_tours(), 0, "long mixed histories"),
    ]
    if not q:
        out.append(Space("quads", sp_seq(CORE, 4), 0, "all sequences of four operations"))
    return out
