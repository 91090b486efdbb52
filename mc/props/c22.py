"""C22: operations that overlap in time do not influence each other.

Two operations run in two threads of which exactly one runs at any time.  A trace function stops a thread in front of chosen
source lines of ucis and hands control to the other one: the schedule is a choice of the explorer, not of the operating system."""
import io, json, os, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from ..core import *
from ..core import REPO
from ..model import *
from ..gen import *
from ..ops import *
from ..hist import plain_nodes, realise
from . import c17
from .c17 import MODELS, STAMP, dump, make_db, xdocs, ydocs, BadStream

RULE = "interleavings of two operations in two threads, stops in front of source lines of ucis, at most two stops"
ASSUMPTIONS = ["threads are switched in front of source lines of /repo/src/ucis, not inside a line or inside other packages",
               "each database, reader, writer, merger or report is used by one thread at a time unless the operations only read it"]

SRC = os.path.realpath(os.path.join(REPO, "src", "ucis")) + os.sep
_mine = {}


def mine(fn):
    r = _mine.get(fn)
    if r is None:
        r = _mine[fn] = os.path.realpath(fn).startswith(SRC)
    return r


# ---------------------------------------------------------------- operations
class Env:
    """The data of one execution; which: data set of this side."""
    def __init__(self, tmp, which, db=None):
        self.tmp, self.n = tmp, which
        self.db = db if db is not None else make_db(which)

    def path(self, n):
        return os.path.join(self.tmp, "%d.%s" % (self.n, n))


def op_rx(e):
    from ucis.xml.xml_factory import XmlFactory
    b = io.BytesIO(xdocs()["AB"[e.n]].encode())
    return lambda: XmlFactory.read(b), dump


def op_rxpath(e):
    from ucis.xml.xml_factory import XmlFactory
    p = e.path("xml")
    with open(p, "w", encoding="utf-8") as f:
        f.write(xdocs()["AB"[e.n]])
    return lambda: XmlFactory.read(p), dump


def op_rxbad(e):
    from ucis.xml.xml_factory import XmlFactory
    b = io.BytesIO(xdocs()[("dangling", "invalid")[e.n]].encode())
    return lambda: XmlFactory.read(b), dump


def op_ry(e):
    from ucis.yaml.yaml_reader import YamlReader
    b = io.StringIO(ydocs()["AB"[e.n]])
    return lambda: YamlReader().load(b), dump


def op_rybad(e):
    from ucis.yaml.yaml_reader import YamlReader
    b = io.StringIO(ydocs()[("late", "invalid")[e.n]])
    return lambda: YamlReader().load(b), dump


def op_wx(e):
    from ucis.xml.xml_writer import XmlWriter
    out = io.StringIO()
    return lambda: XmlWriter().write(out, e.db), lambda r: STAMP.sub("", out.getvalue())


def op_wxpath(e):
    from ucis.xml.xml_factory import XmlFactory
    p = e.path("out.xml")

    def view(r):
        with open(p, encoding="utf-8") as f:
            return STAMP.sub("", f.read())
    return lambda: XmlFactory.write(e.db, p), view


def op_mg(e):
    from ucis.merge.db_merger import DbMerger
    dst = new_db()
    other = build(MODELS[1 - e.n])
    return lambda: DbMerger().merge(dst, [e.db, other]), lambda r: dump(dst)


def op_br(e):
    return lambda: build_report(e.db), obs_report


def op_tx(e):
    from ucis.report.format_rpt_text import FormatRptText
    out = io.StringIO()

    def go():
        f = FormatRptText()
        f.details = e.n == 0
        f.report(e.db, out, [])
    return go, lambda r: out.getvalue()


def op_tf(e):
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    out = io.StringIO()
    rep = build_report(e.db)

    def go():
        f = TextCoverageReportFormatter(rep, out)
        f.details = True
        f.order_bins_by_hit = e.n == 1
        f.report()
    return go, lambda r: out.getvalue()


def op_txbad(e):
    from ucis.report.format_rpt_text import FormatRptText
    return lambda: FormatRptText().report(e.db, BadStream(3), []), lambda r: None


def op_js(e):
    from ucis.report.format_rpt_json import FormatRptJson
    out = io.StringIO()
    return lambda: FormatRptJson().report(e.db, out, []), lambda r: out.getvalue()


def op_new(e):
    """Build a database and count hits in it."""
    def go():
        db = make_db(e.n)
        u = api()
        for i in db.scopes(u.UCIS_INSTANCE):
            for g in i.scopes(u.UCIS_COVERGROUP):
                for p in g.scopes(u.UCIS_COVERPOINT):
                    for k, c in enumerate(p.coverItems(u.UCIS_CVGBIN)):
                        c.incrementCover(k + 1)
        return db
    return go, dump


def op_look(e):
    return lambda: dump(e.db), lambda r: r


def op_dict(e):
    """The maps of a report."""
    def go():
        r = build_report(e.db)
        return [(g.name, sorted(g.coverpoint_m), sorted(g.cross_m)) for g in r.covergroups]
    return go, lambda r: r


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
READING = ["wx", "wxpath", "mg", "br", "tx", "js", "look"]


class Done:
    """Result of one operation, looked at when everything is over."""
    def __init__(self, made):
        self.fn, self.view = made
        self.ret = self.err = None
        self.done = False

    def run(self):
        try:
            self.ret = self.fn()
        except Exception as x:
            self.err = x
        self.done = True

    def result(self):
        if not self.done:
            return "not finished"
        if self.err is not None:
            return "error %s" % type(self.err).__name__
        return repr(self.view(self.ret))


class Thread:
    """An operation in a thread of its own that stops in front of its k-th ucis line, for each k in stops."""
    def __init__(self, work, stops, log=None):
        self.work, self.stops, self.log = work, stops, log
        self.go = threading.Semaphore(0)       # permission to run
        self.back = threading.Semaphore(0)     # control returned
        self.n = 0
        self.t = threading.Thread(target=self.main, daemon=True)
        self.t.start()

    def local(self, frame, ev, arg):
        if ev == "line":
            k = self.n
            self.n += 1
            if self.log is not None:
                self.log.append((frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_firstlineno))
            if k in self.stops:
                self.back.release()
                self.go.acquire()
        return self.local

    def trace(self, frame, ev, arg):
        return self.local if mine(frame.f_code.co_filename) else None

    def main(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.work.run()
        finally:
            sys.settrace(None)
            self.back.release()

    def step(self, patience=2.0):
        """Let it run until it stops, ends, or (waiting for something the other one holds) makes no progress."""
        self.go.release()
        return self.back.acquire(timeout=patience)


def schedule(a, b, sa, sb):
    """a runs to line sa, b to line sb (or its end), a to its end, b to its end."""
    ta, tb = Thread(a, {sa}), Thread(b, set() if sb is None else {sb})
    if not ta.step(20):
        raise Violation("an operation alone does not finish")
    free = tb.step()
    if not a.done:
        ta.step(30)
    if sb is not None or not free:
        if not b.done:
            tb.go.release()
    for t in (ta, tb):
        t.go.release()
        t.t.join(30)


def lines_of(name, which):
    """The ucis lines an operation passes, in order."""
    with tempfile.TemporaryDirectory(prefix="c22") as tmp:
        log = []
        d = Done(OPS[name](Env(tmp, which)))
        t = Thread(d, set(), log)
        t.go.release()
        t.t.join(60)
        return log, d.result()


def alone(name, which):
    """The result of an operation that nothing overlaps."""
    with tempfile.TemporaryDirectory(prefix="c22") as tmp:
        d = Done(OPS[name](Env(tmp, which)))
        d.run()
        return d.result()


LOG, REF = {}, {}


def prepare():
    c17.preload()
    for n in OPS:
        for w in (0, 1):
            REF[n, w] = alone(n, w)
            LOG[n, w], r = lines_of(n, w)
            if r != REF[n, w] or alone(n, w) != REF[n, w]:
                raise Violation("%s: two runs of one operation differ" % n, {"1": REF[n, w][:3000], "2": r[:3000]})


def points(name, which, keep):
    """Stops: of every source line its first and last `keep` passes (0: its first pass; None: every pass; "calls": only the first
    line of every function)."""
    log = LOG[name, which]
    if keep is None:
        return list(range(len(log)))
    by = {}
    if keep == "calls":
        for k, x in enumerate(log):
            by.setdefault((x[0], x[2]), []).append(k)
        return sorted(v[0] for v in by.values())
    for k, x in enumerate(log):
        by.setdefault(x, []).append(k)
    return sorted({k for v in by.values() for k in (v[:keep] + v[-keep:] if keep else v[:1])})


def judge(ch, what, pairs):
    for d, name, w in pairs:
        r = d.result()
        if r != REF[name, w]:
            raise Violation("%s: %s gives another result than alone" % (what, name), {"got": r[:3000], "alone": REF[name, w][:3000]})


def at(name, w, k):
    if k is None:
        return "its end"
    f, l, _ = LOG[name, w][k]
    return "line %d of %s (event %d)" % (l, f.split("/ucis/")[-1], k)


def run(ch, na, nb, i, j, shared):
    with tempfile.TemporaryDirectory(prefix="c22") as tmp:
        wa, wb = 0, 0 if shared else 1
        if shared:
            db = make_db(0)
            os.mkdir(tmp + "/b")
            ea, eb = Env(tmp, 0, db), Env(tmp + "/b", 0, db)
        else:
            ea, eb = Env(tmp, 0), Env(tmp, 1)
        a, b = Done(OPS[na](ea)), Done(OPS[nb](eb))
        what = "%s stopped at %s, meanwhile %s to %s%s" % (na, at(na, wa, i), nb, at(nb, wb, j), ", both of one database" if shared else "")
        ch.state((na, nb, i, j, shared))
        schedule(a, b, i, j)
        ch.op(2)
        ch.outcome = (na, nb)
        judge(ch, what, [(a, na, wa), (b, nb, wb)])


def sp_one(pairs, keep, shared=False):
    def f(ch):
        na, nb = ch.all(pairs)
        i = ch.all(points(na, 0, keep))
        run(ch, na, nb, i, None, shared)
    return f


def sp_two(pairs, ka, kb):
    def f(ch):
        na, nb = ch.all(pairs)
        i, j = ch.all(points(na, 0, ka)), ch.all(points(nb, 1, kb))
        run(ch, na, nb, i, j, False)
    return f


# ---------------------------------------------------------------- first use in a process
def cold_main():
    """A process of its own: log of one operation, or one schedule of two, with nothing used before."""
    na, nb, i = sys.argv[1], sys.argv[2], int(sys.argv[3])
    c17.preload()
    if i < 0:
        res = lines_of(na, 0)
    else:
        with tempfile.TemporaryDirectory(prefix="c22") as tmp:
            a, b = Done(OPS[na](Env(tmp, 0))), Done(OPS[nb](Env(tmp, 1)))
            schedule(a, b, i, None)
            res = [a.result(), b.result()]
    with open(sys.argv[4], "w") as f:
        json.dump(res, f)


def cold(na, nb, i):
    with tempfile.TemporaryDirectory(prefix="c22") as tmp:
        p = subprocess.run([sys.executable, "-c", "from mc.props.c22 import cold_main; cold_main()", na, nb, str(i), tmp + "/r"], cwd=VERIF, capture_output=True, text=True, timeout=80)
        if p.returncode:
            raise Violation("%s does not complete in a fresh process" % na, {"stderr": p.stderr[-2000:]})
        with open(tmp + "/r") as f:
            return json.load(f)


COLD = {}


def prepare_cold(names):
    with ThreadPoolExecutor(8) as ex:
        for n, (log, r) in zip(names, ex.map(lambda n: cold(n, n, -1), names)):
            if r != REF[n, 0]:
                raise Violation("%s gives another result in a fresh process" % n, {"got": r[:3000], "later": REF[n, 0][:3000]})
            warm = {tuple(x) for x in LOG[n, 0]}
            COLD[n] = [(k, x) for k, x in enumerate(log) if tuple(x) not in warm]


def sp_cold(names, partners):
    """Stops at the lines an operation passes only when it is the first of its kind in the process."""
    L = [(n, k, x) for n in names for k, x in COLD[n]] or [None]

    def f(ch):
        x = ch.all(L)
        nb = ch.all(partners)
        if x is None:
            raise Prune()
        na, k, (fn, line, _) = x
        ch.state((na, nb, k))
        ra, rb = cold(na, nb, k)
        ch.op(2)
        what = "first %s of the process stopped at line %d of %s, meanwhile %s" % (na, line, fn.split("/ucis/")[-1], nb)
        for n, w, r in ((na, 0, ra), (nb, 1, rb)):
            if r != REF[n, w]:
                raise Violation("%s: %s gives another result than alone" % (what, n), {"got": r[:3000], "alone": REF[n, w][:3000]})
    return f


def spaces(tier):
    q = tier == "quick"
    prepare()
    all_ = sorted(OPS)
    good = [n for n in all_ if not n.endswith("bad") and n not in ("dict", "rxpath", "wxpath")]
    same = [(n, n) for n in good]
    pairs = [(a, b) for a in good for b in good]
    prepare_cold(good)
    out = [
        Space("one-stop", sp_one([(a, b) for a in (good if q else all_) for b in all_], 0 if q else 1), 0,
              "every ordered pair of operations on data of their own: one is stopped in front of every line it passes while the other runs to its end"),
        Space("same-kind", sp_one(same, 2 if q else 10), 0, "the same for two operations of one kind, stops at more passes of every line"),
        Space("shared", sp_one([(a, b) for a in READING for b in READING], 0 if q else 2, True), 0, "the same for operations that read one and the same database"),
        Space("two-stops", sp_two(same if q else pairs, "calls", "calls"), 0,
              "both are stopped once: one at the start of every function, then the other at the start of every function, then the first goes on to its end"),
    ]
    out.append(Space("first-use", sp_cold(good, ["js", "ry", "wx", "rx"] if q else good), 0, "in a fresh process: stops at the lines passed by the first use only"))
    if not q:
        out.append(Space("two-stops-lines", sp_two(same, 0, "calls"), 0, "the first one is stopped in front of every line"))
        out.append(Space("every-pass", sp_one(same, None), 0, "stops at every pass of every line"))
    return out
