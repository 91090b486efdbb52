"""Thin drivers of the real operations, and plain-data views of their results."""
import io, json, re
from collections import namedtuple
from .core import Violation
from .model import *

RBin = namedtuple("RBin", "name goal count hit")
RCP = namedtuple("RCP", "name weight cov bins ignore illegal")
RCR = namedtuple("RCR", "name weight cov bins")
RCG = namedtuple("RCG", "name weight cov cps crs cgs")
REP = namedtuple("REP", "cov cgs")


def build_report(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return CoverageReportBuilder.build(db)


def _rbins(l):
    return tuple(RBin(b.name, b.goal, b.count, bool(b.hit)) for b in l)


def obs_report(r):
    def cg(g):
        return RCG(g.name, g.weight, g.coverage,
                   tuple(RCP(c.name, c.weight, c.coverage, _rbins(c.bins), _rbins(c.ignore_bins),
                             _rbins(c.illegal_bins)) for c in g.coverpoints),
                   tuple(RCR(c.name, c.weight, c.coverage, _rbins(c.bins)) for c in g.crosses),
                   tuple(cg(x) for x in g.covergroups))
    return REP(r.coverage, tuple(cg(g) for g in r.covergroups))


def want_report(m):
    """The report the definitions prescribe for model m (exact fractions)."""
    def bins(bs, k):
        return tuple(RBin(b.name, b.at, b.count, b.count >= b.at) for b in bs if b.kind == k)

    def pts(s):
        return (tuple(RCP(c.name, c.weight, cov_point(c), bins(c.bins, "B"), bins(c.bins, "I"), bins(c.bins, "L"))
                      for c in s.cps),
                tuple(RCR(c.name, c.weight, cov_point(c), bins(c.bins, "B")) for c in s.crs))

    def cg(g):
        cps, crs = pts(g)
        return RCG(g.name, g.weight, cov_group(g), cps, crs, tuple(cg(c) for c in getattr(g, "cis", ())))
    return REP(cov_total(m), tuple(cg(g) for i in all_insts(m) for g in i.cgs))


def close(a, b, tol=1e-9):
    try:
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


def strip_cov(r):
    """Report structure without the percentages."""
    def cg(g):
        return g._replace(cov=None, cps=tuple(c._replace(cov=None) for c in g.cps),
                          crs=tuple(c._replace(cov=None) for c in g.crs), cgs=tuple(cg(x) for x in g.cgs))
    return REP(None, tuple(cg(g) for g in r.cgs))


def covs(r):
    """(path, coverage) of every item of a report, in order."""
    out = [("total", r.cov)]

    def cg(g, p):
        p = p + "/" + str(g.name)
        out.append((p, g.cov))
        for c in g.cps:
            out.append((p + "/cp:" + str(c.name), c.cov))
        for c in g.crs:
            out.append((p + "/cross:" + str(c.name), c.cov))
        for k, x in enumerate(g.cgs):
            cg(x, p + "/inst%d" % k)
    for k, g in enumerate(r.cgs):
        cg(g, str(k))
    return out


def check_covs(got, want, what):
    a, b = covs(got), covs(want)
    if [x[0] for x in a] != [x[0] for x in b]:
        raise Violation("%s: items differ from the database" % what, {"got": repr(got), "want": repr(want)})
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, bool) or not isinstance(x, (int, float)) or not close(x, y):
            raise Violation("%s: %s is %r, should be %r (%s)" % (what, p, x, float(y), y),
                            {"got": repr(got), "want": repr(want)})


# ------------------------------------------------------------- text reports
_NUM = re.compile(r"^-?\d+(?:\.(\d+))?$")


def check_text(text, rep, details=False, by_hit=False, rnd=2, allow_total=False, exact=False):
    """The text report states exactly the items of rep (REP)."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    pos = [0]
    ind = {}

    def fail(msg):
        raise Violation("text report: " + msg + " at line %d" % (pos[0] + 1),
                        {"line": repr(lines[pos[0]]) if pos[0] < len(lines) else "<end>", "text": text[:6000],
                         "report": repr(rep)[:6000]})

    def nxt():
        if pos[0] >= len(lines):
            fail("ends too early")
        return lines[pos[0]]

    def indent(s, depth):
        n = len(s) - len(s.lstrip(" "))
        chk_indent(n, depth)

    def chk_indent(n, depth):
        if ind.setdefault(depth, n) != n:
            fail("inconsistent indentation")
        for d, k in ind.items():
            if (d < depth and k >= n) or (d > depth and k <= n):
                fail("indentation does not show the nesting")

    def item(kind, name, cov, depth):
        s = nxt()
        indent(s, depth)
        body = s.lstrip(" ")
        head = "%s %s : " % (kind, name)
        if not body.startswith(head) or not body.endswith("%"):
            fail("expected %s %r" % (kind, name))
        num = body[len(head):-1]
        mt = _NUM.match(num)
        if not mt:
            fail("percentage %r is not a number" % num)
        if len(mt.group(1) or "") < rnd:
            fail("percentage %r has fewer than %d decimals" % (num, rnd))
        if exact and len(mt.group(1) or "") != rnd:
            fail("percentage %r has not %d decimals" % (num, rnd))
        if abs(Fraction(num) - Fraction(cov)) > Fraction(1, 2 * 10 ** rnd) + Fraction(1, 10 ** 9):
            fail("percentage %s differs from %s" % (num, float(cov)))
        pos[0] += 1

    def bins(label, bs, depth, optional):
        if not bs and (optional or pos[0] >= len(lines) or lines[pos[0]].strip(" ") != label):
            return
        s = nxt()
        if s.strip(" ") != label:
            fail("expected %r" % label)
        hd = len(s) - len(s.lstrip(" "))
        if hd < ind[depth]:
            fail("bin heading indented less than its item")
        pos[0] += 1
        order = [b for b in bs if b.hit] + [b for b in bs if not b.hit] if by_hit else bs
        for b in order:
            s = nxt()
            tail = "%s : %d" % (b.name, b.count)
            if not s.endswith(tail) or s[:len(s) - len(tail)].strip(" "):
                fail("expected bin %r with count %d" % (b.name, b.count))
            if len(s) - len(tail) <= hd:
                fail("bin not indented below its heading")
            pos[0] += 1

    def group(g, depth, kind):
        item(kind, g.name, g.cov, depth)
        for c in g.cps:
            item("CVP", c.name, c.cov, depth + 1)
            if details:
                bins("Bins:", c.bins, depth + 1, False)
                bins("IgnoreBins:", c.ignore, depth + 1, True)
                bins("IllegalBins:", c.illegal, depth + 1, True)
        for c in g.crs:
            item("CROSS", c.name, c.cov, depth + 1)
            if details:
                bins("Bins:", c.bins, depth + 1, False)
        for x in g.cgs:
            group(x, depth + 1, "INST")
    for g in rep.cgs:
        group(g, 0, "TYPE")
    if pos[0] != len(lines):
        fail("unexpected additional output")


def text_report(db, details=False, by_hit=False, args=None, fmt=None):
    from ucis.report.format_rpt_text import FormatRptText
    f = fmt or FormatRptText()
    f.details = details
    f.order_bins_by_hit = by_hit
    out = io.StringIO()
    f.report(db, out, [] if args is None else args)
    return out.getvalue()


def text_formatter(report, details=False, by_hit=False, rnd=None):
    from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
    out = io.StringIO()
    f = TextCoverageReportFormatter(report, out)
    f.details = details
    f.order_bins_by_hit = by_hit
    if rnd is not None:
        f.round = rnd
    f.report()
    return out.getvalue()


# ------------------------------------------------------------- JSON reports
def json_report(db, fmt=None):
    from ucis.report.format_rpt_json import FormatRptJson
    out = io.StringIO()
    (fmt or FormatRptJson()).report(db, out, [])
    return out.getvalue()


def _strict(text):
    def pairs(l):
        d = {}
        for k, v in l:
            if k in d:
                raise Violation("JSON report repeats the key %r" % k, text[:4000])
            d[k] = v
        return d

    def const(c):
        raise Violation("JSON report contains the non-JSON constant %s" % c, text[:4000])
    try:
        return json.loads(text, object_pairs_hook=pairs, parse_constant=const)
    except ValueError as e:
        raise Violation("JSON report is not valid JSON: %s" % e, text[:4000])


def check_json(text, rep, details=True):
    d = _strict(text)

    def fail(path, msg):
        raise Violation("JSON report: %s: %s" % (path, msg), {"json": text[:6000], "report": repr(rep)[:6000]})

    def lst(o, key, n, path):
        v = o.get(key)
        if v is None:
            v = []
        if not isinstance(v, list) or len(v) != n:
            fail(path, "%s has %s entries, should have %d" % (key, len(v) if isinstance(v, list) else v, n))
        return v

    def val(o, key, want, path):
        v = o.get(key)
        if type(v) is not type(want) or v != want:
            fail(path, "%s is %r, should be %r" % (key, v, want))

    def cov(o, want, path):
        v = o.get("coverage")
        if isinstance(v, bool) or not isinstance(v, (int, float)) or not close(v, want):
            fail(path, "coverage is %r, should be %r" % (v, float(want)))

    def known(o, keys, path):
        for k, v in o.items():
            if k not in keys and (isinstance(v, (list, dict)) and v):
                fail(path, "unexpected content %r" % k)

    def bins(o, key, bs, path):
        for b, w in zip(lst(o, key, len(bs), path), bs):
            val(b, "name", w.name, path + "/" + key)
            val(b, "count", w.count, path + "/" + key + "/" + w.name)
            val(b, "goal", w.goal, path + "/" + key + "/" + w.name)
            known(b, (), path)

    def group(o, g, path):
        path += "/" + g.name
        val(o, "name", g.name, path)
        cov(o, g.cov, path)
        known(o, ("coverpoints", "crosses", "covergroups"), path)
        for c, w in zip(lst(o, "coverpoints", len(g.cps), path), g.cps):
            p = path + "/" + w.name
            val(c, "name", w.name, p)
            cov(c, w.cov, p)
            known(c, ("bins", "ignorebins", "illegalbins"), p)
            bins(c, "bins", w.bins, p)
            bins(c, "ignorebins", w.ignore, p)
            bins(c, "illegalbins", w.illegal, p)
        for c, w in zip(lst(o, "crosses", len(g.crs), path), g.crs):
            p = path + "/" + w.name
            val(c, "name", w.name, p)
            cov(c, w.cov, p)
            known(c, ("bins",), p)
            bins(c, "bins", w.bins, p)
        for c, w in zip(lst(o, "covergroups", len(g.cgs), path), g.cgs):
            group(c, w, path)
    cov(d, rep.cov, "total")
    known(d, ("covergroups",), "root")
    for o, g in zip(lst(d, "covergroups", len(rep.cgs), "root"), rep.cgs):
        group(o, g, "")


# ------------------------------------------------------------- XML
def xml_write(db, writer=None):
    """Document text written for db."""
    from ucis.xml.xml_writer import XmlWriter
    out = io.StringIO()
    (writer or XmlWriter()).write(out, db)
    return out.getvalue()


def xml_read(text, reader=None):
    from ucis.xml.xml_reader import XmlReader
    return (reader or XmlReader()).loads(text)


def xml_factory_read(data):
    """Validating read, as the commands do it."""
    from ucis.xml.xml_factory import XmlFactory
    return XmlFactory.read(io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data))


# ------------------------------------------------------------- hits
def points_of(db):
    """All coverpoint and cross scopes of a real database, in order."""
    u = api()
    out = []

    def pts(s):
        out.extend(s.scopes(u.UCIS_COVERPOINT))
        out.extend(s.scopes(u.UCIS_CROSS))

    def insts(s):
        for i in s.scopes(u.UCIS_INSTANCE):
            for g in i.scopes(u.UCIS_COVERGROUP):
                pts(g)
                for c in g.scopes(u.UCIS_COVERINSTANCE):
                    pts(c)
            insts(i)
    insts(db)
    return out


def all_items(db):
    """All bins of a real database, in order of points_of."""
    mask = 0
    for v in kinds().values():
        mask |= v
    return [x for p in points_of(db) for x in p.coverItems(mask)]


def map_bins(m, f):
    """Model m with every bin replaced by f(k, bin), k counting in order of all_items."""
    n = [0]

    def bs(l):
        out = []
        for b in l:
            out.append(f(n[0], b))
            n[0] += 1
        return tuple(out)

    def sc(s):
        return s._replace(cps=tuple(c._replace(bins=bs(c.bins)) for c in s.cps),
                          crs=tuple(c._replace(bins=bs(c.bins)) for c in s.crs))

    def cg(g):
        g = sc(g)
        return g._replace(cis=tuple(sc(c) for c in g.cis))

    def insts(l):
        return tuple(i._replace(cgs=tuple(cg(g) for g in i.cgs), subs=insts(i.subs)) for i in l)
    return DB(insts(m.insts))


def n_bins(m):
    k = [0]

    def f(i, b):
        k[0] = i + 1
        return b
    map_bins(m, f)
    return k[0]


def hit(m, k, amt):
    return map_bins(m, lambda i, b: b._replace(count=b.count + amt) if i == k else b)
