"""C10: XML round trip of the test history."""
import os, tempfile, time
from ..core import *
from ..model import *
from ..gen import *
from ..ops import *
from ..hist import *
from ..xmlref import *
from .c08 import produce, PATHS
from .c09 import read_back

ASSUMPTIONS = ["texts hold XML characters", "passed and failed are the only statuses the format knows (OK against ERROR, FATAL)",
               "dates in the library's YYYYMMDDHHMMSS form, years 1000..9999", "cost up to 1e20"]

TZS = ["UTC", "X-14", "X12", "X-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"]


def set_tz(tz):
    os.environ["TZ"] = tz
    time.tzset()


def check_nodes(got, want, what):
    if len(got) != len(want):
        raise Violation("%s: %d history nodes, should be %d" % (what, len(got), len(want)), repr((got, want))[:4000])
    for i, (a, b) in enumerate(zip(norm_got(got), want)):
        for f in H._fields:
            x, y = getattr(a, f), getattr(b, f)
            if x != y or (isinstance(y, str) and type(x) is not str):
                raise Violation("%s: node %d: %s is %r, should be %r" % (what, i, f, x, y))


def run(ch, nodes, wpath="stringio", rpath="loads", tz=None, m=None):
    m = m or wide_db(1, 1, 1, 0, 1, 1)
    if wpath == "xmlucis":
        from ucis.xml.xml_ucis import XmlUCIS
        db = build(m, XmlUCIS())
    else:
        db = build(m)
    old = os.environ.get("TZ")
    try:
        if tz:
            set_tz(tz[0])
        realise(db, nodes)
        with tempfile.TemporaryDirectory(prefix="c10") as tmp:
            data = produce(db, wpath, tmp)
            if tz:
                set_tz(tz[1])
            back = read_back(data, rpath, tmp)
        ch.op(len(nodes) + 2)
        want = want_nodes(nodes)
        if not nodes:
            # the format requires a node: one stand-in may appear
            if len(observe_nodes(back)) > 1:
                raise Violation("history nodes invented: %r" % (observe_nodes(back),))
        else:
            check_nodes(observe_nodes(db), want, "database written")
            check_nodes(observe_nodes(back), want, "read back")
            check_kinds(back, nodes)
            second = observe_nodes(xml_read(xml_write(back)))
            check_nodes(second, want, "second round trip")
        if observe(back) != rt(m):
            raise Violation("coverage changed", diff(observe(back), rt(m)))
    finally:
        if tz:
            if old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old
            time.tzset()
    ch.outcome = len(data)


def sp_fields(nopts, small):
    def f(ch):
        nodes = gen_nodes(ch, nopts, small)
        ch.state(nodes)
        run(ch, nodes)
    return f


def sp_paths():
    def f(ch):
        nodes = plain_nodes(ch.all([0, 1, 2, 6]))
        w = ch.all(PATHS)
        r = ch.all(["loads", "factory", "file"])
        ch.state((len(nodes), w, r))
        run(ch, nodes, w, r)
    return f


def sp_tz():
    def f(ch):
        tz = (ch.all(TZS), ch.all(TZS))
        base = plain_nodes(1)[0]
        nodes = tuple(base._replace(date=d, logical="t%d" % i) for i, d in enumerate(DATE))
        ch.state(tz)
        run(ch, nodes, tz=tz)
    return f


def sp_forest(nmax):
    """Every forest (parent created before the child) of up to nmax nodes, with kinds and statuses."""
    def f(ch):
        n = ch.all(list(range(1, nmax + 1)))
        base = plain_nodes(n)
        same = ch.all([False, True])
        nodes = []
        for i in range(n):
            p = ch.all([None] + list(range(i)))
            k = ch.all(["TEST", "MERGE"]) if n < 5 else ("TEST", "MERGE")[i % 2]
            s = ch.all(["OK", "ERROR"]) if n < 4 else ("OK", "FATAL", "ERROR")[i % 3]
            h = base[i]._replace(parent=p, kind=k, status=s)
            if same:        # look-alike nodes
                h = base[0]._replace(parent=p, kind=k, status=s)
            nodes.append(h)
        ch.state(tuple(nodes))
        run(ch, tuple(nodes))
    return f


def sp_presence(deep):
    """Which optional fields are set: every subset of size <=2 or its complement."""
    opt = ["physical", "simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "user", "cost", "same", "comment"]

    def f(ch):
        inv = ch.all([False, True])
        a = ch.all([None] + opt)
        b = ch.all([None] + opt)
        c = ch.all([None] + opt) if deep else None
        s = {x for x in (a, b, c) if x}
        full = plain_nodes(3)
        nodes = tuple(h._replace(**{o: None for o in opt if (o in s) != inv}) if i == 1 else h for i, h in enumerate(full))
        ch.state(nodes)
        run(ch, nodes)
    return f


def sp_many():
    def f(ch):
        n = ch.all([9, 10, 11, 12, 50, 120, 300])
        sp = ch.all([1, 2, 7, 1000])
        ch.state((n, sp))
        run(ch, plain_nodes(n, sp))
    return f


def spaces(tier):
    q = tier == "quick"
    return [
        Space("fields", sp_fields((1, 0, 2, 3), 2), 1, "every field value alone"),
        Space("paths", sp_paths(), 0, "all writer x reader paths"),
        Space("zones", sp_tz(), 0, "writer zone x reader zone, all dates"),
        Space("forests", sp_forest(4 if q else 5), 0, "all forests with kinds and statuses"),
        Space("presence", sp_presence(not q), 0, "subsets of the optional fields"),
        Space("many", sp_many(), 0, ""),
        Space("fields-2", sp_fields((2,), 3 if q else 6), 2, "pairs of field values"),
    ]
