"""Test-history model: generator, realiser and observer."""
from collections import namedtuple
from .core import Violation

FIELDS = ("simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "date", "user", "cost",
          "category", "vendor", "tool", "toolver", "same", "comment")
H = namedtuple("H", ("parent", "logical", "physical", "kind", "status") + FIELDS)
SET = dict(simtime="setSimTime", timeunit="setTimeUnit", runcwd="setRunCwd", cputime="setCpuTime", seed="setSeed", cmd="setCmd",
           args="setArgs", compulsory="setCompulsory", date="setDate", user="setUserName", cost="setCost",
           category="setToolCategory", vendor="setVendorId", tool="setVendorTool", toolver="setVendorToolVersion",
           same="setSameTests", comment="setComment")
GET = {f: "g" + s[1:] for f, s in SET.items()}

STR = ["x", "", " ", "a b", " lead", "trail ", "two  blanks", "a\tb", "a\nb", "a\rb", "é", "日本語", "\U0001F600", "a&b", "<x>", "'", '"', "]]>", "&amp;",
       "0", "1", "None", "true", "false", "-1", "dummy", "unknown", "C:\\x\\y", "/a/b.xml", "+seed=1 -v", "x" * 500, "1.0", "ns", "{}", "%s", "\u00a0", "ß"]
FLT = [0.0, 1.0, 0.1, 1e-7, 1e22, 123456.789, 1e300, 5e-324, 1 / 3, 1, 0, 2**53 + 2]
COST = [0.0, 1.0, 0.1, 1e-7, 1e20, 123456.789, 1 / 3, 7, 0, 10**6]
SAME = [0, 1, 2, 2**31, 2**63, 10**20]
DATE = ["20200229235959", "19700101000000", "19691231235959", "20230326023000", "20231029023000", "20240310023000", "20241103013000",
        "19000101000000", "99991231235959", "20000101120000", "20380119031408", "10000101000000"]


def kinds_h():
    from ucis.history_node_kind import HistoryNodeKind as K
    return K


def statuses():
    from ucis.test_status_t import TestStatusT as T
    return T


def gen_nodes(ch, nopts=(1, 0, 2, 3), small=2, full=True, prof_strings=STR):
    """A list of nodes; a parent is any node created earlier."""
    n = ch.pick(list(nopts))
    out = []
    S = lambda d: ch.pick([d] + [x for x in prof_strings if x != d], small)
    O = lambda: ch.pick([None] + prof_strings, small)
    for i in range(n):
        parent = ch.pick([None] if i == 0 else [0, None] + list(range(1, i)))
        out.append(H(
            parent, S("t%d" % i), ch.pick(["file%d.xml" % i, None] + prof_strings, small + 1),
            ch.pick(["TEST", "MERGE", "NONE", None, "other", ""] , 3),
            ch.pick(["OK", "ERROR", "FATAL"]),
            ch.pick([None] + FLT, small), O(), O(), ch.pick([None] + FLT, small), O(), O(), O(), O(),
            ch.pick(["20240102030405"] + DATE, small), O(), ch.pick([None] + COST, small),
            S("cat"), S("vend"), S("tool"), S("1.2"), ch.pick([None] + SAME, small), O()))
    return tuple(out)


def plain_nodes(n, spacing=3):
    return tuple(H(None if i % spacing == 0 else i - 1, "t%d" % i, "f%d.xml" % i, "MERGE" if i % 5 == 4 else "TEST", "OK" if i % 2 else "ERROR",
                   float(i), "ns", "/w%d" % i, i / 7, str(i), "cmd%d" % i, "-a%d" % i, "c%d" % (i % 2), "202401020304%02d" % (i % 60), "u%d" % i, i * 0.5,
                   "cat%d" % i, "v%d" % i, "tl%d" % i, "tv%d" % i, i, "k%d" % i) for i in range(n))


def realise(db, nodes):
    K, T = kinds_h(), statuses()
    made = []
    for h in nodes:
        par = None if h.parent is None else made[h.parent]
        kind = getattr(K, h.kind) if h.kind in ("TEST", "MERGE", "NONE") else h.kind
        n = db.createHistoryNode(par, h.logical, h.physical, kind)
        n.setTestStatus(getattr(T, h.status))
        for f in FIELDS:
            v = getattr(h, f)
            if v is not None:
                getattr(n, SET[f])(v)
        made.append(n)
    return made


def observe_nodes(db):
    K, T = kinds_h(), statuses()
    l = list(db.historyNodes(K.ALL))
    idx = {id(n): i for i, n in enumerate(l)}
    out = []
    for n in l:
        p = n.getParent()
        k = n.getKind()
        out.append(H(None if p is None else idx.get(id(p), "foreign"), n.getLogicalName(), n.getPhysicalName(),
                     K(k).name if isinstance(k, K) else k, "OK" if n.getTestStatus() == T.OK else "FAIL",
                     *[getattr(n, GET[f])() for f in FIELDS]))
    return tuple(out)


def want_nodes(nodes):
    """Nodes as they have to come back (unset numbers are -1, unset texts None)."""
    out = []
    for h in nodes:
        d = h._asdict()
        for f in ("simtime", "cputime", "cost", "same"):
            if d[f] is None:
                d[f] = -1
        for f in ("simtime", "cputime", "cost"):
            d[f] = float(d[f])
        d["status"] = "OK" if h.status == "OK" else "FAIL"
        out.append(H(**d))
    return tuple(out)


def norm_got(nodes):
    out = []
    for h in nodes:
        d = h._asdict()
        for f in ("simtime", "cputime", "cost"):
            v = d[f]
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Violation("history node %r: %s is %r, not a number" % (h.logical, f, v))
            d[f] = float(v)
        if type(d["same"]) is not int:
            raise Violation("history node %r: same-tests count is %r" % (h.logical, d["same"]))
        out.append(H(**d))
    return tuple(out)


def check_kinds(db, nodes):
    """Each node is found when nodes of its kind are asked for, in order."""
    K = kinds_h()
    allv = list(db.historyNodes(K.ALL))
    for k in (K.TEST, K.MERGE):
        want = [n for n, h in zip(allv, nodes) if h.kind == k.name]
        for what, got in (("historyNodes", list(db.historyNodes(k))), ("getHistoryNodes", list(db.getHistoryNodes(k)))):
            if [id(x) for x in got] != [id(x) for x in want]:
                raise Violation("%s(%s) yields %r, should yield %r" % (
                    what, k.name, [x.getLogicalName() for x in got], [x.getLogicalName() for x in want]))
