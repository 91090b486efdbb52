"""C08: XML output conforms to the schema."""
import io, os, re, subprocess, sys, tempfile, time
from lxml import etree
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import size, gen_forest
from ..ops import *
from ..hist import *
from ..xmlref import *

ASSUMPTIONS = ["names and texts hold only characters XML 1.0 can represent", "integers up to 20 digits (libxml2's validator has a digit limit)",
               "documents are judged namespace-stripped by an unmodified copy of the UCIS schema and by the bundled one"]

CNT = [c for c in COUNTS if c < 10**20]
PATHS = ["stringio", "writer-reused", "file", "stream", "xmlucis"]
VOLATILE = re.compile(r'(writtenTime|date)="[^"]*"')


def produce(db, path, tmp):
    """Write db along one of the public paths; return the document as bytes."""
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_writer import XmlWriter
    if path == "stringio":
        return xml_write(db).encode("utf-8")
    if path == "writer-reused":
        w = XmlWriter()
        other = build(DB((INST("zz", "zdu", 1, (CG("zg", 1, (CP("zp", 1, (Bin("zb", "B", 1, 1),)),), (), ()),)),)),
                      src=srcs(["z.sv"], 3))
        xml_write(other, w)
        return xml_write(db, w).encode("utf-8")
    if path == "stream":
        o = io.StringIO()
        XmlFactory.write(db, o)
        return o.getvalue().encode("utf-8")
    p = os.path.join(tmp, "o.xml")
    if path == "file":
        XmlFactory.write(db, p)
    else:
        db.write(p)
    with open(p, "rb") as f:
        return f.read()


def srcs(files, mode):
    """Source locations cycling over files (mode: distance between references)."""
    from ucis.source_info import SourceInfo
    n = [0]

    def f(db):
        n[0] += 1
        x = files[(n[0] // max(1, mode)) % len(files)]
        if x is None:
            return None
        fh = None if x == "nofile" else db.createFileHandle(x, "/w")
        return SourceInfo(fh, n[0] * 3, n[0])
    return f


def used_files(db):
    from ucis.scope_type_t import ScopeTypeT
    out = []

    def walk(s):
        for c in s.scopes(ScopeTypeT.ALL):
            i = c.getSourceInfo()
            if i is not None and i.file is not None:
                out.append(i.file.getFileName())
            walk(c)
    walk(db)
    return out


def check_doc(data, m, files, what):
    try:
        root = etree.fromstring(data)
    except (etree.XMLSyntaxError, ValueError) as e:
        raise Violation("%s: not well-formed: %s" % (what, e), data[:3000].decode("utf-8", "replace"))
    r = conforms(data)
    if r:
        raise Violation("%s: %s" % (what, r), data[:4000].decode("utf-8", "replace"))
    from ucis.xml import validate_ucis_xml
    try:
        validate_ucis_xml(io.BytesIO(data))
    except Exception as e:
        raise Violation("%s: bundled validation rejects it: %s" % (what, e), data[:4000].decode("utf-8", "replace"))
    root = parse(data)
    sf = [(e.get("fileName"), int(e.get("id"))) for e in root.findall("sourceFiles")]
    ids = [i for _, i in sf]
    if len(set(ids)) != len(ids):
        raise Violation("%s: source file ids are not unique: %r" % (what, sf))
    names = [n for n, _ in sf]
    want = list(dict.fromkeys(files))
    extra = [n for n in names if n not in want]
    if [x for x in extra if x != "__null__file__"] or any(names.count(n) != 1 for n in want) or len(extra) > 1:
        raise Violation("%s: source files listed %r, referenced %r" % (what, names, want))
    for e in root.iter():
        if e.get("file") is not None and int(e.get("file")) not in ids:
            raise Violation("%s: reference to undeclared source file %s" % (what, e.get("file")), data[:4000].decode())
    hid = [e.get("historyNodeId") for e in root.findall("historyNodes")]
    if len(set(hid)) != len(hid):
        raise Violation("%s: history node ids are not unique: %r" % (what, hid))
    for e in root.findall("historyNodes"):
        if e.get("parentId") is not None and e.get("parentId") not in hid:
            raise Violation("%s: parentId %s does not exist" % (what, e.get("parentId")))
    # the document states the coverage of the database
    if doc_model(root) != rt(m):
        raise Violation("%s: document states other coverage" % what, diff(doc_model(root), rt(m)))
    return root


def run(ch, m, nodes=(), src=None, paths=PATHS, deco=0):
    path = ch.all(paths) if len(paths) > 1 else paths[0]
    if path == "xmlucis":
        from ucis.xml.xml_ucis import XmlUCIS
        db = build(m, XmlUCIS(), src)
    else:
        db = build(m, None, src)
    realise(db, nodes)
    if deco:
        decorate(db, deco)
    before, hb, was = observe(db), observe_nodes(db), full(db)
    files = used_files(db)
    with tempfile.TemporaryDirectory(prefix="c08") as tmp:
        a = produce(db, path, tmp)
        check_doc(a, m, files, path)
        if observe(db) != before or observe(db) != m:
            raise Violation("writing changed the database", diff(observe(db), m))
        if observe_nodes(db) != hb:
            raise Violation("writing changed the history")
        if full(db) != was:
            raise Violation("writing changed an attribute of the database", diff(plain(full(db)), plain(was)))
        b = produce(db, path, tmp)
    if VOLATILE.sub("", a.decode("utf-8")) != VOLATILE.sub("", b.decode("utf-8")):
        raise Violation("second write differs", {"first": a.decode()[:4000], "second": b.decode()[:4000]})
    ch.op(size(m) + 2)
    ch.outcome = len(a)


def sp_db(prof, paths):
    def f(ch):
        m = gen_xml_db(ch, prof)
        ch.state(m)
        run(ch, m, paths=paths)
    return f


def sp_attributes(prof):
    """Goals, options and thresholds of the scopes differ from those of the bins."""
    def f(ch):
        m = gen_xml_db(ch, prof)
        ch.state(m)
        run(ch, m, paths=["stringio"], deco=ch.all([1, 2]))
    return f


def sp_hierarchy(n):
    """Every design hierarchy of up to n instances, each with or without covergroups, source files anywhere."""
    def f(ch):
        one = wide_db(1, 1, 1, 1, 1, 1, 1).insts[0].cgs
        m = gen_forest(ch, n, lambda ch, k: one if ch.all([True, False]) else ())
        files = ch.all([[None], ["a.sv", "b.sv", "c.sv"]])
        ch.state((m, tuple(files)))
        run(ch, m, (), srcs(files, 1), ch.all([["stringio"], ["writer-reused"], ["xmlucis"]]))
    return f


def sp_look(every):
    def f(ch):
        m = look_db(ch, every)
        ch.state(m)
        run(ch, m, paths=["stringio"])
    return f


def sp_depth(tops):
    def f(ch):
        m = deep_db(ch.all(tops), 0, ch.all([True, False]), at=1)
        files = ch.all([[None], ["a.sv", "b.sv", "c.sv"]])
        ch.state((m, tuple(files)))
        run(ch, m, (), srcs(files, 1), ["stringio"])
    return f


def sp_hist():
    m = wide_db(1, 1, 1, 0, 1, 1)

    def f(ch):
        nodes = gen_nodes(ch, (1, 0, 2, 3, 5))
        ch.state(nodes)
        run(ch, m, nodes, paths=PATHS[:2] + PATHS[3:])
    return f


FN = ["a.sv", "b.sv", "a b.sv", "A.sv", "dir/a.sv", "__null__file__", "é.sv", "a&b.sv", "", "nofile", None]


def sp_files():
    m = wide_db(2, 2, 2, 1, 1, 2)

    def f(ch):
        n = ch.all([1, 2, 3])
        files = [ch.all(FN) for _ in range(n)]
        mode = ch.all([1, 2, 7])
        ch.state((tuple(files), mode))
        run(ch, m, (), srcs(files, mode), ["stringio"])
    return f


def sp_many_files():
    m = wide_db(3, 3, 3, 1, 2, 2)

    def f(ch):
        n = ch.all([1, 4, 9, 10, 11, 40, 200])
        mode = ch.all([1, 3])
        ch.state((n, mode))
        run(ch, m, (), srcs(["f%d.sv" % i for i in range(n)], mode), ["stringio", "file", "writer-reused"])
    return f


def sp_shapes():
    """Full product over small shapes (kinds, multiplicities)."""
    def f(ch):
        nci = ch.all([0, 1, 2])
        ncp = ch.all([1, 2])
        ncr = ch.all([0, 1, 2])
        nb = ch.all([1, 2, 3])
        ncb = ch.all([0, 1, 2])
        kinds = ch.all(["B", "I", "L", "BIL", "LIB"])
        ng = ch.all([0, 1, 2])
        m = wide_db(ch.all([1, 2]), ng, ncp, ncr, nci, nb, ncb, kinds=kinds)
        ch.state(m)
        run(ch, m, paths=["stringio"])
    return f


ENVSCRIPT = r'''
import sys, os, io
sys.path.insert(0, sys.argv[1])
from mc.model import *
from mc.props.c08 import srcs
from ucis.xml.xml_factory import XmlFactory
from ucis.xml.xml_ucis import XmlUCIS
n = eval(sys.argv[2])
m = DB((INST(n, n, 1, (CG(n, 1, (CP(n, 1, (Bin(n, "B", 1, 1),)),), (), ()),)),))
src = srcs([n], 1)
if sys.argv[4] == "file":
    XmlFactory.write(build(m, None, src), sys.argv[3])
else:
    build(m, XmlUCIS(), src).write(sys.argv[3])
'''


def sp_env():
    """Locale and time zone of the process do not matter for files."""
    def f(ch):
        n = ch.all(["a", "é", "日本語", "\U0001F600", "\u00a0"])
        env = ch.all(["ascii", "utf8", "tz+14", "tz-12", "nouser"])
        path = ch.all(["file", "xmlucis"])
        ch.state((n, env, path))
        e = dict(os.environ)
        if env == "ascii":
            e.update(PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", LC_ALL="C", LANG="C")
        elif env == "tz+14":
            e["TZ"] = "X-14"
        elif env == "tz-12":
            e["TZ"] = "X12"
        elif env == "nouser":
            for k in ("USER", "LOGNAME", "LNAME", "USERNAME"):
                e.pop(k, None)
        with tempfile.TemporaryDirectory(prefix="c08") as tmp:
            out = os.path.join(tmp, "o.xml")
            r = subprocess.run([sys.executable, "-c", ENVSCRIPT, VERIF, ascii(n), out, path], env=e, capture_output=True, cwd=tmp)
            ch.op()
            if r.returncode:
                raise Violation("writing failed in environment %s" % env, r.stderr.decode("utf-8", "replace")[-2000:])
            with open(out, "rb") as fp:
                data = fp.read()
        m = DB((INST(n, n, 1, (CG(n, 1, (CP(n, 1, (Bin(n, "B", 1, 1),)),), (), ()),)),))
        check_doc(data, m, [n], env)
    return f


def spaces(tier):
    q = tier == "quick"
    P = dict(min_bins=1, min_cps=1, inst_w=[1, 2, 3], per_bin_at=False, counts=CNT)
    return [
        Space("databases", sp_db(Prof(**P), ["stringio"]), 1, "all one-deviation databases"),
        Space("three-deviations", sp_db(tiny(**{k: v for k, v in P.items() if k != "counts" and k != "inst_w"}), ["stringio"]), 3 if q else 4, "tiny alphabets"),
        Space("paths", sp_db(Prof(names=NAMES[:24], nsmall=1, csmall=2, cp_w=[1, 2], ci_w=[1, 0, 2], cr_w=[1, 0], bin_w=[1, 2], crb_w=[1, 0, 2],
                                  **{k: v for k, v in P.items()}), PATHS), 1, "all writer paths"),
        Space("attributes", sp_attributes(tiny(**{k: v for k, v in P.items() if k != "counts" and k != "inst_w"})), 1 if q else 2, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("hierarchy", sp_hierarchy(3 if q else 5), 0, "all design hierarchies"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("depth", sp_depth([1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("history", sp_hist(), 1, "history nodes, one deviation"),
        Space("files", sp_files(), 0, "all assignments of up to 3 source files"),
        Space("many-files", sp_many_files(), 0, ""),
        Space("shapes", sp_shapes(), 0, "full product of small shapes"),
        Space("environments", sp_env(), 0, "locale, zone and user environment of the writing process"),
    ] + ([] if q else [Space("databases-2", sp_db(Prof(nsmall=2, names=["é", "a b"], csmall=2, wsmall=2, **P), ["stringio"]), 2, ""),
                       Space("history-2", sp_hist(), 2, "")])
