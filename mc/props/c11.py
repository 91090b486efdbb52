"""C11: conforming documents of other tools are read with the right meaning."""
import os, subprocess, sys, tempfile
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import size
from ..ops import *
from ..hist import observe_nodes
from ..xmlref import *
from ..xmldoc import *
from .c08 import CNT

ASSUMPTIONS = ["distinct sibling names (covergroup types: within one section)", "one range or sequence element per bin", "file ids and parent ids refer to listed entries, an instance is listed after the one it is nested in",
               "years of four digits", "integers up to 20 digits", "documents are generated from a document model; the schema's verdict is asserted on each"]


def unnamed(got, want):
    """An instance without a module name belongs to none of the modules the document names."""
    named = {i.du for i in all_insts(want)}
    if any(i.subs for i in want.insts) or len(got.insts) != len(want.insts):
        return got
    return DB(tuple(g._replace(du=None) if w.du is None and g.du not in named else g for g, w in zip(got.insts, want.insts)))


def run(ch, doc, st, how):
    text = serialise(tree(doc, st), st)
    data = encode(text, st)
    bad = conforms(data)
    if bad:
        raise RuntimeError("harness: generated document is not conforming: %s\n%s" % (bad, text[:3000]))
    want = meaning(doc)
    if doc_model(parse(data)) != want:
        raise RuntimeError("harness: document does not state its model: %s" % diff(doc_model(parse(data)), want))
    with tempfile.TemporaryDirectory(prefix="c11") as tmp:
        try:
            db = read(data, how, tmp, st.enc)
        except Exception as e:
            raise Violation("conforming document rejected (%s, %s): %s: %s" % (how, st.key(), type(e).__name__, e), text[:5000])
    ch.op(size(want) + 1)
    got = observe(db)
    t = typed(got)
    if t:
        raise Violation("values of the wrong type: " + t)
    got = unnamed(got, want)
    if got != want:
        raise Violation("document misread (%s, %s)" % (how, st.key()), {"difference got/want": diff(got, want), "doc": text[:5000]})
    nodes = observe_nodes(db)
    pos = {h.id: k for k, h in enumerate(doc.hist)}
    exp = [(h.name, None if h.parent is None else pos[h.parent], "OK" if h.status else "FAIL",
            h.date.replace("-", "").replace(":", "").replace("T", ""), float(h.simtime)) for h in doc.hist]
    gh = [(n.logical, n.parent, n.status, n.date, n.simtime) for n in nodes]
    if repr(gh) != repr(exp):
        raise Violation("history misread (%s, %s): %r instead of %r" % (how, st.key(), gh, exp), text[:3000])
    ch.outcome = len(data)


HIST1 = (DHIST(0, None, "t0", True, "2024-01-02T03:04:05", "12.5"),)
HIST3 = (DHIST(7, 3, "child", True, "2024-02-29T23:59:59", "1E3"), DHIST(3, None, "merge é", False, "1999-12-31T00:00:00", "0"),
         DHIST(0, 7, "grand", False, "2001-01-01T12:00:00", "INF"))
B = Bin


def base(k):
    if k == 0:
        ci = CI("i", 1, (CP("p", 1, (B("a", "B", 1, 0), B("b", "I", 1, 3))), CP("q q", 2, (B("é", "B", 3, 5), B("a", "L", 3, 1)))),
                (CR("x", 1, ("q q", "p"), (B("<a,b>", "B", 1, 2), B("n", "I", 1, 4))), CR("y", 4, ("p",), ())))
        return DOC((DINST("top", "m", (DSEC(1, (("g", ci),)),)),), HIST1)
    if k == 1:
        mk = lambda n, c, w=1: CI(n, w, (CP("p", 1, (B("a", "B", 1, c), B("b", "B", 1, 2 * c), B("b", "L", 1, c))),), (CR("x", 2, ("p", "p"), (B("y", "B", 2, c), B("z", "L", 2, 9))),))
        return DOC((DINST("top", "m&1", (DSEC(5, (("g", mk("i", 1)), ("h", mk("i2", 10, 3)), ("g", mk("j", 100)), ("h", mk("k", 1000)))), DSEC(1, (("g2", mk("i", 3)),)))),
                    DINST("u", "m&1", ()), DINST("v", "n", (DSEC(2, ()), DSEC(0, (("g", mk("日本", 7)),))))), HIST3)
    if k == 3:
        one = lambda n, c: (DSEC(1, (("g", CI(n, 1, (CP("p", 1, (B("a", "B", 1, c),)),), ())),)),)
        return DOC((DINST("top", "m", one("i", 1)), DINST("u", None, one("i", 2)), DINST("v", "n", ()), DINST("w", None, one("j", 3))), HIST1)
    a = CI("a", 1, (CP("p", 1, (B("a", "B", 2, 1),)),), ())
    b = CI("b", 1, (CP("q", 1, (B("a", "B", 1, 1),)), CP("p", 1, (B("b", "B", 2, 2), B("a", "B", 2, 3)))), (CR("x", 1, ("q", "p"), (B("1", "B", 1, 6),)),))
    c = CI("c", 1, (CP("r", 1, (B("a", "I", 1, 1),)), CP("q", 1, (B("c", "L", 1, 1),)), CP("p", 1, (B("c", "B", 2, 0),))), (CR("x", 1, ("q", "p"), (B("2", "B", 1, 0), B("1", "B", 1, 6))),))
    return DOC((DINST("top", "m", (DSEC(3, (("g", a), ("g", b), ("g", c))),)),), HIST1)


def sp_styles(transports):
    """Base documents x lexical styles (up to `bound` deviating style choices) x transports."""
    def f(ch):
        doc = base(ch.all([0, 1, 2, 3]))
        how = ch.all(transports)
        st = Style(**{k: ch.pick(v) for k, v in Style.opts.items()})
        ch.state((doc, st.key(), how))
        run(ch, doc, st, how)
    return f


ODD = [dict(), dict(ns="prefix", space="wild", misc="comments", quote="'", attr_order="reversed", nums=" %d ", bools="digit", defaults="omitted", empty="long",
                    enc="utf-16", rangeseq="sequence", user="attrs", other="all", dates="%s.5"),
       dict(ns="none", refs="hex", enc="latin-1", defaults="extra", nums="+%d", misc="pis", dates="%s-08:30", rangeseq="mixed")]


def gen_doc(ch, prof):
    m = gen_xml_db(ch, prof)
    insts = []
    for i in m.insts:
        secs = []
        for g in i.cgs:
            cis = g.cis or (CI("solo", 1, g.cps, g.crs),)
            types = ch.pick(["one", "split", "alternate"])
            secs.append(DSEC(g.weight, tuple((g.name if types == "one" or (types == "split" and k == 0) or (types == "alternate" and k % 2 == 0)
                                              else g.name + "2", c) for k, c in enumerate(cis))))
        mod = ch.pick([i.du, None])
        insts.append(DINST(i.name, mod, tuple(secs)))
    if any(d.mod is None for d in insts) and any(d.mod == "default" for d in insts):
        raise Prune()
    return DOC(tuple(insts), HIST1)


def sp_docs(prof, styles, transports):
    def f(ch):
        st = Style(**ch.all(styles)) if len(styles) > 1 else Style(**styles[0])
        how = ch.all(transports) if len(transports) > 1 else transports[0]
        doc = gen_doc(ch, prof)
        ch.state((doc, st.key()))
        run(ch, doc, st, how)
    return f


def sp_hierarchy(n):
    """Every design hierarchy of up to n instances given by instance ids, in every order that lists an instance after
    the one it is nested in; ids of several shapes."""
    def f(ch):
        st = Style(**ch.all([dict(), dict(nums="+%d"), dict(nums=" %d ", attr_order="reversed", ns="none")]))
        ids = ch.all([[0, 1, 2, 3, 4], [7, -3, 10, 0, 10**12]])
        up = []
        for k in range(ch.all(list(range(1, n + 1)))):
            up.append(ch.all([None] + list(range(k))))
        leaf_id = ch.all([True, False])
        insts, names = [], {}
        for k, p in enumerate(up):
            s = names.setdefault(p, [])
            nm = "n%d" % len(s)
            s.append(nm)
            insts.append(DINST(nm, "m%d" % (k % 2), (DSEC(1, (("g", CI("i", 1, (CP("p", 1, (B("a", "B", 1, k),)),), ())),)),) if k % 3 != 1 else (),
                               ids[k] if leaf_id or k in up else None, None if p is None else ids[p]))
        doc = DOC(tuple(insts), HIST1)
        ch.state((doc, st.key()))
        run(ch, doc, st, "loads")
    return f


def doc_of(m):
    """The document that lists a database, one section per covergroup type."""
    inst = lambda i: DINST(i.name, i.du, tuple(DSEC(g.weight, tuple((g.name, c) for c in (g.cis or (CI("only", 1, g.cps, g.crs),)))) for g in i.cgs))
    return DOC(tuple(inst(i) for i in m.insts), HIST1)


def sp_look(every):
    def f(ch):
        m = look_db(ch, every)
        ch.state(m)
        run(ch, doc_of(m), Style(), "loads")
    return f


def sp_kinds():
    """Bins of one name and several kinds: every subset in every one of two instances."""
    def f(ch):
        m = kind_db(ch, ch.all([1, 2]), KINDS[:4])
        ch.state(m)
        run(ch, doc_of(m), Style(), "loads")
    return f


def sp_depth(tops):
    """Chains of nested instances, ids ascending, descending or spread, parents first."""
    def f(ch):
        n = ch.all(tops)
        idf = ch.all([lambda k: k, lambda k: n - k, lambda k: (k * 7919) % 10007 - 5000])
        insts = tuple(DINST("u%d" % (k % 2), "m%d" % (k % 2), (DSEC(1, (("g", CI("i", 1, (CP("p", 1, (B("a", "B", 1, k),)),), ())),)),) if k % 3 != 1 else (),
                            idf(k), None if k == 0 else idf(k - 1)) for k in range(n))
        doc = DOC(insts, HIST1)
        ch.state(doc)
        run(ch, doc, Style(), "loads")
    return f


def sp_types(nmax):
    """All assignments of instances to types and sections, all presence patterns of their bins."""
    def f(ch):
        n = ch.all(list(range(1, nmax + 1)))
        shared, ws = ch.all([(False, (1, 2)), (True, (1, 2)), (True, (3, 3))])   # do the sections use the same type names?
        secs = [[], []]
        for k in range(n):
            t = ch.all(["g", "h"])
            s = ch.all([0, 1])
            pat = ch.all([("a",), ("b",), ("a", "b"), ("b", "a")]) if n < 4 else [("a",), ("b", "a")][k % 2]
            ci = CI("i%d" % k, 1, (CP("p", 1, tuple(B(x, "B", 1, 10 ** k) for x in pat)),), ())
            secs[s].append((t if shared else t + str(s), ci))
        doc = DOC((DINST("top", "m", tuple(DSEC(ws[k], tuple(x)) for k, x in enumerate(secs))),), HIST1)
        ch.state(doc)
        run(ch, doc, Style(), "reader-bytes")
    return f


def sp_hist():
    """Histories of foreign tools: ids in any order, parents before or after, dates and booleans in every notation."""
    def f(ch):
        n = ch.all([1, 2, 3])
        ids = ch.all([(0, 1, 2), (2, 1, 0), (5, 10, 7), (100, 20, 3)])[:n]
        hist = []
        for k in range(n):
            par = ch.all([None] + [i for i in ids if i != ids[k]])
            hist.append(DHIST(ids[k], par, "t%d" % k, ch.all([True, False]), ["2024-02-29T23:59:59", "1970-01-01T00:00:00", "2001-07-01T12:30:00"][k], ["0", "1.5", "1e3"][k]))
        m = {h.id: h.parent for h in hist}
        for i in ids:
            seen = set()
            while i is not None:
                if i in seen:
                    raise Prune()
                seen.add(i)
                i = m[i]
        st = Style(bools=ch.all(Style.opts["bools"]), dates=ch.all(DATES), nums=ch.all(NUMS) if n < 3 else NUMS[0])
        doc = DOC(base(0).insts, tuple(hist))
        ch.state((tuple(hist), st.key()))
        run(ch, doc, st, "reader-bytes")
    return f


SCRIPT = r'''
import sys
sys.path.insert(0, sys.argv[1])
from mc.model import observe
from mc.xmldoc import read
data = open(sys.argv[2], "rb").read()
out = repr(observe(read(data, sys.argv[3], sys.argv[4], sys.argv[5])))
open(sys.argv[2] + ".out", "w", encoding="utf-8").write(out)
'''


def sp_env():
    """Locale and zone of the reading process."""
    def f(ch):
        doc = base(1)
        st = Style(enc=ch.all(Style.opts["enc"]))
        env = ch.all(["ascii", "utf8", "tz"])
        how = ch.all(["name", "bytes", "gzip", "reader-name"]) if env == "ascii" else "name"
        ch.state((st.key(), env, how))
        e = dict(os.environ)
        if env == "ascii":
            e.update(PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", LC_ALL="C", LANG="C")
        elif env == "tz":
            e["TZ"] = "X-14"
        data = encode(serialise(tree(doc, st), st), st)
        with tempfile.TemporaryDirectory(prefix="c11") as tmp:
            p = os.path.join(tmp, "d.xml")
            with open(p, "wb") as fp:
                fp.write(data)
            r = subprocess.run([sys.executable, "-c", SCRIPT, VERIF, p, how, tmp, st.enc], env=e, capture_output=True, cwd=tmp)
            ch.op()
            if r.returncode:
                raise Violation("reading fails in environment %s (%s, %s)" % (env, how, st.enc), r.stderr.decode("utf-8", "replace")[-2000:])
            with open(p + ".out", encoding="utf-8") as fp:
                got = fp.read()
        if got != repr(meaning(doc)):
            raise Violation("document misread in environment %s (%s, %s)" % (env, how, st.enc), got[:2000])
    return f


def spaces(tier):
    q = tier == "quick"
    P = dict(min_bins=1, min_cps=1, inst_w=[1, 2, 3], per_bin_at=False, counts=CNT)
    small = dict(nsmall=1, csmall=2, cp_w=[1, 2], ci_w=[1, 0, 2, 3], cr_w=[1, 0], bin_w=[1, 2], crb_w=[1, 0, 2])
    return [
        Space("styles", sp_styles(Style.transports), 1, "every lexical variation alone x every transport"),
        Space("style-pairs", sp_styles(["reader-bytes", "bytes"] if q else Style.transports), 2 if q else 2, "every pair of lexical variations"),
        Space("documents", sp_docs(Prof(**P), ODD[:1] if q else ODD, ["loads"]), 1, "all one-deviation documents"),
        Space("three-deviations", sp_docs(tiny(**{k: v for k, v in P.items() if k not in ("counts", "inst_w")}), [dict()], ["reader-bytes"]), 3 if q else 4, "tiny alphabets"),
        Space("documents-odd", sp_docs(Prof(**{**P, "names": NAMES[:24]}, **small), ODD[1:], ["reader-bytes"]), 1, "one-deviation documents in unusual notation"),
        Space("types", sp_types(3 if q else 4), 0, "all assignments of instances to types and sections"),
        Space("hierarchy", sp_hierarchy(4 if q else 5), 0, "all design hierarchies by instance ids"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds in two instances"),
        Space("depth", sp_depth([1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("history", sp_hist(), 0, "all small histories x notations"),
        Space("environments", sp_env(), 0, "encodings x locale of the reading process"),
    ] + ([] if q else [Space("style-triples", sp_styles(["reader-bytes"]), 3, ""),
                       Space("documents-2", sp_docs(Prof(**{**P, "names": NAMES[:3]}, **small), ODD, ["reader-bytes"]), 2, "")])
