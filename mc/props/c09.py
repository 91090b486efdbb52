"""C09: XML round trip of the functional coverage."""
import os, tempfile
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import size, gen_forest
from ..ops import *
from ..hist import *
from ..xmlref import *
from .c08 import produce, CNT

ASSUMPTIONS = ["databases the interchange format can express: at least one design instance, one coverpoint per covergroup (instance), one bin per coverpoint; "
               "one threshold per coverpoint/cross; distinct sibling names; names of XML characters", "weight of design instances is not part of the format; every design instance has a design unit"]


def read_back(data, how, tmp):
    from ucis.xml.xml_factory import XmlFactory
    if how == "loads":
        return xml_read(data.decode("utf-8"))
    if how == "factory":
        return xml_factory_read(data)
    p = os.path.join(tmp, "r.xml")
    with open(p, "wb") as f:
        f.write(data)
    return XmlFactory.read(p)


def summed(m):
    """Type data is the sum over the instances (or there are none)."""
    return all(not g.cis or (g.cps, g.crs) == type_points(g.cis) for i in all_insts(m) for g in i.cgs)


def run(ch, m, wpath="stringio", rpath="loads", nodes=(), twice=True, deco=0):
    if wpath == "xmlucis":
        from ucis.xml.xml_ucis import XmlUCIS
        db = build(m, XmlUCIS())
    else:
        db = build(m)
    realise(db, nodes)
    if deco:
        decorate(db, deco)
    with tempfile.TemporaryDirectory(prefix="c09") as tmp:
        data = produce(db, wpath, tmp)
        back = read_back(data, rpath, tmp)
        got = observe(back)
        t = typed(got)
        if t:
            raise Violation("values of the wrong type read back: " + t)
        want = rt(m)
        if got != want:
            raise Violation("round trip (%s/%s) changed the coverage" % (wpath, rpath), {"difference got/want": diff(got, want), "doc": data[:3000].decode("utf-8")})
        ch.op(size(m) + 2)
        if summed(m):
            # same report, but for the instance that represents a covergroup without instances
            a, b = obs_report(build_report(db)), obs_report(build_report(back))
            st = lambda r: REP(r.cov, tuple(g._replace(cgs=()) for g in r.cgs))
            if strip_cov(st(a)) != strip_cov(st(b)):
                raise Violation("report changed by the round trip", diff(strip_cov(st(a)), strip_cov(st(b))))
            check_covs(st(b), st(a), "report after the round trip")
        if twice:
            again = observe(read_back(produce(back, "stringio", tmp), rpath, tmp))
            w2 = rt(want)
            if again != w2:
                raise Violation("second round trip changed the coverage", diff(again, w2))
    ch.outcome = len(data)


def sp_db(prof, paths):
    def f(ch):
        m = gen_xml_db(ch, prof)
        w, r = ch.all(paths) if len(paths) > 1 else paths[0]
        ch.state(m)
        run(ch, m, w, r)
    return f


def sp_attributes(prof):
    """Goals, options and thresholds of the scopes differ from those of the bins."""
    def f(ch):
        m = gen_xml_db(ch, prof)
        ch.state(m)
        run(ch, m, deco=ch.all([1, 2]))
    return f


def sp_hierarchy(n):
    """Every design hierarchy of up to n instances, covergroups anywhere."""
    def f(ch):
        g = lambda k: CG("g", 1 + k, (CP("p", 1, (Bin("a", "B", 1, k),)),), (), (CI("i", 1, (CP("p", 1, (Bin("a", "B", 1, k),)),), ()),))
        m = gen_forest(ch, n, lambda ch, k: (g(k),) if ch.all([True, False]) else (), lambda ch, k: ch.all(["du0", "du1"]))
        w, r = ch.all([("stringio", "loads"), ("xmlucis", "file")])
        ch.state(m)
        run(ch, m, w, r)
    return f


def sp_sum():
    """Instances whose counts add up to the type: full product over bins of two instances."""
    A = [("B", 1, 0), ("B", 1, 3), ("I", 1, 2), ("L", 1, 5)]

    def f(ch):
        names = ["a", "b"]
        cis = []
        for k in range(2):
            bins = []
            for n in names:
                x = ch.all([None] + A)
                if x:
                    bins.append(Bin(n, x[0], x[1], x[2]))
            if not bins:
                raise Prune()
            xb = ch.all([None, ("B", 2, 1), ("I", 2, 4)])
            crs = () if xb is None else (CR("x", 2, ("p",), (Bin("<a>", *xb),)),)
            cis.append(CI("i%d" % k, 1 + k, (CP("p", 3, tuple(bins)),), crs))
        cps, crs = type_points(cis)
        m = DB((INST("t", "du", 1, (CG("g", 2, cps, crs, tuple(cis)),)),))
        ch.state(m)
        run(ch, m)
    return f


def sp_values():
    """Full product over the bins of one point: kind x count of two bins, threshold, level."""
    def f(ch):
        at = ch.all([0, 1, 2, 7])
        bins = tuple(Bin(n, ch.all("BIL"), at, ch.all([0, 1, 2, 7])) for n in ("a", "b")[:ch.all([1, 2])])
        level = ch.all(["cp", "cr"])
        inst = ch.all([0, 1, 2])
        p = (CP("p", 1, bins if level == "cp" else (Bin("a", "B", 1, 1),)),)
        x = () if level == "cp" else (CR("x", 1, ("p",), bins),)
        g = CG("g", 1, p, x, tuple(CI("i%d" % k, 1, p, x) for k in range(inst)))
        m = DB((INST("t", "du", 1, (g,)),))
        ch.state(m)
        run(ch, m, twice=False)
    return f


def sp_dis(W, A):
    """Instances that disagree on weight and threshold: each instance keeps its own."""
    def f(ch):
        cis = []
        for k in range(2):
            w, at = ch.all(W), ch.all(A)
            xw, xat = ch.all([0, 3]), ch.all([1, 5])
            cis.append(CI("i%d" % k, ch.all([1, 7]), (CP("p", w, (Bin("a", "B", at, 1), Bin("b", "L", at, k))),),
                          (CR("x", xw, ("p", "p"), (Bin("y", "B", xat, 4),)),)))
        m = DB((INST("t", "du", 1, (CG("g", 2, (), (), tuple(cis)),)),))
        ch.state(m)
        db = build(m)
        back = observe(xml_read(xml_write(db)))
        ch.op(size(m) + 2)
        got, want = back.insts[0].cgs[0], rt(m).insts[0].cgs[0]
        if got.cis != want.cis or got.weight != 2:
            raise Violation("instance attributes changed", diff(got.cis, want.cis))
        c = lambda g: [(p.name, [(b.name, b.kind, b.count) for b in p.bins]) for p in tuple(g.cps) + tuple(g.crs)]
        if c(got) != c(want):
            raise Violation("type coverage is not the sum", repr((c(got), c(want))))
    return f


def sp_kinds():
    """Bins of one name and several kinds: every subset in every one of up to two instances."""
    def f(ch):
        n = ch.all([0, 1, 2])
        m = kind_db(ch, n, KINDS if n < 2 else KINDS[:4])
        ch.state(m)
        run(ch, m, twice=False)
    return f


def sp_cross():
    """Every member list of a cross over nasty coverpoint names."""
    N = ["a", " a", "a ", "a b", "a  b", "A", "a\tb", "a\nb", "é", "a,b", "<a>", "&", ""]

    def f(ch):
        n1, n2 = ch.all(N), ch.all(N)
        if n1 == n2:
            raise Prune()
        mem = ch.all([(n1, n2), (n2, n1), (n1,), (n2,), (n1, n1), (n1, n2, n1), ()])
        bins = ch.all([0, 1])
        inst = ch.all([0, 1])
        cps = (CP(n1, 1, (Bin("b", "B", 1, 1),)), CP(n2, 1, (Bin("b", "B", 1, 2),)))
        crs = (CR("x", 1, mem, (Bin("y", "B", 1, 3),) * bins),)
        m = DB((INST("t", "du", 1, (CG("g", 1, cps, crs, (CI("i", 1, cps, crs),) * inst),)),))
        ch.state(m)
        run(ch, m)
    return f


def sp_look(every):
    def f(ch):
        m = look_db(ch, every)
        ch.state(m)
        run(ch, m, twice=False)
    return f


def sp_depth(tops):
    def f(ch):
        m = deep_db(ch.all(tops), ch.all([0, 1]), ch.all([True, False]), n_ci=ch.all([0, 1, 2]), at=1)
        ch.state(m)
        run(ch, m, twice=False)
    return f


def sp_wide():
    def f(ch):
        dim = ch.all(["n_inst", "n_cg", "n_cp", "n_cr", "n_ci", "n_bin", "n_crb"])
        n = ch.all([3, 9, 10, 11, 33, 101])
        kw = dict(n_inst=1, n_cg=1, n_cp=2, n_cr=1, n_ci=ch.all([0, 2]), n_bin=2, n_crb=2)
        kw[dim] = n
        m = wide_db(kinds=ch.all(["B", "BIL"]), **kw)
        ch.state((dim, n))
        run(ch, m, twice=False)
    return f


def spaces(tier):
    q = tier == "quick"
    P = dict(min_bins=1, min_cps=1, inst_w=[1, 2, 3], per_bin_at=False, counts=CNT)
    small = dict(nsmall=1, csmall=2, cp_w=[1, 2], ci_w=[1, 0, 2], cr_w=[1, 0], bin_w=[1, 2], crb_w=[1, 0, 2])
    paths = [(w, r) for w in ("stringio", "writer-reused", "file", "stream", "xmlucis") for r in ("loads", "factory", "file")]
    return [
        Space("databases", sp_db(Prof(**P), [("stringio", "loads")]), 1, "all one-deviation databases"),
        Space("three-deviations", sp_db(tiny(**{k: v for k, v in P.items() if k != "counts" and k != "inst_w"}), [("stringio", "loads")]), 3 if q else 4, "tiny alphabets"),
        Space("attributes", sp_attributes(tiny(**{k: v for k, v in P.items() if k != "counts" and k != "inst_w"})), 1 if q else 2, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("paths", sp_db(Prof(names=NAMES[:3], **small, **P), paths), 1, "all writer x reader paths"),
        Space("values", sp_values(), 0, "all kinds x thresholds x counts of up to two bins"),
        Space("sums", sp_sum(), 0, "full product of two instances over bins"),
        Space("own-attributes", sp_dis([0, 2] if q else [0, 1, 2, 100], [0, 1, 10]), 0, "instances with attributes of their own"),
        Space("hierarchy", sp_hierarchy(4 if q else 5), 0, "all design hierarchies"),
        Space("cross-members", sp_cross(), 0, "all member lists over nasty names"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds in up to two instances"),
        Space("depth", sp_depth([1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("wide", sp_wide(), 0, ""),
        Space("databases-2", sp_db(Prof(names=NAMES[:2], wsmall=2, asmall=2, width_small=2, cg_w=[1, 0, 2], **small, **P) if q else
                                   Prof(names=NAMES[:3], wsmall=2, **P), [("stringio", "loads")]), 2, "all two-deviation databases"),
    ]
