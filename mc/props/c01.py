"""C01: merge = union with per-bin sums."""
import itertools
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import *

ASSUMPTIONS = [
    "bins of kinds normal, ignore and illegal; values from the stated alphabets; at most the stated number of deviations",
]


MEMBERS = [tuple(x) for n in (0, 1, 2, 3) for x in itertools.product("abc", repeat=n)]


def merge_real(dbs, ch=None, merger=None, dst=None):
    from ucis.merge.db_merger import DbMerger
    dst = new_db() if dst is None else dst
    (merger or DbMerger()).merge(dst, dbs)
    if ch is not None:
        ch.op(1)
    return dst


def check_merge(ch, models, deco=0):
    ch.state(tuple(models))
    dbs = [build(m) for m in models]
    if deco:
        for d in dbs:
            decorate(d, deco)
    ch.op(sum(size(m) for m in models))
    dst = merge_real(dbs, ch)
    got = observe(dst)
    want = ref_merge(models)
    if canon(got) != canon(want):
        raise Violation("merge result differs from the union with summed counts",
                        {"difference got/want": diff(canon(got), canon(want)), "sources": repr(models),
                         "got": repr(got), "want": repr(want)})
    u = api()
    dus = [s.getScopeName() for s in dst.scopes(u.UCIS_DU_MODULE)]
    wdus = sorted({i.du for i in all_insts(want) if i.du is not None})
    if sorted(dus) != wdus:
        raise Violation("design units of the merge result: %r, expected one each of %r" % (sorted(dus), wdus), repr(models))
    ch.outcome = (len(models), size(want))


def sp_sources(prof, nopts, patterns):
    def f(ch):
        check_merge(ch, gen_sources(ch, prof, nopts, patterns))
    return f


def sp_attributes(prof, nopts):
    """Sources whose scopes and cover items carry goals, options and descriptions of their own."""
    def f(ch):
        check_merge(ch, gen_sources(ch, prof, nopts, (0,)), ch.all([1, 2]))
    return f


def sp_presence(kind, n):
    cfgs = presence_configs(kind)

    def f(ch):
        check_merge(ch, [presence_db(kind, ch.all(cfgs), s) for s in range(n)])
    return f


def sp_bins(n, maxb, alpha):
    """All bin vectors of one coverpoint and of one cross over n sources; names may repeat."""
    def f(ch):
        cross = ch.all([False, True])
        ms = []
        for s in range(n):
            bs = []
            for k in range(ch.all(list(range(maxb + 1)))):
                nm, kind, cnt = ch.all(alpha)
                bs.append(Bin(nm, kind, 1, cnt + s))
            bs = tuple(bs)
            if cross:
                g = CG("g", 1, (CP("p", 1, ()),), (CR("x", 1, ("p",), bs),), ())
            else:
                g = CG("g", 1, (CP("p", 1, bs),), (), ())
            ms.append(DB((INST("t", "du", 1, (g,)),)))
        check_merge(ch, ms)
    return f


def one_point(cross, bins):
    return DB((INST("t", "du", 1, (CG("g", 1, (CP("p", 1, () if cross else bins),), (CR("x", 1, ("p",), bins),) if cross else (), ()),)),))


def sp_values():
    """A bin of one name in two sources: every kind, threshold and count on either side."""
    def f(ch):
        cross = ch.all([False, True])
        ms = []
        for s in range(2):
            x = ch.all([None] + [(k, a, c) for k in "BIL" for a in (0, 1, 2) for c in (0, 1, 2)])
            ms.append(one_point(cross, (Bin("o", "B", 1, 1 + s),) + (() if x is None else (Bin("a", *x),))))
        check_merge(ch, ms)
    return f


def sp_repeated(maxlen):
    """Every sequence over up to three database objects: the same object may stand in the list several times."""
    def f(ch):
        kind = ch.all(["points", "tree"])
        same = ch.all([False, True])            # the databases differ, or are equal but distinct
        pool = [wide_db(n_cp=2, n_cr=1, n_ci=1 if kind == "tree" else 0, n_bin=2, kinds="BBI", salt=0 if same else s) for s in range(3)]
        dbs = [build(m) for m in pool]
        seq = [ch.all([0, 1, 2]) for _ in range(ch.all(list(range(1, maxlen + 1))))]
        ch.state((kind, same, tuple(seq)))
        ch.op(len(seq))
        got = observe(merge_real([dbs[i] for i in seq], ch))
        want = ref_merge([pool[i] for i in seq])
        if canon(got) != canon(want):
            raise Violation("merge of databases %r (the same objects repeated) differs from the union with summed counts" % (seq,),
                            {"difference got/want": diff(canon(got), canon(want)), "sources": repr(pool)})
        for k, d in enumerate(dbs):
            if observe(d) != pool[k]:
                raise Violation("merge changed source %d" % k, diff(observe(d), pool[k]))
        ch.outcome = (len(seq), len(set(seq)))
    return f


def sp_depth(tops):
    """Chains of instances below instances."""
    def f(ch):
        n, ns, at = ch.all(tops), ch.all([1, 2, 3]), ch.all(["every", "leaf"])
        check_merge(ch, [deep_db(n, salt=s, every=at == "every", cut=ch.all([0, 1, 2]) if s else 0) for s in range(ns)])
    return f


def sp_look(every):
    def f(ch):
        lv = ch.all(LEVELS)
        n1, n2 = look_names(ch, every)
        check_merge(ch, [look_model(lv, n1, n2, 0), look_model(lv, n2, n1, 1)])
    return f


def sp_nested(n):
    """Design hierarchies: every part of a 6-instance hierarchy in each of n sources."""
    def f(ch):
        check_merge(ch, [nested_source(ch, s) for s in range(n)])
    return f


def sp_no_du():
    """Instances created without a design unit (du_scope=None), alone and next to instances that have one."""
    def f(ch):
        dus = [ch.all([None, "du", "dv"]) for _ in range(3)]
        ms = []
        for s in range(ch.all([1, 2, 3])):
            g = CG("g", 1, (CP("p", 1, (Bin("a", "B", 1, 1 << s),)),), (), ())
            ms.append(DB(tuple(INST("t%d" % k, dus[k], 1, (g,)) for k in range(3) if ch.all([True, False]))))
        check_merge(ch, ms)
    return f


def sp_members(n, lists):
    """Sources that disagree on the coverpoints a cross refers to; in some the cross is missing."""
    def f(ch):
        inst = ch.all([False, True])
        ms = []
        for s in range(n):
            mem = ch.all([None] + lists)
            cps = tuple(CP(x, 1, (Bin("b", "B", 1, 1 + s),)) for x in "abc")
            crs = () if mem is None else (CR("x", 1, mem, (Bin("y", "B", 1, 1 << s),)),)
            ms.append(DB((INST("t", "du", 1, (CG("g", 1, cps, () if inst else crs, (CI("i", 1, cps, crs),) if inst else ()),)),)))
        check_merge(ch, ms)
    return f


def sp_du(n):
    """Sources that disagree on the design unit of an instance."""
    def f(ch):
        ms = []
        for s in range(n):
            g = CG("g", 1, (CP("p", 1, (Bin("a", "B", 1, 1 << s),)),), (), ())
            dus = [ch.all([0, None, "du", "dv"]) for _ in range(2)]
            ms.append(DB(tuple(INST("t%d" % k, d, 1, (g,)) for k, d in enumerate(dus) if d != 0)))
        check_merge(ch, ms)
    return f


def sp_kinds():
    """Bins of one name and several kinds: every subset in two sources."""
    def f(ch):
        check_merge(ch, [kind_db(ch, ch.all([0, 1]), KINDS[:4], 0), kind_db(ch, 0, KINDS[:4], 0)])
    return f


def sp_width(dims, tops):
    def f(ch):
        dim = ch.all(dims)
        n = ch.all(tops)
        ns = ch.all([1, 2, 3])
        kw = dict(n_cp=2, n_cr=1, n_ci=1)
        kw[dim] = n
        check_merge(ch, [wide_db(salt=s, kinds="BBI", **kw) for s in range(ns)])
    return f


def sp_many(tops):
    def f(ch):
        n = ch.all(tops)
        mode = ch.all([0, 1, 2])
        ms = []
        for s in range(n):
            m = wide_db(n_cp=2, n_cr=1, n_ci=1, salt=s)
            if mode == 1:       # every source its own instance
                m = DB(tuple(i._replace(name="t%d" % s) for i in m.insts))
            elif mode == 2:     # only the last source has bins beyond the first
                if s != n - 1:
                    m = wide_db(n_cp=1, n_bin=1, salt=s)
            ms.append(m)
        check_merge(ch, ms)
    return f


def spaces(tier):
    q = tier == "quick"
    small = Prof(bin_w=[2, 0, 1, 3], names=NAMES[:6], counts=COUNTS[:8], weights=[0, 5], ats=[2, 0], dup=True,
                 cp_w=[2, 0, 1, 3], cg_w=[1, 0, 2], inst_w=[1, 0, 2], ci_w=[1, 0, 2], crb_w=[1, 0, 2])
    wide = Prof(dup=True)
    two = Prof(dup=True, inst_w=[2, 1, 3], cg_w=[2, 1, 3])
    out = [
        Space("one-deviation", sp_sources(wide, [2, 0, 1, 3, 4, 5], (0, 1, 2)), 1,
              "sources of a 1-instance universe, full alphabets"),
        Space("one-deviation-2x2", sp_sources(two, [3, 2, 1], (1,) if q else (0, 1, 2)), 1,
              "2 instances x 2 covergroups"),
        Space("two-deviations", sp_sources(Prof(bin_w=[1, 0, 2], cp_w=[1, 0, 2], cg_w=[1, 2], inst_w=[1, 2], ci_w=[1, 0], crb_w=[1, 0, 2],
                                                nsmall=1 if q else 2, csmall=2, wsmall=1 if q else 2, asmall=1 if q else 2, width_small=2, names=NAMES[:4],
                                                counts=COUNTS[:4], weights=[0], ats=[2], dup=True),
                                           [2, 3], (0,) if q else (0, 1, 2)), 2, "reduced alphabets"),
        Space("three-deviations", sp_sources(tiny(dup=True), [2], (0, 1)), 2 if q else 3, "tiny alphabets"),
        Space("values", sp_values(), 0, "all kinds x thresholds x counts of a bin in two sources"),
        Space("attributes", sp_attributes(tiny(dup=True), [2, 1]), 1 if q else 2, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("presence-points", sp_presence("points", 2 if q else 3), 0, "all presence combinations"),
        Space("presence-tree", sp_presence("tree", 2 if q else 3), 0, "all presence combinations"),
        Space("bins", sp_bins(2, 2, [("a", "B", 1), ("b", "B", 2), ("a", "I", 4), ("a", "L", 8), ("b", "I", 16)]), 0,
              "all vectors of up to 2 bins in 2 sources, names shared between kinds"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("nested", sp_nested(2), 0, "all parts of a nested design hierarchy in 2 sources"),
        Space("repeated", sp_repeated(4 if q else 6), 0, "all sequences over three database objects, repetitions included"),
        Space("members", sp_members(2, MEMBERS), 0, "all pairs of cross member lists over three coverpoints in two sources, at type and at instance level"),
        Space("members-3", sp_members(3, MEMBERS[:10] if q else MEMBERS[:16]), 0, "all triples of shorter member lists in three sources"),
        Space("design-units", sp_du(3), 0, "all combinations of design units of two instances in three sources"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds in two sources"),
        Space("depth", sp_depth([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("no-design-unit", sp_no_du(), 0, "3 instances with or without a design unit, all presence combinations in up to 3 sources"),
        Space("width", sp_width(["n_bin", "n_crb", "n_cp", "n_ci", "n_cg", "n_inst"],
                                list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 66, 100] if q else list(range(0, 140))), 0,
              "width sweeps of every level"),
        Space("width-bins", sp_width(["n_bin", "n_crb"], [127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025]), 0, ""),
        Space("many-sources", sp_many(list(range(0, 20)) + [31, 32, 33, 64, 65, 66] if q else list(range(0, 140))), 0,
              "number of sources"),
    ]
    if not q:
        out.append(Space("nested3", sp_nested(3), 0, "all parts of a nested design hierarchy in 3 sources"))
        out.append(Space("bins3", sp_bins(3, 2, [("a", "B", 1), ("b", "B", 2), ("a", "I", 4), ("a", "L", 8)]), 0, ""))
    return out
