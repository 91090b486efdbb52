"""C05: the report mirrors the database."""
from ..core import *
from ..model import *
from ..gen import *
from ..ops import *
from ..msrc import size, gen_forest
from . import c04

ASSUMPTIONS = c04.ASSUMPTIONS


def check_maps(r):
    def m(lst, mp, what, key=lambda x: x.name):
        names = [key(x) for x in lst]
        for x in lst:
            if names.count(key(x)) == 1:
                if mp.get(key(x)) is not x:
                    raise Violation("%s map does not lead to %r" % (what, key(x)), repr(sorted(map(str, mp))))
        extra = [k for k in mp if k not in names]
        if extra:
            raise Violation("%s map has entries %r without an item" % (what, extra))

    def cg(g):
        m(g.coverpoints, g.coverpoint_m, "coverpoint")
        m(g.crosses, g.cross_m, "cross")
        m(g.covergroups, g.covergroup_m, "covergroup instance")
        for x in g.covergroups:
            cg(x)
    m(r.covergroups, r.covergroup_m, "covergroup")
    for g in r.covergroups:
        cg(g)


def check(ch, m, deco=0):
    ch.state(m)
    db = build(m)
    if deco:
        decorate(db, deco)
    ch.op(size(m))
    before = observe(db)
    if before != m:
        raise Violation("database differs from what was created", diff(before, m))
    was = full(db, deco > 0)
    r1 = build_report(db)
    o1 = obs_report(r1)
    want = strip_cov(want_report(m))
    if strip_cov(o1) != want:
        raise Violation("report does not mirror the database",
                        {"difference got/want": diff(strip_cov(o1), want), "model": repr(m)})
    check_maps(r1)
    after = observe(db)
    if after != before:
        raise Violation("building the report changed the database", diff(after, before))
    now = full(db, deco > 0)
    if now != was:
        raise Violation("building the report changed an attribute of the database", diff(plain(now), plain(was)))
    r2 = build_report(db)
    ch.op(2)
    if obs_report(r2) != o1:
        raise Violation("building the report again gives a different report", diff(obs_report(r2), o1))
    if obs_report(r1) != o1:
        raise Violation("building the report again changed the first report", diff(obs_report(r1), o1))
    ch.outcome = len(o1.cgs)


def sp_gen(prof):
    def f(ch):
        check(ch, gen_db(ch, prof))
    return f


def sp_attributes(prof):
    """Goals, options and thresholds of the scopes differ from those of the bins."""
    def f(ch):
        check(ch, gen_db(ch, prof), ch.all([1, 2]))
    return f


def sp_kinds():
    """Bins of one name and several kinds."""
    def f(ch):
        check(ch, kind_db(ch, ch.all([0, 1]), minn=0))
    return f


def sp_look(every):
    """Siblings whose names look alike, every ordered pair at every level."""
    def f(ch):
        check(ch, look_db(ch, every))
    return f


def sp_bins(maxn, alpha):
    def f(ch):
        cross, inst = ch.all([False, True]), ch.all([False, True])
        check(ch, c04.one(all_bins(ch, maxn, alpha), cross, inst))
    return f


def sp_shape(mx):
    """Every shape: number of instances, groups, group instances, points and crosses up to mx each."""
    def f(ch):
        ni, ng, nc, np, nx, nb = (ch.all(list(range(mx + 1))) for _ in range(6))
        check(ch, wide_db(n_inst=ni, n_cg=ng, n_ci=nc, n_cp=np, n_cr=nx, n_bin=nb, n_crb=nb, kinds="BILB"))
    return f


def sp_hierarchy(n):
    """Every design hierarchy of up to n instances, each without, with one or with two covergroups."""
    def f(ch):
        g = lambda k, j: CG("g%d" % j, 1 + k, (CP("p", 1, (Bin("b%d" % k, "B", 1, k),)),), (), (CI("i%d" % k, 1, (), ()),))
        check(ch, gen_forest(ch, n, lambda ch, k: tuple(g(k, j) for j in range(ch.all([1, 0, 2])))))
    return f


def sp_width(dims, tops):
    def f(ch):
        dim, n = ch.all(dims), ch.all(tops)
        kw = dict(n_cp=2, n_cr=1, n_ci=1)
        kw[dim] = n
        check(ch, wide_db(kinds="BBIBL", **kw))
    return f


def spaces(tier):
    q = tier == "quick"
    alpha = [(k, a, c) for k in "BIL" for a in (0, 2) for c in (0, 1, 3)]
    two = Prof(dup=True, bin_w=[2, 0, 1, 3], cp_w=[2, 0, 1, 3], nsmall=2, csmall=2, names=NAMES[:4])
    return [
        Space("one-deviation", sp_gen(Prof(dup=True)), 1, "full alphabets, duplicate sibling names"),
        Space("two-deviations", sp_gen(two), 2, ""),
        Space("three-deviations", sp_gen(tiny(dup=True)), 3 if q else 4, "tiny alphabets"),
        Space("attributes", sp_attributes(Prof(dup=True, nsmall=1)), 1, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("attributes-2", sp_attributes(tiny(dup=True)), 2 if q else 3, "the same, two deviations"),
        Space("bins", sp_bins(2 if q else 3, alpha), 0, "all bin vectors"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds, one name in several kinds"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("shape", sp_shape(2), 0, "all shapes with up to 2 of everything"),
        Space("hierarchy", sp_hierarchy(4 if q else 6), 0, "all design hierarchies, covergroups anywhere"),
        Space("depth", c04.sp_depth_of(check, [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("width", sp_width(["n_bin", "n_crb", "n_cp", "n_ci", "n_cg", "n_inst", "n_cr"],
                                list(range(0, 14)) + [32, 33, 64, 65, 100, 128, 256] if q else list(range(0, 160))), 0, ""),
    ]
