"""C04: percentages of the coverage report."""
from ..core import *
from ..model import *
from ..gen import *
from ..ops import *
from ..msrc import size, gen_forest

ASSUMPTIONS = ["weights, thresholds and counts are non-negative integers; floats compared to 1e-9"]


def check(ch, m, deco=0):
    ch.state(m)
    db = build(m)
    if deco:
        decorate(db, deco)
    ch.op(size(m))
    r = obs_report(build_report(db))
    ch.op()
    check_covs(r, want_report(m), "coverage report")
    ch.outcome = r.cov


def sp_gen(prof):
    def f(ch):
        check(ch, gen_db(ch, prof))
    return f


def sp_attributes(prof):
    """Goals, options and thresholds of the scopes differ from those of the bins."""
    def f(ch):
        check(ch, gen_db(ch, prof), ch.all([1, 2]))
    return f


def one(bins, cross=False, inst=False):
    p = (CP("p", 1, () if cross else bins),)
    x = (CR("x", 3, ("p",), bins),) if cross else ()
    ci = (CI("i", 2, p, x),) if inst else ()
    return DB((INST("t", "du", 1, (CG("g", 2, p, x, ci),)),))


def sp_kinds():
    """Bins of one name and several kinds."""
    def f(ch):
        check(ch, kind_db(ch, ch.all([0, 1]), minn=0))
    return f


def sp_look(every):
    """Siblings whose names look alike, every ordered pair at every level."""
    def f(ch):
        check(ch, look_db(ch, every))
    return f


def sp_bins(maxn, alpha):
    """Every vector of bins of one coverpoint / cross, on type and instance level."""
    def f(ch):
        cross, inst = ch.all([False, True]), ch.all([False, True])
        check(ch, one(all_bins(ch, maxn, alpha), cross, inst))
    return f


# coverpoints with a given coverage: (hit, total)
FR = [(0, 1), (1, 1), (1, 2), (1, 3), (0, 0)]


def pt(name, w, fr, cross=False):
    bs = tuple(Bin("b%d" % i, "B", 1, 1 if i < fr[0] else 0) for i in range(fr[1]))
    return CR(name, w, ("p0",), bs) if cross else CP(name, w, bs)


def sp_mean(maxp, ws, frs, insts=(0, 1)):
    """Every multiset-order of weights and coverages of the coverpoints and crosses of a group."""
    def f(ch):
        n = ch.all(list(range(maxp + 1)))
        nx = ch.all(list(range(n + 1)))
        pts = [(ch.all(ws), ch.all(frs)) for _ in range(n)]
        cps = tuple(pt("p%d" % i, w, fr) for i, (w, fr) in enumerate(pts[:n - nx]))
        if nx and not cps:
            cps = (CP("p0", 0, ()),)
        crs = tuple(pt("x%d" % i, w, fr, True) for i, (w, fr) in enumerate(pts[n - nx:]))
        if ch.all(list(insts)):
            g = CG("g", 1, (pt("p0", 1, (1, 1)),), (), (CI("i0", 1, cps, crs), CI("i1", 0, cps[:1], ())))
        else:
            g = CG("g", 1, cps, crs, ())
        check(ch, DB((INST("t", "du", 1, (g,)),)))
    return f


def sp_total(maxg, ws, frs):
    """Every distribution of covergroups with weights over up to 3 design instances."""
    def f(ch):
        ni = ch.all([1, 2, 3])
        insts = []
        left = maxg
        for i in range(ni):
            k = ch.all(list(range(left + 1)))
            left -= k
            cgs = []
            for j in range(k):
                w, fr = ch.all(ws), ch.all(frs)
                cgs.append(CG("g%d" % j, w, (pt("p0", 1, fr),), (), (CI("i", 5, (pt("p0", 1, (1, 1)),), ()),)))
            insts.append(INST("t%d" % i, "du", 1 + i, tuple(cgs)))
        check(ch, DB(tuple(insts)))
    return f


def sp_hierarchy(n):
    """Every design hierarchy of up to n instances, each with or without a covergroup."""
    def f(ch):
        check(ch, gen_forest(ch, n, lambda ch, k: () if ch.all([False, True]) else (CG("g%d" % k, 1 + k, (pt("p", 1, [(1, 1), (0, 1), (1, 3)][k % 3]),), (), ()),)))
    return f


def sp_depth_of(check, tops):
    """Chains of instances below instances, coverage at every level or at the last."""
    def f(ch):
        check(ch, deep_db(ch.all(tops), ch.all([0, 1]), ch.all([True, False]), n_ci=ch.all([0, 1, 2])))
    return f


def sp_width(dims, tops):
    def f(ch):
        dim, n = ch.all(dims), ch.all(tops)
        kw = dict(n_cp=2, n_cr=1, n_ci=1)
        kw[dim] = n
        for at in (1, 3):
            check(ch, wide_db(salt=ch.all([0, 3]) if at == 1 else 1, kinds="BBIB", at=at, **kw))
    return f


def sp_ratio(top):
    """n bins of which k are hit, all k <= n."""
    def f(ch):
        n = ch.all(list(range(1, top + 1)))
        for k in range(n + 1):
            check(ch, one(tuple(Bin("b%d" % i, "B", 1, int(i >= n - k)) for i in range(n)), inst=True))
    return f


def sp_big_ratio(ns):
    def f(ch):
        n = ch.all(ns)
        k = ch.all([1, 2, n // 2, n - 2, n - 1])
        check(ch, one(tuple(Bin("b%d" % i, "B", 1, int(i < k)) for i in range(n)), cross=ch.all([False, True])))
    return f


def spaces(tier):
    q = tier == "quick"
    alpha = [(k, a, c) for k in "BIL" for a in (0, 1, 2) for c in (0, 1, 2)]
    big = [("B", 2**31, 2**31 - 1), ("B", 2**31, 2**31), ("B", 2**33, 2**32), ("B", 1, 2**64), ("B", 10**20, 10**20 - 1), ("B", 10**20, 10**20)]
    two = Prof(dup=True, bin_w=[2, 0, 1, 3], cp_w=[2, 0, 1, 3], nsmall=1, csmall=2, names=NAMES[:4])
    return [
        Space("one-deviation", sp_gen(Prof(dup=True)), 1, "full alphabets"),
        Space("two-deviations", sp_gen(two), 2, ""),
        Space("attributes", sp_attributes(Prof(dup=True, nsmall=1)), 1, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("attributes-2", sp_attributes(tiny(dup=True)), 2 if q else 3, "the same, two deviations"),
        Space("bins", sp_bins(2 if q else 3, alpha), 0, "all bin vectors over 3 kinds x 3 thresholds x 3 counts"),
        Space("big", sp_bins(2, big), 0, "thresholds and counts around word sizes"),
        Space("mean", sp_mean(3, [0, 1, 2, 3] if not q else [0, 1, 3], FR if not q else FR[:4]), 0,
              "all weights x coverages of up to 3 points"),
        Space("total", sp_total(3 if q else 4, [0, 1, 3], [(0, 1), (1, 1), (1, 3)]), 0,
              "all distributions of weighted covergroups over up to 3 design instances"),
        Space("hierarchy", sp_hierarchy(4 if q else 6), 0, "all design hierarchies, covergroups anywhere"),
        Space("near-100", sp_big_ratio([97, 199, 200, 333, 999, 1999, 5000, 10001] if q else [97, 199, 200, 333, 999, 1999, 5000, 10001, 20001, 100001]), 0,
              "percentages close to 0 and 100"),
        Space("three-deviations", sp_gen(tiny(dup=True)), 3 if q else 4, "tiny alphabets"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds, one name in several kinds"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("ratio", sp_ratio(24 if q else 72), 0, "k of n bins hit, all k <= n"),
        Space("depth", sp_depth_of(check, [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("width", sp_width(["n_bin", "n_crb", "n_cp", "n_ci", "n_cg", "n_inst", "n_cr"],
                                list(range(0, 14)) + [32, 33, 64, 65, 100, 128] if q else list(range(0, 160))), 0, ""),
    ]
