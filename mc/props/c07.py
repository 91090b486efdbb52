"""C07: JSON report."""
from ..core import *
from ..model import *
from ..gen import *
from ..ops import *
from ..msrc import size
from . import c04

ASSUMPTIONS = ["additional scalar keys (such as weight) and the choice between an absent and an empty list are not constrained"] + c04.ASSUMPTIONS


def check(ch, m, deco=0):
    ch.state(m)
    db = build(m)
    if deco:
        decorate(db, deco)
    t = json_report(db)
    ch.op(size(m) + 1)
    check_json(t, want_report(m))
    if observe(db) != m:
        raise Violation("reporting changed the database", diff(observe(db), m))
    ch.outcome = len(t)


def sp_gen(prof):
    def f(ch):
        check(ch, gen_db(ch, prof))
    return f


def sp_attributes(prof):
    """Goals, options and thresholds of the scopes differ from those of the bins."""
    def f(ch):
        check(ch, gen_db(ch, prof), ch.all([1, 2]))
    return f


def sp_kinds():
    """Bins of one name and several kinds."""
    def f(ch):
        check(ch, kind_db(ch, ch.all([0, 1]), minn=0))
    return f


def sp_look(every):
    """Siblings whose names look alike, every ordered pair at every level."""
    def f(ch):
        check(ch, look_db(ch, every))
    return f


def sp_bins(maxn, alpha):
    def f(ch):
        cross, inst = ch.all([False, True]), ch.all([False, True])
        check(ch, c04.one(all_bins(ch, maxn, alpha), cross, inst))
    return f


def sp_shape(mx):
    def f(ch):
        ni, ng, nc, np, nx, nb = (ch.all(list(range(mx + 1))) for _ in range(6))
        check(ch, wide_db(n_inst=ni, n_cg=ng, n_ci=nc, n_cp=np, n_cr=nx, n_bin=nb, n_crb=nb, kinds="BILB"))
    return f


def sp_ratio(top):
    def f(ch):
        n = ch.all(list(range(1, top + 1)))
        k = ch.all(list(range(n + 1)))
        check(ch, c04.one(tuple(Bin("b%d" % i, "B", 1, int(i < k)) for i in range(n)), cross=ch.all([False, True])))
    return f


def sp_width(dims, tops):
    def f(ch):
        dim, n = ch.all(dims), ch.all(tops)
        kw = dict(n_cp=2, n_cr=1, n_ci=1)
        kw[dim] = n
        check(ch, wide_db(kinds="BBIBL", **kw))
    return f


def spaces(tier):
    q = tier == "quick"
    alpha = [(k, a, c) for k in "BIL" for a in (0, 2) for c in (0, 1, 3)]
    two = Prof(dup=True, bin_w=[1, 0, 2], cp_w=[2, 0, 1], crb_w=[1, 0, 2], nsmall=1, csmall=2, names=NAMES[:4])
    return [
        Space("one-deviation", sp_gen(Prof(dup=True)), 1, "full alphabets"),
        Space("two-deviations", sp_gen(two), 2, ""),
        Space("three-deviations", sp_gen(tiny(dup=True)), 3 if q else 4, "tiny alphabets"),
        Space("bins", sp_bins(2 if q else 3, alpha), 0, "all bin vectors"),
        Space("attributes", sp_attributes(tiny(dup=True)), 1 if q else 2, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("depth", c04.sp_depth_of(check, [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64] if q else list(range(1, 101))), 0, "chains of nested instances"),
        Space("kinds", sp_kinds(), 0, "all subsets of bins of two names and three kinds, one name in several kinds"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("shape", sp_shape(2), 0, "all shapes with up to 2 of everything"),
        Space("ratio", sp_ratio(12 if q else 32), 0, "k of n bins hit"),
        Space("width", sp_width(["n_bin", "n_crb", "n_cp", "n_ci", "n_cg", "n_inst", "n_cr"],
                                [3, 5, 8, 11, 17, 33, 65] if q else list(range(0, 100))), 0, ""),
    ]
