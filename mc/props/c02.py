"""C02: merge is order and grouping independent."""
from itertools import permutations
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import *
from ..ops import map_bins
from .c01 import merge_real, one_point

ASSUMPTIONS = ["sources agree on weights, thresholds, design-unit names and cross members of shared items"]


def bracketings(xs):
    """All ways to merge the list xs in stages (nested tuples; leaves are indices)."""
    n = len(xs)
    if n == 1:
        return [xs[0]]
    out = []
    for k in range(2, n + 1):
        for cut in compositions(n, k):
            parts, s = [], 0
            for c in cut:
                parts.append(xs[s:s + c])
                s += c
            combos = [()]
            for p in parts:
                combos = [c + (b,) for c in combos for b in bracketings(p)]
            out.extend(combos)
    return out


def compositions(n, k):
    if k == 1:
        return [(n,)]
    return [(i,) + r for i in range(1, n - k + 2) for r in compositions(n - i, k - 1)]


def run(tree, dbs, ch):
    if isinstance(tree, tuple):
        return merge_real([run(t, dbs, ch) for t in tree], ch)
    return dbs[tree]


def check(ch, models, full=True):
    ch.state(tuple(models))
    dbs = [build(m) for m in models]
    ch.op(sum(map(size, models)))
    n = len(models)
    want = canon(ref_merge(models))
    idx = list(range(n))

    def cmp(got, how):
        got = canon(observe(got))
        if got != want:
            raise Violation("merge %s differs from the union of the sources" % how,
                            {"difference got/want": diff(got, want), "sources": repr(models)})
    for p in permutations(idx):
        cmp(merge_real([dbs[i] for i in p], ch), "in order %s" % (p,))
    if n:
        for p in (list(permutations(idx)) if full else [tuple(idx)]):
            for t in bracketings(list(p)):
                cmp(run(t, dbs, ch), "staged as %s" % (t,))
    # neutral elements at every position
    zero = build(map_bins(ref_merge(models), lambda k, b: b._replace(count=0)))
    for pos in range(n + 1):
        cmp(merge_real(dbs[:pos] + [new_db()] + dbs[pos:], ch), "with an empty database at %d" % pos)
        cmp(merge_real(dbs[:pos] + [zero] + dbs[pos:], ch), "with a zero-hit run at %d" % pos)
    for m, d in zip(models, dbs):
        got = canon(observe(merge_real([d], ch)))
        if got != canon(ref_merge([m])):
            raise Violation("merging a single database changes it", {"difference got/want": diff(got, canon(m))})
    ch.outcome = size(ref_merge(models))


def sp_sources(prof, nopts, patterns):
    def f(ch):
        check(ch, gen_sources(ch, prof, nopts, patterns, agree=True))
    return f


def sp_presence(kind, n):
    cfgs = presence_configs(kind)

    def f(ch):
        check(ch, [presence_db(kind, ch.all(cfgs), s) for s in range(n)])
    return f


def sp_nested(n):
    def f(ch):
        ms = [nested_source(ch, s) for s in range(n)]
        # the sources agree on the weights of the instances they share
        fix = lambda l, w: tuple(i._replace(weight=w, cgs=tuple(g._replace(weight=w) for g in i.cgs), subs=fix(i.subs, w + 1)) for i in l)
        check(ch, [DB(fix(m.insts, 1)) for m in ms])
    return f


def sp_bins(alpha):
    """All pairs of bin vectors over names shared between kinds, one point of two sources (thresholds agree)."""
    def f(ch):
        cross = ch.all([False, True])
        ms = []
        for s in range(2):
            bs = []
            for k in range(ch.all([0, 1, 2])):
                nm, kind = ch.all(alpha)
                if any((b.name, b.kind) == (nm, kind) for b in bs):
                    raise Prune()
                bs.append(Bin(nm, kind, 1 + "BIL".index(kind), (k + 1) * 10 ** s))
            ms.append(one_point(cross, tuple(bs)))
        check(ch, ms)
    return f


def spaces(tier):
    q = tier == "quick"
    small = Prof(bin_w=[2, 0, 1, 3], names=NAMES[:20], counts=COUNTS[:12] + [2**32, 2**53 + 1, 10**25], weights=[0, 5], ats=[2, 0],
                 cp_w=[2, 0, 1, 3], cg_w=[1, 0, 2], inst_w=[1, 0, 2], ci_w=[1, 0, 2], crb_w=[1, 0, 2], nsmall=1)
    reduced = Prof(bin_w=[1, 0, 2], names=NAMES[:2], counts=[0, 1], weights=[0], ats=[2], csmall=1, wsmall=1, asmall=1,
                cp_w=[1, 0, 2], cg_w=[1, 2], inst_w=[1, 2], ci_w=[1, 0], crb_w=[1, 0], nsmall=1)
    return [
        Space("two-sources", sp_sources(small, [2], (0, 1, 2)), 1, "all orders and stagings of 2 sources"),
        Space("three-sources", sp_sources(small if not q else reduced, [3], (0, 1, 2)), 1, "all orders and stagings of 3 sources"),
        Space("three-sources-2dev", sp_sources(reduced, [3], (1,) if q else (0, 1, 2)), 2, "presence flips in pairs"),
        Space("four-sources", sp_sources(reduced, [4], (1,) if q else (0, 1, 2)), 0 if q else 1, "all orders and stagings of 4 sources"),
        Space("bins", sp_bins([(n, k) for n in "ab" for k in "BIL"]), 0, "all bin vectors of 2 sources, names shared between kinds"),
        Space("three-deviations", sp_sources(tiny(), [2], (0, 1)), 2 if q else 3, "tiny alphabets"),
        Space("nested", sp_nested(2), 0, "all parts of a nested design hierarchy in 2 sources"),
        Space("presence-points", sp_presence("points", 2), 0, "all presence combinations, 2 sources"),
        Space("presence-tree", sp_presence("tree", 2), 0, "all presence combinations, 2 sources"),
        Space("presence-points-3", sp_presence("points", 3), 0, "all presence combinations, 3 sources") if not q else
        Space("one-source", sp_sources(small, [1, 0], (0,)), 1, "single sources"),
    ]
