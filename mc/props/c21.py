"""C21: monotone, bounded coverage."""
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import *
from ..ops import *
from .c01 import merge_real
from . import c04

ASSUMPTIONS = ["thresholds, weights and counts are non-negative; weights up to 1000 (percentages are floats, compared to 1e-9)", "design instances directly below the database root"]
EPS = 1e-9


def full(s):
    """Fully covered by definition."""
    return all(b.count >= b.at for p in tuple(s.cps) + tuple(s.crs) if p.weight > 0 for b in p.bins if b.kind == "B") \
        and all([b for b in p.bins if b.kind == "B"] for p in tuple(s.cps) + tuple(s.crs) if p.weight > 0) \
        and any(p.weight > 0 for p in tuple(s.cps) + tuple(s.crs))


def want_full(m):
    out = []
    gs = [g for i in m.insts for g in i.cgs]
    out.append(all(full(g) for g in gs if g.weight > 0) and any(g.weight > 0 for g in gs))

    def grp(g):
        out.append(full(g))
        for p in tuple(g.cps) + tuple(g.crs):
            bs = [b for b in p.bins if b.kind == "B"]
            out.append(bool(bs) and all(b.count >= b.at for b in bs))
        for c in getattr(g, "cis", ()):
            grp(c)
    for g in gs:
        grp(g)
    return out


def bounded(m, r, what):
    c = covs(r)
    w = want_full(m)
    if len(c) != len(w):
        raise Violation("%s: report has %d items, database %d" % (what, len(c), len(w)), repr(m))
    for (p, x), f in zip(c, w):
        if not (isinstance(x, (int, float)) and -EPS <= x <= 100 + EPS):
            raise Violation("%s: %s reports %r%%" % (what, p, x), repr(m))
        if f != (x >= 100 - EPS):
            raise Violation("%s: %s reports %r%% but %s" % (what, p, x, "every bin is covered" if f else "bins are missing"), repr(m))


def compare(a, b, what, same=False):
    for (p, x), (q, y) in zip(covs(a), covs(b)):
        if p != q:
            raise Violation("%s: report items changed: %s / %s" % (what, p, q))
        if y < x - EPS or (same and abs(x - y) > EPS):
            raise Violation("%s: %s went from %r to %r" % (what, p, x, y))
    if len(covs(a)) != len(covs(b)):
        raise Violation("%s: number of report items changed" % what)


def sp_hits(prof, decos=(0,)):
    """From every generated database: every single hit of every bin, then all of them."""
    def f(ch):
        m = gen_db(ch, prof)
        deco = ch.all(decos)
        ch.state((m, deco))
        db = build(m)
        if deco:
            decorate(db, deco)
        ch.op(size(m))
        r = obs_report(build_report(db))
        bounded(m, r, "report")
        items = all_items(db)
        flat = [b for b in bins_of(m)]
        for amt in (1, 2):
            for k, it in enumerate(items):
                it.incrementCover(amt)
                m = hit(m, k, amt)
                r2 = obs_report(build_report(db))
                ch.op(2)
                what = "hit %d of bin %d (%s)" % (amt, k, flat[k].kind)
                compare(r, r2, what, same=flat[k].kind != "B")
                bounded(m, r2, what)
                r = r2
        ch.outcome = r.cov
    return f


def bins_of(m):
    out = []
    map_bins(m, lambda k, b: out.append(b) or b)
    return out


def sp_merge(prof, patterns):
    """Merging in further runs of the same model, one after the other."""
    def f(ch):
        m0 = gen_db(ch, prof)
        runs = [m0]
        mode = ch.all(patterns)
        for s in range(2):
            runs.append(map_bins(m0, lambda k, b: b._replace(count=(
                0 if mode == 0 else (k + s) % 2 if mode == 1 else (b.count + s) % 4 if mode == 2 else 2**33))))
        ch.state(tuple(runs))
        dbs = [build(m) for m in runs]
        ch.op(sum(map(size, runs)))
        for order in ((0, 1, 2), (2, 0, 1)):
            acc = None
            prev = None
            for n in range(3):
                acc = merge_real([dbs[i] for i in order[:n + 1]], ch)
                r = obs_report(build_report(acc))
                bounded(observe(acc), r, "merge of %d runs" % (n + 1))
                if prev is not None:
                    compare(prev, r, "merging run %d" % n)
                prev = r
            # staged
            st = merge_real([merge_real([dbs[order[0]], dbs[order[1]]], ch), dbs[order[2]]], ch)
            compare(obs_report(build_report(st)), prev, "staged merge", same=True)
        # each run is a lower bound
        for i, d in enumerate(dbs):
            one = obs_report(build_report(merge_real([d], ch)))
            compare(one, prev, "run %d against the merge" % i)
        ch.outcome = prev.cov
    return f


def sp_hist(depth):
    """All histories of hits and merges on a small model."""
    m0 = DB((INST("t", "du", 1, (
        CG("g", 2, (CP("p", 1, (Bin("a", "B", 2, 0), Bin("b", "B", 1, 0), Bin("i", "I", 1, 0))), CP("z", 0, (Bin("a", "B", 1, 0),))),
           (CR("x", 3, ("p",), (Bin("y", "B", 2, 0), Bin("l", "L", 1, 0))),),
           (CI("i", 1, (CP("p", 2, (Bin("a", "B", 1, 0),)),), ()),)),
        CG("h", 1, (CP("p", 1, (Bin("a", "B", 1, 0), Bin("b", "B", 3, 0))),), (), ()))),))
    n = n_bins(m0)
    run = map_bins(m0, lambda k, b: b._replace(count=k % 2))

    def f(ch):
        m, db = m0, build(m0)
        other = build(run)
        r = obs_report(build_report(db))
        for _ in range(depth):
            o = ch.all(list(range(n)) + ["merge"])
            if o == "merge":
                db = merge_real([db, other], ch)
                m = ref_merge([m, run])
                # destination order of bins may differ from the model: observe
                if canon(observe(db)) != canon(m):
                    raise Violation("merge result", diff(canon(observe(db)), canon(m)))
                m = observe(db)
                kind = "B"
            else:
                its = all_items(db)
                kind = bins_of(m)[o].kind
                its[o].incrementCover()
                m = hit(m, o, 1)
            r2 = obs_report(build_report(db))
            ch.op(2)
            compare(r, r2, "step %r" % (o,), same=kind != "B")
            bounded(m, r2, "step %r" % (o,))
            r = r2
            ch.state(m)
        ch.outcome = r.cov
    return f


def spaces(tier):
    q = tier == "quick"
    W = [0, 1, 2, 3, 5, 7, 10, 50, 100, 101, 1000]   # larger ones make true 100s and near-100s coincide in floats
    sm = Prof(dup=True, weights=W, bin_w=[2, 0, 1, 3], nsmall=1, names=NAMES[:2], csmall=2, counts=[0, 1, 2, 3, 2**31 - 1, 2**31, 2**32 - 1, 2**53 - 1, 2**63 - 1],
              ats=[2, 0, 3, 2**31, 2**32, 2**53, 2**63])
    mg = Prof(weights=W, bin_w=[2, 0, 1, 3], nsmall=1, names=NAMES[:2], csmall=2, counts=sm.counts, ats=sm.ats)
    return [
        Space("single-hits", sp_hits(sm), 1, "hit every bin of every one-deviation database"),
        Space("merged-runs", sp_merge(mg, [0, 1, 2, 3]), 1, "runs of the same model"),
        Space("three-deviations", sp_hits(tiny(dup=True)), 3 if q else 4, "tiny alphabets"),
        Space("attributes", sp_hits(tiny(dup=True), (1, 2)), 1 if q else 2, "goals, options and thresholds of scopes differ from those of their bins"),
        Space("histories", sp_hist(3 if q else 4), 0, "all histories of hits and merges"),
    ] + ([] if q else [Space("single-hits-2", sp_hits(sm), 2, ""), Space("merged-runs-2", sp_merge(mg, [0, 1, 2]), 2, "")])
