"""Generation of lists of source databases for merging."""
from .core import Prune
from .model import *
from .gen import *


def size(m):
    n = 0
    for i in all_insts(m):
        n += 2
        for g in i.cgs:
            n += 1
            for s in (g,) + tuple(g.cis):
                n += 1
                for p in tuple(s.cps) + tuple(s.crs):
                    n += 1 + len(p.bins)
    return n


def derive(ctx, u, s, n, pattern, agree):
    """Source s of n: a part of universe u with its own counts (and attributes unless agree)."""
    ch = ctx.ch
    k = [0]

    def here():
        k[0] += 1
        if pattern == 0:
            d = True
        elif pattern == 1:
            d = (k[0] + s) % 3 != 0
        else:
            d = k[0] % 5 != s % 5
        return ch.pick([d, not d])

    def wt(w):
        return w if agree else ch.pick([w, w + 1 + s])

    def bins(bs):
        out = []
        for b in bs:
            if here():
                out.append(b._replace(count=ctx.count(), at=b.at if agree else ch.pick([b.at, b.at + 1 + s])))
        return tuple(out)

    def points(cps, crs):
        c2 = tuple(c._replace(weight=wt(c.weight), bins=bins(c.bins)) for c in cps if here())
        names = {c.name for c in c2}
        r2 = tuple(c._replace(weight=wt(c.weight), bins=bins(c.bins)) for c in crs
                   if here() and all(x in names for x in c.cps))
        return c2, r2
    insts = []
    for i in u.insts:
        if not here():
            continue
        cgs = []
        for g in i.cgs:
            if not here():
                continue
            cps, crs = points(g.cps, g.crs)
            cis = []
            for c in g.cis:
                if here():
                    a, b = points(c.cps, c.crs)
                    cis.append(CI(c.name, wt(c.weight), a, b))
            cgs.append(CG(g.name, wt(g.weight), cps, crs, tuple(cis)))
        insts.append(INST(i.name, i.du, wt(i.weight), tuple(cgs)))
    return DB(tuple(insts))


def gen_sources(ch, prof, nopts, patterns=(0, 1, 2), agree=False):
    pattern = ch.all(list(patterns))
    n = ch.pick(list(nopts))
    ctx = Ctx(ch, prof)
    u = ctx.db()
    return [derive(ctx, u, s, n, pattern, agree) for s in range(n)]


# every presence combination of a small universe ------------------------------
def presence_configs(kind):
    """All 'one source' databases of a fixed small universe, smallest first (closed under presence).
    kind 'points': one covergroup with coverpoints p (bins a,b) and q (bin a) and cross x(p,q);
    kind 'tree': nesting instance / covergroup / covergroup instance with one coverpoint."""
    out = []
    if kind == "points":
        pbins = [None, (), ("a",), ("b",), ("a", "b"), ("b", "a")]
        for pb in pbins:
            for qb in (None, ("a",)):
                for xb in (None, (), ("y",), ("z", "y")):
                    if xb is not None and (pb is None or qb is None):
                        continue
                    out.append((pb, qb, xb))
    else:
        ci = [None, (), ("i",), ("j",), ("i", "j"), ("j", "i")]
        for g in ((), ("g",), ("h",), ("g", "h"), ("h", "g")):
            for c in ci:
                if c is None and g:
                    continue
                if not g and c:
                    continue
                for inst in (("t",), ("u",), ("t", "u")):
                    out.append((inst, g, c or ()))
        out.append(((), (), ()))
    return out


def presence_db(kind, cfg, s):
    base = 10 ** s
    cnt = [0]

    def c():
        cnt[0] += 1
        return base * (1 + cnt[0] % 7)
    if kind == "points":
        pb, qb, xb = cfg
        cps, crs = [], []
        if pb is not None:
            cps.append(CP("p", 1, tuple(Bin(n, "B", 1, c()) for n in pb)))
        if qb is not None:
            cps.append(CP("q", 1, tuple(Bin(n, "B", 1, c()) for n in qb)))
        if xb is not None:
            crs.append(CR("x", 1, ("p", "q"), tuple(Bin(n, "B", 1, c()) for n in xb)))
        return DB((INST("t", "du", 1, (CG("g", 1, tuple(cps), tuple(crs), ()),)),))
    inst, g, ci = cfg
    mk = lambda: (CP("p", 1, (Bin("a", "B", 1, c()),)),)
    return DB(tuple(INST(i, "du", 1, tuple(
        CG(x, 1, mk(), (), tuple(CI(k, 1, mk(), ()) for k in ci)) for x in g)) for i in inst))


def gen_forest(ch, n, content, du=lambda ch, k: "du%d" % (k % 2)):
    """Every design hierarchy of up to n instances (all forests); siblings get distinct names that repeat under
    other parents.  content(ch, k): the covergroups of the k-th instance in depth-first order."""
    depths = []
    for k in range(ch.all(list(range(1, n + 1)))):
        depths.append(ch.all(list(range(depths[-1] + 2))) if depths else 0)
    k = [0]

    def level(d):
        out = []
        while k[0] < len(depths) and depths[k[0]] == d:
            me = k[0]
            cgs, u = content(ch, me), du(ch, me)
            k[0] += 1
            out.append(INST("n%d" % len(out), u, 1 + me % 3, cgs, level(d + 1)))
        return tuple(out)
    return DB(level(0))


def nested_source(ch, s):
    """A part, closed under parents, of a fixed hierarchy (a, a/a, a/b, a/b/a, b, b/a) with covergroups at every instance
    and counts of source s."""
    def inst(name, du, *subs):
        k[0] += 1
        g = CG("g", 1 + k[0] % 2, (CP("p", 1, (Bin("x", "B", 1, k[0] * 10 ** s), Bin("s%d" % s, "I", 1, 1))),), (), ())
        return INST(name, du, k[0], (g,), tuple(x for x in subs if x is not None))

    def opt(f):
        return f() if ch.all([True, False]) else None
    k = [0]
    top = (opt(lambda: inst("a", "du", opt(lambda: inst("a", "dv")), opt(lambda: inst("b", "du", opt(lambda: inst("a", None)))))),
           opt(lambda: inst("b", "dv", opt(lambda: inst("a", "du")))))
    return DB(tuple(x for x in top if x is not None))
