"""C03: merge does not touch its sources and shares nothing with them."""
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import *
from ..ops import *
from .c01 import merge_real

ASSUMPTIONS = ["operations: merge into a fresh destination (shared or fresh merger object), hit increment, item creation, weight change",
               "design instances directly below the database root"]


class World:
    """Real databases next to their models."""

    def __init__(self, ch, models):
        from ucis.merge.db_merger import DbMerger
        self.ch = ch
        self.m = list(models)
        self.db = [decorate(build(m), 1 + k) for k, m in enumerate(models)]
        self.n0 = len(models)
        self.merger = DbMerger()
        self.canon = [False] * self.n0
        self.k = 0
        ch.op(sum(map(size, models)))

    def intact(self, what, src, before):
        for i, b in zip(src, before):
            now = full(self.db[i], True)
            if now != b:
                raise Violation("after %s attributes of source %d have changed" % (what, i), diff(plain(now), plain(b)))

    def check(self, what):
        for i, (m, d) in enumerate(zip(self.m, self.db)):
            got = observe(d)
            if (canon(got) != canon(m)) if self.canon[i] else (got != m):
                raise Violation("after %s database %d changed unexpectedly" % (what, i),
                                {"difference got/want": diff(canon(got), canon(m))})

    def do(self, op):
        self.ch.op()
        self.k += 1
        o = op[0]
        if o == "fail":
            self.fail(op)
        elif o == "merge":
            src = [i for i in op[1] if i < len(self.db)]
            before = [full(self.db[i], True) for i in src]
            d = merge_real([self.db[i] for i in src], merger=self.merger if op[2] else None)
            self.intact(op, src, before)
            self.m.append(ref_merge([self.m[i] for i in src]))
            self.db.append(d)
            self.canon.append(True)
        else:
            i = op[1]
            if i >= len(self.db):
                raise Prune()
            # work on the observed order so that real and model indices agree
            self.m[i] = observe(self.db[i])
            if o == "hit":
                items = all_items(self.db[i])
                if not items:
                    raise Prune()
                j = 0 if op[2] == "first" else len(items) - 1
                items[j].incrementCover(10 ** self.k)
                self.m[i] = hit(self.m[i], j, 10 ** self.k)
            elif o == "poke":
                items = all_items(self.db[i])
                if not items:
                    raise Prune()
                j = len(items) // 2
                d = items[j].getCoverData()
                d.data = 7 * 10 ** self.k
                d.at_least = d.at_least + 3
                self.m[i] = map_bins(self.m[i], lambda n, b: b._replace(count=7 * 10 ** self.k, at=b.at + 3) if n == j else b)
            else:
                u = api()
                inst = next(iter(self.db[i].scopes(u.UCIS_INSTANCE)), None)
                g = next(iter(inst.scopes(u.UCIS_COVERGROUP)), None) if inst is not None else None
                if g is None:
                    raise Prune()
                mi = self.m[i].insts[0]
                mg = mi.cgs[0]
                if o == "bin":
                    cp = next(iter(g.scopes(u.UCIS_COVERPOINT)), None)
                    if cp is None:
                        raise Prune()
                    cp.createBin("n%d" % self.k, None, 2, 4, "", kinds()["B"])
                    c = mg.cps[0]
                    mg = mg._replace(cps=(c._replace(bins=c.bins + (Bin("n%d" % self.k, "B", 2, 4),)),) + mg.cps[1:])
                elif o == "point":
                    p = g.createCoverpoint("np%d" % self.k, None, 3, u.UCIS_OTHER)
                    g.createCross("nx%d" % self.k, None, 2, u.UCIS_OTHER, [p])
                    mg = mg._replace(cps=mg.cps + (CP("np%d" % self.k, 3, ()),),
                                     crs=mg.crs + (CR("nx%d" % self.k, 2, ("np%d" % self.k,), ()),))
                elif o == "weight":
                    g.setWeight(40 + self.k)
                    mg = mg._replace(weight=40 + self.k)
                mi = mi._replace(cgs=(mg,) + mi.cgs[1:])
                self.m[i] = DB((mi,) + self.m[i].insts[1:])
        self.check(op)


    def fail(self, op):
        """A merge that cannot succeed: the cross of its last source is over a coverpoint of another covergroup, or the source is none."""
        src = [self.db[i] for i in op[1] if i < len(self.db)]
        if op[2] == "cross":
            u = api()
            bad = build(base(False)[1])
            inst = next(iter(bad.scopes(u.UCIS_INSTANCE)))
            g = next(iter(inst.scopes(u.UCIS_COVERGROUP)))
            q = inst.createCovergroup("other", None, 1, u.UCIS_OTHER).createCoverpoint("elsewhere", None, 1, u.UCIS_OTHER)
            g.createCross("bad", None, 1, u.UCIS_OTHER, [q])
            src.append(bad)
        else:
            src.append(None)
        try:
            self.merger.merge(new_db(), src)
        except Exception:
            pass


def base(overlap):
    mk = lambda s, extra: DB((INST("t", "du", 1, (CG("g", 1, (
        CP("p", 1, (Bin("a", "B", 1, s), Bin("b", "I", 1, 2 * s))), CP("q", 2, (Bin("a", "L", 1, 5 * s),) + extra)),
        (CR("x", 1, ("p", "q"), (Bin("y", "B", 2, 3 * s),)),),
        (CI("i", 1, (CP("p", 1, (Bin("a", "B", 1, s),)),), ()),)),)),))
    a = mk(1, ())
    b = mk(100, (Bin("only", "B", 1, 1),))
    if not overlap:
        b = DB((b.insts[0]._replace(name="u"),))
    return [a, b]


def ops(last):
    out = [("merge", (0, 1), True), ("merge", (1, 0), False), ("merge", (0,), True), ("merge", (2, 0), True), ("merge", (2, 2), True), ("merge", (), True)]
    out += [("fail", (0, 1), "cross"), ("fail", (0,), "none"), ("fail", (), "cross")]
    for i in range(last):
        out += [("hit", i, "first"), ("hit", i, "last"), ("poke", i), ("bin", i), ("point", i), ("weight", i)]
    return out


def sp_hist(depth, last):
    O = ops(last)

    def f(ch):
        w = World(ch, base(ch.all([True, False])))
        w.do(("merge", (0, 1), True))
        w.check("set-up")
        tr = []
        for _ in range(depth):
            op = ch.all(O)
            tr.append(op)
            w.do(op)
        ch.state(tuple(w.m))
        ch.outcome = len(w.m)
    return f


def sp_shared(prof, decos=(0, 1)):
    """One merger object for two merges of different sources = two fresh mergers; sources unchanged."""
    from ucis.merge.db_merger import DbMerger

    def f(ch):
        a = gen_sources(ch, prof, [2, 3, 1], (0, 1))
        b = base(True) if ch.all([0, 1]) else base(False)
        ch.state((tuple(a), tuple(b)))
        first, second = (a, b) if ch.all([0, 1]) else (b, a)
        mg = DbMerger()
        deco = ch.pick(list(decos))
        d1 = [decorate(build(m), deco) if deco else build(m) for m in first]
        d2 = [decorate(build(m), deco) if deco else build(m) for m in second]
        was = [full(d) for d in d1 + d2]
        r1 = merge_real(d1, ch, mg)
        o1 = observe(r1)
        r2 = merge_real(d2, ch, mg)
        for d, b in zip(d1 + d2, was):
            if full(d) != b:
                raise Violation("merge changed an attribute of a source", diff(plain(full(d)), plain(b)))
        ch.op(sum(map(size, a)))
        if canon(o1) != canon(ref_merge(first)):
            raise Violation("first merge wrong", diff(canon(o1), canon(ref_merge(first))))
        if canon(observe(r2)) != canon(ref_merge(second)):
            raise Violation("second merge with the same merger wrong", diff(canon(observe(r2)), canon(ref_merge(second))))
        if observe(r1) != o1:
            raise Violation("second merge changed the first result", diff(observe(r1), o1))
        for m, d in list(zip(first, d1)) + list(zip(second, d2)):
            if observe(d) != m:
                raise Violation("merge changed a source", diff(observe(d), m))
        # every single bin of the result hit once: no source moves
        for it in all_items(r1):
            it.incrementCover(3)
        for m, d in zip(first, d1):
            if observe(d) != m:
                raise Violation("hits in the result show in a source", diff(observe(d), m))
        o2 = observe(r1)
        for d in d1:
            for it in all_items(d):
                it.incrementCover(5)
        if observe(r1) != o2:
            raise Violation("hits in a source show in the result", diff(observe(r1), o2))
    return f


class Fault(Exception):
    pass


def interrupted(k, fn):
    """fn() with an exception at the k-th call of a function of the package; number of calls when k is None."""
    import os, sys
    root = os.path.join(os.path.realpath(REPO), "src") + os.sep
    n = [0]

    def tracer(frame, event, arg):
        if event == "call" and os.path.realpath(frame.f_code.co_filename).startswith(root):
            n[0] += 1
            if n[0] - 1 == k:
                sys.settrace(None)
                raise Fault()
        return None
    sys.settrace(tracer)
    try:
        fn()
    except Fault:
        pass
    finally:
        sys.settrace(None)
    return n[0]


def sp_faults(step):
    """A merge that ends in an error at any point: sources intact, the merger as good as new."""
    def count(models):
        from ucis.merge.db_merger import DbMerger
        dbs = [build(m) for m in models]
        return interrupted(None, lambda: DbMerger().merge(new_db(), dbs))
    N = max(count(base(o)) for o in (True, False))

    def f(ch):
        from ucis.merge.db_merger import DbMerger
        o = ch.all([True, False])
        blk = ch.all(list(range(0, N, step)))
        then = ch.all([(0, 1), (1,), (0,)])
        for k in range(blk, blk + step):
            models = base(o)
            dbs = [decorate(build(m), 1 + j) for j, m in enumerate(models)]
            was = [full(d) for d in dbs]
            mg = DbMerger()
            try:
                interrupted(k, lambda: mg.merge(new_db(), dbs))
            except Exception:
                pass
            ch.op(k)
            for m, d, b in zip(models, dbs, was):
                if observe(d) != m:
                    raise Violation("a merge that failed at call %d changed a source" % k, diff(observe(d), m))
                if full(d) != b:
                    raise Violation("a merge that failed at call %d changed an attribute of a source" % k, diff(plain(full(d)), plain(b)))
            dst = new_db()
            mg.merge(dst, [dbs[i] for i in then])
            want = ref_merge([models[i] for i in then])
            if canon(observe(dst)) != canon(want):
                raise Violation("a merge that failed at call %d influences the next of the same merger" % k, diff(canon(observe(dst)), canon(want)))
            for m, d in zip(models, dbs):
                if observe(d) != m:
                    raise Violation("merge changed a source", diff(observe(d), m))
            ch.state((o, k, then))
        ch.outcome = then
    return f


def spaces(tier):
    q = tier == "quick"
    return [
        Space("histories", sp_hist(2 if q else 3, 4), 0, "all operation sequences after a first merge"),
        Space("faults", sp_faults(8), 0, "a merge interrupted at every call, then another with the same merger"),
        Space("shared-merger", sp_shared(Prof(dup=True)), 1, "one-deviation sources merged by one merger object"),
    ] + ([] if q else [Space("shared-merger-2", sp_shared(Prof(dup=True, nsmall=1, csmall=2, width_small=2, names=NAMES[:3])), 2, "")])
