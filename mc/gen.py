"""Generators of database models driven by a Chooser (see core.py)."""
from .core import Prune
from .model import *

# Alternative names: lexically nasty, look-alikes of defaults and of words the formats use.
NAMES = [
    "X", "b 1", "é", "<a,b>", "b0", "B0", "cp0", "cp00", "cp1.b0", "a/b", "a.b.c", "auto[0]", "auto['h0:'hF]",
    "a&b", "&amp;", "'", "\"", "a<b>c", "]]>", "<!-- x -->", "a\tb", "a\nb", " lead", "trail ", "two  blanks", "%d", "%s%%",
    "{0}", "\\n", "\\esc ", "null", "None", "true", "0", "-1", "1e3", "default", "unknown", "dummy", "cg", "type", "name",
    "Bins:", "INST x : 3.000000%", "日本語", "ß", "I\u0307", "\U0001F600", "\u00a0", "x" * 300, "a:b", "#1", "key=val", "[1,2]",
    "~", "*", "a|b", "$unit", "@x", "ignore", "illegal", "__null__file__", "0x10", "007", "1_000", "=", "- x", "? y", "", "a\rb", "a\r\nb",
]
COUNTS = [0, 1, 2, 100, 3, 4, 5, 9, 10, 11, 16, 63, 64, 99, 101, 127, 128, 255, 256, 999, 1000, 1001, 32767, 32768, 65535, 65536,
          999999, 10**6, 2**24 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 + 1, 10**16 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64,
          10**25 + 7]
WEIGHTS = [0, 1, 2, 3, 5, 7, 10, 50, 100, 101, 1000, 2**31 - 1, 2**31, 2**40]
ATS = [2, 0, 3, 4, 5, 10, 20, 100, 2**31, 2**33]


class Prof:
    """What may vary, and how far."""
    names = NAMES
    nsmall = 2            # options of a name usable in multi-deviation runs (incl. default)
    counts = COUNTS
    csmall = 3
    weights = WEIGHTS
    wsmall = 3
    ats = ATS
    asmall = 2
    per_bin_at = True     # thresholds differ inside one coverpoint
    cross_kinds = True    # ignore/illegal bins on crosses
    dup = False           # same-named siblings
    uniform_ci = False    # instances repeat structure, weights and thresholds of the type
    min_bins = 0
    min_cps = 0
    inst_w = [1, 0, 2, 3]
    cg_w = [1, 0, 2, 3, 4]
    cp_w = [2, 0, 1, 3, 4, 5]
    cr_w = [1, 0, 2, 3]
    ci_w = [2, 0, 1, 3, 4]
    bin_w = [2, 0, 1, 3, 4, 5, 8, 11]
    crb_w = [2, 0, 1, 3, 4, 6]
    width_small = 3
    types_only = False

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)


def tiny(**kw):
    """Profile for runs with three or more deviations: one of everything, every attribute with one or two alternatives."""
    d = dict(names=["a"], nsmall=2, counts=[0], csmall=2, weights=[0, 4], wsmall=2, ats=[2, 0], asmall=3, inst_w=[1, 2], cg_w=[1, 2], cp_w=[1, 2, 0], cr_w=[1, 2, 0],
             ci_w=[1, 2, 0], bin_w=[1, 2, 0], crb_w=[1, 2, 0], width_small=3)
    d.update(kw)
    return Prof(**d)


class Ctx:
    def __init__(self, ch, prof):
        self.ch, self.p, self.n = ch, prof, 0

    def name(self, default, sib):
        """A sibling name; sib collects those used so far."""
        p = self.p
        opts = [default] + [x for x in p.names if x != default]
        small = p.nsmall
        if p.dup and sib:
            opts = [default, sib[0]] + opts[1:]
            small += 1
        n = self.ch.pick(opts, small)
        if n in sib and not p.dup:
            raise Prune()
        sib.append(n)
        return n

    def count(self):
        self.n += 1
        d = (self.n * 7 + 3) % 23 + (0 if self.n % 3 else 40)   # distinct-looking, no zero
        if self.n % 4 == 0:
            d = 0
        return self.ch.pick([d] + [c for c in self.p.counts if c != d], self.p.csmall)

    def weight(self):
        self.n += 1
        d = 1 + self.n % 3
        return self.ch.pick([d] + [w for w in self.p.weights if w != d], self.p.wsmall)

    def at(self):
        return self.ch.pick([1] + [a for a in self.p.ats if a != 1], self.p.asmall)

    def width(self, opts, lo=0):
        o = [x for x in opts if x >= lo]
        return self.ch.pick(o, self.p.width_small)

    def bins(self, n, fmt="b%d", kinds="BIL"):
        at = None if self.p.per_bin_at else self.at()
        out, sib = [], {k: [] for k in "BIL"}
        for i in range(n):
            kind = self.ch.pick(list(kinds))
            nm = self.name(fmt % i, sib[kind])
            out.append(Bin(nm, kind, self.at() if at is None else at, self.count()))
        return tuple(out)

    def points(self, w=None):
        p = self.p
        cps, crs, sib = [], [], []
        for i in range(self.width(p.cp_w, p.min_cps)):
            nm = self.name("cp%d" % i, sib)
            cps.append(CP(nm, self.weight(), self.bins(self.width(p.bin_w, p.min_bins))))
        sib = []
        uniq = list(dict.fromkeys(c.name for c in cps))
        for i in range(self.width(p.cr_w)):
            nm = self.name("cr%d" % i, sib)
            opts = []
            if uniq:
                for o in (tuple(uniq[:2]), tuple(reversed(uniq[:2])), tuple(uniq), (uniq[0],), (uniq[-1],),
                          (uniq[0], uniq[0]), tuple(uniq[1:]) or (uniq[0],)):
                    if o not in opts:
                        opts.append(o)
            else:
                opts.append(())
            m = self.ch.pick(opts, 2)
            crs.append(CR(nm, self.weight(), m, self.bins(self.width(p.crb_w), "<b0,b%d>",
                                                          "BIL" if p.cross_kinds else "B")))
        return tuple(cps), tuple(crs)

    def like(self, cps, crs):
        """Same structure, fresh counts (another instance/run of the same coverage model)."""
        f = lambda bs: tuple(b._replace(count=self.count()) for b in bs)
        return (tuple(c._replace(bins=f(c.bins)) for c in cps), tuple(c._replace(bins=f(c.bins)) for c in crs))

    def group(self, default, sib):
        p = self.p
        nm = self.name(default, sib)
        w = self.weight()
        cps, crs = self.points()
        cis, s2 = [], []
        for i in range(self.width(p.ci_w)):
            inm = self.name("i%d" % i, s2)
            iw = self.weight()
            if p.uniform_ci or self.ch.pick([0, 1]) == 0:
                icps, icrs = self.like(cps, crs)
            else:
                icps, icrs = self.points()
            cis.append(CI(inm, iw, icps, icrs))
        return CG(nm, w, cps, crs, tuple(cis))

    def db(self):
        p = self.p
        insts, sib = [], []
        for i in range(self.width(p.inst_w)):
            nm = self.name("top%d" % i, sib)
            du = self.ch.pick(["du%d" % (i % 2)] + p.names, p.nsmall)
            s2 = []
            w = self.weight()
            insts.append(INST(nm, du, w, tuple(self.group("cg%d" % j, s2) for j in range(self.width(p.cg_w)))))
        return DB(tuple(insts))


def gen_db(ch, prof):
    return Ctx(ch, prof).db()


# ------------------------------------------------------------ full products
def all_bins(ch, maxn, alphabet, fmt="b%d", minn=0):
    """Every vector of up to maxn bins over (kind, at, count) triples."""
    n = ch.all(list(range(minn, maxn + 1)))
    return tuple(Bin(fmt % i, *ch.all(alphabet)) for i in range(n))


def deep_db(n, salt=0, every=True, cut=0, n_ci=1, at=2):
    """A chain of n nested instances (less the `cut` lowest), coverage at every level or at the last."""
    n = max(1, n - cut)
    sub = ()
    for k in range(n, 0, -1):
        c = k * 7 + salt * 3
        cps = (CP("p", 1, (Bin("a", "B", 1, c % 5), Bin("b", "B", at, k % 3), Bin("c", "I", 1, 1))), CP("q", 2, (Bin("a", "B", 1, c % 2),)))
        crs = (CR("x", 1, ("p", "q"), (Bin("<a,a>", "B", 1, c % 3),)),)
        cis = tuple(CI("i%d" % j, 1, cps, crs) for j in range(n_ci))
        g = (CG("g", 1, cps, crs, cis),) if every or k == n else ()
        sub = (INST("u%d" % (k % 2), "du%d" % (k % 2), 1, g, sub),)
    return DB(sub)


def wide_db(n_inst=1, n_cg=1, n_cp=1, n_cr=0, n_ci=0, n_bin=2, n_crb=2, salt=0, kinds="B", at=1):
    """A regular database of the given widths (for width sweeps)."""
    c = [salt]

    def cnt():
        c[0] += 1
        return (c[0] * 5 + 1) % 7

    def bins(n, fmt):
        return tuple(Bin(fmt % i, kinds[i % len(kinds)], at, cnt()) for i in range(n))

    def pts():
        cps = tuple(CP("cp%d" % i, 1 + i % 3, bins(n_bin, "b[%d]")) for i in range(n_cp))
        crs = tuple(CR("cr%d" % i, 1 + i % 2, tuple(x.name for x in cps[:2 + i % 3]), bins(n_crb, "<b,%d>"))
                    for i in range(n_cr))
        return cps, crs
    insts = []
    for i in range(n_inst):
        cgs = []
        for g in range(n_cg):
            cps, crs = pts()
            cis = []
            for k in range(n_ci):
                icps, icrs = pts()
                cis.append(CI("i%d" % k, 1, icps, icrs))
            cgs.append(CG("cg%d" % g, 1 + g % 3, cps, crs, tuple(cis)))
        insts.append(INST("top%d" % i, "du%d" % (i % 3), 1, tuple(cgs)))
    return DB(tuple(insts))


# ------------------------------------------------------------ siblings whose names look alike
ALIKE = [["a", "A", " a", "a ", "\uff41", "#a", "<a>"], ["a b", "a  b", "a\tb", "a\u00a0b", "a_b", "a-b", "a.b", "a/b", "a::b", "a:b", "a\\b", "a'b", 'a"b', "a,b", "a;b"], ["\u00e9", "e\u0301", "\u00c9", "e"],
         ["a[0]", "a[00]", "a[1]", "a[10]"], ["1", "01", "1.0", "+1", "0x1", "true", "True"], ["", " ", "None", "null"], ["\u0130", "\u0131", "i", "I"], ["\u00df", "ss", "SS"], ["\ufb01", "fi"],
         ["x" * 255 + "1", "x" * 255 + "2", "x" * 255], ["a&b", "a&amp;b"], ["<a>", "&lt;a>"]]
LOOK = list(dict.fromkeys(n for g in ALIKE for n in g))
LEVELS = ["inst", "du", "cg", "ci", "cp", "cr", "bin", "crbin", "ignore", "kinds"]


def look_names(ch, every):
    """An ordered pair of different names out of one group of look-alikes (every: out of all of them)."""
    n1, n2 = ch.all([(a, b) for g in ([LOOK] if every else ALIKE) for a in g for b in g if a != b])
    return n1, n2


def look_db(ch, every=True, levels=LEVELS):
    """A database with two siblings whose names look alike, at any level; their contents differ."""
    lv = ch.all(levels)
    return look_model(lv, *look_names(ch, every))


def look_model(lv, n1, n2, salt=0):
    c = lambda k: k * 3 + 1 + salt * 10
    two = lambda d, f: tuple(f(n, k) for k, n in enumerate((n1, n2) if lv == d else (d,)))
    kinds = {"bin": "BB", "ignore": "II", "kinds": "BI"}

    def pts(s):
        bl = [Bin("bin", "B", 1, c(s))]
        if lv in kinds:
            bl = [Bin(n, kd, 1, c(s + 1 + k)) for k, (n, kd) in enumerate(zip((n1, n2), kinds[lv]))] + [Bin("o", "B", 1, c(s + 4))]
        cps = two("cp", lambda n, k: CP(n, 1 + k, tuple(b._replace(count=b.count + k) for b in bl)))
        xb = two("crbin", lambda n, k: Bin(n, "B", 1, c(s + 5 + k)))
        crs = two("cr", lambda n, k: CR(n, 2 + k, tuple(p.name for p in (cps if k == 0 else cps[::-1])), xb))
        return cps, crs

    def grp(n, k, s):
        if lv == "ci":
            cis = tuple(CI(x, 1 + j, *pts(s + j)) for j, x in enumerate((n1, n2)))
            add = lambda bss: tuple(b._replace(count=sum(z[i].count for z in bss)) for i, b in enumerate(bss[0]))
            cps = tuple(p._replace(bins=add([i.cps[q].bins for i in cis])) for q, p in enumerate(cis[0].cps))
            crs = tuple(p._replace(bins=add([i.crs[q].bins for i in cis])) for q, p in enumerate(cis[0].crs))
            return CG(n, 1 + k, cps, crs, cis)
        return CG(n, 1 + k, *pts(s + k), ())
    if lv == "du":
        return DB(tuple(INST("t%d" % k, n, 1, (grp("cg", 0, k),)) for k, n in enumerate((n1, n2, n1))))
    return DB(two("inst", lambda n, k: INST(n, "du", 1, two("cg", lambda m, j: grp(m, j, 2 * k + j)))))


# ------------------------------------------------------------ one name, several kinds
KINDS = [("x", "B"), ("x", "I"), ("x", "L"), ("y", "B"), ("y", "I")]


def kind_bins(ch, base, universe=KINDS):
    """Every subset of bins of two names and three kinds, in either order; counts differ."""
    sub = [(u, k) for k, u in enumerate(universe) if ch.all([False, True])]
    if len(sub) > 1 and ch.all([False, True]):
        sub.reverse()
    return tuple(Bin(n, kd, 1, base * ((k + 1) % 4)) for (n, kd), k in sub)


def kind_group(ch, n_ci, universe=KINDS, minn=1):
    """A covergroup whose coverpoint or cross has such bins, in every one of its n_ci instances (0: in the type)."""
    cross = ch.all([False, True])

    def pts(base):
        bs = kind_bins(ch, base, universe)
        if not cross and len(bs) < minn:
            raise Prune()
        if cross:
            return (CP("p", 1, (Bin("o", "B", 1, base),)),), (CR("c", 1, ("p",), bs),)
        return (CP("p", 1, bs),), ()
    if not n_ci:
        return CG("g", 1, *pts(1), ())
    cis = tuple(CI("i%d" % k, 1, *pts(10 ** k)) for k in range(n_ci))
    from .xmlref import type_points
    return CG("g", 1, *type_points(cis), cis)


def kind_db(ch, n_ci, universe=KINDS, minn=1):
    return DB((INST("t", "du", 1, (kind_group(ch, n_ci, universe, minn),)),))
