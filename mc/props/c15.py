"""C15: the in-memory database behaves as the tree it was told to be."""
from ..core import *
from ..model import new_db, api

ASSUMPTIONS = ["iteration while items are being created is left open", "a scope created without source location is only required not to show somebody else's",
               "objects are compared by what they show, not by identity"]

TYPES = None


def U():
    return api()


class Item:
    def __init__(s, name, type, at, data, goal, weight, src, h=None):
        s.name, s.type, s.at, s.data, s.goal, s.weight, s.src, s.h = name, type, at, data, goal, weight, src, h


class Node:
    def __init__(s, name, type, weight, src, h, du=None, pts=None):
        s.name, s.type, s.weight, s.src, s.h, s.du, s.pts = name, type, weight, src, h, du, pts
        s.kids, s.items = [], []


class Hist:
    def __init__(s, log, phys, kind, parent, h):
        s.log, s.phys, s.kind, s.parent, s.h = log, phys, kind, parent, h


SCOPE_MASKS = ["TOGGLE", "INSTANCE", "COVERGROUP", "COVERINSTANCE", "COVERPOINT", "CROSS", "DU_MODULE", "DU_PACKAGE", "PACKAGE", "BRANCH", "FSM", "COVBLOCK", "CVGBINSCOPE", "DU_INTERFACE"]
BIN_MASKS = ["CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN", "STMTBIN", "BRANCHBIN", "TOGGLEBIN", "USERBIN", "FSMBIN", "BLOCKBIN", "COUNT"]


def smasks(full):
    from ucis.scope_type_t import ScopeTypeT as T
    m = [getattr(T, n) for n in SCOPE_MASKS]
    out = [T.ALL, 0, T.COVERPOINT | T.CROSS, T.COVERGROUP | T.COVERINSTANCE] + m
    if full:
        out += [a | b for a in m for b in m if a < b] + [int(T.ALL), int(T.CROSS), T.ALL & ~T.COVERGROUP]
    return out


def bmasks(full):
    from ucis.cover_type_t import CoverTypeT as T
    m = [getattr(T, n) for n in BIN_MASKS]
    out = [T.CVGBIN | T.IGNOREBIN | T.ILLEGALBIN, 0, -1, T.IGNOREBIN | T.ILLEGALBIN] + m
    if full:
        out += [a | b for a in m for b in m if a < b] + [int(T.CVGBIN), 0xffffffff]
    return out


def o_src(si):
    if si is None:
        return None
    f = si.file
    return (None if f is None else f.getFileName(), si.line, si.token)


def w_src(s):
    return s


def src_ok(got, want):
    if want is None:
        return got is None or got[0] is None
    return got == want


class Db:
    """The real database and its reference tree, driven in step."""

    def __init__(self, mode, fnames=("f0.sv", "f1.sv")):
        self.fnames = fnames
        self.u = U()
        self.db = new_db()
        self.root = Node("", None, 1, None, self.db)
        self.nodes = [self.root]
        self.items = []
        self.hists = []
        self.n = 0
        self.mode = mode         # "fresh" argument objects, or "reuse": the same ones over and over, changed in between
        self.si = None
        self.cd = None
        self.pl = []
        self.files = {}

    def tick(self):
        self.n += 1
        return self.n

    # ---- arguments
    def fh(self, name):
        h = self.db.createFileHandle(name, "/w")
        if h.getFileName() != name:
            raise Violation("file handle for %r is named %r" % (name, h.getFileName()))
        return h

    def src(self, k):
        from ucis.source_info import SourceInfo
        if k % 3 == 0 and self.mode == "fresh":
            return None, None
        fn = self.fnames[k % len(self.fnames)]
        if self.mode == "fresh" or self.si is None:
            self.si = SourceInfo(self.fh(fn), 100 + k, 200 + k)
        else:
            self.si.file, self.si.line, self.si.token = self.fh(fn), 100 + k, 200 + k
        return self.si, (fn, 100 + k, 200 + k)

    def after(self):
        """The caller goes on using its own objects."""
        if self.mode == "reuse":
            if self.si is not None:
                self.si.line = -77
                self.si.token = -78
                self.si.file = None
            if self.cd is not None:
                self.cd.data = 99999
                self.cd.type = self.u.UCIS_COUNT
                self.cd.at_least = 55
                self.cd.weight = 44
                self.cd.goal = 33
            del self.pl[:]

    def name(self, dup, k):
        return "a" if dup else "n%d" % k

    # ---- operations
    def add(self, par, node):
        par.kids.append(node)
        self.nodes.append(node)
        return node

    def op(self, label, par, dup=False, arg=None):
        u = self.u
        k = self.tick()
        nm = self.name(dup, k)
        w = 10 + k
        si, ws = self.src(k)
        r = None
        if label == "du":
            h = par.h.createScope(nm, si, w, u.UCIS_VLOG, arg, 0)
            r = self.add(par, Node(nm, arg, w, ws, h))
        elif label == "inst":
            t, du = arg
            h = par.h.createInstance(nm, si, w, u.UCIS_VLOG, t, du.h if du else None, u.UCIS_INST_ONCE)
            r = self.add(par, Node(nm, t, w, ws, h, du=du))
        elif label == "cg":
            h = par.h.createCovergroup(nm, si, w, u.UCIS_SV)
            r = self.add(par, Node(nm, u.UCIS_COVERGROUP, w, ws, h))
        elif label == "scope":
            h = par.h.createScope(nm, si, w, u.UCIS_SV, arg, 0)
            r = self.add(par, Node(nm, arg, w, ws, h))
        elif label == "ci":
            h = par.h.createCoverInstance(nm, si, w, u.UCIS_SV)
            r = self.add(par, Node(nm, u.UCIS_COVERINSTANCE, w, ws, h))
        elif label == "cp":
            h = par.h.createCoverpoint(nm, si, w, u.UCIS_SV)
            r = self.add(par, Node(nm, u.UCIS_COVERPOINT, w, ws, h))
        elif label == "cross":
            pl = self.pl if self.mode == "reuse" else []
            pl.extend(p.h for p in arg)
            h = par.h.createCross(nm, si, w, u.UCIS_SV, pl)
            r = self.add(par, Node(nm, u.UCIS_CROSS, w, ws, h, pts=list(arg)))
        elif label == "toggle":
            h = par.h.createToggle(nm, "canon" + nm, 0, u.UCIS_TOGGLE_METRIC_2STOGGLE, u.UCIS_TOGGLE_TYPE_REG, u.UCIS_TOGGLE_DIR_INTERNAL)
            r = self.add(par, Node(nm, u.UCIS_TOGGLE, None, None, h))
        elif label == "bin":
            cnt, at = arg[1] if isinstance(arg, tuple) else (5 + k, 3 + k)
            kind = arg[0] if isinstance(arg, tuple) else arg
            h = par.h.createBin(nm, si, at, cnt, nm) if kind is None else par.h.createBin(nm, si, at, cnt, nm, kind)
            r = Item(nm, u.UCIS_CVGBIN if kind is None else kind, at, cnt, None, None, ws, h)
            par.items.append(r)
            self.items.append(r)
        elif label == "next":
            from ucis.cover_data import CoverData
            if self.mode == "fresh" or self.cd is None:
                self.cd = CoverData(arg, u.UCIS_HAS_GOAL | u.UCIS_HAS_WEIGHT)
            c = self.cd
            c.type, c.data, c.at_least, c.goal, c.weight = arg, 20 + k, 2 + k, 30 + k, 40 + k
            h = par.h.createNextCover(nm, c, si)
            r = Item(nm, arg, 2 + k, 20 + k, 30 + k, 40 + k, ws, h)
            par.items.append(r)
            self.items.append(r)
        elif label == "inc":
            it, amt = arg[:2]
            h = self.find(it, len(arg) > 2)
            if amt is None:
                h.incrementCover()
            else:
                h.incrementCover(amt)
            it.data += 1 if amt is None else amt
        elif label == "weight":
            par.h.setWeight(w)
            par.weight = w
        elif label == "hist":
            kind, parent = arg
            h = self.db.createHistoryNode(parent.h if parent else None, nm, "/p/" + nm, kind)
            r = Hist(nm, "/p/" + nm, kind, parent, h)
            self.hists.append(r)
        else:
            raise RuntimeError(label)
        self.after()
        return r

    def find(self, it, fresh=False):
        """The handle of a bin: what creation returned when that is a bin object, else (or when asked) what iteration yields."""
        if not fresh and hasattr(it.h, "incrementCover"):
            return it.h
        for n in self.nodes:
            if it in n.items:
                l = list(n.h.coverItems(-1))
                if len(l) != len(n.items):
                    raise Violation("scope %r has %d cover items, should have %d" % (n.name, len(l), len(n.items)))
                return l[n.items.index(it)]

    # ---- observation
    def chk_item(self, path, g, it, what):
        d = g.getCoverData()
        got = (g.getName(), d.type, d.at_least, d.data)
        want = (it.name, it.type, it.at, it.data)
        if got != want or not src_ok(o_src(g.getSourceInfo()), it.src):
            raise Violation("%s: cover item shows %r at %r, should be %r at %r (%s)" % (path, got, o_src(g.getSourceInfo()), want, it.src, what))
        if it.goal is not None and (d.goal, d.weight) != (it.goal, it.weight):
            raise Violation("%s: cover item %r has goal/weight %r, should be %r" % (path, it.name, (d.goal, d.weight), (it.goal, it.weight)))

    def chk_node(self, path, g, n, what):
        got = (g.getScopeName(), g.getScopeType())
        want = (n.name, n.type)
        if got != want or (n.weight is not None and g.getWeight() != n.weight):
            raise Violation("%s: scope shows %r weight %r, should be %r weight %r (%s)" % (path, got, g.getWeight(), want, n.weight, what))
        if not src_ok(o_src(g.getSourceInfo()), n.src):
            raise Violation("%s: scope %r has source location %r, should be %r" % (path, n.name, o_src(g.getSourceInfo()), n.src))
        if n.du is not None:
            du = g.getInstanceDu()
            if (du.getScopeName(), du.getScopeType(), du.getWeight()) != (n.du.name, n.du.type, n.du.weight):
                raise Violation("%s: instance %r has the wrong design unit" % (path, n.name))
        elif n.type == self.u.UCIS_INSTANCE and g.getInstanceDu() is not None:
            raise Violation("%s: instance %r has a design unit it was not given" % (path, n.name))
        if n.pts is not None:
            if g.getNumCrossedCoverpoints() != len(n.pts):
                raise Violation("%s: cross %r has %d members, should have %d" % (path, n.name, g.getNumCrossedCoverpoints(), len(n.pts)))
            for i, p in enumerate(n.pts):
                q = g.getIthCrossedCoverpoint(i)
                if (q.getScopeName(), q.getScopeType(), q.getWeight()) != (p.name, p.type, p.weight):
                    raise Violation("%s: cross %r member %d is %r, should be %r" % (path, n.name, i, q.getScopeName(), p.name))
                if sorted(self.bin_view(q)) != sorted((b.name, int(b.type), b.data) for b in p.items):
                    raise Violation("%s: cross %r member %d shows other bins than its coverpoint" % (path, n.name, i))

    def bin_view(self, h):
        return [(c.getName(), int(c.getCoverData().type), c.getCoverData().data) for c in h.coverItems(-1)]

    def check(self, full=False):
        SM, BM = smasks(full), bmasks(full)

        def walk(path, g, n, depth):
            for m in SM:
                want = [k for k in n.kids if k.type & m]
                got = list(g.scopes(m))
                if len(got) != len(want):
                    raise Violation("%s: scopes(0x%x) yields %r, should yield %r" % (path, int(m), [x.getScopeName() for x in got], [x.name for x in want]))
                for a, b in zip(got, want):
                    self.chk_node(path, a, b, "mask 0x%x" % int(m))
            for m in BM:
                want = [k for k in n.items if k.type & m]
                got = list(g.coverItems(m))
                if len(got) != len(want):
                    raise Violation("%s: coverItems(0x%x) yields %r, should yield %r" % (path, int(m), [x.getName() for x in got], [x.name for x in want]))
                for a, b in zip(got, want):
                    self.chk_item(path, a, b, "mask 0x%x" % int(m))
            from ucis.scope_type_t import ScopeTypeT
            for a, b in zip(list(g.scopes(ScopeTypeT.ALL)), n.kids):
                walk(path + "/" + b.name, a, b, depth + 1)
        walk("", self.db, self.root, 0)
        # the objects handed out at creation show the same
        for n in self.nodes[1:]:
            self.chk_node("created", n.h, n, "handle returned by creation")
            if len(list(n.h.coverItems(-1))) != len(n.items):
                raise Violation("handle of %r shows other cover items than created" % n.name)
        K = self.u.HistoryNodeKind
        for kind in (K.ALL, K.TEST, K.MERGE, K.NONE):
            for get in (self.db.historyNodes, self.db.getHistoryNodes):
                got = list(get(kind))
                want = [h for h in self.hists if kind == K.ALL or h.kind == kind]
                if len(got) != len(want):
                    raise Violation("history nodes of kind %s: %d, should be %d" % (kind, len(got), len(want)))
                for a, b in zip(got, want):
                    p = a.getParent()
                    if (a.getLogicalName(), a.getPhysicalName(), a.getKind()) != (b.log, b.phys, b.kind) or (p is None) != (b.parent is None) \
                            or (p is not None and (p.getLogicalName(), p.getKind()) != (b.parent.log, b.parent.kind)):
                        raise Violation("history node %r differs from what was created" % b.log)


def enabled(D, wide):
    """Every operation the current tree admits: (label, parent, argument)."""
    u = D.u
    out = []
    CVG = (u.UCIS_COVERGROUP, u.UCIS_COVERINSTANCE)
    dus = [n for n in D.nodes if n.type in (u.UCIS_DU_MODULE, u.UCIS_DU_PACKAGE)]
    for n in D.nodes:
        t = n.type
        if t is None:
            out.append(("du", n, u.UCIS_DU_MODULE))
            if wide:
                out.append(("du", n, u.UCIS_DU_PACKAGE))
            out.append(("inst", n, (u.UCIS_INSTANCE, None)))
            out += [("inst", n, (u.UCIS_INSTANCE, d)) for d in dus]
            if wide:
                out.append(("inst", n, (u.UCIS_PACKAGE, dus[0] if dus else None)))
                out.append(("cg", n, None))
                out.append(("scope", n, u.UCIS_COVERGROUP))
        elif t == u.UCIS_INSTANCE:
            out.append(("inst", n, (u.UCIS_INSTANCE, dus[-1] if dus else None)))
            out.append(("cg", n, None))
            out.append(("scope", n, u.UCIS_COVERGROUP))
            out.append(("toggle", n, None))
            out.append(("next", n, u.UCIS_STMTBIN))
            if wide:
                out.append(("next", n, u.UCIS_BRANCHBIN))
        elif t in CVG:
            cps = [k for k in n.kids if k.type == u.UCIS_COVERPOINT]
            out.append(("cp", n, None))
            out.append(("cross", n, tuple(cps)))
            if len(cps) > 1:
                out.append(("cross", n, tuple(reversed(cps))))
            if t == u.UCIS_COVERGROUP:
                out.append(("ci", n, None))
            if wide:
                out.append(("scope", n, u.UCIS_COVERPOINT))
                out.append(("scope", n, u.UCIS_COVERINSTANCE))
                out.append(("cross", n, (cps[0], cps[0]) if cps else ()))
        elif t in (u.UCIS_COVERPOINT, u.UCIS_CROSS):
            for k in (None, u.UCIS_IGNOREBIN) + ((u.UCIS_ILLEGALBIN, u.UCIS_CVGBIN, u.UCIS_DEFAULTBIN) if wide else ()):
                out.append(("bin", n, k))
            out.append(("next", n, u.UCIS_CVGBIN))
            if wide:
                out.append(("next", n, u.UCIS_ILLEGALBIN))
        elif t in (u.UCIS_DU_MODULE, u.UCIS_DU_PACKAGE):
            if wide:
                out.append(("next", n, u.UCIS_STMTBIN))
                out.append(("cg", n, None))
        if t is not None and t != u.UCIS_TOGGLE:
            out.append(("weight", n, None))
    for it in D.items:
        out.append(("inc", None, (it, None)))
        out.append(("inc", None, (it, 3, "iterated")))
        if wide:
            out.append(("inc", None, (it, 1000)))
            out.append(("inc", None, (it, 0)))
    K = u.HistoryNodeKind
    out.append(("hist", None, (K.TEST, None)))
    if wide:
        out.append(("hist", None, (K.MERGE, None)))
        out += [("hist", None, (K.TEST, h)) for h in D.hists[-1:]]
    return out


def preset(D, k):
    u = D.u
    if k == "empty":
        return
    du = D.op("du", D.root, arg=u.UCIS_DU_MODULE)
    i = D.op("inst", D.root, arg=(u.UCIS_INSTANCE, du))
    if k == "inst":
        return
    g = D.op("cg", i)
    if k == "group":
        return
    p = D.op("cp", g)
    q = D.op("cp", g)
    if k == "points":
        D.op("bin", p, arg=u.UCIS_CVGBIN)
        return
    for c in (p, q):
        for t in (u.UCIS_CVGBIN, u.UCIS_IGNOREBIN, u.UCIS_ILLEGALBIN):
            D.op("bin", c, arg=t)
    x = D.op("cross", g, arg=(p, q))
    D.op("bin", x, arg=None)
    ci = D.op("ci", g)
    r = D.op("cp", ci)
    D.op("bin", r, arg=None)
    D.op("cross", ci, arg=(r,))
    j = D.op("inst", i, arg=(u.UCIS_INSTANCE, du))
    D.op("next", j, arg=u.UCIS_STMTBIN)
    D.op("toggle", i)
    h = D.op("hist", None, arg=(u.HistoryNodeKind.MERGE, None))
    D.op("hist", None, arg=(u.HistoryNodeKind.TEST, h))


def sp_seq(presets, depth, wide, modes=("fresh", "reuse"), dups=(False, True), full=False, every=False):
    def f(ch):
        mode = ch.all(modes)
        dup = ch.all(dups)
        pre = ch.all(presets)
        D = Db(mode)
        preset(D, pre)
        if every:
            D.check()
        trace = [mode, dup, pre]
        for i in range(depth):
            l, p, a = ch.all(enabled(D, wide))
            D.op(l, p, dup, a)
            ch.op()
            trace.append((l, p.name if p else None, repr(getattr(a, "name", a) if not isinstance(a, tuple) else [getattr(z, "name", z) for z in a])))
            if every:
                D.check()
        ch.state(trace)
        D.check(full)
        ch.outcome = (len(D.nodes), len(D.items))
    return f


def sp_types():
    """Every scope type / bin kind value, under every mask bit."""
    def f(ch):
        from ucis.scope_type_t import ScopeTypeT as T
        from ucis.cover_type_t import CoverTypeT as C
        D = Db(ch.all(["fresh", "reuse"]))
        u = D.u
        what = ch.all(["inst", "du", "bin", "next", "next-inst"])
        if what == "inst":
            l = [t for t in T if t & T.ALL]
        elif what == "du":
            l = [t for t in T if T.DU_ANY(t) and t != T.ALL]
        else:
            l = list(C)
        if what != "du":
            l = [t for t in l if bin(int(t)).count("1") == 1]
        a = ch.all(l)
        b = ch.all(l)
        if what == "inst":
            for t in (a, b, a):
                D.op("inst", D.root, arg=(t, None))
            for n in D.nodes:
                n.du = None
        elif what == "du":
            for t in (a, b, a):
                D.op("du", D.root, arg=t)
        else:
            i = D.op("inst", D.root, arg=(u.UCIS_INSTANCE, None))
            c = i if what == "next-inst" else D.op("cp", D.op("cg", i))
            for t in (a, b, a):
                D.op("bin" if what == "bin" else "next", c, arg=t)
        ch.state((what, str(a), str(b)))
        ch.op(3)
        D.check(True)
        # every single mask bit
        par = D.root if what in ("inst", "du") else c
        for bit in range(64):
            m = 1 << bit
            if what in ("inst", "du"):
                got = [x.getScopeName() for x in D.db.scopes(m)]
                want = [x.name for x in par.kids if int(x.type) & m]
            else:
                got = [x.getName() for x in c.h.coverItems(m)]
                want = [x.name for x in c.items if int(x.type) & m]
            if got != want:
                raise Violation("mask bit %d yields %r, should yield %r" % (bit, got, want))
    return f


VALS = [0, 1, 2, -1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**30]


def sp_values():
    """Counts, thresholds and increments of every size; increments on one of two equal bins."""
    def f(ch):
        cnt, inc, at = ch.all(VALS), ch.all(VALS), ch.all([1, 0, 2**31, 2**64])
        how = ch.all(["bin", "next"])
        D = Db("fresh")
        u = D.u
        g = D.op("cg", D.op("inst", D.root, arg=(u.UCIS_INSTANCE, None)))
        cps = [D.op("cp", g, True) for _ in range(2)]
        for c in cps:
            for _ in range(2):
                if how == "bin":
                    D.op("bin", c, True, arg=(u.UCIS_CVGBIN, (cnt, at)))
                else:
                    from ucis.cover_data import CoverData
                    cd = CoverData(u.UCIS_CVGBIN, 0)
                    cd.data, cd.at_least, cd.goal, cd.weight = cnt, at, 1, 1
                    it = Item("a", u.UCIS_CVGBIN, at, cnt, 1, 1, None, c.h.createNextCover("a", cd, None))
                    c.items.append(it)
                    D.items.append(it)
        ch.state((cnt, inc, at, how))
        for i in range(4):
            D.op("inc", None, arg=(D.items[i], inc))
            ch.op()
            D.check()
    return f


def sp_names():
    from ..gen import NAMES

    def f(ch):
        n = ch.all(NAMES)
        pos = ch.all(["inst", "du", "cg", "ci", "cp", "cross", "bin", "next", "hist", "toggle", "file"])
        D = Db("fresh")
        u = D.u
        D.name = lambda dup, k: n if dup else "n%d" % k
        N = lambda p: pos == p
        du = D.op("du", D.root, N("du"), u.UCIS_DU_MODULE)
        i = D.op("inst", D.root, N("inst"), (u.UCIS_INSTANCE, du))
        g = D.op("cg", i, N("cg"))
        for par in (g, D.op("ci", g, N("ci"))):
            c = D.op("cp", par, N("cp"))
            x = D.op("cross", par, N("cross"), (c,))
            for s in (c, x):
                D.op("bin", s, N("bin"), None)
                D.op("next", s, N("next"), u.UCIS_CVGBIN)
        D.op("toggle", i, N("toggle"))
        h = D.op("hist", None, N("hist"), (u.HistoryNodeKind.MERGE, None))
        D.op("hist", None, N("hist"), (u.HistoryNodeKind.TEST, h))
        if pos == "file":
            D.fh(n)
        ch.state((n, pos))
        ch.op(15)
        D.check(True)
    return f


FILES = ["f.sv", "d/f.sv", "e/f.sv", "d/e/f.sv", "/d/f.sv", "./f.sv", "d//f.sv", "d/../f.sv", "F.sv", "D/f.sv", " f.sv", "f.sv ", "f", "f.svh", "f.sv.gz", "d\\f.sv", "", "é.sv", "e\u0301.sv", "f.sv\n"]


def sp_files(n):
    """File names that look alike (same base name, same path in another spelling): all tuples of handles on one and on two databases, then every item's location."""
    def f(ch):
        mode = ch.all(["fresh", "reuse"])
        names = [ch.all(FILES) for _ in range(n)]
        if len(set(names)) != n:
            raise Prune()
        D = Db(mode, tuple(names))
        D.n = 1 - ch.all([0, 1])
        preset(D, "full")
        E = Db(mode, tuple(reversed(names)))
        preset(E, "points")
        ch.state((mode, tuple(names), D.n))
        ch.op(D.n)
        hs = [(x, D.fh(x)) for x in names + names]
        D.check()
        E.check()
        for x, h in hs:
            if h.getFileName() != x:
                raise Violation("file handle for %r is now named %r" % (x, h.getFileName()))
    return f


def sp_two():
    """Two databases at a time: nothing done to one shows in the other."""
    def f(ch):
        a, b = Db("reuse"), Db("reuse")
        b.si = a.si
        pre = ch.all(["points", "full"])
        preset(a, pre)
        b.si, b.cd, b.pl = a.si, a.cd, a.pl      # the caller uses the same objects for both
        preset(b, pre)
        tr = [pre]
        for i in range(2):
            D = ch.all([a, b])
            l, p, x = ch.all(enabled(D, False))
            D.op(l, p, True, x)
            ch.op()
            tr.append((D is a, l, p.name if p else None, type(x).__name__))
        ch.state(tr)
        a.check()
        b.check()
    return f


def sp_iterators(quick):
    """Two iterations of the same or of different scopes advanced in every order, with hits and weight changes between the steps."""
    def f(ch):
        from ucis.scope_type_t import ScopeTypeT as T
        D = Db("fresh")
        u = D.u
        preset(D, "full")
        ns = [n for n in D.nodes if n.kids] + [n for n in D.nodes if n.items]
        src = []
        for n in D.nodes:
            if n.kids:
                src += [(n, "s", m) for m in ([T.ALL] if n is D.root else [T.ALL, T.COVERPOINT | T.CROSS | T.TOGGLE])]
            if len(n.items) > 1:
                src += [(n, "c", m) for m in (-1, u.UCIS_CVGBIN | u.UCIS_ILLEGALBIN)]
        src += [(None, "h", u.HistoryNodeKind.ALL), (None, "h", u.HistoryNodeKind.TEST)]
        a = ch.all(src)
        b = ch.all(src)
        mut = ch.all(["none", "hit", "weight"] if not quick else ["none", "hit"])

        def start(x):
            n, k, m = x
            if k == "s":
                return iter(n.h.scopes(m)), [c for c in n.kids if c.type & m]
            if k == "c":
                return iter(n.h.coverItems(m)), [c for c in n.items if c.type & m]
            return iter(D.db.historyNodes(m)), [h for h in D.hists if m == u.HistoryNodeKind.ALL or h.kind == m]
        st = [start(a), None]
        pos = [0, 0]
        late = ch.all([0, 1])              # the second iteration starts before or after the first step
        if not late:
            st[1] = start(b)
        done = [False, False]
        sched = ""
        while not all(done):
            if st[1] is None and sched:
                st[1] = start(b)
            live = [i for i in (0, 1) if not done[i] and st[i] is not None]
            i = ch.all(live)
            sched += str(i)
            it, want = st[i]
            k = (a, b)[i][1]
            try:
                g = next(it)
            except StopIteration:
                if pos[i] != len(want):
                    raise Violation("iteration %d of %r ended after %d of %d items (steps %s)" % (i, k, pos[i], len(want), sched))
                done[i] = True
                if st[1] is None:
                    st[1] = start(b)
                continue
            ch.op()
            if pos[i] >= len(want):
                raise Violation("iteration %d of %r yields more than its %d items (steps %s)" % (i, k, len(want), sched))
            w = want[pos[i]]
            pos[i] += 1
            if k == "s":
                D.chk_node("iteration", g, w, "steps " + sched)
                if mut == "weight" and w.weight is not None:
                    g.setWeight(w.weight + 1)
                    w.weight += 1
            elif k == "c":
                D.chk_item("iteration", g, w, "steps " + sched)
                if mut == "hit":
                    g.incrementCover()
                    w.data += 1
            elif (g.getLogicalName(), g.getKind()) != (w.log, w.kind):
                raise Violation("iteration %d yields history node %r, should be %r (steps %s)" % (i, g.getLogicalName(), w.log, sched))
        ch.state((D.nodes.index(a[0]) if a[0] else None, a[1], int(a[2]), D.nodes.index(b[0]) if b[0] else None, b[1], int(b[2]), mut, late, sched))
        D.check()
    return f


def sp_wide():
    def f(ch):
        n = ch.all([10, 100, 1000])
        what = ch.all(["inst", "cg", "cp", "bin", "hist"])
        D = Db("reuse")
        u = D.u
        i = D.op("inst", D.root, arg=(u.UCIS_INSTANCE, None))
        g = D.op("cg", i)
        c = D.op("cp", g)
        for k in range(n):
            dup = k % 3 == 0
            if what == "inst":
                D.op("inst", D.root, dup, (u.UCIS_INSTANCE, None))
            elif what == "cg":
                D.op("cg", i, dup)
            elif what == "cp":
                D.op("cp", g, dup)
                D.op("cross", g, dup, (g.kids[0], g.kids[-1]))
            elif what == "bin":
                D.op("bin", c, dup, [u.UCIS_CVGBIN, u.UCIS_IGNOREBIN, u.UCIS_ILLEGALBIN][k % 3])
            else:
                D.op("hist", None, dup, (u.HistoryNodeKind.TEST if k % 2 else u.HistoryNodeKind.MERGE, D.hists[-1] if D.hists else None))
        ch.state((n, what))
        ch.op(n)
        D.check()
    return f


def spaces(tier):
    q = tier == "quick"
    return [
        Space("types", sp_types(), 0, "every pair of scope types / bin kinds under every mask"),
        Space("values", sp_values(), 0, "every count x increment x threshold"),
        Space("names", sp_names(), 0, "every name in every position"),
        Space("from-empty", sp_seq(["empty"], 4 if q else 6, False), 0, "all call sequences from the empty database"),
        Space("from-group", sp_seq(["group"], 3 if q else 5, False), 0, "all call sequences from a covergroup"),
        Space("from-points", sp_seq(["points"], 3 if q else 4, False), 0, "all call sequences from two coverpoints"),
        Space("wide-ops", sp_seq(["empty", "inst", "group", "points"], 2 if q else 3, True, full=True), 0, "all sequences of the wide alphabet"),
        Space("full", sp_seq(["full"], 2, False, dups=(True,)), 0, "all call pairs on a database with every kind of item"),
        Space("looked-at", sp_seq(["empty", "group", "points"], 3 if q else 4, False, modes=("reuse",), dups=(True,), every=True), 0, "all call sequences, the whole database looked at after every call"),
        Space("iterators", sp_iterators(q), 0, "all interleavings of two iterations"),
        Space("files", sp_files(2 if q else 3), 0, "all tuples of look-alike file names"),
        Space("two", sp_two(), 0, "all call pairs over two databases"),
        Space("wide", sp_wide(), 0, ""),
    ] + ([] if q else [
        Space("full-wide", sp_seq(["full"], 2, True, full=True), 0, ""),
        Space("full-3", sp_seq(["full"], 3, False, modes=("reuse",), dups=(True,)), 0, ""),
    ])
