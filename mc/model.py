"""Plain reference model of a coverage database, the builder that realises a
model through the public API of the code under test, and the observer that
reads a real database back into the model through the public API."""
from collections import namedtuple, OrderedDict
from fractions import Fraction

Bin = namedtuple("Bin", "name kind at count")          # kind: B normal, I ignore, L illegal
CP = namedtuple("CP", "name weight bins")
CR = namedtuple("CR", "name weight cps bins")          # cps: names of the crossed coverpoints
CI = namedtuple("CI", "name weight cps crs")
CG = namedtuple("CG", "name weight cps crs cis")
INST = namedtuple("INST", "name du weight cgs subs", defaults=((),))   # subs: nested instances
DB = namedtuple("DB", "insts")


# ---------------------------------------------------------------- real code
_K = {}


def kinds():
    if not _K:
        from ucis.cover_type_t import CoverTypeT as T
        _K.update({"B": T.CVGBIN, "I": T.IGNOREBIN, "L": T.ILLEGALBIN})
    return _K


def api():
    import ucis
    return ucis


DU_FLAGS = None


def du_flags():
    u = api()
    return (u.UCIS_ENABLED_STMT | u.UCIS_ENABLED_BRANCH | u.UCIS_ENABLED_COND | u.UCIS_ENABLED_EXPR
            | u.UCIS_ENABLED_FSM | u.UCIS_ENABLED_TOGGLE | u.UCIS_INST_ONCE | u.UCIS_SCOPE_UNDER_DU)


def new_db():
    from ucis.mem.mem_factory import MemFactory
    return MemFactory.create()


def build_points(scope, cps, crs, src=lambda: None):
    u = api()
    k = kinds()
    cp_m = {}
    for cp in cps:
        c = scope.createCoverpoint(cp.name, src(), cp.weight, u.UCIS_OTHER)
        cp_m.setdefault(cp.name, c)
        for b in cp.bins:
            c.createBin(b.name, src(), b.at, b.count, b.name, k[b.kind])
    for cr in crs:
        c = scope.createCross(cr.name, src(), cr.weight, u.UCIS_OTHER, [cp_m[n] for n in cr.cps])
        for b in cr.bins:
            c.createBin(b.name, src(), b.at, b.count, b.name, k[b.kind])


def build(m, db=None, src=None):
    """Realise model m as a real in-memory database.  src(db): source location of the next scope or bin."""
    u = api()
    if db is None:
        db = new_db()
    sf = (lambda: None) if src is None else (lambda: src(db))
    dus = {}

    def insts(parent, l):
        for i in l:
            if i.du is None:
                dus[None] = None
            if i.du not in dus:
                dus[i.du] = db.createScope(i.du, sf(), 1, u.UCIS_OTHER, u.UCIS_DU_MODULE, du_flags())
            inst = parent.createInstance(i.name, sf(), i.weight, u.UCIS_OTHER, u.UCIS_INSTANCE, dus[i.du], u.UCIS_INST_ONCE)
            for g in i.cgs:
                cg = inst.createCovergroup(g.name, sf(), g.weight, u.UCIS_OTHER)
                build_points(cg, g.cps, g.crs, sf)
                for ci in g.cis:
                    c = cg.createCoverInstance(ci.name, sf(), ci.weight, u.UCIS_OTHER)
                    build_points(c, ci.cps, ci.crs, sf)
            insts(inst, i.subs)
    insts(db, m.insts)
    return db


def all_insts(m):
    """The instances of m (a DB or an INST list), an instance before the ones nested in it."""
    out = []

    def f(l):
        for i in l:
            out.append(i)
            f(i.subs)
    f(m.insts)
    return out


def obs_bins(scope):
    out = []
    inv = {v: kk for kk, v in kinds().items()}
    mask = 0
    for v in kinds().values():
        mask |= v
    for ci in scope.coverItems(mask):
        d = ci.getCoverData()
        out.append(Bin(ci.getName(), inv[d.type], d.at_least, d.data))
    return tuple(out)


def obs_points(scope):
    u = api()
    cps = []
    own = {}
    for cp in scope.scopes(u.UCIS_COVERPOINT):
        own[id(cp)] = cp.getScopeName()
        cps.append(CP(cp.getScopeName(), cp.getWeight(), obs_bins(cp)))
    crs = []
    for cr in scope.scopes(u.UCIS_CROSS):
        names = []
        for i in range(cr.getNumCrossedCoverpoints()):
            c = cr.getIthCrossedCoverpoint(i)
            # a cross must refer to coverpoints of its own covergroup
            names.append(c.getScopeName() if id(c) in own else "<foreign>" + c.getScopeName())
        crs.append(CR(cr.getScopeName(), cr.getWeight(), tuple(names), obs_bins(cr)))
    return tuple(cps), tuple(crs)


def observe(db):
    """Read a real database into the model, via the public API only."""
    u = api()
    own = {id(s) for s in db.scopes(-1)}
    return DB(tuple(obs_insts(db, own)))


def obs_insts(scope, own):
    u = api()
    insts = []
    for i in scope.scopes(u.UCIS_INSTANCE):
        cgs = []
        for g in i.scopes(u.UCIS_COVERGROUP):
            cps, crs = obs_points(g)
            cis = []
            for c in g.scopes(u.UCIS_COVERINSTANCE):
                icps, icrs = obs_points(c)
                cis.append(CI(c.getScopeName(), c.getWeight(), icps, icrs))
            cgs.append(CG(g.getScopeName(), g.getWeight(), cps, crs, tuple(cis)))
        du = i.getInstanceDu()
        # the design unit of an instance is one of its own database
        du = None if du is None else du.getScopeName() if id(du) in own else "<foreign>" + du.getScopeName()
        insts.append(INST(i.getScopeName(), du, i.getWeight(), tuple(cgs), tuple(obs_insts(i, own))))
    return insts


GETTERS = ["getScopeType", "getScopeName", "getWeight", "getGoal", "getFlags", "getAtLeast", "getAutoBinMax", "getDetectOverlap", "getStrobe", "getComment",
           "getScopeGoal", "getPerInstance", "getGetInstCoverage", "getMergeInstances", "getPathSeparator", "getNumTests"]
NODE_GETTERS = ["getLogicalName", "getPhysicalName", "getKind", "getTestStatus", "getSimTime", "getTimeUnit", "getRunCwd", "getCpuTime", "getSeed", "getCmd", "getArgs",
                "getCompulsory", "getDate", "getUserName", "getCost", "getToolCategory", "getUCISVersion", "getVendorId", "getVendorTool", "getVendorToolVersion",
                "getSameTests", "getComment"]


def _call(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return "<%s>" % type(e).__name__


def _src(o):
    i = _call(o.getSourceInfo) if hasattr(o, "getSourceInfo") else None
    if i is None or isinstance(i, str):
        return i
    return (None if i.file is None else i.file.getFileName(), i.line, i.token)


_UNIMPL = set()
_PROPS = []


def full(db, props=False):
    """Everything the public interface shows of a database: what a read-only operation must leave alone."""
    from ucis.int_property import IntProperty
    from ucis.str_property import StrProperty
    from ucis.history_node_kind import HistoryNodeKind
    ids = {}
    if not _PROPS:
        _PROPS[:] = ([p for p in IntProperty if "MODIFIED" not in p.name], list(StrProperty))
    ints, strs = _PROPS

    def value(s, n, f, *a):
        k = (type(s), n) + a
        if k in _UNIMPL:
            return None
        try:
            return f(*a)
        except Exception as e:
            if type(e).__name__ in ("UnimplError", "NotImplementedError"):
                _UNIMPL.add(k)                     # what a class does not implement shows nothing
                return None
            return "<%s>" % type(e).__name__

    def items(s):
        out = []
        for c in s.coverItems(-1):
            d = c.getCoverData()
            out.append((c.getName(), d.type, d.flags, d.data, d.at_least, d.goal, d.weight, d.limit, d.bitlen, _src(c)))
        return out

    def sc(s):
        ids[id(s)] = len(ids)
        g = [value(s, n, getattr(s, n)) for n in GETTERS if hasattr(s, n)]
        if props:
            g += [value(s, "i", s.getIntProperty, -1, p) for p in ints] + [value(s, "s", s.getStringProperty, -1, p) for p in strs]
        if hasattr(s, "getNumCrossedCoverpoints") and not isinstance(_call(s.getNumCrossedCoverpoints), str):
            g.append([ids.get(id(s.getIthCrossedCoverpoint(k))) for k in range(s.getNumCrossedCoverpoints())])
        if hasattr(s, "getInstanceDu"):
            du = _call(s.getInstanceDu)
            g.append(ids.get(id(du), repr(du) if du is None or isinstance(du, str) else "?"))
        return (g, _src(s), items(s), [sc(x) for x in s.scopes(-1)])
    t = sc(db)
    nodes = list(db.historyNodes(HistoryNodeKind.ALL))
    nid = {id(n): k for k, n in enumerate(nodes)}
    return (t, [([_call(getattr(n, g)) for g in NODE_GETTERS if hasattr(n, g)], nid.get(id(n.getParent()))) for n in nodes])


def plain(x):
    """Nested tuples of a full() record."""
    return tuple(plain(y) for y in x) if isinstance(x, (list, tuple)) else x


def decorate(db, pat):
    """Give every scope and cover item attributes beyond those of the model (goals, options, descriptions).
    The thresholds of coverpoints and crosses then differ from those of their bins."""
    n = [0]

    def rec(s):
        for x in s.scopes(-1):
            n[0] += 1
            k = n[0]
            x.setGoal(50 + k % 50)
            if hasattr(x, "setAtLeast"):
                x.setAtLeast(1 + k % 4 if pat == 1 else 0 if k % 2 else 1000)
                x.setComment("about %d" % k)
                x.setAutoBinMax(8 + k)
                x.setDetectOverlap(k % 2 == 0)
                x.setStrobe(k % 3 == 0)
            if hasattr(x, "setPerInstance"):
                x.setPerInstance(pat == 1)
                x.setGetInstCoverage(pat == 2)
                x.setMergeInstances(pat == 1)
            for c in x.coverItems(-1):
                d = c.getCoverData()
                d.goal, d.weight, d.limit = (3 + k, 5 + k, 7 + k) if pat == 1 else (0, 0, 1)
            rec(x)
    rec(db)
    return db


def typed(m):
    """True when every value of an observed model has its plain type (int, str)."""
    def chk_bins(bs):
        for b in bs:
            if type(b.count) is not int or type(b.at) is not int or type(b.name) is not str:
                return "bin %r: count %s, at_least %s, name %s" % (
                    b.name, type(b.count).__name__, type(b.at).__name__, type(b.name).__name__)
        return None
    for i in all_insts(m):
        for g in i.cgs:
            for s in (g,) + tuple(g.cis):
                for p in tuple(s.cps) + tuple(s.crs):
                    r = chk_bins(p.bins)
                    if r:
                        return r
                    if type(p.name) is not str:
                        return "name type"
    return None


# ---------------------------------------------------------------- oracles
def _group(seqs, key):
    """Ordered grouping of the items of several sequences by key."""
    out = OrderedDict()
    for s in seqs:
        for x in s:
            out.setdefault(key(x), []).append(x)
    return out


def ref_merge_bins(seqs):
    out = []
    for kind in "BIL":                                     # destination lists kinds one after the other
        for name, bs in _group([[b for b in s if b.kind == kind] for s in seqs], lambda b: b.name).items():
            out.append(Bin(name, kind, bs[0].at, sum(b.count for b in bs)))
    return tuple(out)


def ref_merge_points(scopes):
    cps = tuple(CP(n, c[0].weight, ref_merge_bins([x.bins for x in c]))
                for n, c in _group([s.cps for s in scopes], lambda x: x.name).items())
    crs = tuple(CR(n, c[0].weight, c[0].cps, ref_merge_bins([x.bins for x in c]))
                for n, c in _group([s.crs for s in scopes], lambda x: x.name).items())
    return cps, crs


def ref_merge(dbs):
    """Union with per-bin sums; attributes from the first source that has the item."""
    return DB(ref_merge_insts([d.insts for d in dbs]))


def ref_merge_insts(seqs):
    insts = []
    for n, il in _group(seqs, lambda x: x.name).items():
        cgs = []
        for gn, gl in _group([i.cgs for i in il], lambda x: x.name).items():
            cps, crs = ref_merge_points(gl)
            cis = []
            for cn, cl in _group([g.cis for g in gl], lambda x: x.name).items():
                icps, icrs = ref_merge_points(cl)
                cis.append(CI(cn, cl[0].weight, icps, icrs))
            cgs.append(CG(gn, gl[0].weight, cps, crs, tuple(cis)))
        insts.append(INST(n, il[0].du, il[0].weight, tuple(cgs), ref_merge_insts([i.subs for i in il])))
    return tuple(insts)


def canon(m):
    """Forget the order of siblings (names become keys); same-named siblings stay a multiset."""
    def cb(bs):
        return tuple(sorted(bs, key=repr))

    def cps(l):
        return tuple(sorted((p._replace(bins=cb(p.bins)) for p in l), key=repr))

    def cis(l):
        return tuple(sorted((c._replace(cps=cps(c.cps), crs=cps(c.crs)) for c in l), key=repr))

    def cgs(l):
        return tuple(sorted((g._replace(cps=cps(g.cps), crs=cps(g.crs), cis=cis(g.cis)) for g in l), key=repr))

    def insts(l):
        return tuple(sorted((i._replace(cgs=cgs(i.cgs), subs=insts(i.subs)) for i in l), key=repr))
    return DB(insts(m.insts))


def kind_sorted(m):
    """Bins in order within each kind, kinds one after the other (the relative order of bins of
    different kinds carries no meaning)."""
    def cb(bs):
        return tuple(b for k in "BIL" for b in bs if b.kind == k)

    def pts(l):
        return tuple(p._replace(bins=cb(p.bins)) for p in l)

    def ci(c):
        return c._replace(cps=pts(c.cps), crs=pts(c.crs))

    def insts(l):
        return tuple(i._replace(cgs=tuple(
            g._replace(cps=pts(g.cps), crs=pts(g.crs), cis=tuple(ci(c) for c in g.cis)) for g in i.cgs),
            subs=insts(i.subs)) for i in l)
    return DB(insts(m.insts))


def cov_point(p):
    """Exact coverage (Fraction, percent) of a coverpoint/cross."""
    n = [b for b in p.bins if b.kind == "B"]
    if not n:
        return Fraction(0)
    return Fraction(100 * sum(1 for b in n if b.count >= b.at), len(n))


def cov_group(s):
    pts = tuple(s.cps) + tuple(s.crs)
    w = sum(p.weight for p in pts)
    if w == 0:
        return Fraction(0)
    return sum((cov_point(p) * p.weight for p in pts), Fraction(0)) / w


def cov_total(m):
    gs = [g for i in all_insts(m) for g in i.cgs]
    w = sum(g.weight for g in gs)
    if w == 0:
        return Fraction(0)
    return sum((cov_group(g) * g.weight for g in gs), Fraction(0)) / w


def diff(a, b, path=""):
    """First difference of two nested models, for messages."""
    if type(a) is not type(b) and not (isinstance(a, tuple) and isinstance(b, tuple)):
        return "%s: %r vs %r" % (path, a, b)
    if isinstance(a, tuple):
        fields = getattr(a, "_fields", None)
        if len(a) != len(b):
            return "%s: %d entries vs %d: %s" % (path, len(a), len(b), repr((a, b))[:800])
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, "%s/%s" % (path, fields[k] if fields else (
                    getattr(x, "name", None) if isinstance(getattr(x, "name", None), str) else k)))
        return None
    return "%s: %r vs %r" % (path, a, b) if a != b else None
