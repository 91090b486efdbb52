"""C16: property access is exact; the C-style API equals the object API."""
import inspect
from ..core import *
from ..model import new_db, api
from . import c15
from .c15 import Db, enabled, preset, Item, Node, Hist

ASSUMPTIONS = ["COVER_GOAL without a cover index (an alias of the scope goal), real and handle properties (not supported in memory) and removal of scopes are left open",
               "flag properties take 0 and 1, enumerated ones their members"]

CVG = ("cg", "ci", "cp", "cr")


def world(equal=False):
    """Two databases holding two objects of every kind; each kind with a weight of its own, or everything the same."""
    W = (lambda n: 1) if equal else (lambda n: n)
    u = api()
    from ucis.cover_data import CoverData
    objs = {}
    for d in range(2):
        db = new_db()
        s = str(d)
        objs["db" + s] = db
        du = objs["du" + s] = db.createScope("du", None, W(1), u.UCIS_VLOG, u.UCIS_DU_MODULE, 0)
        for k in "01" if d == 0 else "2":
            i = objs["in" + k] = db.createInstance("in" + k, None, W(2), u.UCIS_VLOG, u.UCIS_INSTANCE, du, 0)
            for b in range(2):
                c = CoverData(u.UCIS_STMTBIN, 0)
                c.goal = 1 if equal else 70 + b
                i.createNextCover("s%d" % b, c, None)
            g = objs["cg" + k] = i.createCovergroup("cg", None, W(3), u.UCIS_SV)
            c = objs["ci" + k] = g.createCoverInstance("ci", None, W(4), u.UCIS_SV)
            p = objs["cp" + k] = g.createCoverpoint("cp", None, W(5), u.UCIS_SV)
            p.createBin("b0", None, 1, 0, "b0")
            p.createBin("b1", None, 1, 0, "b1")
            x = objs["cr" + k] = g.createCross("cr", None, W(6), u.UCIS_SV, [p])
            x.createBin("b0", None, 1, 0, "b0")
            x.createBin("b1", None, 1, 0, "b1")
            objs["hn" + k] = db.createHistoryNode(None, "h" + k, "p" + k, u.HistoryNodeKind.TEST)
        objs["tg" + s] = objs["in0" if d == 0 else "in2"].createToggle("t", "t", 0, u.UCIS_TOGGLE_METRIC_2STOGGLE, u.UCIS_TOGGLE_TYPE_REG, u.UCIS_TOGGLE_DIR_INTERNAL)
    return objs


INTS = [0, 1, 2, 7, 64, 99, 100, -1, 255, 256, 2**31 - 1, 2**31, 2**32, 2**63, 10**20]
STRS = ["x", "", "a b", "é", "0", "None", "a\nb", "😀" * 3, "x" * 1000]
FLAG = [0, 1]


def rules():
    """(kinds, property, values, dedicated accessor, cover indexes)"""
    from ucis.int_property import IntProperty as I
    from ucis.str_property import StrProperty as S
    u = api()
    scopes = ("db", "du", "in", "tg") + CVG
    out = [
        (scopes, I.SCOPE_WEIGHT, INTS, "Weight", (-1,)),
        (scopes, I.SCOPE_GOAL, INTS, "Goal", (-1,)),
        (scopes, I.SCOPE_SOURCE_TYPE, [int(x) for x in u.SourceT], None, (-1,)),
        (CVG, I.CVG_ATLEAST, INTS, "AtLeast", (-1,)),
        (CVG, I.CVG_AUTOBINMAX, INTS, "AutoBinMax", (-1,)),
        (CVG, I.CVG_DETECTOVERLAP, FLAG, "DetectOverlap", (-1,)),
        (CVG, I.CVG_STROBE, FLAG, "Strobe", (-1,)),
        (("cg", "ci"), I.CVG_PERINSTANCE, FLAG, "PerInstance", (-1,)),
        (("cg", "ci"), I.CVG_MERGEINSTANCES, FLAG, "MergeInstances", (-1,)),
        (("in",), I.STMT_INDEX, INTS, "StmtIndex", (0, 1)),
        (("in", "cp", "cr"), I.COVER_GOAL, INTS, None, (0, 1)),
        (("hn",), I.TEST_STATUS, [int(x) for x in u.TestStatusT], "TestStatus", (-1,)),
    ]
    for p in S:
        acc = {S.COMMENT: "Comment", S.SCOPE_NAME: "ScopeName"}.get(p)
        if p == S.SCOPE_NAME:
            out.append((scopes, p, STRS, acc, (-1,)))
        elif p == S.COMMENT:
            out.append((CVG, p, STRS, acc, (-1,)))
            out.append((("db", "du", "in", "tg"), p, STRS, None, (-1, 0, 1)))
        else:
            out.append((scopes, p, STRS, None, (-1, 0, 1)))
    return out


HIST = [("SimTime", [0.0, 1.5, -1.0, 1e300, 7]), ("TimeUnit", STRS + [None]), ("RunCwd", STRS + [None]), ("CpuTime", [0.0, 1.5, 1e-9]), ("Seed", STRS), ("Cmd", STRS), ("Args", STRS),
        ("Compulsory", ["0", "1", 0, 1]), ("Date", ["20200101000000", "19991231235959"]), ("UserName", STRS), ("Cost", [0, 1, 2.5]), ("ToolCategory", STRS), ("VendorId", STRS),
        ("VendorTool", STRS), ("VendorToolVersion", STRS), ("SameTests", INTS), ("Comment", STRS), ("TestStatus", "status")]
DBACC = [("WrittenBy", STRS), ("WrittenTime", INTS)]


def is_str(p):
    return type(p).__name__ == "StrProperty"


def item_of(o, idx):
    return list(o.coverItems(-1))[idx]


def getters(name, o):
    """All observable cells of one object: cell -> value."""
    k = name[:2]
    out = {}
    for kinds, p, vals, acc, idxs in RULES:
        if k not in kinds:
            continue
        for ix in idxs:
            out[("prop", str(p) + type(p).__name__, ix)] = o.getStringProperty(ix, p) if is_str(p) else o.getIntProperty(ix, p)
            if acc == "StmtIndex":
                out[("get", acc, ix)] = item_of(o, ix).getStmtIndex()
            elif acc:
                out[("get", acc, ix)] = getattr(o, "get" + acc)()
    if k == "hn":
        for acc, _ in HIST:
            out[("get", acc, -1)] = getattr(o, "get" + acc)()
        out["id"] = (o.getLogicalName(), o.getPhysicalName(), o.getKind())
    elif k == "db":
        for acc, _ in DBACC:
            out[("get", acc, -1)] = getattr(o, "get" + acc)()
    else:
        out["type"] = o.getScopeType()
        out["bins"] = [(c.getName(), c.getCoverData().type, c.getCoverData().data, c.getCoverData().at_least) for c in o.coverItems(-1)]
    return out


RULES = None


def snapshot(objs):
    return {n: getters(n, o) for n, o in objs.items()}


def ops(kinds_filter=None, few=False):
    """(object, property or accessor, cover index, via, value)"""
    global RULES
    if RULES is None:
        RULES = rules()
    names = list(world())
    out = []
    for n in names:
        for kinds, p, vals, acc, idxs in RULES:
            if n[:2] not in kinds:
                continue
            v = vals if not few else vals[3:5] if len(vals) > 4 and vals in (INTS, STRS) else vals if vals is FLAG and few == "flags" else vals[-2:-1]
            for ix in idxs:
                for x in v:
                    out.append((n, p, acc, ix, "prop", x))
                    if not few:
                        out.append((n, p, acc, ix, "c", x))
                    if acc and acc != "ScopeName":
                        out.append((n, p, acc, ix, "set", x))
        for acc, vals in (HIST if n[:2] == "hn" else DBACC if n[:2] == "db" else []):
            if vals == "status":
                continue
            for x in (vals[:1] if few else vals):
                out.append((n, None, acc, -1, "set", x))
    return out


def do(objs, op, dbs):
    """Perform the set; returns (object, cells it sets, value)."""
    n, p, acc, ix, via, v = op
    o = objs[n]
    u = api()
    x = v
    if p is not None and via == "set" and acc in ("DetectOverlap", "Strobe", "PerInstance", "MergeInstances"):
        x = bool(v)
    if p is not None and acc == "TestStatus" and via == "set":
        x = u.TestStatusT(v)
    if via == "set":
        if acc == "StmtIndex":
            o.getIthCoverItem(ix).setStmtIndex(x)
        else:
            getattr(o, "set" + acc)(x)
    elif is_str(p):
        if via == "c":
            u.ucis_SetStringProperty(dbs(n), None if n[:2] == "db" else o, ix, p, v)
        else:
            o.setStringProperty(ix, p, v)
    else:
        if via == "c":
            u.ucis_SetIntProperty(dbs(n), None if n[:2] == "db" else o, ix, p, v)
        else:
            o.setIntProperty(ix, p, v)
    cells = []
    if p is not None:
        cells.append(("prop", str(p) + type(p).__name__, ix))
    if acc:
        cells.append(("get", acc, ix))
    return n, cells, v


def check_c_get(objs, op, dbs):
    n, p, acc, ix, via, v = op
    if p is None:
        return
    u = api()
    g = (u.ucis_GetStringProperty if is_str(p) else u.ucis_GetIntProperty)(dbs(n), None if n[:2] == "db" else objs[n], ix, p)
    if g != v:
        raise Violation("C-style get of %s on %s gives %r, was set to %r" % (p, n, g, v))


def run_ops(ch, seq, equal=False):
    objs = world(equal)

    def dbs(n):
        return objs["db" + ("1" if n[2] in "2" or n in ("du1", "tg1", "db1") else "0")]
    want = snapshot(objs)
    for k, op in enumerate(seq):
        n, cells, v = do(objs, op, dbs)
        for c in cells:
            want[n][c] = v
        ch.op()
        if k < len(seq) - 1 and getters(n, objs[n]) != want[n]:
            raise Violation("after %r: %s shows %r, should show %r" % (seq[:k + 1], n, getters(n, objs[n]), want[n]))
    got = snapshot(objs)
    if got != want:
        for n in want:
            for c in want[n]:
                if got[n][c] != want[n][c]:
                    raise Violation("after %r: %s %s is %r, should be %r" % (seq, n, c, got[n][c], want[n][c]))
        raise Violation("objects differ")
    check_c_get(objs, seq[-1], dbs)
    ch.outcome = str(seq[-1][1] or seq[-1][2])


def generic(o):
    """String properties without an accessor of their own: all alike."""
    return o[1] is not None and is_str(o[1]) and o[2] is None


def sp_single(quick):
    O = ops()
    if quick:
        O = [o for o in O if not generic(o) or (o[5] in STRS[:2] and (o[4] == "prop" or o[3] == -1))]

    def f(ch):
        op = ch.all(O)
        equal = ch.all([False, True])
        ch.state((repr(op), equal))
        run_ops(ch, [op], equal)
    return f


def sp_pairs(filt, quick):
    O = [o for o in ops(few="flags" if filt == "same" else True) if o[0][2] in "01"]
    if quick:
        O = [o for o in O if not generic(o) or (o[5] == STRS[3] and int(o[1]) % 5 == 0)]
    by = {}
    for o in O:
        by.setdefault(o[0], []).append(o)
    names = sorted(by)

    def f(ch):
        n = ch.all([x for x in names if x[2] == "0"])
        a = ch.all(by[n])
        if filt == "same":
            b = ch.all(by[n])
        else:
            m = ch.all([x for x in names if x != n])
            l = [o for o in by[m] if o[1:4] == a[1:4]]
            if not l:
                raise Prune()
            b = ch.all(l)
        ch.state((repr(a), repr(b)))
        run_ops(ch, [a, b], True)
    return f


def sp_flags(quick):
    """All sequences of flag sets on one covergroup or instance: every flag, both values, every depth up to the bound."""
    O = {}
    for o in ops(few="flags"):
        if o[0] in ("cg0", "ci0", "cp0", "cr0") and o[1] is not None and o[4] == "prop" and o[2] in ("DetectOverlap", "Strobe", "PerInstance", "MergeInstances"):
            O.setdefault(o[0], []).append(o)

    def f(ch):
        l = O[ch.all(sorted(O))]
        seq = [ch.all(l) for _ in range(3 if quick else 5)]
        ch.state(repr(seq))
        run_ops(ch, seq)
    return f


def sp_triple(quick):
    """Set, set again, set back: all value triples of one property on one object of each kind."""
    O = {}
    for o in ops():
        if o[0][2] == "0" and o[4] != "c":
            O.setdefault((o[0], str(o[1]), o[2], o[3]), []).append(o)
    keys = sorted(O, key=repr)
    keys = [k for k in keys if not generic(O[k][0])]

    def f(ch):
        k = ch.all(keys)
        l = O[k][:3] if quick else O[k][:9]
        seq = [ch.all(l), ch.all(l), ch.all(l)]
        ch.state(repr(seq))
        run_ops(ch, seq)
    return f


# ---------------------------------------------------------------- C-style creation
class CDb(Db):
    """The C15 database driven through the C-style functions, parents given explicitly or as None for the database."""

    def op(self, label, par, dup=False, arg=None):
        u = self.u
        P = None if par is self.root else (par.h if par is not None else None)
        if label not in ("du", "inst", "scope", "toggle", "next", "hist", "weight"):
            return super().op(label, par, dup, arg)
        k = self.tick()
        nm = self.name(dup, k)
        w = 10 + k
        si, ws = self.src(k)
        db = self.db
        if label in ("du", "scope"):
            r = self.add(par, Node(nm, arg, w, ws, u.ucis_CreateScope(db, P, nm, si, w, u.UCIS_VLOG, arg, 0)))
        elif label == "inst":
            t, du = arg
            r = self.add(par, Node(nm, t, w, ws, u.ucis_CreateInstance(db, P, nm, si, w, u.UCIS_VLOG, t, du.h if du else None, u.UCIS_INST_ONCE), du=du))
        elif label == "toggle":
            r = self.add(par, Node(nm, u.UCIS_TOGGLE, None, None, u.ucis_CreateToggle(db, P, nm, "canon" + nm, 0, u.UCIS_TOGGLE_METRIC_2STOGGLE, u.UCIS_TOGGLE_TYPE_REG, u.UCIS_TOGGLE_DIR_INTERNAL)))
        elif label == "next":
            from ucis.cover_data import CoverData
            if self.mode == "fresh" or self.cd is None:
                self.cd = CoverData(arg, u.UCIS_HAS_GOAL | u.UCIS_HAS_WEIGHT)
            c = self.cd
            c.type, c.data, c.at_least, c.goal, c.weight = arg, 20 + k, 2 + k, 30 + k, 40 + k
            h = u.ucis_CreateNextCover(db, par.h, nm, c, si)
            r = Item(nm, arg, 2 + k, 20 + k, 30 + k, 40 + k, ws, h)
            par.items.append(r)
            self.items.append(r)
        elif label == "hist":
            kind, parent = arg
            h = u.ucis_CreateHistoryNode(db, parent.h if parent else None, nm, "/p/" + nm, kind)
            r = Hist(nm, "/p/" + nm, kind, parent, h)
            self.hists.append(r)
        elif label == "weight":
            r = None
            u.ucis_SetIntProperty(db, par.h, -1, u.UCIS_INT_SCOPE_WEIGHT, w)
            par.weight = w
        self.after()
        return r

    def fh(self, name):
        h = self.u.ucis_CreateFileHandle(self.db, name, "/w")
        if h.getFileName() != name:
            raise Violation("file handle for %r is named %r" % (name, h.getFileName()))
        return h


def sp_cbuild(presets, depth, wide, modes=("fresh", "reuse")):
    def f(ch):
        mode, dup, pre = ch.all(modes), ch.all([False, True]), ch.all(presets)
        D = CDb(mode)
        preset(D, pre)
        tr = [mode, dup, pre]
        for i in range(depth):
            l, p, a = ch.all(enabled(D, wide))
            D.op(l, p, dup, a)
            ch.op()
            tr.append((l, p.name if p else None, repr([getattr(z, "name", z) for z in (a if isinstance(a, tuple) else (a,))])))
        ch.state(tr)
        D.check(wide)
    return f


TD = [("teststatus", "TestStatus"), ("toolcategory", "ToolCategory"), ("date", "Date"), ("simtime", "SimTime"), ("timeunit", "TimeUnit"), ("runcwd", "RunCwd"), ("cputime", "CpuTime"),
      ("seed", "Seed"), ("cmd", "Cmd"), ("args", "Args"), ("compulsory", "Compulsory"), ("user", "UserName"), ("cost", "Cost")]


def sp_testdata():
    """Test data given whole, every subset of one or two fields off its default, both ways, shared or later changed by the caller."""
    def f(ch):
        u = api()
        from ucis.test_data import TestData
        st = ch.all(list(u.TestStatusT))
        vals = dict(teststatus=st, toolcategory="cat", date="20200101000000")
        opt = dict(simtime=12.5, timeunit="ps", runcwd="/cwd", cputime=3.25, seed="77", cmd="cmd", args="-a -b", compulsory=1, user="me", cost=9.5)
        default = dict(simtime=0.0, timeunit="ns", runcwd=".", cputime=0.0, seed="0", cmd="", args="", compulsory=0, user="user", cost=0.0)
        names = [None] + list(opt)
        mode = ch.all(["all", "some", "positional"])
        if mode == "some":
            for x in {ch.all(names), ch.all(names)} - {None}:
                vals[x] = opt[x]
        else:
            vals.update(opt)
        if mode == "positional":
            order = ["teststatus", "toolcategory", "date", "simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "user", "cost"]
            td = TestData(*[vals[k] for k in order])
        else:
            td = TestData(**vals)
        want = dict(default)
        want.update(vals)
        for a, _ in TD:
            if getattr(td, a) != want[a]:
                raise Violation("TestData.%s is %r, should be %r" % (a, getattr(td, a), want[a]))
        db = new_db()
        hs = [db.createHistoryNode(None, n, n, u.HistoryNodeKind.TEST) for n in "ab"]
        before = [(g, getattr(hs[1], "get" + g)()) for _, g in TD]
        via = ch.all(["c", "obj"])
        if via == "c":
            u.ucis_SetTestData(db, hs[0], td)
        else:
            hs[0].setTestData(td)
        ch.op()
        for a, _ in TD:                       # the caller reuses its object
            setattr(td, a, None)
        ch.state((mode, via, sorted(vals.items(), key=repr)))
        for a, g in TD:
            x = getattr(hs[0], "get" + g)()
            if x != want[a]:
                raise Violation("%s: history node has %s %r, should be %r" % (via, g, x, want[a]))
        if [(g, getattr(hs[1], "get" + g)()) for _, g in TD] != before:
            raise Violation("test data of one history node shows in another")
        if hs[0].getIntProperty(-1, u.UCIS_INT_TEST_STATUS) != int(st):
            raise Violation("TEST_STATUS property does not carry the test status")
    return f


# ---------------------------------------------------------------- every C-style function on a recording object
class Rec:
    def __init__(self, name, ret):
        self.calls = []
        self.name = name
        self.ret = ret


def recorder(base, name, log, ret):
    """Object of class `base` whose every public method records its bound arguments and returns a sentinel."""
    from ucis.mem.mem_ucis import MemUCIS
    from ucis.lib.lib_ucis import LibUCIS
    ns = {}
    for b in (base, MemUCIS):
        for m, fn in inspect.getmembers(b, inspect.isfunction):
            if m.startswith("_") or m in ns or m == "accept":
                continue

            def mk(m=m, fn=fn):
                sig = inspect.signature(fn)

                def call(self, *a, **k):
                    ba = sig.bind(self, *a, **k)
                    ba.apply_defaults()
                    log.append((name, m, [v for x, v in ba.arguments.items() if x != "self"]))
                    return ret
                return call
            ns[m] = mk()
    ns["removeScope"] = lambda self, scope: (log.append((name, "removeScope", [scope])), ret)[1]
    ns["__init__"] = lambda self: None
    return type("Rec" + base.__name__, (base,), ns)()


def sp_functions():
    """Every C-style function, with the parent given and as None: exactly one call of the corresponding method, same arguments, same result."""
    def f(ch):
        u = api()
        from ucis.history_node import HistoryNode
        log, R = [], object()
        db = recorder(u.UCIS, "db", log, R)
        sc = recorder(u.Scope, "scope", log, R)
        hn = recorder(HistoryNode, "hist", log, R)
        S = [object() for _ in range(9)]
        fn = ch.all(["GetIntProperty", "SetIntProperty", "GetRealProperty", "SetRealProperty", "GetStringProperty", "SetStringProperty", "GetHandleProperty", "SetHandleProperty",
                     "CreateScope", "CreateInstance", "CreateToggle", "CreateNextCover", "CreateHistoryNode", "CreateFileHandle", "SetTestData", "Write", "Close"])
        F = getattr(u, "ucis_" + fn)
        ret = R
        if fn.endswith("Property"):
            tgt = ch.all(["scope", "hist", "db", "db-explicit"])
            o = {"scope": sc, "hist": hn, "db": None, "db-explicit": db}[tgt]
            ix = ch.all([-1, 0, 1, 5])
            args = [ix, S[0]] + ([S[1]] if fn.startswith("Set") else [])
            r = F(db, o, *args)
            want = [(tgt.split("-")[0], fn[0].lower() + fn[1:], args)]
            if fn.startswith("Set"):
                ret = None
                r = None
        elif fn in ("CreateScope", "CreateInstance", "CreateToggle"):
            par = ch.all([sc, None, db])
            n = {"CreateScope": 6, "CreateInstance": 7, "CreateToggle": 6}[fn]
            args = ["nm"] + S[:n - 1]
            r = F(db, par, *args)
            want = [("scope" if par is sc else "db", fn[0].lower() + fn[1:], args)]
        elif fn == "CreateNextCover":
            par = ch.all([sc, db])
            r = F(db, par, S[0], S[1], S[2])
            want = [("scope" if par is sc else "db", "createNextCover", S[:3])]
        elif fn == "CreateHistoryNode":
            par = ch.all([hn, None])
            r = F(db, par, S[0], S[1], S[2])
            want = [("db", "createHistoryNode", [par, S[0], S[1], S[2]])]
        elif fn == "CreateFileHandle":
            r = F(db, S[0], S[1])
            want = [("db", "createFileHandle", S[:2])]
        elif fn == "SetTestData":
            r = F(db, hn, S[0])
            want = [("hist", "setTestData", [S[0]])]
            r = ret = None
        elif fn == "Write":
            sco = ch.all([None, sc])
            rec = ch.all([0, 1])
            ct = ch.all([-1, 0, 1, 5])
            r = F(db, "file", sco, rec, ct)
            want = [("db", "write", ["file", sco, bool(rec), ct])]
            ret = 0
        else:
            r = F(db)
            want = [("db", "close", [])]
            ret = 0
        ch.op()
        ch.state((fn, [repr(x)[:20] for x in ch.choices]))
        if len(log) != len(want) or any(a[0] != b[0] or a[1] != b[1] or len(a[2]) != len(b[2]) or any(x is not y and x != y for x, y in zip(a[2], b[2])) for a, b in zip(log, want)):
            raise Violation("ucis_%s made the calls %s, should make %s" % (fn, log, want))
        if r is not ret and r != ret:
            raise Violation("ucis_%s returned %r, should return %r" % (fn, r, ret))
        # the method's failure is the function's failure
        class Boom(Exception):
            pass
    return f


def spaces(tier):
    global RULES
    RULES = rules()
    q = tier == "quick"
    return [
        Space("single", sp_single(q), 0, "every accepted property of every kind of object, every value, every way of setting it"),
        Space("pairs-same", sp_pairs("same", q), 0, "all ordered pairs of property sets on one object"),
        Space("pairs-across", sp_pairs("across", q), 0, "the same property set on two objects"),
        Space("flags", sp_flags(q), 0, "all sequences of flag sets on one coverage object"),
        Space("triples", sp_triple(q), 0, "all value triples of one property"),
        Space("functions", sp_functions(), 0, "every C-style function on a recording object"),
        Space("test-data", sp_testdata(), 0, "test data, both APIs"),
        Space("c-build", sp_cbuild(["empty"], 4 if q else 5, False), 0, "all C-style call sequences"),
        Space("c-build-group", sp_cbuild(["group", "points"], 2 if q else 3, True), 0, ""),
        Space("c-build-full", sp_cbuild(["full"], 1 if q else 2, True), 0, ""),
    ]
