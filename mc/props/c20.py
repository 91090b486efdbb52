"""C20: the library back-end hands every call to the UCIS C library unchanged.

The C library is mc/ref/mockucis.c (compiled at check time): it has the prototypes and structures of the UCIS C API, records every call it receives with all structures decoded by the C compiler's
layout, and returns handles whose upper and lower halves are all different.  The model predicts the record."""
import ctypes, itertools, os, shutil, struct, subprocess, sys, tempfile
from ..core import *

LEVEL = "model_checking"
RULE = "every construction program up to the bound; every argument of every call over its alphabet; the calls the recording C library received compared with the prediction"
ASSUMPTIONS = ["the C prototypes are those of the UCIS 1.0 C API as written in mc/ref/mockucis.c", "the numeric value of test status constants is taken from the package"]

# numbers of the UCIS C header
INTP = {n: i for i, n in enumerate("IS_MODIFIED MODIFIED_SINCE_SIM NUM_TESTS SCOPE_WEIGHT SCOPE_GOAL SCOPE_SOURCE_TYPE NUM_CROSSED_CVPS SCOPE_IS_UNDER_DU SCOPE_IS_UNDER_COVERINSTANCE SCOPE_NUM_COVERITEMS "
        "SCOPE_NUM_EXPR_TERMS TOGGLE_TYPE TOGGLE_DIR TOGGLE_COVERED BRANCH_HAS_ELSE BRANCH_ISCASE COVER_GOAL COVER_LIMIT COVER_WEIGHT TEST_STATUS TEST_COMPULSORY STMT_INDEX BRANCH_COUNT FSM_STATEVAL CVG_ATLEAST "
        "CVG_AUTOBINMAX CVG_DETECTOVERLAP CVG_NUMPRINTMISSING CVG_STROBE CVG_PERINSTANCE CVG_GETINSTCOV CVG_MERGEINSTANCES".split())}
STRP = {n: i for i, n in enumerate("FILE_NAME SCOPE_NAME SCOPE_HIER_NAME INSTANCE_DU_NAME UNIQUE_ID VER_STANDARD VER_STANDARD_VERSION VER_VENDOR_ID VER_VENDOR_TOOL VER_VENDOR_VERSION GENERIC ITH_CROSSED_CVP_NAME "
        "HIST_CMDLINE HIST_RUNCWD COMMENT TEST_TIMEUNIT TEST_DATE TEST_SIMARGS TEST_USERNAME TEST_NAME TEST_SEED TEST_HOSTNAME TEST_HOSTOS EXPR_TERMS TOGGLE_CANON_NAME UNIQUE_ID_ALIAS DESIGN_VERSION_ID DU_SIGNATURE "
        "HIST_TOOLCATEGORY HIST_LOG_NAME HIST_PHYS_NAME".split())}
SRC = {n: i for i, n in enumerate("VHDL VLOG SV SYSTEMC PSL_VHDL PSL_VLOG PSL_SV PSL_SYSTEMC E VERA NONE OTHER".split())}
SCOPE = {"TOGGLE": 1, "BRANCH": 2, "EXPR": 4, "COND": 8, "INSTANCE": 0x10, "PROCESS": 0x20, "BLOCK": 0x40, "FUNCTION": 0x80, "FORKJOIN": 0x100, "GENERATE": 0x200, "GENERIC": 0x400, "CLASS": 0x800,
         "COVERGROUP": 0x1000, "COVERINSTANCE": 0x2000, "COVERPOINT": 0x4000, "CROSS": 0x8000, "COVER": 0x10000, "ASSERT": 0x20000, "PROGRAM": 0x40000, "PACKAGE": 0x80000, "TASK": 0x100000, "INTERFACE": 0x200000,
         "FSM": 0x400000, "DU_MODULE": 0x1000000, "DU_ARCH": 0x2000000, "DU_PACKAGE": 0x4000000, "DU_PROGRAM": 0x8000000, "DU_INTERFACE": 0x10000000, "FSM_STATES": 0x20000000, "FSM_TRANS": 0x40000000,
         "COVBLOCK": 0x80000000, "CVGBINSCOPE": 0x100000000, "ILLEGALBINSCOPE": 0x200000000, "IGNOREBINSCOPE": 0x400000000, "RESERVEDSCOPE": 0xFF00000000000000}
COVER = {"CVGBIN": 1, "COVERBIN": 2, "ASSERTBIN": 4, "STMTBIN": 0x20, "BRANCHBIN": 0x40, "EXPRBIN": 0x80, "CONDBIN": 0x100, "TOGGLEBIN": 0x200, "PASSBIN": 0x400, "FSMBIN": 0x800, "USERBIN": 0x1000, "COUNT": 0x2000,
         "FAILBIN": 0x4000, "VACUOUSBIN": 0x8000, "DISABLEDBIN": 0x10000, "ATTEMPTBIN": 0x20000, "ACTIVEBIN": 0x40000, "IGNOREBIN": 0x80000, "ILLEGALBIN": 0x100000, "DEFAULTBIN": 0x200000, "PEAKACTIVEBIN": 0x400000,
         "BLOCKBIN": 0x1000000, "USERBITS": 0xFE000000, "RESERVEDBIN": 0xFF00000000000000}
TMET = {"NOBINS": 1, "ENUM": 2, "TRANSITION": 3, "_2STOGGLE": 4, "ZTOGGLE": 5, "XTOGGLE": 6}
TTYP = {"NET": 1, "REG": 2}
TDIR = {"INTERNAL": 1, "IN": 2, "OUT": 3, "INOUT": 4}
KIND = {"TEST": 1, "MERGE": 2}

MOCK = None


def load():
    global MOCK
    d = tempfile.mkdtemp(prefix="c20")
    try:
        so = os.path.join(d, "libmockucis.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "mc/ref/mockucis.c")], check=True)
        MOCK = ctypes.CDLL(so)
        MOCK.mock_log.restype = ctypes.c_char_p
        MOCK.mock_set_prop.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        MOCK.mock_reset()
        from ucis.lib.LibFactory import LibFactory
        LibFactory.load_ucis_library(so)
        regs = calls()
        if [r[0] for r in regs] != ["RegisterErrorHandler"] or regs[0][1] != 1:
            raise Violation("loading the library: it received %r" % (regs,))
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- the record
def _val(t, it):
    k, r = t[0], t[1:]
    if t == "N":
        return None
    if k == "p":
        return ("H", int(r, 16))
    if k == "i":
        return int(r)
    if k == "d":
        return float.fromhex(r)
    if k == "s":
        return bytes.fromhex(r)
    if k in "({[":
        out = []
        for x in it:
            if x in (")", "}", "]"):
                return tuple(out)
            out.append(_val(x, it))
    raise RuntimeError("harness: record %r" % t)


def calls():
    """The calls received since the last call of calls(): [(name, arg, ..., [">", result])]"""
    raw = MOCK.mock_log().decode("ascii")
    MOCK.mock_forget()
    out = []
    for r in raw.split("\x1e"):
        r = r.strip(" ")
        if not r:
            continue
        f = r.split("\x1f")
        if f[-1] == "":
            f.pop()
        it = iter(f[1:])
        args = []
        for x in it:
            args.append(">" if x == ">" else _val(x, it))
        out.append(tuple([f[0]] + args))
    return out


def enc(s):
    return None if s is None else s.encode("utf-8")


def i32(v):
    v = int(v) & 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Bench:
    """A database per name, the objects made so far with the handles the library gave, and the model of every call."""

    def __init__(self, ch, style="obj"):
        MOCK.mock_reset()
        MOCK.mock_props_reset()
        MOCK.mock_write_ret(0)
        calls()
        self.ch, self.style = ch, style
        self.db = {}        # name -> (object, handle)
        self.props = {}     # (db, obj, ci, "int"/"str", p) -> value
        self.n = 0

    def ck(self, what, want, made=None, defaults=None):
        """Compare the record with `want` = [(name, args)]; returns the handle of the made object."""
        got = calls()
        self.ch.op()
        self.n += 1
        body, h = [], None
        sets = {}
        for c in got:
            if ">" in c:
                k = c.index(">")
                if c[k + 1] is not None and made and c[0] == made:
                    h = c[k + 1]
                c = c[:k]
            if c[0] in ("SetIntProperty", "SetStringProperty") and defaults is not None and h is not None:
                sets.setdefault(c[:5], []).append(c[5])
                continue
            body.append(c)
        if body != want:
            raise Violation("%s: the library received other calls" % what, {"received": repr(body), "expected": repr(want)})
        if made and h is None:
            raise Violation("%s: nothing was created" % what)
        if defaults is not None:
            db = want[0][1] if made != "Open" else h
            exp = {("SetIntProperty" if k == "int" else "SetStringProperty", db, h, -1, p): v for (k, p), v in defaults.items()}
            bad = {k: v for k, v in sets.items() if k not in exp or any(x != exp[k] for x in v)}
            miss = [k for k in exp if k not in sets]
            if bad or miss:
                raise Violation("%s: defaults of the new object" % what, {"unexpected": repr(bad), "missing": repr(miss)})
        return h

    # -- the operations
    def open(self, name, file=None, via="factory"):
        from ucis.lib.LibFactory import LibFactory
        from ucis.lib.lib_ucis import LibUCIS
        d = LibFactory.create(file) if via == "factory" else LibUCIS(file)
        h = self.ck("open %r" % file, [("Open", enc(file))], made="Open", defaults={} if file is not None else {("int", INTP["SCOPE_GOAL"]): 100})
        self.db[name] = (d, h)
        return (d, h, "db", name)

    def file(self, dbn, fn, wd):
        d, dh = self.db[dbn]
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateFileHandle(d, fn, wd)
        else:
            o = d.createFileHandle(fn, wd)
        h = self.ck("createFileHandle", [("CreateFileHandle", dh, enc(fn), enc(wd))], made="CreateFileHandle")
        return (o, h, "file", dbn, fn)

    def src(self, spec):
        """spec: None or (file or None, line, token); returns (SourceInfo, expected)"""
        from ucis.source_info import SourceInfo
        if spec is None:
            return None, None
        f, line, tok = spec
        return SourceInfo(f[0] if f else None, line, tok), (f[1] if f else None, i32(line), i32(tok))

    def _par(self, p):
        d, dh = self.db[p[3]]
        return d, dh, (None if p[2] == "db" else p[1])

    SCOPE_DEF = {("int", INTP["SCOPE_GOAL"]): 100}
    CVG_DEF = dict(SCOPE_DEF, **{})
    CVG_DEF.update({("int", INTP["CVG_ATLEAST"]): 1, ("int", INTP["CVG_AUTOBINMAX"]): 64, ("int", INTP["CVG_DETECTOVERLAP"]): 0, ("int", INTP["CVG_STROBE"]): 0})
    CG_DEF = dict(CVG_DEF)
    CG_DEF.update({("int", INTP["CVG_PERINSTANCE"]): 0, ("int", INTP["CVG_MERGEINSTANCES"]): 1, ("int", INTP["CVG_GETINSTCOV"]): 0, ("str", STRP["COMMENT"]): b""})
    CP_DEF = dict(CVG_DEF)
    CP_DEF.update({("str", STRP["COMMENT"]): b""})

    def scope(self, p, name, src, w, source, type, flags):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateScope(d, None if p[2] == "db" else p[0], name, s, w, source, type, flags)
        else:
            o = p[0].createScope(name, s, w, source, type, flags)
        h = self.ck("createScope", [("CreateScope", dh, ph, enc(name), se, i32(w), int(source), int(type), int(flags) & 0xffffffff)], made="CreateScope", defaults=self.SCOPE_DEF)
        return (o, h, "scope", p[3])

    def instance(self, p, name, src, w, source, type, du, flags):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateInstance(d, None if p[2] == "db" else p[0], name, s, w, source, type, du[0], flags)
        else:
            o = p[0].createInstance(name, s, w, source, type, du[0], flags)
        h = self.ck("createInstance", [("CreateInstance", dh, ph, enc(name), se, i32(w), int(source), int(type), du[1], int(flags) & 0xffffffff)], made="CreateInstance", defaults=self.SCOPE_DEF)
        return (o, h, "scope", p[3])

    def toggle(self, p, name, canon, flags, m, t, dr):
        d, dh, ph = self._par(p)
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateToggle(d, None if p[2] == "db" else p[0], name, canon, flags, m, t, dr)
        else:
            o = p[0].createToggle(name, canon, flags, m, t, dr)
        h = self.ck("createToggle", [("CreateToggle", dh, ph, enc(name), enc(canon), int(flags) & 0xffffffff, int(m), int(t), int(dr))], made="CreateToggle", defaults=self.SCOPE_DEF)
        return (o, h, "toggle", p[3])

    def covergroup(self, p, name, src, w, source):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        o = p[0].createCovergroup(name, s, w, source)
        h = self.ck("createCovergroup", [("CreateScope", dh, ph, enc(name), se, i32(w), int(source), SCOPE["COVERGROUP"], 0)], made="CreateScope", defaults=self.CG_DEF)
        return (o, h, "cg", p[3])

    def coverinst(self, p, name, src, w, source):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        o = p[0].createCoverInstance(name, s, w, source)
        h = self.ck("createCoverInstance", [("CreateScope", dh, ph, enc(name), se, i32(w), int(source), SCOPE["COVERINSTANCE"], 0)], made="CreateScope", defaults=self.CG_DEF)
        return (o, h, "ci", p[3])

    def coverpoint(self, p, name, src, w, source):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        o = p[0].createCoverpoint(name, s, w, source)
        h = self.ck("createCoverpoint", [("CreateScope", dh, ph, enc(name), se, i32(w), int(source), SCOPE["COVERPOINT"], 0)], made="CreateScope", defaults=self.CP_DEF)
        return (o, h, "cp", p[3])

    def cross(self, p, name, src, w, source, cps):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        o = p[0].createCross(name, s, w, source, [c[0] for c in cps])
        h = self.ck("createCross", [("CreateCross", dh, ph, enc(name), se, i32(w), int(source), len(cps), tuple(c[1] for c in cps))], made="CreateCross", defaults=self.CVG_DEF)
        return (o, h, "cr", p[3])

    def bin(self, p, name, src, at_least, count, kind=None):
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        o = p[0].createBin(name, s, at_least, count, "rhs") if kind is None else p[0].createBin(name, s, at_least, count, "rhs", kind)
        wide = count >= 1 << 32
        self.ck("createBin(count %d, at_least %d, kind %r)" % (count, at_least, kind),
                [("CreateNextCover", dh, ph, enc(name), (COVER["CVGBIN"] if kind is None else int(kind), 0x18 | (2 if wide else 1), count, i32(at_least), 1, 0, 0), se)])
        return (o, ph, "bin", p[3])

    def nextcover(self, p, name, data, src):
        """data: (type, flags, value, goal, weight, limit, bitlen)"""
        from ucis.cover_data import CoverData
        d, dh, ph = self._par(p)
        s, se = self.src(src)
        cd = CoverData(data[0], data[1])
        cd.data, cd.goal, cd.weight, cd.limit, cd.bitlen = data[2:]
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateNextCover(d, p[0], name, cd, s)
        else:
            o = p[0].createNextCover(name, cd, s)
        self.ck("createNextCover %r" % (data,), [("CreateNextCover", dh, ph, enc(name), (int(data[0]), int(data[1]) & 0xffffffff, data[2]) + tuple(i32(x) for x in data[3:]), se)])
        return (o, ph, "bin", p[3])

    def history(self, dbn, parent, ln, pn, kind):
        d, dh = self.db[dbn]
        if self.style == "c":
            import ucis
            o = ucis.ucis_CreateHistoryNode(d, parent[0] if parent else None, ln, pn, kind)
        else:
            o = d.createHistoryNode(parent[0] if parent else None, ln, pn, kind)
        h = self.ck("createHistoryNode", [("CreateHistoryNode", dh, parent[1] if parent else None, enc(ln), enc(pn), int(kind))], made="CreateHistoryNode")
        return (o, h, "hist", dbn)

    TD = ["teststatus", "simtime", "timeunit", "runcwd", "cputime", "seed", "cmd", "args", "compulsory", "date", "user", "cost", "toolcategory"]

    def testdata(self, hn, v):
        from ucis.test_data import TestData
        d, dh = self.db[hn[3]]
        td = TestData(**v)
        if self.style == "c":
            import ucis
            ucis.ucis_SetTestData(d, hn[0], td)
        else:
            hn[0].setTestData(td)
        self.ck("setTestData", [("SetTestData", dh, hn[1], self.td_rec(v))])

    def td_rec(self, v):
        return tuple(enc(v[n]) if v[n] is None or isinstance(v[n], str) else float(v[n]) if n in ("simtime", "cputime", "cost") else int(v[n]) for n in self.TD)

    def read_testdata(self, hn, v):
        d, dh = self.db[hn[3]]
        t = hn[0].getTestData()
        self.ck("getTestData", [("GetTestData", dh, hn[1])])
        got = {n: getattr(t, n) for n in self.TD}
        if got != v:
            raise Violation("getTestData: other data than the library gave", {"got": got, "want": v})

    def setint(self, o, ci, p, v):
        d, dh = self.db[o[3]]
        if self.style == "c":
            import ucis
            ucis.ucis_SetIntProperty(d, None if o[2] == "db" else o[0], ci, p, v)
        else:
            o[0].setIntProperty(ci, p, v)
        self.ck("setIntProperty(%r, %r, %r) of a %s" % (ci, p, v, o[2]), [("SetIntProperty", dh, o[1], ci, INTP[p.name], i32(v))])

    def setstr(self, o, ci, p, v):
        d, dh = self.db[o[3]]
        if self.style == "c":
            import ucis
            ucis.ucis_SetStringProperty(d, None if o[2] == "db" else o[0], ci, p, v)
        else:
            o[0].setStringProperty(ci, p, v)
        self.ck("setStringProperty(%r, %r, %r) of a %s" % (ci, p, v, o[2]), [("SetStringProperty", dh, o[1], ci, STRP[p.name], enc(v))])

    def write(self, dbn, file, scope, recurse, ct):
        d, dh = self.db[dbn]
        if self.style == "c":
            import ucis
            ucis.ucis_Write(d, file, scope[0] if scope else None, 1 if recurse else 0, ct)
        else:
            d.write(file, scope[0] if scope else None, recurse, ct)
        self.ck("write(covertype %d)" % ct, [("Write", dh, enc(file), scope[1] if scope else None, 1 if recurse else 0, int(ct) & 0xffffffffffffffff)])

    def close(self, dbn):
        d, dh = self.db[dbn]
        if self.style == "c":
            import ucis
            ucis.ucis_Close(d)
        else:
            d.close()
        self.ck("close", [("Close", dh)])


# ---------------------------------------------------------------- alphabets
STRS = ["a", "", "x y/z.\\n\"'<&", "é€😀", "n" * 3000, "%s%n%d", " lead trail "]
INTS32 = [1, 0, -1, 7, 2147483647, -2147483648, 100, 65536]
U32 = [0, 1, 0x100, 0x7fffffff, 0x80000000, 0xf0000000, 0xffffffff]
COUNTS = [0, 1, 2, 255, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4294967297, (1 << 40) + 5, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def enums():
    import ucis
    from ucis.scope_type_t import ScopeTypeT
    from ucis.cover_type_t import CoverTypeT
    from ucis.source_t import SourceT
    from ucis.toggle_metric_t import ToggleMetricT
    from ucis.toggle_type_t import ToggleTypeT
    from ucis.toggle_dir_t import ToggleDirT
    from ucis.history_node_kind import HistoryNodeKind
    from ucis.int_property import IntProperty
    from ucis.str_property import StrProperty
    return {"scope": (ScopeTypeT, SCOPE), "cover": (CoverTypeT, COVER), "source": (SourceT, SRC), "tmet": (ToggleMetricT, TMET), "ttyp": (ToggleTypeT, TTYP), "tdir": (ToggleDirT, TDIR), "kind": (HistoryNodeKind, KIND),
            "intp": (IntProperty, INTP), "strp": (StrProperty, STRP)}


def E(k, n):
    return getattr(enums()[k][0], n)


def sp_constants():
    """Every named constant of the package has the number of the C header."""
    def f(ch):
        k = ch.all(sorted(enums()))
        cls, tab = enums()[k]
        n = ch.all(sorted(tab))
        ch.state((k, n))
        ch.op()
        m = getattr(cls, n, None)
        if m is None or int(m) != tab[n]:
            raise Violation("constant %s.%s is %r, the UCIS header says %d" % (cls.__name__, n, m, tab[n]))
    return f


def base(ch, style):
    """db, a design unit, an instance, a covergroup, two coverpoints and a file."""
    b = Bench(ch, style)
    o = {"db": b.open("d")}
    o["file"] = b.file("d", "f.sv", "/w")
    o["du"] = b.scope(o["db"], "du", (o["file"], 1, 2), 1, E("source", "SV"), E("scope", "DU_MODULE"), 3)
    o["in"] = b.instance(o["db"], "in", None, 2, E("source", "OTHER"), E("scope", "INSTANCE"), o["du"], 1)
    o["cg"] = b.covergroup(o["in"], "cg", None, 3, E("source", "SV"))
    o["cp"] = b.coverpoint(o["cg"], "cp", None, 4, E("source", "SV"))
    o["cp2"] = b.coverpoint(o["cg"], "cp2", (o["file"], 8, 9), 5, E("source", "SV"))
    o["ci"] = b.coverinst(o["cg"], "ci", None, 6, E("source", "SV"))
    o["cr"] = b.cross(o["cg"], "cr", None, 7, E("source", "SV"), [o["cp"], o["cp2"]])
    o["hn"] = b.history("d", None, "h", "p", E("kind", "TEST"))
    return b, o


def sp_args(pairs):
    """Every creation call, every argument over its alphabet, singly and in pairs (the third value and on only singly)."""
    def f(ch):
        style = ch.all(["obj", "c"])
        call = ch.all(["open", "file", "scope", "instance", "toggle", "covergroup", "coverinst", "coverpoint", "cross", "nextcover", "history"])
        if style == "c" and call in ("covergroup", "coverinst", "coverpoint", "cross"):
            raise Prune()
        b, o = base(ch, style)
        P = ch.pick
        name = lambda: P(STRS, 3)
        w = lambda: P(INTS32, 3)
        fl = lambda: P(U32, 3)
        e = lambda k, first: [E(k, first)] + [E(k, n) for n in enums()[k][1] if n != first]
        src = lambda: P([None, (o["file"], 5, 6), (o["file"], 0, 0), (o["file"], -1, -1), (o["file"], 2147483647, -2147483648), (None, 3, 4), (o["file2"], 11, 12)], 2)
        o["file2"] = b.file("d", "g.sv", None)
        par = lambda l: o[P(l, len(l))]
        if call == "open":
            b.open("e", P([None, "", "f.ucis", "/abs/é x.ucis", "n" * 3000]), P(["factory", "class"]))
        elif call == "file":
            b.file("d", P(STRS, 3), P([None] + STRS, 3))
        elif call == "scope":
            b.scope(par(["db", "du", "in", "cg", "cp"]), P(STRS + [None], 3), src(), w(), P(e("source", "VHDL"), 2), P(e("scope", "DU_MODULE"), 2), fl())
        elif call == "instance":
            b.instance(par(["db", "in", "du"]), name(), src(), w(), P(e("source", "VHDL"), 2), P(e("scope", "INSTANCE"), 2), par(["du", "in", "cg"]), fl())
        elif call == "toggle":
            b.toggle(par(["in", "db", "du"]), name(), P([None] + STRS, 3), fl(), P(e("tmet", "NOBINS"), 2), P(e("ttyp", "NET"), 2), P(e("tdir", "INTERNAL"), 2))
        elif call == "covergroup":
            b.covergroup(par(["in", "du", "db"]), name(), src(), w(), P(e("source", "VHDL"), 2))
        elif call == "coverinst":
            b.coverinst(par(["cg"]), name(), src(), w(), P(e("source", "VHDL"), 2))
        elif call == "coverpoint":
            b.coverpoint(par(["cg", "ci"]), name(), src(), w(), P(e("source", "VHDL"), 2))
        elif call == "cross":
            b.cross(par(["cg", "ci"]), name(), src(), w(), P(e("source", "VHDL"), 2), [o[x] for x in P([["cp", "cp2"], ["cp2", "cp"], ["cp", "cp"], ["cp"], [], ["cp", "cp2", "cp"], ["cp2"] * 9], 3)])
        elif call == "nextcover":
            kind = P(["32", "64", "vec"], 2)
            if kind == "vec":
                v, bits = ch.pick([(b"\x01", 8), (b"\x00\xff\x00", 24), (b"\x00" * 9, 65), (b"\xff" * 40, 320), (b"\x01\x80", 9)])
            else:
                v, bits = ch.pick(COUNTS if kind == "64" else [c for c in COUNTS if c < 1 << 32], 3), P([0, 1, 32, 64], 1)
            b.nextcover(par(["cp", "in", "cr", "ci"]), name(), (P(e("cover", "CVGBIN"), 2), {"32": 1, "64": 2, "vec": 4}[kind] | P([0, 8, 16, 24, 0x100, 0x7ffffff8], 2), v, P(INTS32, 2), P(INTS32, 2), P(INTS32, 2), bits), src())
        else:
            b.history("d", P([None, o["hn"]], 2), P(STRS, 3), P([None] + STRS, 3), P(e("kind", "TEST"), 2))
        ch.state((style, call, tuple(ch.choices)))
    return f


def sp_bins(q):
    """createBin: every count x threshold x kind x parent; and every source position."""
    def f(ch):
        par = ch.all(["cp", "cr", "cp-ci"])
        b, o = base(ch, "obj")
        p = o["cp"] if par == "cp" else o["cr"] if par == "cr" else b.coverpoint(o["ci"], "cpi", None, 1, E("source", "SV"))
        cnt = ch.all(COUNTS)
        al = ch.all([1, 0, 2, 1000000, 2147483647])
        kind = ch.all([None] + [E("cover", n) for n in (["CVGBIN", "IGNOREBIN", "ILLEGALBIN", "DEFAULTBIN"] if q else list(COVER))])
        s = ch.all([None, (o["file"], 3, 4)])
        name = ch.all(["b", "é"] if q else STRS)
        ch.state((par, cnt, al, kind, s is None, name))
        b.bin(p, name, s, al, cnt, kind)
        b.bin(p, "again", None, 1, 1)
    return f


def sp_sources(n):
    """All sequences of n calls over source locations that agree in some of their parts."""
    def f(ch):
        b, o = base(ch, "obj")
        o["file2"] = b.file("d", "g.sv", None)
        locs = [None] + [(x, l, t) for x in (o["file"], o["file2"], None) for l in (5, 6) for t in (1, 2)]
        tr = []
        for k in range(n):
            call = ch.all(["scope", "bin", "instance"] if k == 0 else ["bin", "scope"])
            j = ch.all(list(range(len(locs))))
            tr.append((call, j))
            if call == "scope":
                b.scope(o["db"], "s%d" % k, locs[j], 1, E("source", "SV"), E("scope", "DU_MODULE"), 0)
            elif call == "instance":
                b.instance(o["in"], "s%d" % k, locs[j], 1, E("source", "SV"), E("scope", "INSTANCE"), o["du"], 0)
            else:
                b.bin(o["cp"], "b%d" % k, locs[j], 1, 0)
        ch.state(tuple(tr))
    return f


def sp_testdata(q):
    """Test data: every field over its alphabet, pairs of fields, set, read back, set again."""
    TS = E("intp", "TEST_STATUS")
    from ucis.test_status_t import TestStatusT
    F = {"teststatus": [TestStatusT.OK] + [t for t in TestStatusT if t != TestStatusT.OK], "toolcategory": [s for s in STRS] + [None], "date": ["20200101000000", ""], "simtime": [0.0, 1.5, -1.0, 1e300, 5e-324, 123456789.125, 1 / 3],
         "timeunit": ["ns", "", None, "é"], "runcwd": [".", "/a b", None], "cputime": [0.0, 2.25, 1e-9], "seed": ["0", "18446744073709551615", ""], "cmd": ["", "sim -x \"y\"", None], "args": ["", "+a +b"],
         "compulsory": [0, 1, -1, 2147483647], "user": ["user", "é", ""], "cost": [0.0, 1.0, 2.5e-5]}

    def f(ch):
        style = ch.all(["obj", "c"])
        b, o = base(ch, style)
        hn2 = b.history("d", o["hn"], "h2", None, E("kind", "TEST"))
        v1 = {n: ch.pick(F[n], 3) for n in F}
        which = ch.all([0, 1])
        a, c = (o["hn"], hn2) if which == 0 else (hn2, o["hn"])
        ch.state(tuple(ch.choices))
        b.testdata(a, v1)
        b.read_testdata(a, v1)
        v2 = {n: F[n][-1] for n in F}
        b.testdata(c, v2)
        b.read_testdata(a, v1)
        b.read_testdata(c, v2)
        b.testdata(a, v2)
        b.read_testdata(a, v2)
    return f


SETTERS = [("setGoal", ("db", "du", "in", "cg", "cp", "cr", "ci"), "SCOPE_GOAL", "int"), ("setAtLeast", ("cg", "cp", "cr", "ci"), "CVG_ATLEAST", "int"), ("setAutoBinMax", ("cg", "cp", "cr", "ci"), "CVG_AUTOBINMAX", "int"),
           ("setDetectOverlap", ("cg", "cp", "cr", "ci"), "CVG_DETECTOVERLAP", "bool"), ("setStrobe", ("cg", "cp", "cr", "ci"), "CVG_STROBE", "bool"), ("setComment", ("cg", "cp", "cr", "ci"), "COMMENT", "str"),
           ("setPerInstance", ("cg", "ci"), "CVG_PERINSTANCE", "bool"), ("setMergeInstances", ("cg", "ci"), "CVG_MERGEINSTANCES", "bool"), ("setGetInstCoverage", ("cg", "ci"), "CVG_GETINSTCOV", "bool"),
           ("setTestStatus", ("hn",), "TEST_STATUS", "int")]
GETTERS = [(s.replace("set", "get", 1), k, p, t) for s, k, p, t in SETTERS]


def sp_setters():
    """Every setter and every getter with a name, on every object that has it."""
    def f(ch):
        s, kinds, p, t = ch.all(SETTERS)
        k = ch.all(list(kinds))
        b, o = base(ch, "obj")
        v = ch.all({"int": INTS32, "bool": [True, False], "str": STRS}[t])
        ch.state((s, k, v))
        getattr(o[k][0], s)(v)
        dh = o["db"][1]
        if t == "str":
            b.ck("%s of a %s" % (s, k), [("SetStringProperty", dh, o[k][1], -1, STRP[p], enc(v))])
        else:
            b.ck("%s(%r) of a %s" % (s, v, k), [("SetIntProperty", dh, o[k][1], -1, INTP[p], int(v))])
        g = s.replace("set", "get", 1)
        MOCK.mock_set_prop(dh[1], o[k][1][1], -1, STRP[p] if t == "str" else INTP[p], 0 if t == "str" else int(v), enc(v) if t == "str" else None)
        r = getattr(o[k][0], g)()
        b.ck("%s of a %s" % (g, k), [("GetStringProperty" if t == "str" else "GetIntProperty", dh, o[k][1], -1, STRP[p] if t == "str" else INTP[p])])
        if r != v or (t == "bool") != isinstance(r, bool):
            raise Violation("%s of a %s gives %r where the library says %r" % (g, k, r, v))
    return f


def sp_props(q):
    """Every property of every object kind, every cover index, set and read."""
    def f(ch):
        style = ch.all(["obj", "c"])
        k = ch.all(["db", "du", "in", "cg", "cp", "cr", "ci", "hn", "bin", "tg"])
        fam = ch.all(["int", "str"])
        p = ch.all([E("intp", n) for n in INTP] if fam == "int" else [E("strp", n) for n in STRP])
        ci = ch.all([-1, 0, 1, 70000])
        v = ch.all(([5, 0, -1, 2147483647, -2147483648] if fam == "int" else ["v", "", "é%n"])[:3 if q else 5])
        b, o = base(ch, style)
        if k == "bin":
            o["bin"] = b.bin(o["cp"], "b", None, 1, 3)
        elif k == "tg":
            o["tg"] = b.toggle(o["in"], "t", None, 0, 1, 1, 1)
        ch.state((style, k, p, fam, ci, v))
        dh, h = o["db"][1], o[k][1]
        MOCK.mock_set_prop(dh[1], h[1], ci, int(p), v if fam == "int" else 0, enc(v) if fam == "str" else None)
        if style == "c":
            import ucis
            r = (ucis.ucis_GetIntProperty if fam == "int" else ucis.ucis_GetStringProperty)(o["db"][0], None if k == "db" else o[k][0], ci, p)
        else:
            r = o[k][0].getIntProperty(ci, p) if fam == "int" else o[k][0].getStringProperty(ci, p)
        b.ck("reading %r of a %s" % (p, k), [("GetIntProperty" if fam == "int" else "GetStringProperty", dh, h, ci, (INTP if fam == "int" else STRP)[p.name])])
        if r != v:
            raise Violation("reading %r of a %s gives %r where the library says %r" % (p, k, r, v))
        if fam == "int":
            b.setint(o[k], ci, p, v)
        else:
            b.setstr(o[k], ci, p, v)
    return f


def sp_dbacc():
    """What a database says about itself."""
    def f(ch):
        acc, p, fam, vals = ch.all([("isModified", "IS_MODIFIED", "bool", [0, 1]), ("modifiedSinceSim", "MODIFIED_SINCE_SIM", "bool", [0, 1]), ("getNumTests", "NUM_TESTS", "int", [0, 1, 2147483647]),
                                    ("getWrittenBy", "TEST_USERNAME", "str", STRS)])
        v = ch.all(vals)
        b, o = base(ch, "obj")
        dh = o["db"][1]
        other = b.open("e")
        MOCK.mock_set_prop(dh[1], dh[1], -1, STRP[p] if fam == "str" else INTP[p], v if fam != "str" else 0, enc(v) if fam == "str" else None)
        ch.state((acc, v))
        r = getattr(o["db"][0], acc)()
        b.ck(acc, [("GetStringProperty" if fam == "str" else "GetIntProperty", dh, dh, -1, STRP[p] if fam == "str" else INTP[p])])
        if r != v or (fam == "bool") != isinstance(r, bool):
            raise Violation("%s gives %r where the library says %r" % (acc, r, v))
    return f


def sp_write():
    """write: scope x recurse x cover types, and a library that cannot write."""
    def f(ch):
        style = ch.all(["obj", "c"])
        b, o = base(ch, style)
        sc = ch.all([None, "in", "cg", "cp", "ci", "cr", "du"])
        rec = ch.all([True, False])
        ct = ch.all([-1, 0] + sorted(set(COVER.values())) + [E("cover", "IGNOREBIN")])
        fn = ch.all(["out.ucis", "/a/é x"])
        ret = ch.all([0, -1])
        ch.state((style, sc, rec, ct, fn, ret))
        MOCK.mock_write_ret(ret)
        if ret == 0:
            b.write("d", fn, o[sc] if sc else None, rec, ct)
            b.write("d", fn, None, True, -1)
            b.close("d")
            return
        try:
            b.write("d", fn, o[sc] if sc else None, rec, ct)
        except Violation:
            raise
        except Exception:
            b.ck("a refused write", [("Write", o["db"][1], enc(fn), o[sc][1] if sc else None, int(rec), int(ct) & 0xffffffffffffffff)])
            return
        raise Violation("the library reports that the database could not be written, but write() returns normally")
    return f


# ---------------------------------------------------------------- programs
OPS = ["file", "scope", "instance", "covergroup", "coverinst", "coverpoint", "cross", "bin", "nextcover", "toggle", "history", "testdata", "setint", "setstr", "write"]


def do(b, ch, op, objs, k, dbn, free=True):
    """One operation of a program; the k-th: its arguments are all different from those of the others.  The handles are chosen."""
    A = ch.all if free else (lambda l: l[-1])
    of = lambda *kinds: [x for x in objs if x[2] in kinds and x[3] == dbn]
    files = of("file")
    src = lambda: None if not files else A([None, (files[-1], k + 1000, k + 2000)])
    n = "n%d" % k

    def need(l):
        if not l:
            raise Prune()
        return A(l)
    S = E("source", "SV")
    if op == "file":
        r = b.file(dbn, n, "w%d" % k)
    elif op == "scope":
        r = b.scope(need(of("db", "scope")), n, src(), k, S, E("scope", "DU_MODULE"), k)
    elif op == "instance":
        r = b.instance(need(of("db", "scope")), n, src(), k, S, E("scope", "INSTANCE"), need(of("scope")), k)
    elif op == "covergroup":
        r = b.covergroup(need(of("scope")), n, src(), k, S)
    elif op == "coverinst":
        r = b.coverinst(need(of("cg")), n, src(), k, S)
    elif op == "coverpoint":
        r = b.coverpoint(need(of("cg", "ci")), n, src(), k, S)
    elif op == "cross":
        cps = of("cp")
        r = b.cross(need(of("cg", "ci")), n, src(), k, S, A([cps, cps[::-1], cps[:1]] if len(cps) > 1 else [cps]))
    elif op == "bin":
        r = b.bin(need(of("cp", "cr")), n, src(), k, k + (1 << 33) * (k % 2), A([None, E("cover", "ILLEGALBIN")]))
    elif op == "nextcover":
        r = b.nextcover(need(of("scope", "cp")), n, (E("cover", "STMTBIN"), 1, k, k, k, k, k), src())
    elif op == "toggle":
        r = b.toggle(need(of("scope")), n, "c%d" % k, k, 2, 2, 2)
    elif op == "history":
        r = b.history(dbn, A([None] + of("hist")), n, "p%d" % k, E("kind", "TEST"))
    elif op == "testdata":
        h = need(of("hist"))
        v = {"teststatus": 1 + k % 3, "toolcategory": n, "date": "d%d" % k, "simtime": k + 0.5, "timeunit": "u%d" % k, "runcwd": "r%d" % k, "cputime": k + 0.25, "seed": "s%d" % k, "cmd": "c%d" % k, "args": "a%d" % k,
             "compulsory": k, "user": "w%d" % k, "cost": float(k)}
        b.testdata(h, v)
        b.read_testdata(h, v)
        return
    elif op == "setint":
        b.setint(need([o for o in objs if o[2] not in ("file",) and o[3] == dbn]), k, E("intp", "SCOPE_GOAL"), k)
        return
    elif op == "setstr":
        b.setstr(need([o for o in objs if o[2] not in ("file",) and o[3] == dbn]), k, E("strp", "COMMENT"), n)
        return
    elif op == "write":
        b.write(dbn, n, A([None] + of("scope", "cg", "cp")), True, -1)
        return
    objs.append(r)


def sp_programs(depth, pre, styles=("obj", "c")):
    """Every sequence of operations up to the depth with every choice of the handles, after a small prefix."""
    def f(ch):
        style = ch.all(list(styles))
        b = Bench(ch, style)
        objs = [b.open("d", None)]
        k = 10
        for op in pre:
            do(b, ch, op, objs, k, "d", free=False)
            k += 1
        seq = []
        for _ in range(depth):
            op = ch.all(OPS)
            seq.append(op)
            if style == "c" and op in ("covergroup", "coverinst", "coverpoint", "cross", "bin"):
                if all(x not in ("file", "scope", "instance", "nextcover", "toggle", "history", "testdata", "setint", "setstr", "write") for x in seq) and len(seq) == depth:
                    raise Prune()
            do(b, ch, op, objs, k, "d")
            k += 1
        b.close("d")
        ch.state((style, tuple(pre), tuple(seq), tuple(ch.choices)))
    return f


def sp_two(depth):
    """Two databases at a time, every interleaving: each call carries the handles of its own database."""
    O = ["file", "scope", "covergroup", "coverpoint", "bin", "history", "testdata", "setint", "write"]

    def f(ch):
        style = ch.all(["obj", "c"])
        b = Bench(ch, style)
        objs = [b.open("d"), b.open("e", ch.all([None, "x.ucis"]))]
        k = 10
        for dbn in "de":
            for op in ("file", "scope", "covergroup", "coverpoint", "history"):
                do(b, ch, op, objs, k, dbn, free=False)
                k += 1
        for _ in range(depth):
            dbn = ch.all(["d", "e"])
            do(b, ch, ch.all(O), objs, k, dbn, free=True)
            k += 1
        for dbn in ch.all(["de", "ed"]):
            b.close(dbn)
        ch.state((style, tuple(ch.choices)))
    return f


def sp_iterate(q):
    """Iteration: the scopes and history nodes the library gives, in its order, whatever the mask, at every level, complete, interleaved and abandoned."""
    T = ["DU_MODULE", "INSTANCE", "COVERGROUP", "IGNOREBINSCOPE", "COVBLOCK"]

    def f(ch):
        b = Bench(ch)
        db = b.open("d")
        fl = b.file("d", "f.sv", None)
        objs, par = [db], {}
        n = ch.all([0, 1, 2, 3] if q else [0, 1, 2, 3, 4])
        types = {}
        for k in range(n):
            p = ch.all(objs)
            t = ch.all(T[:3] if q and k > 1 else T)
            s = (fl, 40 + k, 50 + k) if k % 2 == 0 else None
            r = b.scope(p, "s%d" % k, s, k, E("source", "SV"), E("scope", t), 0)
            par.setdefault(p[1] if p is not db else None, []).append((r[1], SCOPE[t], s))
            objs.append(r)
        at = ch.all(objs)
        mask = ch.all([-1, E("scope", "ALL"), E("scope", "DU_MODULE"), E("scope", "DU_MODULE") | E("scope", "INSTANCE"), E("scope", "IGNOREBINSCOPE"), E("scope", "COVBLOCK"), 0])
        how = ch.all(["all", "nested", "first", "again"])
        ch.state(tuple(ch.choices))
        dh, ph = db[1], None if at is db else at[1]
        m = int(mask) & 0xffffffffffffffff
        want = [x for x in par.get(ph, []) if x[1] & m]

        def start():
            it = iter(at[0].scopes(mask))
            got = calls()
            ch.op()
            return it, got

        def check(cs, items, done):
            names = [c[0] for c in cs]
            exp = ["ScopeIterate"] + ["ScopeScan"] * (len(items) + (1 if done else 0)) + (["FreeIterator"] if done else [])
            if names != exp:
                raise Violation("iterating scopes: the library received %r" % (names,), {"expected": repr(exp)})
            c0 = cs[0][:cs[0].index(">")]
            ih = cs[0][-1]
            if c0 != ("ScopeIterate", dh, ph, m) or any(c[1:] != (dh, ih) for c in cs[1:]):
                raise Violation("iterating scopes with mask %r" % mask, {"received": repr(cs), "expected": repr(("ScopeIterate", dh, ph, m))})

        def same(o, w):
            """The object the iteration gave stands for the scope the library gave."""
            o.setIntProperty(-1, E("intp", "SCOPE_WEIGHT"), 77)
            b.ck("a scope from an iteration", [("SetIntProperty", dh, w[0], -1, INTP["SCOPE_WEIGHT"], 77)])
            if w[2] is not None:
                si = o.getSourceInfo()
                b.ck("getSourceInfo", [("GetScopeSourceInfo", dh, w[0])])
                if (si.line, si.token) != (w[2][1], w[2][2]):
                    raise Violation("getSourceInfo gives line %r token %r" % (si.line, si.token), repr(w[2]))
                fn = si.file.getFileName()
                b.ck("getFileName", [("GetFileName", dh, fl[1])])
                if fn != "f.sv":
                    raise Violation("getFileName gives %r" % (fn,))

        it, cs = start()
        if how == "first":
            got = [x for x in itertools.islice(it, 1)]
            cs += calls()
            if len(got) != min(1, len(want)):
                raise Violation("iterating scopes: %d objects" % len(got))
            check(cs, got, not want)
            for o, w in zip(got, want):
                same(o, w)
            return
        if how == "nested":
            got = []
            for o in it:
                cs += calls()
                got.append(o)
                inner = list(o.scopes(-1))
                ci = calls()
                wi = par.get(want[len(got) - 1][0], []) if len(got) <= len(want) else []
                if len(inner) != len(wi):
                    raise Violation("nested iteration: %d objects instead of %d" % (len(inner), len(wi)))
            cs += calls()
        else:
            got = list(it)
            cs += calls()
        check(cs, got, True)
        if len(got) != len(want):
            raise Violation("iterating scopes with mask %r: %d objects instead of %d" % (mask, len(got), len(want)))
        for o, w in zip(got, want):
            same(o, w)
        if how == "again":
            it, cs = start()
            got = list(it)
            check(cs + calls(), got, True)
            if len(got) != len(want):
                raise Violation("iterating again: %d objects instead of %d" % (len(got), len(want)))
    return f


def sp_history():
    """Iterating history nodes."""
    def f(ch):
        b = Bench(ch)
        db = b.open("d")
        e = b.open("e")
        nodes = []
        for k in range(ch.all([0, 1, 2, 3])):
            d = ch.all(["d", "e"]) if k else "d"
            kind = ch.all(["TEST", "MERGE"])
            par = ch.all([None] + [x for x in nodes if x[3] == d])
            nodes.append(b.history(d, par, "h%d" % k, None, E("kind", kind)) + (kind,))
        which = ch.all(["d", "e"])
        mask = ch.all(["TEST", "MERGE", "ALL", "NONE"])
        from ucis.history_node_kind import HistoryNodeKind
        kv = getattr(HistoryNodeKind, mask)
        via = ch.all(["historyNodes", "getHistoryNodes"])
        ch.state(tuple(ch.choices))
        d, dh = b.db[which]
        want = [x for x in nodes if x[3] == which and (mask in ("ALL", "NONE") or x[4] == mask)]
        got = list(getattr(d, via)(kv))
        cs = calls()
        ch.op()
        names = [c[0] for c in cs]
        exp = ["HistoryIterate"] + ["HistoryScan"] * (len(want) + 1) + ["FreeIterator"]
        if names != exp or len(got) != len(want):
            raise Violation("%s(%s): the library received %r, %d nodes" % (via, mask, names, len(got)), repr(exp))
        if cs[0][:cs[0].index(">")] not in (("HistoryIterate", dh, None, int(kv)),) or any(c[1:] != (dh, cs[0][-1]) for c in cs[1:]):
            raise Violation("%s(%s)" % (via, mask), repr(cs))
        for o, w in zip(got, want):
            b.setint((o, w[1], "hist", which), -1, E("intp", "TEST_STATUS"), 3)
    return f


def sp_refused():
    """The library refuses one creation: the caller is told, and nothing else is asked of the library."""
    def f(ch):
        style = ch.all(["obj", "c"])
        op = ch.all(["file", "scope", "instance", "covergroup", "coverinst", "coverpoint", "cross", "bin", "nextcover", "toggle", "history", "open", "open-file"])
        b, o = base(ch, style)
        objs = list(o.values())
        objs = [x[:2] + ({"file": "file"}.get(x[2], x[2]),) + x[3:] for x in objs]
        ch.state((style, op))
        MOCK.mock_fail(1)
        try:
            if op.startswith("open"):
                from ucis.lib.LibFactory import LibFactory
                LibFactory.create("x" if op == "open-file" else None)
            else:
                do(b, ch, op, objs, 10, "d", free=False)
        except Violation:
            raise Violation("%s: the library refused the creation, but the call returns normally or goes on" % op)
        except Prune:
            raise
        except Exception:
            cs = calls()
            if len(cs) != 1:
                raise Violation("%s: after a refused creation the library received %r" % (op, [c[0] for c in cs]))
            return
        raise Violation("%s: the library refused the creation, but the call returns normally" % op)
    return f


def sp_format():
    """The registered libucis format opens databases in the loaded library."""
    def f(ch):
        from ucis.rgy.format_rgy import FormatRgy
        what = ch.all(["create", "read"])
        fn = ch.all(["f.ucis", "é"]) if what == "read" else None
        b = Bench(ch)
        ch.state((what, fn))
        fi = FormatRgy.inst().getDatabaseDesc("libucis").fmt_if()
        d = fi.create() if what == "create" else fi.read(fn)
        h = b.ck("libucis format %s" % what, [("Open", enc(fn))], made="Open", defaults={} if fn else {("int", INTP["SCOPE_GOAL"]): 100})
        b.db["d"] = (d, h)
        b.history("d", None, "h", None, E("kind", "TEST"))
        b.close("d")
    return f


def spaces(tier):
    q = tier == "quick"
    load()
    P1 = ["file", "scope", "instance"]
    P2 = P1 + ["covergroup", "coverpoint", "coverpoint", "history"]
    P3 = P2 + ["coverinst", "coverpoint", "cross"]
    return [
        Space("constants", sp_constants(), 0, "numbers of the C header"),
        Space("args", sp_args(2), 2 if q else 3, "every argument of every creation call"),
        Space("bins", sp_bins(q), 0, "counts, thresholds and kinds of bins"),
        Space("sources", sp_sources(2 if q else 3), 0, "sequences of source locations"),
        Space("testdata", sp_testdata(q), 2 if q else 3, "test data"),
        Space("setters", sp_setters(), 0, "setters and getters"),
        Space("props", sp_props(q), 0, "properties"),
        Space("dbacc", sp_dbacc(), 0, "what a database says about itself"),
        Space("write", sp_write(), 0, "write and close"),
        Space("programs-0", sp_programs(4 if q else 5, []), 0, "programs from nothing"),
        Space("programs-1", sp_programs(3 if q else 4, P2, ["obj"] if q else ["obj", "c"]), 0, "programs after a covergroup"),
    ] + ([Space("programs-c", sp_programs(2, P2, ["c"]), 0, "programs after a covergroup, C-style API")] if q else []) + [
        Space("programs-2", sp_programs(2 if q else 3, P3), 0, "programs after a cross"),
        Space("two", sp_two(2 if q else 3), 0, "two databases"),
        Space("iterate", sp_iterate(q), 0, "scope iteration"),
        Space("history", sp_history(), 0, "history iteration"),
        Space("refused", sp_refused(), 0, "creations the library refuses"),
        Space("format", sp_format(), 0, "the registered format"),
    ]
