"""C23: formats are listed, found and used as they were registered."""
import io, os, sys, tempfile
from .. import cli
from ..core import *
from ..fork import forked
from ..model import *
from ..ops import *
from ..xmlref import rt
from .c18 import write_xml, write_yaml

RULE = "all sequences of registrations up to the depth, all queries after each; all commands x formats x registrations"
ASSUMPTIONS = ["every case runs in a forked process of its own, starting from the registry a fresh process has",
               "a format is registered under the name of its description"]

EVENTS = []
B = Bin


def one(k):
    c = (10 ** k, 0, 3 + k)
    bins = (B("a", "B", 1, c[0]), B("b", "B", 1, c[1]), B("l", "L", 1, c[2]))
    ps = (CP("p", 1, bins), CP("q", 2, (B("a", "B", 1, k),)))
    return DB((INST("top", "du", 1, (CG("g", 2, ps, (), (CI("i%d" % k, 2, ps, ()),)),)),))


def kinds_of(tag):
    """A database format and a report format whose every use is recorded."""
    from ucis.mem.mem_ucis import MemUCIS
    from ucis.rgy.format_if_db import FormatIfDb
    from ucis.rgy.format_if_rpt import FormatIfRpt

    class Db(MemUCIS):
        def write(self, file, scope=None, recurse=True, covertype=-1):
            EVENTS.append(("write", tag, file, observe(self)))
            with open(file, "w") as f:
                f.write("written by %s\n" % tag)

        def close(self):
            EVENTS.append(("close", tag))

    class DbIf(FormatIfDb):
        def create(self, filename=None):
            EVENTS.append(("create", tag))
            return Db()

        def read(self, file_or_filename):
            EVENTS.append(("read", tag, file_or_filename))
            with open(file_or_filename) as f:
                k = int(f.read().split()[-1])
            return build(one(k), db=Db())

    class RpIf(FormatIfRpt):
        def report(self, db, out, args):
            EVENTS.append(("report", tag, observe(db), isinstance(out, str) and (out, sorted(os.listdir(out)))))
            if isinstance(out, str):
                with open(os.path.join(out, "index"), "w") as f:
                    f.write("report by %s\n" % tag)
            else:
                out.write("report by %s\n" % tag)
    return DbIf, RpIf


def desc(kind, name, tag, rflag="Stream"):
    from ucis.rgy.format_if_db import FormatDescDb, FormatDbFlags
    from ucis.rgy.format_if_rpt import FormatDescRpt, FormatRptOutFlags
    D, R = kinds_of(tag)
    if kind == "db":
        fl = [FormatDbFlags.Read, FormatDbFlags.Read | FormatDbFlags.Write, FormatDbFlags.Create | FormatDbFlags.Write][len(tag) % 3]
        return FormatDescDb(D, name, fl, "the %s format" % tag), (D, name, fl, "the %s format" % tag)
    fl = getattr(FormatRptOutFlags, rflag)
    return FormatDescRpt(R, name, fl, "the %s report" % tag), (R, name, fl, "the %s report" % tag)


def show(d, kind):
    return (d.fmt_if, d.name, d.flags if kind == "db" else d.out_flags, d.description)


def inst():
    from ucis.rgy.format_rgy import FormatRgy
    return FormatRgy.inst()


ASK = ["xml", "yaml", "libucis", "txt", "json", "a", "B", "ab", "", "XML", "é z", "nope"]


def start():
    r = inst()
    m = {"db": {n: show(r.getDatabaseDesc(n), "db") for n in r.getDatabaseFormats()}, "rp": {n: show(r.getReportDesc(n), "rp") for n in r.getReportFormats()}}
    for k, must in (("db", ("xml", "yaml", "libucis")), ("rp", ("txt", "json"))):
        for n in must:
            if n not in m[k]:
                raise Violation("a fresh registry has no format %r" % n)
            if m[k][n][1] != n:
                raise Violation("format %r is described as %r" % (n, m[k][n][1]))
    return m


def check_registry(m, what):
    from ucis.rgy.format_rgy import FormatRgy
    for r in (FormatRgy.inst(), inst()):
        for kind, fmts, has, get in (("db", r.getDatabaseFormats, r.hasDatabaseFormat, r.getDatabaseDesc), ("rp", r.getReportFormats, r.hasReportFormat, r.getReportDesc)):
            got = list(fmts())
            if got != sorted(m[kind]):
                raise Violation("%s: the %s formats are listed as %r, registered are %r" % (what, kind, got, sorted(m[kind])))
            for n in ASK:
                if bool(has(n)) != (n in m[kind]):
                    raise Violation("%s: %s format %r is said to be %s" % (what, kind, n, "unknown" if n in m[kind] else "known"))
                if n in m[kind]:
                    if show(get(n), kind) != m[kind][n]:
                        raise Violation("%s: %s format %r is described as %r, registered as %r" % (what, kind, n, show(get(n), kind), m[kind][n]))
                else:
                    try:
                        d = get(n)
                    except Exception:
                        d = None
                    if d is not None:
                        raise Violation("%s: unknown %s format %r is described as %r" % (what, kind, n, show(d, kind)))
        if (r.getDefaultDatabase(), r.getDefaultReport()) != ("xml", "txt"):
            raise Violation("%s: defaults are %r" % (what, (r.getDefaultDatabase(), r.getDefaultReport())))


def check_lists(m, what):
    for cmd, kind in (("list-db-formats", "db"), ("list-rpt-formats", "rp")):
        r = cli.run([cmd])
        if r.rc != 0:
            raise Violation("%s: %s fails: %s" % (what, cmd, r.err[-800:]))
        w = max(map(len, m[kind]))
        want = "".join("%s - %s\n" % (n.ljust(w), m[kind][n][3]) for n in sorted(m[kind]))
        if r.out != want:
            raise Violation("%s: %s prints something else" % (what, cmd), {"got": r.out, "want": want})


NAMED = [("db", "a"), ("db", "B"), ("db", "xml"), ("db", "txt"), ("db", ""), ("rp", "a"), ("rp", "txt"), ("rp", "xml"), ("rp", "é z")]
OPS23 = [k + (v,) for k in NAMED for v in (0, 1)] + [("spoil",), ("lists",)]


def walk(seq):
    m = start()
    check_registry(m, "at the start")
    n = 0
    for k, op in enumerate(seq):
        what = "after %s" % (seq[:k + 1],)
        r = inst()
        if op[0] == "spoil":
            for l in (r.getDatabaseFormats(), r.getReportFormats()):
                l.append("nope")
                l.reverse()
        elif op[0] == "lists":
            check_lists(m, what)
        else:
            n += 1
            d, plain = desc(op[0], op[1], "%s%d" % (op[1] or "empty", op[2]) + "x" * n)
            (r.addDatabaseFormat if op[0] == "db" else r.addReportFormat)(d)
            m[op[0]][op[1]] = plain
        check_registry(m, what)
    check_lists(m, "after %s" % (seq,))


def sp_registry(depth):
    def f(ch):
        seq = [ch.all(OPS23) for _ in range(depth)]
        ch.state(seq)
        forked(walk, seq)
        ch.op(depth)
        ch.outcome = len(set(seq))
    return f


# ---------------------------------------------------------------- commands
def put(path, fmt, k):
    """A file of a bundled or a recorded format that holds one(k)."""
    if fmt == "xml":
        write_xml(path, rt(one(k)))
    elif fmt == "yaml":
        write_yaml(path, one(k))
    else:
        with open(path, "w") as f:
            f.write("holds %d\n" % k)


def plain_cov(m):
    """Counts by path (YAML data carries its own instance and weights)."""
    out = {}
    for i in all_insts(m):
        for g in i.cgs:
            for s in (g,) + tuple(g.cis):
                for p in s.cps + s.crs:
                    for b in p.bins:
                        k = (g.name, s.name if s is not g else None, p.name, b.kind, b.name)
                        out[k] = out.get(k, 0) + b.count
    return out


def want_cov(ks):
    out = {}
    for k in ks:
        for p, c in plain_cov(one(k)).items():
            out[p] = out.get(p, 0) + c
    return out


def play(cmd, regs, inf, outf, nin, dest, rflag):
    """One command after some registrations; regs: [(kind, name)]."""
    m = start()
    own = {"db": {}, "rp": {}}
    for n, (kind, name) in enumerate(regs):
        tag = "%s:%s#%d" % (kind, name, n)
        d, plain = desc(kind, name, tag, rflag)
        (inst().addDatabaseFormat if kind == "db" else inst().addReportFormat)(d)
        m[kind][name] = plain
        own[kind][name] = tag
    del EVENTS[:]
    ri, ro = inf or "xml", outf or ("txt" if cmd == "report" else "xml")
    known = ri in m["db"] and ro in m["rp" if cmd == "report" else "db"]
    with tempfile.TemporaryDirectory(prefix="c23") as tmp:
        files = []
        for k in range(nin):
            p = os.path.join(tmp, "in%d" % k)
            put(p, ri if ri not in own["db"] else "own", k)
            files.append(p)
        out = os.path.join(tmp, "out")
        if dest == "file":
            with open(out, "w") as f:
                f.write("old\n" * 500)
        elif dest == "dir":
            os.makedirs(os.path.join(out, "sub"))
            with open(os.path.join(out, "old"), "w") as f:
                f.write("old\n")
        a = [cmd] + (["-if", inf] if inf is not None else []) + (["-of", outf] if outf is not None else []) + (["-o", out] if dest != "stdout" else []) + files
        what = "formats %r registered, ucis %s" % (regs, " ".join(x.replace(tmp, "") for x in a))
        r = cli.run(a)
        ev = list(EVENTS)
        # reads: exactly the inputs, in order, by the format asked for
        reads = [e for e in ev if e[0] == "read"]
        if not known:
            if r.rc == 0 or not (r.err + r.out).strip():
                raise Violation("%s: an unknown format is not refused" % what)
            if ev:
                raise Violation("%s: formats are used although one is unknown" % what, ev)
            return
        can = ri in own["db"] or ri in ("xml", "yaml")
        if cmd == "report":
            mine = ro in own["rp"]
            isdir = mine and rflag == "Dir"
            bad = not can or (isdir and dest in ("stdout", "file")) or (not isdir and dest == "dir")
            if bad:
                if r.rc == 0 or not (r.err + r.out).strip():
                    raise Violation("%s: succeeds" % what)
                if dest == "file":
                    with open(out) as f:
                        if f.read() != "old\n" * 500:
                            raise Violation("%s fails and changes the existing file" % what)
                return
            if r.rc != 0:
                raise Violation("%s fails: %s" % (what, r.err[-1500:]))
            if reads != ([("read", own["db"][ri], files[0])] if ri in own["db"] else []):
                raise Violation("%s: reads %r" % (what, reads))
            reps = [e for e in ev if e[0] == "report"]
            if mine:
                if len(reps) != 1 or reps[0][1] != own["rp"][ro]:
                    raise Violation("%s: reports made: %r" % (what, [e[:2] for e in reps]))
                if plain_cov(reps[0][2]) != want_cov([0]):
                    raise Violation("%s: the report format is given other coverage" % what, reps[0][2])
                text = "report by %s\n" % own["rp"][ro]
                if isdir:
                    if reps[0][3] != (out, []):
                        raise Violation("%s: the report is to go to %r, should be %r, empty" % (what, reps[0][3], out))
                    if os.listdir(out) != ["index"]:
                        raise Violation("%s: the directory holds %r" % (what, os.listdir(out)))
                    with open(os.path.join(out, "index")) as f:
                        got = f.read()
                elif dest == "stdout":
                    got = r.out
                else:
                    with open(out) as f:
                        got = f.read()
                if got != text:
                    raise Violation("%s: the output is %r, should be %r" % (what, got[:300], text))
            elif reps:
                raise Violation("%s: reports made: %r" % (what, [e[:2] for e in reps]))
            return
        mine = ro in own["db"]
        bad = not can or dest == "dir" or not (mine or ro == "xml")
        if bad:
            if r.rc == 0 or not (r.err + r.out).strip():
                raise Violation("%s: succeeds" % what)
            if dest == "file":
                with open(out) as f:
                    if f.read() != "old\n" * 500:
                        raise Violation("%s fails and changes the existing file" % what)
            return
        if r.rc != 0:
            raise Violation("%s fails: %s" % (what, r.err[-1500:]))
        if reads != ([("read", own["db"][ri], p) for p in files] if ri in own["db"] else []):
            raise Violation("%s: reads %r" % (what, reads))
        writes = [e for e in ev if e[0] == "write"]
        if mine:
            if len(writes) != 1 or writes[0][1:3] != (own["db"][ro], out):
                raise Violation("%s: writes %r" % (what, [e[:3] for e in writes]))
            got = writes[0][3]
            with open(out) as f:
                if f.read() != "written by %s\n" % own["db"][ro]:
                    raise Violation("%s: the file written is changed afterwards" % what)
        else:
            if writes:
                raise Violation("%s: writes %r" % (what, [e[:3] for e in writes]))
            from ucis.xml.xml_factory import XmlFactory
            got = observe(XmlFactory.read(out))
        if plain_cov(got) != want_cov(range(nin)):
            raise Violation("%s: the output has other coverage" % what, diff(plain_cov(got), want_cov(range(nin))))


def sp_commands(nregs):
    R = [("db", "a"), ("db", "xml"), ("db", "txt"), ("rp", "a"), ("rp", "txt"), ("rp", "xml")]

    def f(ch):
        regs = [ch.all(R) for _ in range(nregs)]
        cmd = ch.all(["convert", "merge", "report"])
        inf = ch.all([None, "xml", "yaml", "a", "txt", "json", "nope"])
        outf = ch.all([None, "xml", "a", "txt", "json", "yaml", "nope"])
        nin = ch.all([1, 2, 3] if cmd == "merge" else [1])
        dest = ch.all(["new", "file", "dir"] + ["stdout"] * (cmd == "report"))
        rflag = ch.all(["Stream", "Dir"]) if cmd == "report" and ("rp", outf or "txt") in regs else "Stream"
        if nregs and regs.count(regs[0]) == nregs and nregs > 2:
            raise Prune()
        ch.state((cmd, regs, inf, outf, nin, dest, rflag))
        forked(play, cmd, regs, inf, outf, nin, dest, rflag)
        ch.op(nregs + 1)
        ch.outcome = (cmd, dest)
    return f


def spaces(tier):
    q = tier == "quick"
    import ucis.__main__
    from . import c17
    c17.preload()
    out = [Space("registry-%d" % d, sp_registry(d), 0, "all sequences of %d registrations, refused changes of returned lists and listings" % d) for d in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))]
    out += [Space("commands-%d" % n, sp_commands(n), 0, "all commands, formats and destinations after %d registrations" % n) for n in ((0, 1, 2) if q else (0, 1, 2, 3))]
    return out
