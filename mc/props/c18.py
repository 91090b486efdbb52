"""C18: the commands convert, merge and report without changing coverage."""
import gzip, itertools, json, os, tempfile
from .. import cli
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import *
from ..ops import *
from ..xmlref import *
from ..xmldoc import *
from .. import yamlref
from .c11 import base, HIST1

ASSUMPTIONS = ["functional coverage only: history and source locations are not carried by convert and merge", "inputs and merges the XML format can express: every instance has a coverpoint, every coverpoint a bin, "
               "one threshold per coverpoint or cross, instances of a covergroup agree on the items they share", "distinct sibling names"]


# ---------------------------------------------------------------- what XML can express
def flat(m):
    """Forget instance weights, and the relative order of bins of different kinds."""
    one = lambda l: tuple(i._replace(weight=1, subs=one(i.subs)) for i in l)
    return kind_sorted(DB(one(m.insts)))


def expressible(m):
    if not m.insts:
        return False
    for i in all_insts(m):
        for g in i.cgs:
            if not g.cis:
                return False
            for s in (g,) + tuple(g.cis):
                if not s.cps or not all(p.bins for p in s.cps):
                    return False
                if any(len({b.at for b in p.bins}) > 1 for p in s.cps + s.crs):
                    return False
    r = rt(m)
    for i, j in zip(all_insts(m), all_insts(r)):
        for g, h in zip(i.cgs, j.cgs):
            if canon(DB((INST("", "", 1, (g,)),))) != canon(DB((INST("", "", 1, (h,)),))):
                return False
            # an empty cross has no threshold of its own to disagree about, and all instances of a shared item must agree
            at = {}
            for s in (g,) + tuple(g.cis):
                for k, ps in (("p", s.cps), ("x", s.crs)):
                    for p in ps:
                        a = (p.weight, getattr(p, "cps", None), p.bins[0].at if p.bins else None)
                        o = at.setdefault((k, p.name), a)
                        if o[:2] != a[:2] or (a[2] is not None and o[2] is not None and o[2] != a[2]):
                            return False
    return True


def check_db_file(path, want, what, own=True):
    """The XML file states exactly the coverage `want` (judged from the document, then through the library)."""
    with open(path, "rb") as f:
        data = f.read()
    bad = conforms(data)
    if bad:
        raise Violation("%s: output does not conform: %s" % (what, bad), data[:3000].decode("utf-8", "replace"))
    got = doc_model(parse(data))
    if canon(flat(got)) != canon(flat(want)):
        raise Violation("%s: the output states other coverage" % what, {"difference got/want": diff(canon(flat(got)), canon(flat(want))), "doc": data[:4000].decode("utf-8", "replace")})
    if own:
        from ucis.xml.xml_factory import XmlFactory
        m = observe(XmlFactory.read(path))
        if canon(flat(m)) != canon(flat(want)):
            raise Violation("%s: reading the output gives other coverage" % what, diff(canon(flat(m)), canon(flat(want))))
    return got


def ok(r, what):
    if r.rc != 0:
        raise Violation("%s: exit status %d: %s" % (what, r.rc, r.err[-1500:]))


def read_file(path, fmt):
    if fmt == "xml":
        from ucis.xml.xml_factory import XmlFactory
        return XmlFactory.read(path)
    from ucis.rgy.format_rgy import FormatRgy
    return FormatRgy.inst().getDatabaseDesc(fmt).fmt_if().read(path)


def check_report(text, of, want, db, what):
    """`text` is the report of the database, by the definitions and as the library renders it."""
    try:
        if of == "txt":
            check_text(text, want)
            same = text_report(db)
        else:
            check_json(text, want)
            same = json_report(db)
    except Violation as v:
        raise Violation("%s: %s" % (what, v.msg), v.detail)
    if text != same:
        raise Violation("%s differs from the report the library renders" % what, {"got": text[:2000], "library": same[:2000]})


def report_both(ch, tmp, f, fmt, m, runner=cli.run):
    """Report on a file in both formats, to stdout and to files."""
    db = read_file(f, fmt)
    want = want_report(m)
    pre = [] if fmt == "xml" else ["-if", fmt]
    for of in ("txt", "json"):
        a = pre + ([] if of == "txt" else ["-of", of])
        r = runner(["report"] + a + [f])
        ok(r, "report " + of)
        check_report(r.out, of, want, db, "report %s on standard output" % of)
        o = os.path.join(tmp, "rpt." + of)
        r2 = runner(["report"] + a + ["-o", o, f])
        ok(r2, "report %s --out" % of)
        with open(o, encoding="utf-8", newline="") as g:
            t = g.read()
        if t != r.out:
            raise Violation("report %s written by --out differs from the one printed" % of, {"file": t[:2000], "stdout": r.out[:2000]})
        if r2.out.strip():
            raise Violation("report %s --out prints to standard output as well" % of, r2.out[:500])
        ch.op(2)


# ---------------------------------------------------------------- files
def write_xml(path, m, st=None, gz=False):
    dis = []

    def insts(l, up):
        for i in l:
            me = len(dis)
            dis.append(DINST(i.name, i.du, tuple(DSEC(g.weight, tuple((g.name, c) for c in g.cis)) for g in i.cgs), me if i.subs else None, up))
            insts(i.subs, me)
    insts(m.insts, None)
    doc = DOC(tuple(dis), HIST1)
    st = st or Style()
    data = encode(serialise(tree(doc, st), st), st)
    bad = conforms(data)
    if bad:
        raise RuntimeError("harness: input does not conform: %s" % bad)
    if canon(flat(doc_model(parse(data)))) != canon(flat(m)):
        raise RuntimeError("harness: input does not state its model: %s" % diff(canon(flat(doc_model(parse(data)))), canon(flat(m))))
    with open(path, "wb") as f:
        f.write(gzip.compress(data) if gz else data)


def write_yaml(path, m):
    d = yamlref.data_of(m)
    want = yamlref.meaning(d)
    with open(path, "w", encoding="utf-8") as f:
        f.write(yamlref.dump_yaml(d, sort_keys=False, allow_unicode=True))
    return want


def groups(m):
    return canon(DB((INST("", "", 1, tuple(g for i in flat(m).insts for g in i.cgs)),)))


def check_yaml_converted(path, want, what):
    """Output of converting a YAML file whose covergroups are `want`; returns the model of the output."""
    with open(path, "rb") as f:
        data = f.read()
    bad = conforms(data)
    if bad:
        raise Violation("%s: output does not conform: %s" % (what, bad), data[:3000].decode("utf-8", "replace"))
    got = doc_model(parse(data))
    w = DB((INST("", "", 1, want),))
    if groups(got) != groups(w):
        raise Violation("%s: the output states other coverage" % what, {"difference got/want": diff(groups(got), groups(w)), "doc": data[:4000].decode("utf-8", "replace")})
    return flat(got)


def snapshot(fs):
    out = {}
    for f in fs:
        with open(f, "rb") as g:
            out[f] = g.read()
    return out


def unchanged(snap):
    for f, d in snap.items():
        with open(f, "rb") as g:
            if g.read() != d:
                raise Violation("input file %s was modified" % os.path.basename(f))


# ---------------------------------------------------------------- spaces
def sp_xml(prof, styles=False):
    """One XML input: convert, merge of one, report, and report on the converted file."""
    def f(ch):
        if styles:
            st = Style(**{k: ch.pick(v) for k, v in Style.opts.items() if k not in ("ns",)})
            m = meaning(base(ch.all([0, 1])))
            gz = ch.pick([False, True])
        else:
            m, st, gz = rt(gen_xml_db(ch, prof)), None, False
        if not expressible(m):
            raise Prune()
        ch.state((m, st.key() if st else None))
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            a, b, c = (os.path.join(tmp, x) for x in ("a.xml", "b.xml", "c.xml"))
            write_xml(a, m, st, gz)
            snap = snapshot([a])
            ok(cli.run(["convert", "-o", b, a]), "convert")
            check_db_file(b, m, "convert")
            ok(cli.run(["merge", "-o", c, a]), "merge")
            check_db_file(c, m, "merge of one file")
            ch.op(2)
            for x in (a, b):
                report_both(ch, tmp, x, "xml", m)
            unchanged(snap)
        ch.outcome = size(m)
    return f


def sp_yaml(prof):
    def f(ch):
        m = rt(gen_xml_db(ch, prof))
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            a, b, c = (os.path.join(tmp, x) for x in ("a.yaml", "b.xml", "c.xml"))
            want = write_yaml(a, m)
            if want is None or not expressible(DB((INST("i", "d", 1, want),))):
                raise Prune()
            ch.state(want)
            snap = snapshot([a])
            ok(cli.run(["convert", "-if", "yaml", "-o", b, a]), "convert")
            w = DB((INST("", "", 1, want),))
            got = check_yaml_converted(b, want, "convert from yaml")
            ok(cli.run(["merge", "-if", "yaml", "-o", c, a]), "merge")
            check_yaml_converted(c, want, "merge of one yaml file")
            ch.op(2)
            report_both(ch, tmp, a, "yaml", w)
            report_both(ch, tmp, b, "xml", got)
            unchanged(snap)
        ch.outcome = size(w)
    return f


def agree_sources(ch, prof, nopts, fmt):
    srcs = gen_sources(ch, prof, nopts, agree=True)
    out = []
    for s in srcs:
        r = rt(s)
        if not expressible(r):
            raise Prune()
        out.append(r)
    return out


def sp_merge(prof, nopts, fmt):
    """Several inputs: merging the files equals merging what they state; reports of the merge."""
    def f(ch):
        srcs = agree_sources(ch, prof, nopts, fmt)
        merge_case(ch, srcs, fmt)
    return f


def merge_case(ch, srcs, fmt, chain=True):
    with tempfile.TemporaryDirectory(prefix="c18") as tmp:
        files, models = [], []
        for k, s in enumerate(srcs):
            p = os.path.join(tmp, "s%d.%s" % (k, fmt))
            if fmt == "xml":
                write_xml(p, s)
            else:
                w = write_yaml(p, s)
                if w is None:
                    raise Prune()
                s = DB((INST("cg", "du", 1, w),))
            files.append(p)
            models.append(s)
        want = ref_merge(models)
        if not all(map(expressible, models)) or not expressible(want):
            raise Prune()
        ch.state(tuple(models))
        snap = snapshot(files)
        o = os.path.join(tmp, "o.xml")
        ok(cli.run(["merge"] + (["-if", fmt] if fmt != "xml" else []) + ["--out", o] + files), "merge")
        ch.op()
        if fmt == "xml":
            check_db_file(o, want, "merge of %d files" % len(files))
            got = want
        else:
            got = check_yaml_converted(o, want.insts[0].cgs, "merge of %d yaml files" % len(files))
        # the direct computation by the library
        from ucis.merge.db_merger import DbMerger
        dst = new_db()
        DbMerger().merge(dst, [read_file(p, fmt) for p in files])
        lib = observe(dst)
        if canon(flat(lib)) != canon(flat(got)):
            raise Violation("merging the files differs from merging the databases read from them", diff(canon(flat(got)), canon(flat(lib))))
        report_both(ch, tmp, o, "xml", got)
        unchanged(snap)
        if chain and fmt != "xml":
            # convert first, then merge
            conv = []
            for k, p in enumerate(files):
                c = os.path.join(tmp, "c%d.xml" % k)
                ok(cli.run(["convert", "-if", fmt, "-o", c, p]), "convert")
                conv.append(c)
            o2 = os.path.join(tmp, "o2.xml")
            ok(cli.run(["merge", "-o", o2] + conv), "merge")
            check_db_file(o2, got, "merge of converted files")
            ch.op(len(files) + 1)
        ch.outcome = size(want)


START = None


def start_models():
    b = lambda n, c, k="B", a=1: Bin(n, k, a, c)
    i = lambda n, c: CI(n, 1, (CP("p", 2, (b("a", c), b("b", 0), b("z", 3, "I"))), CP("q", 1, (b("a", 2 * c, "B", 2), b("l", c, "L", 2)))), (CR("x", 3, ("q", "p"), (b("y", c), b("é", 0))),))
    A = rt(DB((INST("top", "du", 1, (CG("g", 2, (), (), (i("i0", 1), i("i1", 0))),)),)))
    Bm = rt(DB((INST("u", "du2", 1, (CG("h", 1, (), (), (CI("k", 1, (CP("r", 1, (b("a", 7),)),), ()),)),)),
                INST("top", "du", 1, (CG("g", 2, (), (), (i("i1", 5), i("i2", 1))),),
                     (INST("u", "du2", 1, (CG("h", 3, (), (), (CI("k", 1, (CP("r", 1, (b("a", 0),)),), ()),)),)),)))))
    Y = rt(DB((INST("x", "du", 1, (CG("g", 1, (), (), (CI("i0", 1, (CP("p", 1, (b("a", 1), b("n", 0))),), ()),)),)),)))
    return A, Bm, Y


def sp_chain(depth, arity):
    """All chains of convert and merge commands over a growing set of files."""
    def f(ch):
        A, Bm, Y = start_models()
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            P = lambda n: os.path.join(tmp, n)
            write_xml(P("0.xml"), A)
            write_xml(P("1.xml"), Bm)
            w = write_yaml(P("2.yaml"), Y)
            files = [("0.xml", flat(A)), ("1.xml", flat(Bm)), ("2.yaml", w)]
            snaps = {}
            tr = []
            for d in range(depth):
                cmd = ch.all(["convert", "merge"] if d else ["merge", "convert"])
                out = "f%d.xml" % d
                if cmd == "convert":
                    n, m = ch.all(files if d == 0 else files[-1:] + files[:-1])
                    y = n.endswith("yaml")
                    ok(cli.run(["convert"] + (["-if", "yaml"] if y else []) + ["-o", P(out), P(n)]), "convert")
                    nm = check_yaml_converted(P(out), m, "convert") if y else m
                    ins = [n]
                else:
                    k = ch.all(list(range(1, arity + 1)))
                    fmt = "xml" if d else ch.all(["xml", "yaml"])
                    pool = [x for x in files if x[0].endswith(fmt)]
                    sel = [ch.all(pool) for _ in range(k)]
                    ins = [n for n, _ in sel]
                    ok(cli.run(["merge"] + (["-if", "yaml"] if fmt == "yaml" else []) + ["-o", P(out)] + [P(n) for n in ins]), "merge")
                    if fmt == "yaml":
                        wm = ref_merge([DB((INST("", "", 1, m),)) for _, m in sel])
                        nm = check_yaml_converted(P(out), wm.insts[0].cgs, "merge")
                    else:
                        nm = flat(ref_merge([m for _, m in sel]))
                        if not expressible(nm):
                            raise Prune()
                if not (out.startswith("f") and isinstance(nm, DB)):
                    raise RuntimeError("harness")
                check_db_file(P(out), nm, "%s %s" % (cmd, ins), own=False)
                files.append((out, nm))
                tr.append((cmd, tuple(ins)))
                ch.op()
            ch.state(tr)
            report_both(ch, tmp, P(files[-1][0]), "xml", files[-1][1])
    return f


SPELL = dict(out=["--out", "-o", "--out="], inf=[None, "-if", "--input-format", "--input-format="], outf=[None, "-of", "--output-format", "--output-format="])
NAMES18 = ["a.xml", "in put.xml", "é ü.xml", "noext", "a.b.yaml", "x.XML.GZ", "日本.xml", "%s.xml", "{}.xml", "a=b.xml", "a.yml", "a.yaml", "a.json", "a.txt", "a.ucis", "a.xml.yaml"]
OUTS = ["o.xml", "o.yaml", "o.txt", "sub dir/o.xml", "é.out", "o", "-o.xml", "%d.json", "o.gz", "in.xml.bak"]


def sp_args():
    """All spellings, argument orders, path notations and pre-existing outputs."""
    def f(ch):
        A, Bm, Y = start_models()
        cmd = ch.all(["convert", "merge", "merge2", "report"])
        fmt = ch.all(["xml", "yaml"])
        name = ch.pick(NAMES18)
        outn = ch.pick(OUTS)
        so, si, sf = ch.pick(SPELL["out"]), ch.pick(SPELL["inf"] if fmt == "xml" else SPELL["inf"][1:]), ch.pick(SPELL["outf"])
        rel = ch.pick(["abs", "rel", "dot", "symlink"])
        pre = ch.pick(["none", "longer", "shorter", "readonly-longer", "link"])
        order = ch.pick(["opts-first", "opts-last", "mixed"])
        plus = ch.pick([[], ["+x"], ["+a=b", "+"]])
        of = ch.all(["txt", "json"] if cmd == "report" else ["xml"])
        to = ch.all(["out", "stdout"] if cmd == "report" else ["out"])
        if of == "json" and sf is None:
            sf = "-of"
        ch.state((cmd, fmt, name, outn, so, si, sf, rel, pre, order, plus, of, to))
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            os.mkdir(os.path.join(tmp, "sub dir"))
            files, ms = [], []
            for k in range(2 if cmd == "merge2" else 1):
                n = name if k == 0 else "second" + name
                p = os.path.join(tmp, n)
                m = (A, Bm)[k]
                if fmt == "xml":
                    write_xml(p, m, gz="GZ" in name)
                else:
                    m = DB((INST("cg", "du", 1, write_yaml(p, m)),))
                ms.append(m)
                if rel == "symlink":
                    os.rename(p, p + ".real")
                    os.symlink(p + ".real", p)
                files.append(n if rel == "rel" else "./" + n if rel == "dot" else p)
            want = ref_merge(ms)
            if not expressible(want):
                raise RuntimeError("harness")
            op = os.path.join(tmp, outn)
            oa = "./" + outn if outn.startswith("-") else outn if rel == "rel" else op
            if pre in ("longer", "shorter", "readonly-longer"):
                with open(op, "w") as g:
                    g.write("<old/>\n" * (20000 if "longer" in pre else 1))
            elif pre == "link":
                with open(op + ".target", "w") as g:
                    g.write("old\n" * 20000)
                os.symlink(op + ".target", op)
            opt = lambda s, v: [] if s is None else [s + v] if s.endswith("=") else [s, v]
            opts = [opt(si, fmt), opt(sf, of)] + ([opt(so, oa)] if to == "out" else [])
            # files that start with a dash or + are given as paths
            if order == "opts-first":
                a = sum(opts, []) + files
            elif order == "opts-last":
                a = files + sum(opts[::-1], [])
            else:
                a = opts[0] + files + sum(opts[1:], [])
            argv = plus[:1] + [cmd.rstrip("2")] + a + plus[1:]
            r = cli.run(argv, cwd=tmp)
            ok(r, " ".join(argv))
            ch.op()
            if cmd == "report":
                if to == "out":
                    with open(op, encoding="utf-8", newline="") as g:
                        t = g.read()
                else:
                    t = r.out
                check_report(t, of, want_report(want), read_file(os.path.join(tmp, name), fmt), "report")
            elif fmt == "xml":
                check_db_file(op, want, cmd)
            else:
                check_yaml_converted(op, want.insts[0].cgs, cmd)
        ch.outcome = (cmd, fmt, of, to)
    return f


PLACES = ["", "d1", "d2", "d1/d2", "sub dir"]


def sp_places(n, places):
    """Files of one base name in several directories: every file given is the one used, every other one stays as it is."""
    def f(ch):
        cmd = ch.all(["merge"] * (n > 0) + ["convert", "report"] * (n == 1))
        fmt = ch.all(["xml", "yaml"])
        where = [ch.all(places) for _ in range(n)]
        outp = ch.all([None, "same"] + list(places)) if cmd == "report" else ch.all(["same"] + list(places))
        cwd = ch.all(["", "d1", "d2"])
        how = ch.all(["abs", "rel", "up"])
        ch.state((cmd, fmt, where, outp, cwd, how))
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            ms, before = {}, {}
            for k, d in enumerate(PLACES):
                os.makedirs(os.path.join(tmp, d), exist_ok=True)
                p = os.path.join(tmp, d, "cov." + fmt)
                m = rt(DB((INST("top", "du", 1, (CG("g", 1, (), (), (CI("i", 1, (CP("p", 1, (Bin("a", "B", 1, 10 ** k), Bin("b", "B", 1, 0))),), ()),)),)),)))
                if fmt == "xml":
                    write_xml(p, m)
                else:
                    m = DB((INST("cg", "du", 1, write_yaml(p, m)),))
                ms[d] = m
                with open(p, "rb") as g:
                    before[p] = g.read()
            here = os.path.join(tmp, cwd)
            wdir = lambda d, base: (os.path.join(tmp, d, base) if how == "abs" else os.path.relpath(os.path.join(tmp, d, base), here) if how == "rel"
                                    else os.path.join(os.path.relpath(os.path.join(tmp, "d1"), here), "..", d, base))
            want = ref_merge([ms[d] for d in where]) if cmd == "merge" else ms[where[0]]
            if outp is not None:
                od, ob = (where[0], "new." + fmt) if outp == "same" else (outp, "cov." + fmt)
                op = os.path.join(tmp, od, ob)
            dbr = read_file(os.path.join(tmp, where[0], "cov." + fmt), fmt) if cmd == "report" else None
            a = [cmd] + (["-if", fmt] if fmt != "xml" else []) + (["-o", wdir(od, ob)] if outp is not None else []) + [wdir(d, "cov." + fmt) for d in where]
            r = cli.run(a, cwd=here)
            ok(r, " ".join(a))
            ch.op()
            ch.outcome = (cmd, fmt)
            if cmd == "report":
                text = r.out
                if outp is not None:
                    with open(op, encoding="utf-8") as g:
                        text = g.read()
                check_report(text, "txt", want_report(want), dbr, "report")
            elif fmt == "xml":
                check_db_file(op, want, cmd)
            else:
                check_yaml_converted(op, want.insts[0].cgs, cmd)
            seen = {os.path.join(d, x) for d, _, l in os.walk(tmp) for x in l}
            mine = {op} if outp is not None else set()
            if seen - mine != set(before) - mine or (mine - seen):
                raise Violation("%s: files appear or vanish" % " ".join(a), sorted(seen))
            for p, b in before.items():
                if p not in mine:
                    with open(p, "rb") as g:
                        if g.read() != b:
                            raise Violation("%s changed %s" % (" ".join(a), p))
    return f


def sp_process():
    """The same through real processes, several environments."""
    def f(ch):
        A, Bm, Y = start_models()
        how = ch.all(["module", "main", "script"])
        env = ch.all([{}, {"PYTHONUTF8": "0", "LC_ALL": "C", "LANG": None}, {"PYTHONHASHSEED": "7", "PYTHONUTF8": "0", "LC_ALL": "C.UTF-8"}])
        fmt = ch.all(["xml", "yaml"])
        ch.state((how, env, fmt))
        runner = lambda a, cwd=None: cli.spawn(a, cwd, env, how)
        with tempfile.TemporaryDirectory(prefix="c18") as tmp:
            p, o = os.path.join(tmp, "a." + fmt), os.path.join(tmp, "o.xml")
            if fmt == "xml":
                write_xml(p, A)
                m = A
            else:
                m = DB((INST("", "", 1, write_yaml(p, A)),))
            pre = [] if fmt == "xml" else ["-if", fmt]
            ok(runner(["convert"] + pre + ["-o", o, p]), "convert")
            check_db_file(o, m, "convert") if fmt == "xml" else check_yaml_converted(o, m.insts[0].cgs, "convert")
            ok(runner(["merge"] + pre + ["-o", o, p, p]), "merge")
            want = ref_merge([m, m])
            check_db_file(o, want, "merge") if fmt == "xml" else check_yaml_converted(o, want.insts[0].cgs, "merge")
            ch.op(2)
            report_both(ch, tmp, p, fmt, m, runner)
            for k in ("list-db-formats", "list-rpt-formats"):
                r = runner([k])
                ok(r, k)
                names = {l.split(" - ")[0].strip() for l in r.out.splitlines()}
                if not names >= ({"xml", "yaml"} if "db" in k else {"txt", "json"}):
                    raise Violation("%s lists %r" % (k, r.out))
    return f


def sp_look(top):
    def f(ch):
        lv = ch.all(LEVELS)
        n1, n2 = ch.all([(a, b) for g in ALIKE for a in g[:top] for b in g[:top] if a != b])
        fmt = ch.all(["xml", "yaml"])
        if fmt == "yaml" and lv in ("inst", "du"):
            raise Prune()
        ms = [rt(look_model(lv, n1, n2, 0)), rt(look_model(lv, n2, n1, 1))]
        if not all(map(expressible, ms)):
            raise Prune()
        merge_case(ch, ms, fmt, chain=False)
    return f


def sp_width(dims, tops):
    def f(ch):
        dim, n = ch.all(dims), ch.all(tops)
        kw = dict(n_cp=2, n_cr=1, n_ci=2, n_inst=1, n_cg=1)
        kw[dim] = n
        m = rt(wide_db(kinds="BBIL", **kw))
        if not expressible(m):
            raise Prune()
        fmt = ch.all(["xml", "yaml"])
        if fmt == "yaml" and dim == "n_inst":
            raise Prune()
        merge_case(ch, [m, m] if ch.all([0, 1]) else [m], fmt, chain=False)
    return f


def spaces(tier):
    q = tier == "quick"
    kw = dict(per_bin_at=False, uniform_ci=True, min_bins=1, min_cps=1, counts=[c for c in COUNTS if c < 10 ** 20], names=[n for n in NAMES if n.isprintable()])
    xp = Prof(inst_w=[1, 2, 3], ci_w=[2, 1, 3], cp_w=[2, 1, 3], bin_w=[2, 1, 3, 5], **kw)
    xd = Prof(inst_w=[1, 2], cg_w=[1, 2], ci_w=[2, 1], cp_w=[2, 1], bin_w=[2, 1], crb_w=[2, 0], cr_w=[1, 0], per_bin_at=False, uniform_ci=True, min_bins=1, min_cps=1,
              names=["X"], nsmall=1, csmall=2, counts=[0, 3], wsmall=2, weights=[0, 5], asmall=2, ats=[3])
    if q:
        kw.update(names=[n for n in NAMES if n.isprintable()][:40:3], counts=[0, 1, 2, 100, 2**32, 10**18], weights=[0, 1, 2, 7, 2**31], ats=[2, 0, 5])
    mp = Prof(inst_w=[1, 2], ci_w=[2, 1, 3], cp_w=[2, 1, 3], bin_w=[2, 1, 3], **kw)
    return [
        Space("xml", sp_xml(xp), 1, "one XML input, full alphabets, all commands"),
        Space("xml-two", sp_xml(xd), 1 if q else 2, ""),
        Space("xml-styles", sp_xml(None, True), 1 if q else 2, "XML inputs in all lexical forms"),
        Space("yaml", sp_yaml(xp), 1, "one YAML input"),
        Space("merge-xml", sp_merge(mp, (2, 1, 3), "xml"), 1, "several XML inputs"),
        Space("merge-yaml", sp_merge(mp, (2, 1, 3), "yaml"), 1, "several YAML inputs"),
        Space("chains", sp_chain(2 if q else 3, 2), 0, "all chains of commands"),
        Space("args", sp_args(), 1 if q else 2, "spellings, orders, paths, pre-existing outputs"),
        Space("places-1", sp_places(1, PLACES), 0, "inputs and outputs of one base name in several directories, every notation"),
        Space("places-2", sp_places(2, PLACES), 0, ""),
        Space("process", sp_process(), 0, "real processes"),
        Space("look-alikes", sp_look(3 if q else 20), 0,
              "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("width", sp_width(["n_bin", "n_cp", "n_ci", "n_cg", "n_inst"], [1, 2, 3, 9, 10, 11, 33, 64] if q else list(range(1, 100))), 0, ""),
    ]
