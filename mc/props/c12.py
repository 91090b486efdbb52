"""C12: non-conforming documents are rejected, conforming ones are not."""
import copy, gzip, io, os, re, tempfile
from ..core import *
from ..model import *
from ..msrc import size
from ..ops import *
from ..xmlref import *
from ..xmldoc import *
from .c11 import base, HIST1, B

ASSUMPTIONS = ["conformance is judged by an unmodified copy of the UCIS schema (libxml2 validator) on the namespace-stripped document",
               "a conforming mutant is compared with its meaning only where C11 defines one (distinct sibling names, declared ids, one range per bin)"]


def unspecified(root):
    """Conforming documents whose reading the properties leave open."""
    fids = {int(e.get("id")) for e in root.findall("sourceFiles")}
    if len(fids) != len(root.findall("sourceFiles")):
        return True
    hid = [int(e.get("historyNodeId")) for e in root.findall("historyNodes")]
    if len(set(hid)) != len(hid):
        return True
    for e in root.findall("historyNodes"):
        if e.get("parentId") is not None and int(e.get("parentId")) not in hid:
            return True
        if not re.match(r"\s*\d{4}-\d\d-\d\dT([01]\d|2[0-3]):[0-5]\d:[0-5]\d", e.get("date")):
            return True
    for e in root.iter():
        if isinstance(e.tag, str) and e.get("file") is not None and int(e.get("file")) not in fids:
            return True
    names = lambda l: len({e.get("name") for e in l}) != len(l)
    insts = root.findall("instanceCoverages")
    if names(insts):
        return True
    for i in insts:
        if i.get("moduleName") is None:
            return True
        types = []
        for s in i.findall("covergroupCoverage"):
            by = {}
            for c in s.findall("cgInstance"):
                by.setdefault(c.find("cgId").get("cgName"), []).append(c)
                if names(c.findall("coverpoint")) or names(c.findall("cross")):
                    return True
                for p in c.findall("coverpoint"):
                    bs = p.findall("coverpointBin")
                    k = [(b.get("name"), b.get("type").replace("default", "bins")) for b in bs]
                    if len(set(k)) != len(k):
                        return True
                    if any(len([x for x in b if x.tag in ("range", "sequence")]) != 1 for b in bs):
                        return True
                for p in c.findall("cross"):
                    kk = lambda t: t if t in ("ignore", "illegal") else "n"
                    k = [(b.get("name"), kk(b.get("type"))) for b in p.findall("crossBin")]
                    if len(set(k)) != len(k):
                        return True
            if any(names(v) for v in by.values()):
                return True
            types += list(by)
            # attributes of the type are only defined where instances agree
            for v in by.values():
                for tag in ("coverpoint", "cross"):
                    seen = {}
                    for c in v:
                        for p in c.findall(tag):
                            o = p.find("options")
                            a = (int(o.get("weight", 1)), int(o.get("at_least", 1)), tuple(x.xpath("string()") for x in p.findall("crossExpr")))
                            if seen.setdefault(p.get("name"), a) != a:
                                return True
        if len(set(types)) != len(types):
            return True
    return False


def dangling(root):
    for c in root.iter("cgInstance"):
        n = {p.get("name") for p in c.findall("coverpoint")}
        for x in c.iter("crossExpr"):
            t = x.xpath("string()")
            if t not in n and t.strip() not in n:
                return True
    return False


def judge(ch, data, how, tmp, enc="utf-8", what=""):
    """Read data through the back-end and compare the verdict with the schema's."""
    if how in ("name", "gzip", "bytes", "binary-file"):
        bad = conforms(data)
    else:
        try:
            bad = conforms(data.decode("utf-8"))
        except UnicodeDecodeError:
            raise Prune()
    ch.op()
    try:
        db = read(data, how, tmp, enc)
        err = None
    except CaseTimeout:
        raise
    except BaseException as e:
        db, err = None, e
    if bad:
        ch.outcome = "rejected"
        if err is None:
            raise Violation("%s: non-conforming document accepted (%s): %s" % (what, how, bad), data[:6000].decode("utf-8", "replace"))
        if not isinstance(err, Exception):
            raise Violation("%s: %s instead of an error" % (what, type(err).__name__))
        return
    root = parse(data)
    if dangling(root):
        ch.outcome = "dangling"
        if err is None:
            raise Violation("%s: cross of a missing coverpoint accepted (%s)" % (what, how), data[:6000].decode("utf-8", "replace"))
        return
    if unspecified(root):
        ch.outcome = "open"
        return
    ch.outcome = "accepted"
    if err is not None:
        raise Violation("%s: conforming document rejected (%s): %s: %s" % (what, how, type(err).__name__, err), data[:6000].decode("utf-8", "replace"))
    want, got = doc_model(root), observe(db)
    ch.op(size(want))
    if got != want:
        raise Violation("%s: document misread (%s)" % (what, how), {"difference got/want": diff(got, want), "doc": data[:6000].decode("utf-8", "replace")})


# ---------------------------------------------------------------- tree mutations
VALUES = ["", " ", "abc", "-1", "0", "1", "1.5", "+3", "1e3", "true", "TRUE", "yes", "2024-13-01T00:00:00", "2024-02-30T00:00:00", "2024-01-02",
          "2024-01-02 03:04:05", "2024-01-02T03:04:05Z", "24-01-02T03:04:05", "None", "default", "bins", "ignore", "Bins", "0x10", "1 2", "1,0", "NaN", "str", "99999999999999999999"]


FOREIGN = [("vendor", "http://vendor.example/ucis"), ("x", "urn:x"), ("ucis2", "UCIS"), ("xs", "http://www.w3.org/2001/XMLSchema"), ("xhtml", "http://www.w3.org/1999/xhtml")]


def walk(n, parent=None, i=0, out=None):
    out = [] if out is None else out
    out.append((n, parent, i))
    for j, k in enumerate(n.kids):
        if isinstance(k, N):
            walk(k, n, j, out)
    return out


def mutations(root, values):
    """Number and application of all single mutations of a tree: list of (description, function(root copy nodes))."""
    out = []
    for k, (n, p, i) in enumerate(walk(root)):
        where = "%s#%d" % (n.tag, k)
        for a, (name, kind, v) in enumerate(n.attrs):
            out.append(("%s: without %s" % (where, name), k, "delattr", a))
            out.append(("%s: %s misspelt" % (where, name), k, "renattr", a))
            for x in values:
                out.append(("%s: %s=%r" % (where, name, x), k, "setattr", (a, x)))
        out.append((where + ": unknown attribute", k, "addattr", None))
        out.append((where + ": stray text", k, "text", None))
        out.append((where + ": unknown child first", k, "child", 0))
        out.append((where + ": unknown child last", k, "child", 1))
        for p0, u in FOREIGN:
            out.append((where + ": child of another namespace (%s)" % p0, k, "nschild", (p0, u)))
            out.append((where + ": attribute of another namespace (%s)" % p0, k, "nsattr", (p0, u)))
            if p is not None:
                out.append((where + ": moved to another namespace (%s)" % p0, k, "nstag", (p0, u)))
        out.append((where + ": emptied", k, "empty", None))
        if p is not None:
            out.append((where + ": deleted", k, "del", None))
            out.append((where + ": duplicated", k, "dup", None))
            out.append((where + ": renamed", k, "ren", None))
            out.append((where + ": case changed", k, "case", None))
            out.append((where + ": unwrapped", k, "unwrap", None))
            out.append((where + ": wrapped", k, "wrap", None))
            out.append((where + ": moved first", k, "first", None))
            out.append((where + ": moved last", k, "last", None))
        for x in values:
            if n.kids and all(isinstance(c, str) for c in n.kids):
                out.append(("%s: text %r" % (where, x), k, "settext", x))
    return out


def apply(root, mu):
    root = copy.deepcopy(root)
    _, k, op, arg = mu
    n, p, i = walk(root)[k]
    if op == "delattr":
        del n.attrs[arg]
    elif op == "renattr":
        a = n.attrs[arg]
        n.attrs[arg] = (a[0] + "X", a[1], a[2])
    elif op == "setattr":
        a = n.attrs[arg[0]]
        n.attrs[arg[0]] = (a[0], "s", arg[1])
    elif op == "addattr":
        n.attrs.append(("unheardOf", "s", "1"))
    elif op == "text":
        n.kids.append("stray")
    elif op == "child":
        n.kids.insert(0 if arg == 0 else len(n.kids), N("unheardOf"))
    elif op == "nschild":
        n.kids.append(N(arg[0] + ":extension", [("xmlns:" + arg[0], "s", arg[1]), ("name", "s", "x")]))
    elif op == "nsattr":
        n.attrs += [("xmlns:" + arg[0], "s", arg[1]), (arg[0] + ":name", "s", "x")]
    elif op == "nstag":
        n.attrs.append(("xmlns:" + arg[0], "s", arg[1]))
        n.tag = arg[0] + ":" + n.tag
    elif op == "empty":
        n.kids = []
    elif op == "settext":
        n.kids = [arg]
    elif op == "del":
        del p.kids[i]
    elif op == "dup":
        p.kids.insert(i, copy.deepcopy(n))
    elif op == "ren":
        n.tag = n.tag + "X"
    elif op == "case":
        n.tag = n.tag.upper()
    elif op == "unwrap":
        p.kids[i:i + 1] = n.kids
    elif op == "wrap":
        p.kids[i] = N("w", [], [n])
    elif op == "first":
        p.kids.insert(0, p.kids.pop(i))
    elif op == "last":
        p.kids.append(p.kids.pop(i))
    return root


class MixedStyle(Style):
    pass


def ser(root, st=None):
    return encode(serialise(root, st or Style()), st or Style())


RICH = dict(defaults="extra", user="attrs", other="all", rangeseq="mixed")


def small_doc():
    ci = CI("i", 1, (CP("p", 1, (B("a", "B", 1, 0),)), CP("q", 1, (B("b", "I", 1, 3),))), (CR("x", 1, ("p", "q"), (B("y", "B", 1, 2),)),))
    return DOC((DINST("top", "m", (DSEC(1, (("g", ci),)),)),), HIST1)


def sp_single(doc, style, values, hows):
    st = Style(**style)
    root = tree(doc, st)
    mus = mutations(root, values)

    def f(ch):
        mu = ch.all(mus)
        how = ch.all(hows) if len(hows) > 1 else hows[0]
        ch.state((mu[0], how))
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            judge(ch, ser(apply(root, mu), st), how, tmp, what=mu[0])
    return f


def sp_pairs(doc, style, values, first=None, second=("del", "dup", "setattr", "delattr", "empty", "unwrap", "last")):
    st = Style(**style)
    root = tree(doc, st)
    mus = [m for m in mutations(root, values) if m[2] not in ("nschild", "nsattr", "nstag", "addattr", "text", "renattr", "case", "ren", "wrap") and (first is None or m[2] in first)]

    def f(ch):
        a = ch.all(mus)
        r1 = apply(root, a)
        # second mutation: of the mutated tree
        mus2 = [m for m in mutations(r1, values[:2]) if m[2] in second]
        b = ch.all(mus2)
        ch.state((a[0], b[0]))
        judge(ch, ser(apply(r1, b), st), "bytes", "/nonexistent", what=a[0] + " and " + b[0])
    return f


VALID = ["2.0", "1.1", "", "0", "UCIS", "1", "7", "true", "false", "2099-12-31T23:59:59", "ignore", "illegal", "bins", "default", "x" * 300, "\u00e9"]


def breakages(root):
    """One breakage of every sort, near the top and near the bottom of the document."""
    ns = walk(root)
    out = []
    for op, arg, sel in [("addattr", None, lambda n: True), ("child", 1, lambda n: True), ("ren", None, lambda n: n.tag not in ("UCIS",)), ("text", None, lambda n: True),
                         ("setattr", "abc", lambda n: any(a[1] == "n" or a[0] in ("coverageCount", "line") for a in n.attrs)),
                         ("delattr", None, lambda n: n.tag != "UCIS" and any(a[0] in ("coverageCount", "line", "inlineCount") for a in n.attrs)),
                         ("nstag", FOREIGN[0], lambda n: n.tag != "UCIS"), ("del", None, lambda n: n.tag in ("contents", "coverpointBin", "cgId"))]:
        ks = [k for k, (n, p, i) in enumerate(ns) if sel(n)]
        for k in sorted({ks[0], ks[-1]}) if ks else []:
            n = ns[k][0]
            a = arg
            if op in ("setattr", "delattr"):
                x = [i for i, t in enumerate(n.attrs) if t[0] in ("coverageCount", "line", "inlineCount") or t[1] == "n"][0]
                a = (x, arg) if op == "setattr" else x
            out.append(("%s at %s#%d" % (op, n.tag, k), k, op, a))
    xs = [k for k, (n, p, i) in enumerate(ns) if n.tag == "crossExpr"]
    for k in xs[-1:]:
        out.append(("dangling cross", k, "settext", "nowhere"))
    return out


def sp_variants(doc, style):
    """Every valid variation of a document (any attribute set to any value it may have) x a breakage of every sort, and none."""
    st = Style(**style)
    root = tree(doc, st)
    cache = []

    def f(ch):
        if not cache:
            for m in mutations(root, VALID):
                if m[2] == "setattr" or m[2] == "delattr":
                    r = apply(root, m)
                    if conforms(ser(r, st)) is None:
                        cache.append((m, r))
        m, r = ch.all(cache)
        b = ch.all([None] + breakages(r))
        ch.state((m[0], b and b[0]))
        judge(ch, ser(apply(r, b) if b else r, st), "bytes", "/nonexistent", what=m[0] + (" and " + b[0] if b else ""))
    return f


PROLOGS = [b"<?xml version='1.0' encoding='%s'?>", b"<?xml version='1.0' encoding='%s' standalone='yes'?>", b"<?xml version='1.0' encoding='%s'?><!-- c -->", b"<?xml version='1.0' encoding='%s'?><?pi x?>",
           b"<?xml version='1.0' encoding='%s'?><!DOCTYPE UCIS>", b"<?xml version='1.1' encoding='%s'?>", b"<?xml version='1.0' encoding='%s'?>\n\n"]


def sp_dress():
    """The same breakages under every prolog, encoding, prefix and trailer."""
    def f(ch):
        ns = ch.all(["root-prefix", "none", "prefix", "default", "prefix-other"])
        pro = ch.all(PROLOGS)
        enc = ch.all(["UTF-8", "utf-16", "iso-8859-1", "us-ascii"])
        tail = ch.all([b"", b"<!-- end -->", b"\n\n"])
        how = ch.all(["bytes", "name", "gzip"])
        st = Style(ns=ns)
        root = tree(small_doc(), st)
        bs = breakages(root)
        b = ch.all([None, bs[0], bs[-1], next(x for x in bs if x[2] == "setattr")])
        data = ser(apply(root, b) if b else root, st)
        i = data.index(b"?>") + 2 if data.startswith(b"<?xml") else 0
        data = (pro % enc.encode() + data[i:] + tail).decode("utf-8").encode(enc)
        ch.state((ns, pro, enc, tail, how, b and b[0]))
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            judge(ch, data, how, tmp, what="%s under %r" % (b and b[0], pro))
    return f


def sp_big(sizes):
    """Documents of growing size with the breakage at their start, middle and end."""
    def f(ch):
        n = ch.all(sizes)
        what = ch.all(["bins", "points", "groups", "insts", "tests"])
        bins = tuple(B("b%d" % k, "B", 1, k) for k in range(n if what == "bins" else 1))
        cps = tuple(CP("p%d" % k, 1, bins) for k in range(n if what == "points" else 1))
        sec = DSEC(1, tuple(("g%d" % k, CI("i", 1, cps, ())) for k in range(n if what == "groups" else 1)))
        doc = DOC(tuple(DINST("t%d" % k, "m", (sec,)) for k in range(n if what == "insts" else 1)), tuple(HIST1) * (1 if what != "tests" else 1))
        root = tree(doc, Style())
        ns = walk(root)
        k = ch.all(sorted({0, len(ns) // 2, len(ns) - 1}))
        b = ch.all([None, ("attribute", k, "addattr", None), ("child", k, "child", 1), ("text", k, "text", None)])
        ch.state((n, what, k, b and b[0]))
        judge(ch, ser(apply(root, b) if b else root), "bytes", "/nonexistent", what="%s of %d %s" % (b and b[0], n, what))
    return f


def sp_bytes(doc, style, ops, step):
    st = Style(**style)
    data = ser(tree(doc, st), st)

    def f(ch):
        op = ch.all(ops)
        blk = ch.all(list(range(0, len(data), step)))
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            for k in range(blk, min(blk + step, len(data))):
                if op == "cut":
                    d = data[:k]
                elif op == "del":
                    d = data[:k] + data[k + 1:]
                elif op == "dup":
                    d = data[:k] + data[k:k + 1] + data[k:]
                elif op == "badutf":
                    d = data[:k] + b"\xff" + data[k + 1:]
                elif op == "nul":
                    d = data[:k] + b"\x00" + data[k:]
                else:
                    d = data[:k] + op.encode() + data[k + 1:]
                ch.state((op, k))
                judge(ch, d, "bytes" if op != "cut" else "name", tmp, what="%s at %d" % (op, k))
    return f


def sp_gzip():
    st = Style()
    data = gzip.compress(ser(tree(small_doc(), st), st), mtime=0)

    def f(ch):
        op = ch.all(["cut", "flip"])
        from ucis.xml.xml_factory import XmlFactory
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            k = ch.all(list(range(0, len(data))))
            d = data[:k] if op == "cut" else data[:k] + bytes([data[k] ^ 0x15]) + data[k + 1:]
            p = os.path.join(tmp, "x.xml")
            with open(p, "wb") as fp:
                fp.write(d)
            ch.state((op, k))
            ch.op()
            try:
                plain = gzip.decompress(d)
                ok = conforms(plain) is None
            except Exception:
                ok = False
            try:
                XmlFactory.read(p)
                acc = True
            except Exception:
                acc = False
            ch.outcome = acc
            if acc and not ok:
                raise Violation("damaged gzip file accepted (%s at %d)" % (op, k))
            if ok and not acc:
                raise Violation("intact gzip file rejected (%s at %d)" % (op, k))
    return f


def sp_cross():
    """Which coverpoints each of two instances has x which coverpoints their cross names."""
    def f(ch):
        cis = []
        for k in range(ch.all([1, 2])):
            cps = ch.all([("p",), ("p", "q"), ("q", "p"), ("q",)])
            mem = ch.all([None, ("p",), ("q",), ("p", "q"), ("q", "p"), ("r",), ("p", "r"), ("P",), (" p ",), ("p q",), ("",), ("pp",), ("i0",), ("x",)])
            t = ch.all(["g", "h"])
            crs = () if mem is None else (CR("x%d" % k, 1, mem, (B("y", "B", 1, 1),)),)
            cis.append((t, CI("i%d" % k, 1, tuple(CP(n, 1, (B("a", "B", 1, 1),)) for n in cps), crs)))
        doc = DOC((DINST("top", "m", (DSEC(1, tuple(cis)),)),), HIST1)
        how = ch.all(["bytes", "text", "name"]) if len(cis) == 1 else "bytes"
        ch.state((doc, how))
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            judge(ch, ser(tree(doc, Style())), how, tmp, what="cross")
    return f


JUNK = [b"", b" ", b"\n", b"UCIS", b"<UCIS/>", b"<UCIS></UCIS>", b"<a/>", b"<?xml version='1.0'?>", b"<!-- x -->", b"{}", b"coverage:\n  covergroups: []\n", b"[1]",
        b"\xef\xbb\xbf", b"\xff\xfe", b"\x00", b"\x1f\x8b", b"\x1f\x8b\x08", b"\x04\x22\x4d\x18", b"PK\x03\x04", b"<html><body/></html>", b"<UCIS><UCIS/></UCIS>"]


def sp_junk():
    good = ser(tree(small_doc(), Style()))

    def f(ch):
        k = ch.all(list(range(len(JUNK))) + ["twice", "garbage-after", "garbage-before", "blank-before-decl", "wrong-enc", "unknown-enc", "xml2.0", "good", "missing", "directory"])
        how = ch.all(["bytes", "name", "text"])
        ch.state((k, how))
        from ucis.xml.xml_factory import XmlFactory
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            if k in ("missing", "directory"):
                ch.op()
                try:
                    XmlFactory.read(os.path.join(tmp, "no.xml") if k == "missing" else tmp)
                except Exception:
                    return
                raise Violation("%s accepted" % k)
            if isinstance(k, int):
                d = JUNK[k]
            else:
                d = {"twice": good + good, "garbage-after": good + b"x", "garbage-before": b"x" + good, "blank-before-decl": b" <?xml version='1.0'?>" + good,
                     "wrong-enc": b"<?xml version='1.0' encoding='UTF-16'?>" + good, "unknown-enc": b"<?xml version='1.0' encoding='klingon'?>" + good,
                     "xml2.0": b"<?xml version='2.0'?>" + good, "good": good}[k]
            if how == "text" and k in ("wrong-enc", "unknown-enc"):
                raise Prune()
            if d[:2] == b"\x1f\x8b" and how == "name":
                try:
                    XmlFactory.read(_put(tmp, d))
                except Exception:
                    return
                raise Violation("broken gzip accepted")
            judge(ch, d, how, tmp, what=str(k))
    return f


def sp_hist(depth):
    """What was read before does not soften the verdict: sequences of documents through one path, object or stream."""
    docs = {}

    def load():
        root = tree(small_doc(), Style())
        good = ser(root)
        other = ser(tree(base(0), Style()))
        pick = lambda w: ser(apply(root, next(m for m in mutations(root, VALUES[:3]) if m[0].endswith(w))))
        docs.update(good=good, other=other, attr=pick("unknown attribute"), missing=pick(": without coverageCount"),
                    child=ser(apply(root, [m for m in mutations(root, []) if m[2] == "child"][-1])),
                    value=ser(apply(root, [m for m in mutations(root, ["abc"]) if m[2] == "setattr" and "coverageCount" in m[0]][-1])),
                    cut=good[:-3], dangling=good.replace(b"<crossExpr>q<", b"<crossExpr>z<"))
        assert docs["dangling"] != good
        n = max(map(len, docs.values()))
        for k in docs:
            docs[k] += b" " * (n - len(docs[k]))
            r = conforms(docs[k])
            assert (r is None) == (k in ("good", "other", "dangling")), (k, r)

    def f(ch):
        if not docs:
            load()
        how = ch.all(["name", "gzip", "stream", "iface-name", "iface-stream", "same-stream"])
        seq = [ch.all(sorted(docs)) for _ in range(depth)]
        if seq[-1] == seq[-2]:
            raise Prune()
        ch.state((how, tuple(seq)))
        from ucis.xml.xml_factory import XmlFactory
        from ucis.rgy.format_rgy import FormatRgy
        iface = FormatRgy.inst().getDatabaseDesc("xml").fmt_if()
        want = {"good": small_doc(), "other": base(0)}
        same = io.BytesIO()
        with tempfile.TemporaryDirectory(prefix="c12") as tmp:
            p = os.path.join(tmp, "x.xml")
            for k, d in enumerate(seq):
                data = docs[d]
                if how in ("name", "gzip", "iface-name"):
                    with open(p, "wb") as fp:
                        fp.write(gzip.compress(data, mtime=0) if how == "gzip" else data)
                    os.utime(p, (10 ** 9, 10 ** 9))
                    arg = p
                elif how == "same-stream":
                    same.seek(0)
                    same.truncate()
                    same.write(data)
                    same.seek(0)
                    arg = same
                else:
                    arg = io.BytesIO(data)
                ch.op()
                try:
                    db = iface.read(arg) if how.startswith("iface") else XmlFactory.read(arg)
                    err = None
                except Exception as e:
                    db, err = None, e
                if d in want:
                    if err is not None:
                        raise Violation("after %s: conforming document rejected (%s): %s" % (seq[:k], how, err))
                    if observe(db) != doc_model(parse(data)):
                        raise Violation("after %s: document misread (%s)" % (seq[:k], how), diff(observe(db), doc_model(parse(data))))
                elif err is None:
                    raise Violation("after %s: non-conforming document (%s) accepted (%s)" % (seq[:k], d, how))
            ch.outcome = (seq[-1], how)
    return f


def _put(tmp, d):
    p = os.path.join(tmp, "g.xml")
    with open(p, "wb") as f:
        f.write(d)
    return p


def spaces(tier):
    q = tier == "quick"
    return [
        Space("single-small", sp_single(small_doc(), {}, VALUES, ["bytes", "name", "text"]), 0, "every mutation of a small document x transport"),
        Space("single-rich", sp_single(base(0), RICH, VALUES[:12] if q else VALUES, ["bytes"]), 0, "every mutation of a document with all sections"),
        Space("single-multi", sp_single(base(1), {}, VALUES[:6] if q else VALUES, ["bytes"]), 0, "every mutation of a document with several types and instances"),
        Space("variants", sp_variants(small_doc(), {}), 0, "every valid attribute value of a document x a breakage of every sort"),
        Space("dress", sp_dress(), 0, "prologs x encodings x namespace styles x trailers x transports x breakages"),
        Space("size", sp_big([1, 2, 10, 33, 65, 129, 257] if q else [1, 2, 3, 10, 33, 65, 129, 257, 513, 1025]), 0, "growing documents, breakage at start, middle and end"),
        Space("bytes", sp_bytes(small_doc(), {}, ["cut", "del", "dup", "badutf", "nul", "<", "&", '"', "x", "9", ">", "/"], 16), 0, "every byte position"),
        Space("gzip", sp_gzip(), 0, "every byte position of a compressed file"),
        Space("cross-members", sp_cross(), 0, "all member lists against all coverpoint sets"),
        Space("junk", sp_junk(), 0, ""),
        Space("histories", sp_hist(3 if q else 4), 0, "sequences of good and bad documents through one path, stream or reader"),
        Space("pairs", sp_pairs(small_doc(), dict(defaults="omitted"), VALUES[:1], ("del", "dup", "empty", "unwrap", "last"), ("del", "dup", "delattr", "empty", "last"))
              if q else sp_pairs(small_doc(), dict(defaults="omitted"), VALUES[:10]), 0, "pairs of mutations"),
    ]
