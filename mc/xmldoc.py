"""Interchange documents: a document model, its meaning, and a serialiser with all lexical freedom of XML."""
from collections import namedtuple
from .model import *
from .xmlref import typed_group

DSEC = namedtuple("DSEC", "weight insts")            # insts: ((typename, CI), ...)
DINST = namedtuple("DINST", "name mod secs id parent", defaults=(None, None))   # id, parent: instanceId, parentInstanceId
DHIST = namedtuple("DHIST", "id parent name status date simtime")
DOC = namedtuple("DOC", "insts hist")


def meaning(doc):
    nodes, ids, kids = [], {None: None}, {}
    for i in doc.insts:
        cgs = []
        for s in i.secs:
            t = {}
            for n, ci in s.insts:
                t.setdefault(n, []).append(ci)
            for n, cis in t.items():
                cgs.append(typed_group(n, s.weight, cis))
        kids.setdefault(ids[i.parent], []).append(len(nodes))
        if i.id is not None:
            ids[i.id] = len(nodes)
        nodes.append(INST(i.name, i.mod, 1, tuple(cgs)))
    nest = lambda k: tuple(nodes[j]._replace(subs=nest(j)) for j in kids.get(k, ()))
    return DB(nest(None))


class N:
    """Element: tag, attributes [(name, kind, value)], children (N or str)."""
    def __init__(self, tag, attrs=(), kids=()):
        self.tag, self.attrs, self.kids = tag, list(attrs), list(kids)


# attribute kinds: s text, n number, b boolean, d date, e enumerated/fixed token (no freedom)
DATES = ["%s", "%sZ", "%s+00:00", "%s-08:30", "%s.5", "%s.123456", "%s.000Z", "%s+14:00"]
NUMS = ["%d", "+%d", "00%d", " %d ", "\n%d\t"]


class Style:
    opts = dict(
        ns=["root-prefix", "none", "prefix", "default", "prefix-other", "default-other"],
        attr_order=["as-is", "reversed"],
        quote=['"', "'"],
        space=["compact", "pretty", "wild"],
        misc=["none", "comments", "pis", "comment-in-text", "prolog"],
        refs=["none", "dec", "hex", "cdata", "entity"],
        nums=NUMS,
        bools=["word", "digit", "blank"],
        dates=DATES,
        defaults=["explicit", "omitted", "extra"],
        empty=["short", "long"],
        enc=["none", "decl", "bom", "latin-1", "utf-16", "utf-16-le-bom", "ascii", "standalone", "decl-lower"],
        rangeseq=["range", "sequence", "mixed"],
        user=["none", "attrs"],
        other=["none", "toggle", "block", "condition", "branch", "fsm", "assertion", "all"],
    )
    transports = ["loads", "name", "bytes", "text", "reader-bytes", "reader-name", "gzip", "text-file", "binary-file"]

    def __init__(self, **kw):
        for k, v in self.opts.items():
            setattr(self, k, kw.get(k, v[0]))

    def key(self):
        return tuple((k, getattr(self, k)) for k in sorted(self.opts) if getattr(self, k) != self.opts[k][0])


def user_attr(st):
    if st.user == "none":
        return []
    return [N("userAttr", [("key", "s", "k"), ("type", "e", "str")], ["some <coverpoint> text"]),
            N("userAttr", [("key", "s", "k2"), ("type", "e", "bits"), ("len", "n", 8)], [])]


def sid(tag="id", f=1, l=1, c=1):
    return N(tag, [("file", "n", f), ("line", "n", l), ("inlineCount", "n", c)])


def xbin(tag="bin", n=77):
    return N(tag, [], [N("contents", [("coverageCount", "n", n)])])


def other_sections(which):
    o = lambda k: which in (k, "all")
    out = []
    nk = [("name", "s", "other"), ("key", "s", "0")]
    if o("toggle"):
        out.append(N("toggleCoverage", [("weight", "n", 9)], [N("toggleObject", nk, [
            N("dimension", [("left", "n", 7), ("right", "n", 0), ("downto", "b", True)]), sid(f=2),
            N("toggleBit", nk, [N("index", [], ["0"]), N("toggle", [("from", "e", "0"), ("to", "e", "1")], [xbin()])])])]))
    if o("block"):
        out.append(N("blockCoverage", [], [N("statement", [], [sid(f=2, l=5), xbin()]), N("statement", [("weight", "n", 3)], [sid(), xbin()])]))
        out.append(N("blockCoverage", [], [N("block", [], [sid("statementId"), xbin("blockBin"), sid("blockId")])]))
    if o("condition"):
        out.append(N("conditionCoverage", [], [N("expr", nk + [("exprString", "s", "a && b"), ("index", "n", 0), ("width", "n", 1)], [
            sid(), N("subExpr", [], ["a"]), N("subExpr", [], ["b"]), xbin(n=1), xbin(n=2)])]))
    if o("branch"):
        out.append(N("branchCoverage", [], [N("statement", [("statementType", "s", "if")], [
            sid(), N("branch", [], [sid(), xbin("branchBin")])])]))
    if o("fsm"):
        out.append(N("fsmCoverage", [], [N("fsm", [("name", "s", "f")], [
            N("state", [("stateName", "s", "S0")], [xbin("stateBin")]), N("stateTransition", [], [
                N("state", [], ["S0"]), N("state", [], ["S1"]), xbin("transitionBin")])])]))
    if o("assertion"):
        out.append(N("assertionCoverage", [], [N("assertion", [("name", "s", "a"), ("assertionKind", "s", "assert")], [xbin("coverBin"), xbin("failBin")])]))
    return out


def tree(doc, st):
    """Element tree of a document."""
    U = user_attr(st)
    om, ex = st.defaults == "omitted", st.defaults == "extra"

    def opt(w, at=None):
        a = []
        if not (om and w == 1):
            a.append(("weight", "n", w))
        if at is not None and not (om and at == 1):
            a.append(("at_least", "n", at))
        if ex:
            a += [("goal", "n", 90), ("comment", "s", "weight=5")]
        return N("options", a)

    def contents(c):
        return N("contents", [("coverageCount", "n", c)] + ([("nameComponent", "s", "x"), ("typeComponent", "s", "y")] if ex else []),
                 [N("historyNodeId", [], ["0"])] if ex else [])

    def cpbin(b, k):
        t = {"B": "default" if (st.defaults != "explicit" and k % 2) else "bins", "I": "ignore", "L": "illegal"}[b.kind]
        a = [("name", "s", b.name), ("type", "e", t), ("key", "s", "0")] + ([("alias", "s", "zz")] if ex else [])
        if st.rangeseq == "range" or (st.rangeseq == "mixed" and k % 2):
            body = N("range", [("from", "n", 3), ("to", "n", 5)], [contents(b.count)])
        else:
            body = N("sequence", [], [contents(b.count), N("seqValue", [], ["1"]), N("seqValue", [], ["-2"])])
        return N("coverpointBin", a, [body] + U)

    def crbin(b, k):
        a = [("name", "s", b.name), ("key", "s", "k%d" % k)]
        if b.kind != "B" or not om:
            a.append(("type", "e", {"B": ("default", "bins", "auto")[k % 3 if ex else 0], "I": "ignore", "L": "illegal"}[b.kind]))
        return N("crossBin", a, [N("index", [], ["0"]), N("index", [], ["-1"]), contents(b.count)] + U)

    def at_of(p):
        return p.bins[0].at if p.bins else 1
    root = N("UCIS", [("ucisVersion", "s", "1.0"), ("writtenBy", "s", "other tool"), ("writtenTime", "d", "2024-01-02T03:04:05")])
    root.kids += [N("sourceFiles", [("fileName", "s", "a.sv"), ("id", "n", 1)]), N("sourceFiles", [("fileName", "s", "b.sv"), ("id", "n", 2)])]
    for h in doc.hist:
        a = [("historyNodeId", "n", h.id), ("logicalName", "s", h.name), ("physicalName", "s", "p"), ("kind", "e", "TEST"), ("testStatus", "b", h.status),
             ("date", "d", h.date), ("simtime", "e", h.simtime), ("toolCategory", "s", "c"), ("ucisVersion", "s", "1.0"), ("vendorId", "s", "v"), ("vendorTool", "s", "t"),
             ("vendorToolVersion", "s", "2")]
        if h.parent is not None:
            a.insert(1, ("parentId", "n", h.parent))
        root.kids.append(N("historyNodes", a, U))
    for k, i in enumerate(doc.insts):
        a = [("name", "s", i.name), ("key", "s", "0")] + ([("moduleName", "s", i.mod)] if i.mod is not None else []) + ([("instanceId", "n", k if i.id is None else i.id)] if ex or i.id is not None else []) \
            + ([("parentInstanceId", "n", i.parent)] if i.parent is not None else []) + ([("alias", "s", "al")] if ex else [])
        e = N("instanceCoverages", a, ([N("designParameter", [], [N("name", [], ["P"]), N("value", [], ["1"])])] if ex else []) + [sid(f=1 + k % 2)]
              + other_sections(st.other))
        for s in i.secs:
            c = N("covergroupCoverage", ([] if om and s.weight == 1 else [("weight", "n", s.weight)]) + ([("metricMode", "s", "m")] if ex else []))
            for tn, ci in s.insts:
                g = N("cgInstance", [("name", "s", ci.name), ("key", "s", "0")] + ([("excluded", "b", False), ("alias", "s", "zz")] if ex else []),
                      [opt(ci.weight), N("cgId", [("cgName", "s", tn), ("moduleName", "s", "M")], [sid("cginstSourceId"), sid("cgSourceId", 2)])]
                      + ([N("cgParms", [], [N("name", [], ["coverpoint"]), N("value", [], ["v"])])] if ex else []))
                for p in ci.cps:
                    g.kids.append(N("coverpoint", [("name", "s", p.name), ("key", "s", "0")] + ([("exprString", "s", "a")] if ex else []),
                                    [opt(p.weight, at_of(p))] + [cpbin(b, j) for j, b in enumerate(p.bins)] + U))
                for x in ci.crs:
                    g.kids.append(N("cross", [("name", "s", x.name), ("key", "s", "0")],
                                    [opt(x.weight, at_of(x))] + [N("crossExpr", [], [n]) for n in x.cps] + [crbin(b, j) for j, b in enumerate(x.bins)] + U))
                g.kids += U
                c.kids.append(g)
            c.kids += U
            e.kids.append(c)
        e.kids += U
        root.kids.append(e)
    return root


NS = {"root-prefix": ("ucis", "http://www.w3.org/2001/XMLSchema-instance"), "prefix": ("u", "http://www.w3.org/2001/XMLSchema-instance"),
      "default": ("", "http://www.w3.org/2001/XMLSchema-instance"), "prefix-other": ("q", "UCIS"), "default-other": ("", "urn:x"), "none": None}
NUMTEXT = {"index", "seqValue", "historyNodeId"}


def serialise(root, st):
    """Text of the document (without encoding), according to style st."""
    ents = {}

    def esc(s, attr):
        s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        if attr:
            s = s.replace('"', "&quot;").replace("'", "&apos;").replace("\t", "&#9;").replace("\n", "&#10;")
        return s.replace("\r", "&#13;")

    def text(s, attr):
        if st.refs == "dec":
            return "".join("&#%d;" % ord(c) for c in s)
        if st.refs == "hex":
            return "".join("&#x%X;" % ord(c) for c in s)
        if st.refs == "cdata" and not attr and max(map(ord, s), default=0) < {"ascii": 128, "latin-1": 256}.get(st.enc, 1 << 30) and "]]>" not in s and s and "\r" not in s:
            return "<![CDATA[%s]]>" % s
        if st.refs == "entity" and s and not any(c in s for c in "<&%\"'\t\r\n>"):
            return "&%s;" % ents.setdefault(s, "e%d" % len(ents))
        if st.enc == "ascii":
            return "".join(c if ord(c) < 128 else "&#%d;" % ord(c) for c in esc(s, attr))
        if st.enc == "latin-1":
            return "".join(c if ord(c) < 256 else "&#%d;" % ord(c) for c in esc(s, attr))
        return esc(s, attr)

    def val(kind, v):
        if kind == "n":
            if st.nums != "%d" and v < 0:
                return "%d" % v
            return (st.nums % v).replace("\n", "&#10;").replace("\t", "&#9;")
        if kind == "b":
            return {"word": ("false", "true"), "digit": ("0", "1"), "blank": (" false ", " true")}[st.bools][bool(v)]
        if kind == "d":
            return st.dates % v
        if kind == "e":
            return v
        return text(v, True)

    def tag(n, top):
        ns = NS[st.ns]
        if ns is None or ns[0] == "" or (st.ns == "root-prefix" and not top):
            return n
        return ns[0] + ":" + n

    def emit(n, depth, top=False):
        if isinstance(n, str):
            return text(n, False)
        attrs = [(a, val(k, v)) for a, k, v in n.attrs]
        if st.attr_order == "reversed":
            attrs.reverse()
        if top and NS[st.ns]:
            p, uri = NS[st.ns]
            attrs.insert(0, ("xmlns" + (":" + p if p else ""), uri))
        sep = "\n\t " if st.space == "wild" else " "
        eq = " = " if st.space == "wild" else "="
        t = tag(n.tag, top)
        head = "<" + t + "".join(sep + a + eq + st.quote + v + st.quote for a, v in attrs)
        if st.space == "wild":
            head += "\n"
        texts = all(isinstance(k, str) for k in n.kids)
        if not n.kids:
            return head + "/>" if st.empty == "short" else head + "></%s>" % t
        end = "</%s%s>" % (t, " \n" if st.space == "wild" else "")
        if texts:
            body = "".join(text(k, False) for k in n.kids)
            if st.misc == "comment-in-text" and n.tag == "crossExpr":
                s = "".join(n.kids)
                h = len(s) // 2
                body = "<!-- c -->" + text(s[:h], False) + "<!-- crossExpr --><?pi x?>" + text(s[h:], False)
            if n.tag in NUMTEXT and st.space == "wild":
                body = "\n " + body + " "
            if n.tag == "crossExpr" and st.space == "wild" and n.kids[0] == n.kids[0].strip():
                body = "\n\t  " + body + "\n"
            return head + ">" + body + end
        sp = {"compact": "", "pretty": "\n" + "  " * (depth + 1), "wild": "\r\n\t\n"}[st.space]
        mid = {"comments": "<!-- <coverpoint name='no'/> -->", "pis": "<?tool coverpoint?>"}.get(st.misc, "")
        body = "".join(sp + mid + emit(k, depth + 1) for k in n.kids)
        return head + ">" + body + mid + (sp[:-2] if st.space == "pretty" else sp) + end
    body = emit(root, 0, True)
    pre = ""
    if st.misc == "prolog":
        pre = "<!-- start -->\n<?xml-stylesheet href='x'?>\n"
        body += "\n<!-- end -->\n"
    if ents:
        pre += "<!DOCTYPE %s [%s]>\n" % ("UCIS", "".join("<!ENTITY %s '%s'>" % (n, v) for v, n in ents.items()))
    return pre + body


def encode(text, st):
    decl = {"none": "", "bom": "", "decl": "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "latin-1": "<?xml version='1.0' encoding='ISO-8859-1'?>",
            "utf-16": "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "utf-16-le-bom": "", "ascii": "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n",
            "standalone": "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>\n", "decl-lower": "<?xml version='1.0' encoding='utf-8'?>"}[st.enc]
    t = decl + text
    if st.enc == "latin-1":
        return t.encode("latin-1", "xmlcharrefreplace")
    if st.enc == "ascii":
        return t.encode("ascii", "xmlcharrefreplace")
    if st.enc == "utf-16":
        return t.encode("utf-16")
    if st.enc == "utf-16-le-bom":
        return b"\xff\xfe" + t.encode("utf-16-le")
    if st.enc == "bom":
        return b"\xef\xbb\xbf" + t.encode("utf-8")
    return t.encode("utf-8")


def read(data, how, tmp, enc="utf-8"):
    """Read the document along one of the public paths."""
    import gzip, io, os
    from ucis.xml.xml_factory import XmlFactory
    from ucis.xml.xml_reader import XmlReader
    p = os.path.join(tmp, "in.xml")

    def put(d):
        with open(p, "wb") as f:
            f.write(d)
    py = {"utf-16": "utf-16", "utf-16-le-bom": "utf-16", "latin-1": "latin-1"}.get(enc, "utf-8-sig" if enc == "bom" else "utf-8")
    if how == "loads":
        return XmlReader().loads(data.decode(py))
    if how == "text":
        return XmlFactory.read(io.StringIO(data.decode(py)))
    if how == "bytes":
        return XmlFactory.read(io.BytesIO(data))
    if how == "reader-bytes":
        return XmlReader().read(io.BytesIO(data))
    if how == "gzip":
        put(gzip.compress(data))
        return XmlFactory.read(p)
    put(data)
    if how == "name":
        return XmlFactory.read(p)
    if how == "reader-name":
        return XmlReader().read(p)
    if how == "text-file":
        with open(p, "r", encoding=py, newline="") as f:
            return XmlFactory.read(f)
    with open(p, "rb") as f:
        return XmlFactory.read(f)
