"""Independent view of interchange documents: a pristine schema, and the coverage a document states."""
import os
from lxml import etree
from .core import Violation, VERIF
from .model import *

_S = {}


def pristine():
    if "s" not in _S:
        _S["s"] = etree.XMLSchema(etree.parse(os.path.join(VERIF, "mc/ref/ucis.xsd")))
    return _S["s"]


def parse(data):
    """Parse (bytes or str without declaration) and strip namespaces, as the interchange schema is used here."""
    if isinstance(data, str):
        data = data.encode("utf-8")
    root = etree.fromstring(data)
    for e in root.iter():
        if isinstance(e.tag, str) and "}" in e.tag:
            e.tag = e.tag[e.tag.index("}") + 1:]
    return root


def conforms(data):
    """None when the document is well-formed and conforming, else the reason."""
    try:
        root = parse(data)
    except (etree.XMLSyntaxError, ValueError) as e:
        return "not well-formed: %s" % e
    s = pristine()
    if s.validate(root):
        return None
    return "schema: %s" % s.error_log.last_error


def doc_bins(e, tag, at):
    out = []
    for b in e.findall(tag):
        k = b.get("type", "default")
        if tag == "coverpointBin":
            kind = {"bins": "B", "default": "B", "ignore": "I", "illegal": "L"}[k]
            c = [x for x in b if x.tag in ("range", "sequence")][0].find("contents")
        else:
            kind = {"ignore": "I", "illegal": "L"}.get(k, "B")
            c = b.find("contents")
        out.append(Bin(b.get("name"), kind, at, int(c.get("coverageCount"))))
    return tuple(out)


def doc_model(root):
    """The coverage a (conforming, namespace-stripped) document states: instance data only."""
    nodes, ids, kids, tops = [], {}, {}, []
    for i in root.findall("instanceCoverages"):
        cgs = []
        for s in i.findall("covergroupCoverage"):
            types = {}
            for ci in s.findall("cgInstance"):
                cps, crs = [], []
                for e in ci.findall("coverpoint"):
                    o = e.find("options")
                    cps.append(CP(e.get("name"), int(o.get("weight", 1)), doc_bins(e, "coverpointBin", int(o.get("at_least", 1)))))
                names = {c.name for c in cps}
                for e in ci.findall("cross"):
                    o = e.find("options")
                    mem = []
                    for x in e.findall("crossExpr"):
                        t = x.xpath("string()")
                        mem.append(t if t in names else t.strip())
                    crs.append(CR(e.get("name"), int(o.get("weight", 1)), tuple(mem), doc_bins(e, "crossBin", int(o.get("at_least", 1)))))
                w = int(ci.find("options").get("weight", 1))
                types.setdefault(ci.find("cgId").get("cgName"), []).append(CI(ci.get("name"), w, tuple(cps), tuple(crs)))
            for n, cis in types.items():
                cgs.append(typed_group(n, int(s.get("weight", 1)), cis))
        me = len(nodes)
        nodes.append(INST(i.get("name"), i.get("moduleName"), 1, tuple(cgs)))
        up = i.get("parentInstanceId")
        (tops if up is None else kids.setdefault(ids.get(int(up)), [])).append(me)
        if i.get("instanceId") is not None:
            ids[int(i.get("instanceId"))] = me
    nest = lambda l: tuple(nodes[k]._replace(subs=nest(kids.get(k, ()))) for k in l)
    return DB(nest(tops) + nest(kids.get(None, ())))


def type_points(cis):
    """Bin-wise sum over instances, in order of first appearance."""
    cps, crs = {}, {}
    for c in cis:
        for d, l in ((cps, c.cps), (crs, c.crs)):
            for p in l:
                if p.name not in d:
                    d[p.name] = [p, {}]
                for b in p.bins:
                    k = (b.name, b.kind)
                    o = d[p.name][1].get(k)
                    d[p.name][1][k] = b if o is None else o._replace(count=o.count + b.count)
    f = lambda d: tuple(p._replace(bins=tuple(bs.values())) for p, bs in d.values())
    return f(cps), f(crs)


def typed_group(name, weight, cis):
    cps, crs = type_points(cis)
    return CG(name, weight, cps, crs, tuple(cis))


def rt(m):
    """What a round trip through XML has to give back."""
    def insts(l):
        out = []
        for i in l:
            cgs = []
            for g in i.cgs:
                cis = g.cis or (CI(g.name, g.weight, g.cps, g.crs),)
                cgs.append(typed_group(g.name, g.weight, cis))
            out.append(INST(i.name, i.du, 1, tuple(cgs), insts(i.subs)))
        return tuple(out)
    return DB(insts(m.insts))


def gen_xml_db(ch, prof):
    """A database the XML format can express: instances of one covergroup agree on weights and thresholds
    of the items they share, each has a coverpoint, and each coverpoint a bin."""
    from .gen import Ctx
    c = Ctx(ch, prof)
    insts, sib = [], []
    for i in range(c.width(prof.inst_w, 1)):
        nm = c.name("top%d" % i, sib)
        du = ch.pick(["du%d" % (i % 2)] + prof.names, prof.nsmall)
        w = c.weight()
        s2, cgs = [], []
        for j in range(c.width(prof.cg_w)):
            gn = c.name("cg%d" % j, s2)
            gw = c.weight()
            cps, crs = c.points()
            s3, cis = [], []
            for k in range(c.width(prof.ci_w)):
                inm = c.name("i%d" % k, s3)
                iw = c.weight()
                icps, icrs = c.like(cps, crs)
                drop = ch.pick([None, "cp", "bin", "cross", "crbin", "rev"])
                if drop == "cp":
                    keep = icps[:-1] or icps
                    names = {x.name for x in keep}
                    icps, icrs = keep, tuple(x for x in icrs if set(x.cps) <= names)
                elif drop == "bin":
                    icps = tuple(x._replace(bins=x.bins[1:] or x.bins) for x in icps)
                elif drop == "cross":
                    icrs = icrs[1:]
                elif drop == "crbin":
                    icrs = tuple(x._replace(bins=x.bins[:-1]) for x in icrs)
                elif drop == "rev":
                    icps = tuple(x._replace(bins=tuple(reversed(x.bins))) for x in reversed(icps))
                cis.append(CI(inm, iw, icps, icrs))
            cgs.append(CG(gn, gw, cps, crs, tuple(cis)))
        insts.append(INST(nm, du, w, tuple(cgs)))
    return DB(tuple(insts))
