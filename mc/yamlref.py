"""YAML coverage data: independent validator and meaning, generator, and serialisers."""
import io, json, os
from .core import Violation, Prune
from .model import *
from .xmlref import type_points


# ---------------------------------------------------------------- validity
def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def invalid(d):
    """Reason why plain data d breaks the coverage schema, None when it conforms, 'open' when the schema leaves it open."""
    def obj(v, p):
        if not isinstance(v, dict):
            raise ValueError("%s is not a mapping" % p)
        return v

    def arr(v, p):
        if not isinstance(v, list):
            raise ValueError("%s is not a list" % p)
        return v

    def req(v, keys, p):
        for k in keys:
            if k not in v:
                raise ValueError("%s lacks %s" % (p, k))

    def s(v, k, p):
        if k in v and not isinstance(v[k], str):
            raise ValueError("%s.%s is not a string" % (p, k))

    def i(v, k, p):
        if k in v and not is_int(v[k]):
            raise ValueError("%s.%s is not an integer" % (p, k))

    def bins(v, k, p):
        for b in arr(v[k], p + "." + k) if k in v else []:
            obj(b, p + "." + k)
            req(b, ("name", "count"), p)
            s(b, "name", p)
            i(b, "count", p)
    try:
        obj(d, "document")
        if "coverage" not in d:
            return "open"
        c = obj(d["coverage"], "coverage")
        for g in arr(c["covergroups"], "covergroups") if "covergroups" in c else []:
            obj(g, "covergroup")
            req(g, ("name",), "covergroup")
            s(g, "name", "covergroup")
            i(g, "weight", "covergroup")
            for t in arr(g["instances"], "instances") if "instances" in g else []:
                obj(t, "instance")
                req(t, ("name",), "instance")
                s(t, "name", "instance")
                for cp in arr(t["coverpoints"], "coverpoints") if "coverpoints" in t else []:
                    obj(cp, "coverpoint")
                    req(cp, ("name", "bins"), "coverpoint")
                    s(cp, "name", "coverpoint")
                    i(cp, "atleast", "coverpoint")
                    for k in ("bins", "ignorebins", "illegalbins"):
                        bins(cp, k, "coverpoint")
                for cr in arr(t["crosses"], "crosses") if "crosses" in t else []:
                    obj(cr, "cross")
                    req(cr, ("name", "coverpoints"), "cross")
                    s(cr, "name", "cross")
                    i(cr, "atleast", "cross")
                    for m in arr(cr["coverpoints"], "members"):
                        if not isinstance(m, str):
                            raise ValueError("member is not a string")
                    bins(cr, "bins", "cross")
                names = {cp["name"] for cp in t.get("coverpoints", [])}
                for cr in t.get("crosses", []):
                    for m in cr["coverpoints"]:
                        if m not in names:
                            raise ValueError("cross %s names missing coverpoint %s" % (cr["name"], m))
    except ValueError as e:
        return str(e)
    return None


def dup(l):
    n = [x["name"] for x in l]
    return len(set(n)) != len(n)


def meaning(d):
    """Covergroups a valid document states, or None where the properties leave the meaning open."""
    gs = d["coverage"].get("covergroups", [])
    if dup(gs):
        return None
    out = []
    for g in gs:
        w = g.get("weight", 1)
        cis, seen = [], {}
        insts = g.get("instances", [])
        if dup(insts):
            return None
        for t in insts:
            cps, crs = [], []
            if dup(t.get("coverpoints", [])) or dup(t.get("crosses", [])):
                return None
            for cp in t.get("coverpoints", []):
                at = cp.get("atleast", 1)
                if seen.setdefault(("cp", cp["name"]), at) != at:
                    return None
                bs = []
                for k, kind in (("bins", "B"), ("ignorebins", "I"), ("illegalbins", "L")):
                    if dup(cp.get(k, [])):
                        return None
                    bs += [Bin(b["name"], kind, at, b["count"]) for b in cp.get(k, [])]
                cps.append(CP(cp["name"], 1, tuple(bs)))
            for cr in t.get("crosses", []):
                at = cr.get("atleast", 1)
                if seen.setdefault(("cr", cr["name"]), (at, cr["coverpoints"])) != (at, cr["coverpoints"]) or dup(cr.get("bins", [])):
                    return None
                crs.append(CR(cr["name"], 1, tuple(cr["coverpoints"]), tuple(Bin(b["name"], "B", at, b["count"]) for b in cr.get("bins", []))))
            cis.append(CI(t["name"], w, tuple(cps), tuple(crs)))
        cps, crs = type_points(cis)
        out.append(CG(g["name"], w, cps, crs, tuple(cis)))
    return tuple(out)


def groups_of(db):
    """Covergroups of a database read from YAML (they live below one default design instance)."""
    m = observe(db)
    return kind_sorted(DB((INST("", "", 1, tuple(g for i in m.insts for g in i.cgs)),))).insts[0].cgs


def want_groups(d):
    w = meaning(d)
    return None if w is None else kind_sorted(DB((INST("", "", 1, w),))).insts[0].cgs


# ---------------------------------------------------------------- from models
def data_of(m, drop_defaults=True):
    """Plain data for the covergroups of model m (instances only)."""
    gs = []
    for i in m.insts:
        for g in i.cgs:
            e = {"name": g.name}
            if g.weight != 1 or not drop_defaults:
                e["weight"] = g.weight
            insts = []
            for c in g.cis:
                t = {"name": c.name}
                if c.cps or not drop_defaults:
                    t["coverpoints"] = []
                for p in c.cps:
                    x = {"name": p.name}
                    at = p.bins[0].at if p.bins else 1
                    if at != 1 or not drop_defaults:
                        x["atleast"] = at
                    for k, kind in (("bins", "B"), ("ignorebins", "I"), ("illegalbins", "L")):
                        bs = [{"name": b.name, "count": b.count} for b in p.bins if b.kind == kind]
                        if bs or kind == "B" or not drop_defaults:
                            x[k] = bs
                    t["coverpoints"].append(x)
                for p in c.crs:
                    x = {"name": p.name, "coverpoints": list(p.cps)}
                    at = p.bins[0].at if p.bins else 1
                    if at != 1 or not drop_defaults:
                        x["atleast"] = at
                    bs = [{"name": b.name, "count": b.count} for b in p.bins if b.kind == "B"]
                    if bs or not drop_defaults:
                        x["bins"] = bs
                    t.setdefault("crosses", []).append(x)
                insts.append(t)
            if insts or not drop_defaults:
                e["instances"] = insts
            gs.append(e)
    return {"coverage": {"covergroups": gs}}


# ---------------------------------------------------------------- notations
def yq(s, ascii=True):
    """Double-quoted YAML scalar (JSON's, except that YAML does not combine surrogate pairs)."""
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= o < 127 or (not ascii and o >= 0xa1 and c not in "\u2028\u2029\ufeff"):
            out.append(c)
        elif o > 0xffff:
            out.append("\\U%08x" % o)
        else:
            out.append("\\u%04x" % o)
    return '"' + "".join(out) + '"'


def jdump(v, ascii=True, ind=None):
    nl = "" if ind is None else "\n" + " " * (ind + 1)
    nx = None if ind is None else ind + 1
    if isinstance(v, dict):
        return "{" + ", ".join(nl + yq(str(k), ascii) + ": " + jdump(x, ascii, nx) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(nl + jdump(x, ascii, nx) for x in v) + "]"
    return yq(v, ascii) if isinstance(v, str) else json.dumps(v)


def q_plain(s):
    """Plain scalar where it is safe, else double-quoted."""
    import re
    if re.match(r"^[A-Za-z][A-Za-z0-9_]*( [A-Za-z][A-Za-z0-9_]*)*$", s) and s.lower() not in ("true", "false", "yes", "no", "on", "off", "null", "y", "n"):
        return s
    return yq(s)


def q_single(s):
    if any(ord(c) < 32 or 0x7f <= ord(c) < 0xa0 or c in "\u2028\u2029\ufeff" for c in s):
        return yq(s)
    return "'" + s.replace("'", "''") + "'"


def block(v, ind=0, q=q_plain, ints=str, comments=False, rev=False, indent=2, pad=""):
    sp = " " * ind
    c = "   # note: 'x' [1]" if comments else ""
    out = ""
    if isinstance(v, dict):
        if not v:
            return sp + "{}\n"
        items = list(v.items())
        if rev:
            items.reverse()
        for k, x in items:
            if comments:
                out += sp + "# comment\n\n"
            if isinstance(x, (dict, list)) and x:
                out += sp + k + ":" + c + "\n" + block(x, ind + indent, q, ints, comments, rev, indent, pad)
            else:
                out += sp + k + ": " + pad + scalar(x, q, ints) + c + "\n"
    elif isinstance(v, list):
        if not v:
            return sp + "[]\n"
        for x in v:
            if isinstance(x, (dict, list)) and x:
                b = block(x, ind + 2, q, ints, comments, rev, indent, pad)
                if comments:
                    out += sp + "-" + c + "\n" + b
                else:
                    out += sp + "- " + b[ind + 2:]
            else:
                out += sp + "- " + scalar(x, q, ints) + c + "\n"
    return out


def scalar(x, q, ints):
    if isinstance(x, str):
        return q(x)
    if x == {}:
        return "{}"
    if x == []:
        return "[]"
    if is_int(x):
        return ints(x)
    return json.dumps(x)


def flow(v, q, ints, nl=""):
    if isinstance(v, dict):
        return "{" + ", ".join(nl + k + ": " + flow(x, q, ints, nl) for k, x in v.items()) + nl + "}"
    if isinstance(v, list):
        return "[" + ", ".join(nl + flow(x, q, ints, nl) for x in v) + "]"
    return scalar(v, q, ints)


def anchored(d):
    """Repeated lists of the document as anchors and aliases (block style)."""
    import yaml
    shared = {}

    def sh(v):
        if isinstance(v, dict):
            v = {k: sh(x) for k, x in v.items()}
        elif isinstance(v, list):
            v = [sh(x) for x in v]
        else:
            return v
        return shared.setdefault(json.dumps(v, sort_keys=True), v)
    return yaml.safe_dump(sh(d), allow_unicode=True, sort_keys=False)


def dump_yaml(d, **kw):
    import yaml
    return yaml.safe_dump(d, **kw)


def merged(d):
    """Counts via merge keys where possible."""
    out = "defs: &one {count: 1}\n"
    used = [0]

    def b(v, ind):
        sp = " " * ind
        if isinstance(v, dict):
            if v.get("count") == 1 and len(v) == 2:
                used[0] += 1
                return sp + "<<: *one\n" + sp + "name: " + q_plain(v["name"]) + "\n"
            r = ""
            for k, x in v.items():
                if isinstance(x, (dict, list)) and x:
                    r += sp + k + ":\n" + b(x, ind + 2)
                else:
                    r += sp + k + ": " + scalar(x, q_plain, str) + "\n"
            return r
        r = ""
        for x in v:
            if isinstance(x, dict):
                r += sp + "- " + b(x, ind + 2)[ind + 2:]
            else:
                r += sp + "- " + scalar(x, q_plain, str) + "\n"
        return r
    return out + b(d, 0)


NOTATIONS = {
    "json": lambda d: jdump(d),
    "json-utf8-indent": lambda d: jdump(d, False, 0),
    "block-plain": lambda d: block(d),
    "block-single": lambda d: block(d, q=q_single),
    "block-comments": lambda d: block(d, q=q_plain, comments=True),
    "block-reversed": lambda d: block(d, rev=True),
    "block-wide": lambda d: block(d, indent=7, pad="   "),
    "crlf": lambda d: block(d).replace("\n", "\r\n"),
    "markers": lambda d: "%YAML 1.1\n---\n" + block(d) + "...\n",
    "hex": lambda d: block(d, ints=lambda n: hex(n) if n >= 0 else str(n)),
    "plus": lambda d: block(d, ints=lambda n: "+%d" % n if n >= 0 else str(n)),
    "underscore": lambda d: block(d, ints=lambda n: "{:_}".format(n)),
    "octal": lambda d: block(d, ints=lambda n: "0%o" % n if n > 0 else str(n)),
    "binary": lambda d: block(d, ints=lambda n: "0b{:b}".format(n) if n > 0 else str(n)),
    "tagged": lambda d: block(d, ints=lambda n: "!!int \"%d\"" % n),
    "flow": lambda d: flow(d, q_plain, str),
    "flow-nl": lambda d: flow(d, q_single, str, "\n   "),
    "anchors": anchored,
    "merge-keys": merged,
    "pyyaml": lambda d: dump_yaml(d),
    "pyyaml-unicode": lambda d: dump_yaml(d, allow_unicode=True, width=10),
    "pyyaml-flow": lambda d: dump_yaml(d, default_flow_style=True),
    "pyyaml-literal": lambda d: dump_yaml(d, default_style="|"),
}
TRANSPORTS = ["loads", "text", "bytes", "file", "db-if", "utf16", "bom", "text-file"]


def read(text, how, tmp):
    from ucis.yaml.yaml_reader import YamlReader
    if how == "loads":
        return YamlReader().loads(text)
    if how == "text":
        return YamlReader().load(io.StringIO(text))
    data = text.encode("utf-8")
    if how == "bytes":
        return YamlReader().load(io.BytesIO(data))
    if how == "utf16":
        data = b"\xff\xfe" + text.encode("utf-16-le")
    if how == "bom":
        data = b"\xef\xbb\xbf" + data
    p = os.path.join(tmp, "in.yaml")
    with open(p, "wb") as f:
        f.write(data)
    if how == "text-file":
        with open(p, encoding="utf-8", newline="") as f:
            return YamlReader().load(f)
    if how == "file":
        with open(p, "rb") as f:
            return YamlReader().load(f)
    from ucis.rgy.format_rgy import FormatRgy
    return FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)
