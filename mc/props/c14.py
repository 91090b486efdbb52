"""C14: malformed YAML coverage data is rejected."""
import copy, os, tempfile
from ..core import *
from ..model import *
from ..yamlref import *

ASSUMPTIONS = ["unknown extra keys, integral floats and a document without a coverage section are left open",
               "YAML syntax is judged by PyYAML's safe loader"]


class Raw(str):
    """A YAML literal put into the document as it stands."""


def ser(v):
    if isinstance(v, Raw):
        return str.__str__(v)
    if isinstance(v, dict):
        return "{" + ", ".join(yq(k) + ": " + ser(x) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(ser(x) for x in v) + "]"
    return yq(v) if isinstance(v, str) else json.dumps(v)


def blk(v, ind=0):
    sp = " " * ind
    if isinstance(v, dict) and v:
        out = ""
        for k, x in v.items():
            if isinstance(x, (dict, list)) and x:
                out += sp + k + ":\n" + blk(x, ind + 2)
            else:
                out += sp + k + ": " + ser(x) + "\n"
        return out
    if isinstance(v, list) and v:
        out = ""
        for x in v:
            if isinstance(x, (dict, list)) and x:
                out += sp + "- " + blk(x, ind + 2)[ind + 2:]
            else:
                out += sp + "- " + ser(x) + "\n"
        return out
    return sp + ser(v) + "\n"


def integral(v):
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and abs(v) != float("inf") else False:
        return True
    if isinstance(v, dict):
        return any(integral(x) for x in v.values())
    if isinstance(v, list):
        return any(integral(x) for x in v)
    return False


def judge(text):
    """Reason for rejecting the document, None when the properties do not ask for it."""
    import yaml
    try:
        d = yaml.safe_load(text)
    except yaml.constructor.ConstructorError:
        return None                      # tags outside safe YAML: left open
    except (yaml.YAMLError, ValueError) as e:
        return "not YAML: %s" % type(e).__name__
    if integral(d):
        return None
    r = invalid(d)
    return None if r == "open" else r


def run(ch, text, hows=("loads",), raw=None):
    why = judge(text)
    ch.op()
    ch.outcome = str(why)[:40]
    if why is None:
        return False
    with tempfile.TemporaryDirectory(prefix="c14") as tmp:
        for how in hows:
            try:
                r = read(text, how, tmp)
            except Exception:
                continue
            raise Violation("%s was accepted (%s), result %s" % (why, how, type(r).__name__), text[:4000])
    return True


def bins(*l):
    return [{"name": n, "count": c} for n, c in l]


def base(k):
    if k == "small":
        return {"coverage": {"covergroups": [{"name": "cg", "weight": 2, "instances": [{"name": "i", "coverpoints": [
            {"name": "p", "atleast": 1, "bins": bins(("a", 1)), "ignorebins": bins(("b", 1)), "illegalbins": bins(("c", 0))}],
            "crosses": [{"name": "x", "atleast": 2, "coverpoints": ["p"], "bins": bins(("y", 3))}]}]}]}}
    i = lambda n, c: {"name": n, "coverpoints": [{"name": "p", "atleast": 3, "bins": bins(("a", c), ("b", 0), ("c", 5)), "ignorebins": bins(("a", c), ("d", 1)), "illegalbins": bins(("a", c), ("e", 1))},
                                                 {"name": "q", "bins": bins(("a", 1), ("b", c))}],
                      "crosses": [{"name": "x", "coverpoints": ["p", "q"], "bins": bins(("y", c), ("z", 1))}, {"name": "w", "atleast": 4, "coverpoints": ["q", "p"], "bins": bins(("y", c))}]}
    return {"coverage": {"covergroups": [{"name": "g1", "instances": [i("i", 1), i("j", 7)]}, {"name": "empty"}, {"name": "g2", "weight": 3, "instances": [i("i", 2), {"name": "k"}]}]}}


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            yield from paths(v[k], p + (k,))


def at(d, p):
    for k in p:
        d = d[k]
    return d


VALUES = [None, "", "str", "1", 0, -1, 1.5, True, False, [], {}, ["x"], [None], [1], [[]], [{}], {"name": "x"}, {"name": "x", "count": 1},
          {"name": 1, "count": 1}, {"name": "x", "count": "1"}, {"name": "x", "count": None}, [{"name": "x"}], [{"count": 1}],
          [{"name": "x", "count": 1}], [{"name": "x", "bins": []}], [{"name": "x", "coverpoints": []}], [{"name": "x", "coverpoints": ["nope"]}],
          {"covergroups": []}, {"coverage": {}},
          Raw("~"), Raw("yes"), Raw("2020-01-01"), Raw("2001-12-14t21:59:43.10-05:00"), Raw(".inf"), Raw("-.inf"), Raw(".nan"), Raw("1e3"), Raw("0x1g"), Raw("!!binary aGk="),
          Raw("!!set {a, b}"), Raw("!!omap [a: 1]"), Raw("!!str 5"), Raw("!!float 5.5"), Raw("1:30"), Raw("'5'"), Raw("0o17"), Raw("1_0.5"), Raw("Off")]


SOME = [None, "", 0, 1.5, True, [], {}, [None], [1], {"name": "x"}, [{"name": "x", "coverpoints": ["nope"]}], Raw("2020-01-01")]


def replace(d, p, v):
    if not p:
        return v
    d = copy.deepcopy(d)
    at(d, p[:-1])[p[-1]] = v
    return d


def edits(d):
    """All structural single edits: (label, new document)."""
    for p in paths(d):
        if not p:
            continue
        def mod(f):
            n = copy.deepcopy(d)
            f(at(n, p[:-1]), p[-1])
            return n
        v = at(d, p)
        yield "del", mod(lambda c, k: c.pop(k))
        yield "wrap-list", replace(d, p, [v])
        yield "wrap-map", replace(d, p, {"name": v})
        yield "as-string", replace(d, p, str(v))
        if isinstance(p[-1], str):
            for n in {"name": ["Name", "nam", "count"], "count": ["counts", "Count"], "bins": ["bin", "ignorebins"], "coverpoints": ["coverpoint", "bins"]}.get(p[-1], ["x" + p[-1]]):
                yield "rename", mod(lambda c, k: c.__setitem__(n, c.pop(k)))
            yield "up", (lambda n: (at(n, p[:-2]).update({p[-1]: at(n, p[:-1]).pop(p[-1])}) if len(p) > 1 and isinstance(at(n, p[:-2]), dict) else None, n)[1])(copy.deepcopy(d))
        else:
            yield "dup", mod(lambda c, k: c.insert(k, copy.deepcopy(c[k])))
            for e in (None, "zz", {}, [], 0, {"name": "n"}, {"count": 1}):
                yield "insert", mod(lambda c, k: c.insert(k, e))
                yield "append", mod(lambda c, k: c.insert(k + 1, e))
        if isinstance(v, dict):
            yield "to-list", replace(d, p, list(v.items()) and [{k: x} for k, x in v.items()])
            yield "to-values", replace(d, p, list(v.values()))
        if isinstance(v, list):
            yield "to-map", replace(d, p, {"k%d" % i: x for i, x in enumerate(v)})
            yield "first", replace(d, p, v[0] if v else None)
            yield "named-map", replace(d, p, {x["name"]: {k: y for k, y in x.items() if k != "name"} for x in v} if v and isinstance(v[0], dict) else {})


def sp_values(b, VALUES=VALUES, styles=(ser, blk)):
    d = base(b)
    ps = list(paths(d))

    def f(ch):
        p = ch.all(ps)
        v = ch.all(VALUES)
        style = ch.all(styles)
        text = style(replace(d, p, v))
        ch.state((p, repr(v), style.__name__))
        run(ch, text)
    return f


def sp_edits(b, hows):
    es = [e for e in edits(base(b))]

    def f(ch):
        label, n = ch.all(es)
        style = ch.all([ser, blk])
        text = style(n)
        ch.state(text)
        run(ch, text, hows)
    return f


def sp_pairs(b):
    """Two edits at once: the second on top of every first."""
    firsts = [n for _, n in edits(base(b))]

    def f(ch):
        n = ch.all(firsts)
        es = list(edits(n)) if isinstance(n, dict) else []
        if not es:
            raise Prune()
        _, n2 = ch.all(es)
        text = ser(n2)
        ch.state(text)
        run(ch, text)
    return f


def sp_cut(b):
    texts = {"flow": ser(base(b)), "block": blk(base(b))}

    def f(ch):
        style = ch.all(sorted(texts))
        t = texts[style]
        n = ch.all(range(len(t)))
        mode = ch.all(["cut", "drop", "dup", "tab", "colon", "brace"])
        s = {"cut": t[:n], "drop": t[:n] + t[n + 1:], "dup": t[:n] + t[n] + t[n:], "tab": t[:n] + "\t" + t[n:], "colon": t[:n] + ": " + t[n:], "brace": t[:n] + "]" + t[n:]}[mode]
        ch.state((style, n, mode))
        run(ch, s)
    return f


def sp_members(quick):
    """Full product: which coverpoints two instances have, and what the crosses of either name."""
    def f(ch):
        insts = []
        pool = ["p", "q"]
        for k in range(2):
            have = ch.all([[], ["p"], ["q"], ["p", "q"]])
            t = {"name": "i%d" % k}
            if have:
                t["coverpoints"] = [{"name": n, "bins": bins(("a", 1))} for n in have]
            x = ch.all([None, [], ["p"], ["q"], ["p", "q"], ["q", "p"], ["p", "r"], ["x"], ["p", "p"], ["P"], ["p "], [""]])
            if x is not None:
                t["crosses"] = [{"name": "x", "coverpoints": x}]
                if (k if quick else ch.all([0, 1])):
                    t["crosses"][0]["bins"] = bins(("y", 1))
            insts.append(t)
        gs = [{"name": "g", "instances": insts}]
        w = ch.all(["one", "split", "first-only"])
        if w == "split":
            gs = [{"name": "g", "instances": insts[:1]}, {"name": "h", "instances": insts[1:]}]
        if w == "first-only":
            gs = [{"name": "h", "instances": [{"name": "i", "coverpoints": [{"name": n, "bins": []} for n in ("p", "q", "r", "x")]}]}] + gs
        text = ser({"coverage": {"covergroups": gs}})
        ch.state(text)
        run(ch, text)
    return f


def sp_deep():
    """One broken bin among many, at every index and every kind."""
    def f(ch):
        n = ch.all([1, 2, 3, 10])
        kind = ch.all(["bins", "ignorebins", "illegalbins", "xbins"])
        i = ch.all([0, 1])
        idx = ch.all(range(n))
        bad = ch.all([{"name": "z"}, {"count": 1}, {"name": 5, "count": 1}, {"name": "z", "count": "1"}, {"name": "z", "count": 1.5}, {"name": "z", "count": None},
                      {"name": None, "count": 1}, {"name": "z", "count": True}, {"name": ["z"], "count": 1}, "z", 5, None, [], {}, ["z", 1]])
        bl = lambda: [{"name": "b%d" % j, "count": j} for j in range(n)]
        insts = [{"name": "i%d" % k, "coverpoints": [{"name": "p", "bins": bl(), "ignorebins": bl(), "illegalbins": bl()}], "crosses": [{"name": "x", "coverpoints": ["p"], "bins": bl()}]} for k in range(2)]
        tgt = insts[i]["crosses"][0]["bins"] if kind == "xbins" else insts[i]["coverpoints"][0][kind]
        tgt[idx] = bad
        text = ser({"coverage": {"covergroups": [{"name": "g", "instances": insts}]}})
        ch.state(text)
        if not run(ch, text):
            raise RuntimeError("harness: should be invalid")
    return f


ODD = ["", "~", "null", "[]", "5", "text", "- coverage", "coverage", "coverage:", "coverage: []", "coverage: ~", "coverage: x", "coverage: 5", "coverage: true",
       "coverage: {covergroups: ~}", "coverage: {covergroups: {}}", "coverage: {covergroups: x}", "coverage:\n  covergroups:\n", "coverage: {covergroups: [~]}",
       "- coverage:\n    covergroups: []", "\x00", "\x01", "%YAML", "{", "[", "'", "a: b: c", "*x", "&x", "!!", "? ", "coverage: *x", "\tcoverage: {}", "# only a comment\n",
       "<UCIS/>", "<?xml version='1.0'?><UCIS/>", "---\ncoverage: {covergroups: [{weight: 1}]}\n", "--- 5\n", "coverage: {covergroups: [{name: g, instances: [{name: i, crosses: [{name: x, coverpoints: [p]}]}]}]}",
       "coverage: {covergroups: [{name: g, weight: '1'}]}", "coverage: {covergroups: [{name: g, instances: ~}]}"]


def sp_odd():
    def f(ch):
        t = ch.all(ODD)
        how = ch.all(TRANSPORTS)
        ch.state((t, how))
        run(ch, t, (how,))
    return f


def sp_clean():
    """The unmutated documents are accepted (so a rejection above means something)."""
    def f(ch):
        b = ch.all(["small", "big"])
        style = ch.all([ser, blk])
        how = ch.all(TRANSPORTS)
        ch.state((b, style.__name__, how))
        t = style(base(b))
        if judge(t) is not None:
            raise RuntimeError("harness")
        with tempfile.TemporaryDirectory(prefix="c14") as tmp:
            read(t, how, tmp)
        ch.op()
    return f


def sp_hist(depth):
    """What was read before does not soften the verdict."""
    good, big = base("small"), base("big")
    docs = {"good": ser(good), "big": ser(big), "no-name": ser(replace(good, ("coverage", "covergroups", 0), {"weight": 1})),
            "value": ser(replace(good, ("coverage", "covergroups", 0, "instances", 0, "coverpoints", 0, "bins", 0, "count"), "1")),
            "member": ser(replace(good, ("coverage", "covergroups", 0, "instances", 0, "crosses", 0, "coverpoints"), ["q"])),
            "late": ser(replace(big, ("coverage", "covergroups", 2, "instances", 0, "crosses", 1, "coverpoints"), ["q", "r"])),
            "cut": ser(good)[:-2], "empty": ""}
    n = max(map(len, docs.values()))
    docs = {k: v + "\n" * (n - len(v)) for k, v in docs.items()}

    def f(ch):
        how = ch.all(["reader", "reader-text", "path", "iface-path"])
        seq = [ch.all(sorted(docs)) for _ in range(depth)]
        ch.state((how, tuple(seq)))
        if seq[-1] in ("good", "big"):
            raise Prune()                # accepted documents: C13, C17
        import io
        from ucis.yaml.yaml_reader import YamlReader
        from ucis.rgy.format_rgy import FormatRgy
        rd = YamlReader()
        iface = FormatRgy.inst().getDatabaseDesc("yaml").fmt_if()
        with tempfile.TemporaryDirectory(prefix="c14") as tmp:
            p = os.path.join(tmp, "x.yaml")
            for k, d in enumerate(seq):
                t = docs[d]
                if "path" in how:
                    with open(p, "w", encoding="utf-8") as fp:
                        fp.write(t)
                    os.utime(p, (10 ** 9, 10 ** 9))
                ch.op()
                why = judge(t)
                try:
                    if how == "reader":
                        rd.loads(t)
                    elif how == "reader-text":
                        rd.load(io.StringIO(t))
                    elif how == "path":
                        FormatRgy.inst().getDatabaseDesc("yaml").fmt_if().read(p)
                    else:
                        iface.read(p)
                except Exception as e:
                    if d in ("good", "big"):
                        raise Violation("after %s: valid document rejected (%s): %s" % (seq[:k], how, e))
                    continue
                if why is not None:
                    raise Violation("after %s: %s was accepted (%s)" % (seq[:k], why, how), t.strip()[:3000])
            ch.outcome = seq[-1]
    return f


def spaces(tier):
    q = tier == "quick"
    return [
        Space("odd", sp_odd(), 0, "degenerate documents x transports"),
        Space("clean", sp_clean(), 0, ""),
        Space("values", sp_values("small"), 0, "every node x every value"),
        Space("edits", sp_edits("small", TRANSPORTS), 0, "every structural single edit x every transport"),
        Space("members", sp_members(q), 0, "full product of coverpoints and cross members"),
        Space("deep", sp_deep(), 0, "one broken bin at every index"),
        Space("histories", sp_hist(3 if q else 4), 0, "sequences of good and bad documents through one reader or path"),
        Space("cut", sp_cut("small"), 0, "every truncation and character edit"),
        Space("edits-big", sp_edits("big", ["loads"]), 0, "every structural single edit of a large document"),
        Space("values-big", sp_values("big", SOME, (ser,)) if q else sp_values("big"), 0, "every node x values, large document"),
    ] + ([] if q else [
        Space("cut-big", sp_cut("big"), 0, ""),
        Space("pairs", sp_pairs("small"), 0, "all pairs of structural edits"),
    ])
