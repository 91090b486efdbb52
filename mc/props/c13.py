"""C13: YAML coverage data is read exactly."""
import os, subprocess, sys, tempfile
from ..core import *
from ..model import *
from ..gen import *
from ..msrc import size
from ..ops import *
from ..xmlref import gen_xml_db, type_points
from ..yamlref import *

ASSUMPTIONS = ["distinct sibling names; instances of one covergroup agree on thresholds and cross members", "non-negative integers", "names of characters YAML can carry",
               "the name of the default design instance is not specified"]
YN = [n for n in NAMES if "\r" not in n]
CNTY = [c for c in COUNTS]


def run(ch, d, note="json", how="loads", text=None):
    import yaml
    text = NOTATIONS[note](d) if text is None else text
    plain = yaml.safe_load(text)
    if note == "merge-keys":
        plain.pop("defs", None)
    if plain != d:
        raise RuntimeError("harness: notation %s changed the data: %r\n%s" % (note, d, text))
    r = invalid(d)
    if r:
        raise RuntimeError("harness: invalid document: %s" % r)
    want = want_groups(d)
    if want is None:
        raise Prune()
    with tempfile.TemporaryDirectory(prefix="c13") as tmp:
        try:
            db = read(text, how, tmp)
        except Exception as e:
            raise Violation("valid document rejected (%s, %s): %s: %s" % (note, how, type(e).__name__, str(e)[:300]), text[:4000])
    got = groups_of(db)
    t = typed(DB((INST("", "", 1, got),)))
    if t:
        raise Violation("values of the wrong type (%s, %s): %s" % (note, how, t))
    if type(got) is tuple and any(type(g.weight) is not int for g in got):
        raise Violation("weight of the wrong type")
    if got != want:
        raise Violation("document misread (%s, %s)" % (note, how), {"difference got/want": diff(got, want), "doc": text[:4000]})
    ch.op(size(DB((INST("", "", 1, want),))) + 1)
    # the report follows
    r = obs_report(build_report(db))
    check_covs(r, want_report(DB((INST("", "", 1, want),))), "report of YAML data")
    ch.outcome = (len(text), r.cov)


def sp_docs(prof, note="json"):
    def f(ch):
        full = ch.pick([True, False])
        m = gen_xml_db(ch, prof)
        d = data_of(m, full)
        if len(m.insts) > 1 or dup(d["coverage"]["covergroups"]):
            raise Prune()
        ch.state(json.dumps(d))
        run(ch, d, note)
    return f


B = Bin


def base(k):
    if k == 0:
        return {"coverage": {"covergroups": [{"name": "cg", "instances": [{"name": "i", "coverpoints": [{"name": "p", "bins": [{"name": "a", "count": 1}]}]}]}]}}
    if k == 1:
        cp = lambda n, c: {"name": n, "atleast": 16, "bins": [{"name": "a", "count": c}, {"name": "b b", "count": 1}], "ignorebins": [{"name": "a", "count": 255}], "illegalbins": [{"name": "é", "count": 0}]}
        i = lambda n, c: {"name": n, "coverpoints": [cp("p", c), cp("q", 1)], "crosses": [{"name": "x", "coverpoints": ["p", "q"], "atleast": 8, "bins": [{"name": "<a,b>", "count": c}]}]}
        return {"coverage": {"covergroups": [{"name": "cg 1", "weight": 10, "instances": [i("i", 1), i("j", 1000)]}, {"name": "empty"}, {"name": "cg2", "instances": []},
                                             {"name": "yes", "weight": 0, "instances": [{"name": "1"}, i("null", 65536)]}]}}
    if k == 2:
        return {"coverage": {"covergroups": []}}
    return {"coverage": {}}


def sp_notations():
    def f(ch):
        k = ch.all([0, 1, 2, 3])
        note = ch.all(sorted(NOTATIONS))
        how = ch.all(TRANSPORTS)
        ch.state((k, note, how))
        run(ch, base(k), note, how)
    return f


def sp_look(every):
    def f(ch):
        d = data_of(look_db(ch, every, [l for l in LEVELS if l not in ("inst", "du")]), ch.all([True, False]))
        ch.state(json.dumps(d))
        run(ch, d)
    return f


def sp_names():
    """Every name in every position, in three notations."""
    def f(ch):
        n = ch.all(YN)
        pos = ch.all(["cg", "inst", "cp", "bin", "ignore", "illegal", "cross", "crbin"])
        note = ch.all(["json", "block-single", "pyyaml-unicode"])
        N = lambda p, d: n if p == pos else d
        i = lambda k, c: {"name": N("inst", "i") if k == 0 else "second", "coverpoints": [
            {"name": N("cp", "p"), "bins": [{"name": N("bin", "a"), "count": c}], "ignorebins": [{"name": N("ignore", "a"), "count": c}], "illegalbins": [{"name": N("illegal", "a"), "count": 2 * c}]}],
            "crosses": [{"name": N("cross", "x"), "coverpoints": [N("cp", "p")], "bins": [{"name": N("crbin", "y"), "count": 3 * c}]}]}
        d = {"coverage": {"covergroups": [{"name": N("cg", "g"), "instances": [i(0, 1), i(1, 10)]}]}}
        ch.state((n, pos, note))
        run(ch, d, note)
    return f


def sp_sum(names):
    """Full product: which bins (by kind) two instances have."""
    def f(ch):
        insts = []
        for k in range(2):
            cp = {"name": "p", "bins": []}
            for kind in ("bins", "ignorebins", "illegalbins"):
                s = ch.all([None, (), ("a",), ("b",), ("a", "b"), ("b", "a")][0 if kind != "bins" else 1:])
                if s is not None:
                    cp[kind] = [{"name": x, "count": (1 + len(insts) * 10) * (1 + j)} for j, x in enumerate(s)]
            insts.append({"name": "i%d" % k, "coverpoints": [cp]})
        d = {"coverage": {"covergroups": [{"name": "g", "instances": insts}]}}
        ch.state(json.dumps(d))
        run(ch, d)
    return f


def sp_cross():
    """Full product: crosses of two instances (presence, members, bins, threshold) next to their coverpoints."""
    def f(ch):
        insts = []
        for k in range(2):
            have = ch.all([("p", "q"), ("q", "p"), ("p",), ()])
            t = {"name": "i%d" % k}
            if have or ch.all([0, 1]):
                t["coverpoints"] = [{"name": n, "bins": [{"name": "a", "count": 1 + k}]} for n in have]
            if len(have) == 2:
                x = ch.all([None, (), ("y",), ("y", "z"), ("z", "y"), "nobins"])
                if x is not None:
                    c = {"name": "x", "coverpoints": ["p", "q"] if ch.all([0, 1]) else ["q", "p"]}
                    if ch.all([0, 1]):
                        c["atleast"] = 2
                    if x != "nobins":
                        c["bins"] = [{"name": b, "count": (k + 1) * 3 + j} for j, b in enumerate(x)]
                    t["crosses"] = [c]
            insts.append(t)
        d = {"coverage": {"covergroups": [{"name": "g", "weight": 3, "instances": insts}]}}
        ch.state(json.dumps(d))
        run(ch, d)
    return f


def sp_width():
    def f(ch):
        dim = ch.all(["n_cg", "n_cp", "n_cr", "n_ci", "n_bin", "n_crb"])
        n = ch.all([3, 10, 11, 32, 100])
        kw = dict(n_inst=1, n_cg=1, n_cp=2, n_cr=1, n_ci=2, n_bin=2, n_crb=2)
        kw[dim] = n
        m = wide_db(**kw)
        ch.state((dim, n))
        run(ch, data_of(m))
    return f


SCRIPT = r'''
import sys
sys.path.insert(0, sys.argv[1])
from mc.yamlref import read, groups_of
text = open(sys.argv[2], encoding="utf-8").read()
open(sys.argv[2] + ".out", "w", encoding="utf-8").write(repr(groups_of(read(text, sys.argv[3], sys.argv[4]))))
'''


def sp_env():
    def f(ch):
        how = ch.all(["file", "db-if", "utf16", "bom", "loads"])
        env = ch.all(["ascii", "utf8"])
        note = ch.all(["json-utf8-indent", "block-plain"])
        ch.state((how, env, note))
        e = dict(os.environ)
        if env == "ascii":
            e.update(PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", LC_ALL="C", LANG="C")
        d = base(1)
        with tempfile.TemporaryDirectory(prefix="c13") as tmp:
            p = os.path.join(tmp, "d.yaml")
            with open(p, "w", encoding="utf-8") as fp:
                fp.write(NOTATIONS[note](d))
            r = subprocess.run([sys.executable, "-c", SCRIPT, VERIF, p, how, tmp], env=e, capture_output=True, cwd=tmp)
            ch.op()
            if r.returncode:
                raise Violation("reading fails in environment %s (%s)" % (env, how), r.stderr.decode("utf-8", "replace")[-2000:])
            with open(p + ".out", encoding="utf-8") as fp:
                got = fp.read()
        if got != repr(want_groups(d)):
            raise Violation("document misread in environment %s (%s)" % (env, how), got[:2000])
    return f


def spaces(tier):
    q = tier == "quick"
    P = dict(inst_w=[1], per_bin_at=False, counts=CNTY, names=YN, cross_kinds=False, ci_w=[2, 0, 1, 3])
    return [
        Space("notations", sp_notations(), 0, "every notation x every transport"),
        Space("documents", sp_docs(Prof(**P)), 1, "all one-deviation documents"),
        Space("three-deviations", sp_docs(tiny(**{k: v for k, v in P.items() if k in ("inst_w", "per_bin_at", "cross_kinds")})), 3 if q else 4, "tiny alphabets"),
        Space("look-alikes", sp_look(not q), 0, "siblings of every level whose names are any ordered pair of look-alikes"),
        Space("names", sp_names(), 0, "every name in every position"),
        Space("sums", sp_sum(("a", "b")), 0, "full product of the bins of two instances") if not q else
        Space("sums", sp_sum(("a", "b")), 0, "full product of the bins of two instances"),
        Space("crosses", sp_cross(), 0, "full product of the crosses of two instances"),
        Space("width", sp_width(), 0, ""),
        Space("environments", sp_env(), 0, ""),
    ] + ([] if q else [Space("documents-2", sp_docs(Prof(**{**P, "names": ["X", "é"], "nsmall": 2, "csmall": 2, "wsmall": 2})), 2, "")])
