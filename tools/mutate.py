#!/usr/bin/env python3
"""tools/mutate.py list|run [FILE-PREFIX...]: mutation campaign in scratch copies of /repo.

Every syntactic mutant (one changed place) of src/ucis that passes the stable tests is given to the checks that speak
about its file, until one reports a violation. What survives is either equivalent or a gap, and is looked at by hand.
Results: /tmp/mut/results.jsonl (resumable). Nothing here decides a property."""
import ast, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile

REPO, OUT = "/repo", "/tmp/mut"
PROPS = [
    (r"merge/", "C01 C02 C03"),
    (r"report/text|rpt_text", "C06"),
    (r"rpt_json", "C07"),
    (r"report/", "C05 C04 C07 C06 C21"),
    (r"xml/xml_writer", "C09 C10 C08"),
    (r"xml/xml_reader", "C10 C09 C11 C12"),
    (r"xml/", "C12 C08 C11 C09 C17"),
    (r"yaml/", "C13 C14"),
    (r"mem/mem_history", "C10 C16 C08 C15"),
    (r"mem/", "C15 C09 C16 C03 C11"),
    (r"lib/", "C20"),
    (r"ucis/__init__", "C16 C20"),
    (r"cmd/|__main__|rgy/", "C18 C19 C17"),
    (r"_t\.py|property", "C15 C16 C20 C10"),
    (r"", "C15 C16 C20 C10"),
]
SKIP = re.compile(r"yaml_factory|/ext/|cobertura")


def files():
    r = subprocess.run("git -C %s ls-files src" % REPO, shell=True, capture_output=True, text=True).stdout.split()
    return [f for f in r if f.endswith(".py") and not SKIP.search(f)]


CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.LShift: [">>"]}


def mutants(fn):
    src = open(os.path.join(REPO, fn)).read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    tree = ast.parse(src)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    res = []

    def rep(n, new, what, span=None):
        s, e = span or pos(n)
        out = b[:s] + new.encode() + b[e:]
        res.append((n.lineno, what, out, b[s:e].decode()[:60] + " -> " + new[:60]))

    def src_of(n):
        s, e = pos(n)
        return b[s:e].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]), doc.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation:
                    doc.update(ast.walk(a.annotation))
            if n.returns:
                doc.update(ast.walk(n.returns))
        if isinstance(n, ast.Raise):
            doc.update(x for x in ast.walk(n) if x is not n)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, "(%s) %s (%s)" % (src_of(n.left), o, src_of(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [x for j, x in enumerate(n.values) if j != k]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % src_of(x) for x in rest) + ")", "boolop-drop")
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % src_of(x) for x in n.values) + ")", "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "bool(%s)" % src_of(n.operand), "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                rep(n, "(%s) %s (%s)" % (src_of(n.left), o, src_of(n.right)), "binop")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                if v:
                    rep(n, "0", "const")
            elif isinstance(v, float):
                rep(n, str(v + 1), "const")
            elif isinstance(v, str) and v and not isinstance(getattr(n, "parent", None), ast.JoinedStr):
                rep(n, repr(v + "X"), "str")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                rep(n.test, "True", "cond")
            rep(n.test, "False", "cond")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "del")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            rep(n, "pass", "del")
        elif isinstance(n, ast.AugAssign):
            rep(n, "pass", "del")
            rep(n, "%s = %s" % (src_of(n.target), src_of(n.value)), "aug")
        elif isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            rep(n, "pass", "del")
            if isinstance(n, ast.Break):
                rep(n, "continue", "flow")
            if isinstance(n, ast.Continue):
                rep(n, "break", "flow")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n, "return None", "ret")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                s, _ = pos(n.args[i])
                _, e = pos(n.args[i + 1])
                rep(n, "%s, %s" % (src_of(n.args[i + 1]), src_of(n.args[i])), "swap", (s, e))
    out = []
    seen = set()
    for ln, what, code, desc in res:
        try:
            compile(code, fn, "exec")
        except (SyntaxError, ValueError):
            continue
        if code in seen or code == b:
            continue
        seen.add(code)
        out.append((ln, what, code, desc))
    return out


def props_of(fn):
    for rx, p in PROPS:
        if re.search(rx, fn):
            return p.split()


def one(job):
    fn, ln, what, code, desc = job
    w = tempfile.mkdtemp(prefix="mutw", dir="/tmp")
    os.chmod(w, 0o755)
    r = {"file": fn, "line": ln, "what": what, "desc": desc}
    try:
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (REPO, w), shell=True)
        with open(os.path.join(w, fn), "wb") as f:
            f.write(code)
        env = dict(os.environ, PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "ve/unit"], cwd=w, env=env,
                               capture_output=True, text=True, timeout=120)
            ok = "25 passed" in t.stdout
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            r["result"] = "tests"
            return r
        env = dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "/out", VERIF_JOBS="1", VERIF_BUDGET=os.environ.get("MUT_BUDGET", "30"), TMPDIR=w + "/t")
        os.makedirs(w + "/t", mode=0o777)
        os.chmod(w + "/t", 0o777)
        odd = []
        for p in props_of(fn):
            try:
                c = subprocess.run([OUT + "/verif/check", p], env=env, capture_output=True, text=True, timeout=3000)
            except subprocess.TimeoutExpired:
                odd.append(p + ":timeout")
                continue
            if c.returncode == 1 and "VIOLATION property=%s " % p in c.stdout:
                r["result"] = p
                m = re.search(r"^violated.*\n(.*)", c.stdout, re.M)
                r["how"] = m.group(1)[:200] if m else ""
                return r
            if c.returncode != 0:
                odd.append("%s:rc%d %s" % (p, c.returncode, (c.stdout + c.stderr)[-300:]))
        r["result"] = "odd" if odd else "SURVIVED"
        r["odd"] = odd
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    pre = sys.argv[2:]
    jobs = []
    for fn in files():
        if pre and not any(p in fn for p in pre):
            continue
        for m in mutants(fn):
            jobs.append((fn,) + m)
    if sys.argv[1] == "list":
        import collections
        for f, k in collections.Counter(j[0] for j in jobs).most_common():
            print(k, f)
        print(len(jobs))
        return
    done = set()
    res = os.path.join(OUT, "results.jsonl")
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["desc"]))
    jobs = [j for j in jobs if (j[0], j[1], j[2], j[4]) not in done]
    random.Random(1).shuffle(jobs)
    with multiprocessing.Pool(int(os.environ.get("MUT_PAR", "5"))) as p, open(res, "a") as f:
        for r in p.imap_unordered(one, jobs):
            f.write(json.dumps(r) + "\n")
            f.flush()


main()
