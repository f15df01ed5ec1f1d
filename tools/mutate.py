"""mutate.py gen|run: systematic one-place changes of /repo/weac that pass the
stable tests, and which checks report them (a survey of gaps, not a check).
gen DIR: list mutants, keep those that pass the tests -> DIR/alive.json
run DIR N [seed] [prefix]: run the checks of the properties that encode the
function on N of them, cheapest first -> DIR/result.jsonl"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ("eigensystem.py", "mixins.py", "layered.py", "inverse.py", "tools.py", "plot.py")
ORIG = os.environ.get("SURVEY_REPO", "/repo")
BASE = "/opt/vp/BASELINE.json"


def mutants(f):
    src = open(ORIG + "/weac/" + f).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what, fn):
        s, e = span(n)
        out.append({"file": f, "fn": fn, "line": n.lineno, "what": what, "s": s, "e": e, "new": new, "old": txt(n)})

    def rec(n, fn):
        for c in ast.iter_child_nodes(n):
            g = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                g = (fn + "." if fn else "") + c.name
            visit(c, g, n)
            rec(c, g)

    def visit(n, fn, par):
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}.get(type(n.op))
            if o:
                add(n, "(%s)%s(%s)" % (txt(n.left), o, txt(n.right)), "op", fn)
            if isinstance(n.op, (ast.Mult, ast.Div, ast.Pow)):
                add(n, "(%s)" % txt(n.left), "drop-right", fn)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, "(%s)" % txt(n.left), "drop-right", fn)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "(%s)" % txt(n.operand), "neg", fn)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: ("<=", ">"), ast.LtE: ("<", ">"), ast.Gt: (">=", "<"), ast.GtE: (">", "<"), ast.Eq: ("!=",), ast.NotEq: ("==",),
                 ast.In: ("not in",), ast.NotIn: ("in",)}.get(type(n.ops[0]), ())
            for q in o:
                add(n, "%s %s %s" % (txt(n.left), q, txt(n.comparators[0])), "cmp", fn)
        elif isinstance(n, ast.BoolOp):
            q = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % q.join("(%s)" % txt(v) for v in n.values), "bool", fn)
            for v in n.values:
                add(n, "(%s)" % txt(v), "bool1", fn)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            add(n, repr(v + 1) if isinstance(v, int) else repr(v * 1.1), "const", fn)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "const", fn)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    s, e = span(n)
                    ks, ke = span(k)
                    t = b[ks:ke].decode()
                    w = txt(n)
                    for q in (", " + t, t + ", ", t + ",", t):
                        if q in w:
                            add(n, w.replace(q, "", 1), "drop-kw " + k.arg, fn)
                            break
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, c = n.args[:2]
                (s, e), (s1, e1), (s2, e2) = span(n), span(a), span(c)
                add(n, (b[s:s1] + b[s2:e2] + b[e1:s2] + b[s1:e1] + b[e2:e]).decode(), "swap-args", fn)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and len(n.args) == 1:
                t = {"sin": "cos", "cos": "sin", "cumsum": "array", "flipud": "array", "abs": "array", "max": "min", "min": "max"}.get(n.func.attr)
                if t:
                    add(n, "np.%s%s" % (t, txt(n)[len(txt(n.func)):]), "func", fn)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(n, "pass", "del", fn)
        elif isinstance(n, ast.If):
            add(n.test, "not (%s)" % txt(n.test), "if-not", fn)
        elif isinstance(n, ast.List) and len(n.elts) > 1 and all(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in n.elts):
            for v in n.elts:
                add(n, "[%s]" % ", ".join(txt(q) for q in n.elts if q is not v), "drop-elt " + txt(v), fn)
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % txt(n.body), "ifexp", fn)
            add(n, "(%s)" % txt(n.orelse), "ifexp", fn)
    rec(tree, "")
    return out


def apply(m, repo):
    p = os.path.join(repo, "weac", m["file"])
    b = open(ORIG + "/weac/" + m["file"], "rb").read()
    b = b[:m["s"]] + m["new"].encode() + b[m["e"]:]
    try:
        ast.parse(b)
    except SyntaxError:
        return False
    open(p, "wb").write(b)
    return True


def tests(m):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(ORIG, r, ignore=shutil.ignore_patterns(".git"))
        if not apply(m, r):
            return None
        env = dict(os.environ, PYTHONPATH=r, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        x = os.path.join(d, "o.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=40", "--junitxml", x, "tests"],
                       cwd=r, env=env, capture_output=True, timeout=120)
        import xml.etree.ElementTree as E
        ok = set()
        for c in E.parse(x).getroot().iter("testcase"):
            if not len(c):
                ok.add("%s::%s" % (c.get("classname").replace("::", "."), c.get("name")))
        want = json.load(open(BASE))["stable"]
        return all(any(o.endswith(w) or w.endswith(o) for o in ok) for w in want)
    except Exception as e:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(out):
    ms = [m for f in FILES for m in mutants(f)]
    print(len(ms), "mutants", flush=True)
    with cf.ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(tests, ms))
    alive = [m for m, o in zip(ms, ok) if o]
    print(len(alive), "pass the tests;", ok.count(None), "void")
    json.dump(encoded(out), open(os.path.join(out, "encoded.json"), "w"))
    json.dump(alive, open(os.path.join(out, "alive.json"), "w"))


def encoded(out):
    return {"C%02d" % i: json.load(open(os.path.join(HERE, "evidence", "C%02d.json" % i)))["coverage"].get("functions_encoded", []) for i in range(1, 27)}


def props(m, enc):
    costs = json.load(open(os.path.join(HERE, "tools", "costs.json")))
    hit = []
    for i in range(1, 27):
        c = "C%02d" % i
        fs = enc[c]
        t = "weac/%s:%s" % (m["file"], m["fn"])
        if any(f == t or f.startswith(t + ".<locals>") or t.startswith(f.replace(".<locals>", "") + ".") and f.count(".") > 1 for f in fs) \
                and (not m["fn"][:1].isupper() or "." in m["fn"]):
            hit.append(c)
    return sorted(hit, key=lambda c: costs.get(c, 99))


def run(out, n, seed, prefix=""):
    alive = json.load(open(os.path.join(out, "alive.json")))
    f = os.path.join(out, "result.jsonl")
    done = set()
    if os.path.exists(f):
        done = {(r["file"], r["s"], r["e"], r["new"]) for r in map(json.loads, open(f))}
    rnd = random.Random(seed)
    cand = [m for m in alive if (m["file"] + ":" + m["fn"]).startswith(prefix) and (m["file"], m["s"], m["e"], m["new"]) not in done]
    rnd.shuffle(cand)
    enc = json.load(open(os.path.join(out, "encoded.json")))
    d = tempfile.mkdtemp(prefix="mutrun-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree(ORIG, r, ignore=shutil.ignore_patterns(".git"))
    os.environ["VERIF_REPO"] = r
    for m in cand:
        m["props"] = props(m, enc)
    try:
        for m in cand[:n]:
            shutil.copytree(ORIG + "/weac", os.path.join(r, "weac"), dirs_exist_ok=True)
            if not apply(m, r):
                continue
            res, caught = {}, None
            for c in m["props"]:
                try:
                    p = subprocess.run(["python3-vt", "check.py", c], cwd=HERE, capture_output=True, text=True, timeout=600,
                                       env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    res[c] = p.returncode
                except subprocess.TimeoutExpired:
                    res[c] = "timeout"
                if res[c] == 1:
                    caught = c
                    break
            m["res"], m["caught"] = res, caught
            open(f, "a").write(json.dumps(m) + "\n")
            print("%-8s %s:%s:%d %s | %s -> %s | %s" % (caught or "-----", m["file"], m["fn"], m["line"], m["what"], m["old"][:80].replace("\n", " "),
                                                        m["new"][:80].replace("\n", " "), "" if caught else res), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    elif sys.argv[1] == "count":
        for f in FILES:
            print(f, len(mutants(f)))
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 0, sys.argv[5] if len(sys.argv) > 5 else "")
