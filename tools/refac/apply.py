"""apply.py TARGET_REPO FILE...: replace functions of a copy of the repository by the
behaviour-preserving rewrites in FILE (python source; '# @ file Class' headers)."""
import ast
import re
import sys
import textwrap


def replace(path, cls, name, new, rename=None):
    src = open(path).read()
    tree = ast.parse(src)
    body = tree.body
    if cls:
        body = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls][0].body
    fs = [n for n in body if isinstance(n, ast.FunctionDef) and n.name == name]
    lines = src.split("\n")
    new = textwrap.indent(new.rstrip("\n"), "    " if cls else "")
    if fs:
        n = fs[0]
        start = min([d.lineno for d in n.decorator_list] + [n.lineno]) - 1
        lines[start:n.end_lineno] = new.split("\n")
    else:                               # a new helper
        at = body[-1].end_lineno if cls else [n.lineno - 1 for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef))][0]
        lines[at:at] = ["", ""] + new.split("\n") + [""]
    open(path, "w").write("\n".join(lines))
    ast.parse("\n".join(lines))


def main(repo, files):
    for f in files:
        cur = None
        for part in re.split(r"^(# @ .*|# -- .*)$", open(f).read(), flags=re.M):
            if part.startswith("# @ "):
                cur = part[4:].split()
            elif cur and part.strip() and not part.startswith("# -- "):
                path = "%s/weac/%s" % (repo, cur[0])
                t = ast.parse(part)
                ls = part.split("\n")
                for n in t.body:
                    if isinstance(n, ast.FunctionDef):
                        s = min([d.lineno for d in n.decorator_list] + [n.lineno]) - 1
                        replace(path, cur[1] if len(cur) > 1 else None, n.name, "\n".join(ls[s:n.end_lineno]))
                    else:
                        src = open(path).read()
                        code = "\n".join(ls[n.lineno - 1:n.end_lineno])
                        if isinstance(n, (ast.Import, ast.ImportFrom)):
                            # after the last import
                            tr = ast.parse(src)
                            at = [m.end_lineno for m in tr.body if isinstance(m, (ast.Import, ast.ImportFrom))][-1]
                            sl = src.split("\n")
                            sl[at:at] = [code]
                            open(path, "w").write("\n".join(sl))
                        else:
                            tr = ast.parse(src)
                            at = [m.end_lineno for m in tr.body if isinstance(m, (ast.Import, ast.ImportFrom))][-1]
                            sl = src.split("\n")
                            sl[at:at] = ["", code, ""]
                            open(path, "w").write("\n".join(sl))


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
