#!/usr/bin/env python3
"""Mutation campaign (development only): small syntactic changes to the library,
each run against the checks anchored on its file.

   mutate.py OUT.jsonl [--n N] [--seed S] [--files SUBSTR,...] [--jobs J] [--all]

Works on scratch copies under /tmp.  A mutant that still passes the repository's
tests and is caught by no check is a survivor; survivors are read by hand: either
the change keeps the behaviour, or the checks have a hole."""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def anchors():
    d = {}
    for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(l)
        for f in p["anchors"]["files"] if isinstance(p.get("anchors"), dict) else p["files"]:
            d.setdefault(f, []).append(p["id"])
    return d


SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(src):
    """(line, start offset, end offset, replacement)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(line, col):                          # col is in utf-8 bytes
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):                     # demonstration code at the end of the files, docstrings, logging
        if isinstance(n, ast.If) and "__main__" in (seg(src, n.test) or ""):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (seg(src, n) or "").startswith(("logging", "print"))):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            a, b = span(n.left)[1], span(n.right)[0]
            gap = src[a:b]
            op = gap.strip(" ()\\\r\n")
            if op and gap.count(op) == 1:
                yield n.lineno, a, b, gap.replace(op, SWAP[type(n.op)])
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.target)[1], span(n.value)[0]
            yield n.lineno, a, b, "="
            yield n.lineno, a, b, "-=" if isinstance(n.op, ast.Add) else "+="
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for r in CMP[type(n.ops[0])]:
                yield n.lineno, a, b, " " + r + " "
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, b = span(n)
            yield n.lineno, a, b, repr(n.value + 1)
            if n.value:
                yield n.lineno, a, b, "0"
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            yield n.lineno, a, b, repr(not n.value)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            yield n.lineno, a, b, "(" + src[span(n.operand)[0]:b] + ")"
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            yield n.lineno, a, b, "True"
            yield n.lineno, a, b, "False"
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not any(isinstance(x, ast.Starred) for x in n.args):
            for x, y in zip(n.args, n.args[1:]):
                (a, b), (c, d) = span(x), span(y)
                if src[a:b] != src[c:d]:
                    yield n.lineno, a, d, src[c:d] + src[b:c] + src[a:b]
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno:
            a, b = span(n)
            yield n.lineno, a, b, "pass"
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            a, b = span(n)
            yield n.lineno, a, b, src[a:b - 2]
        elif isinstance(n, ast.Return) and n.value is not None and n.lineno == n.end_lineno:
            a, b = span(n.value)
            yield n.lineno, a, b, "None"


def subtle(src):
    """changes that keep ordinary results: rounding, clipping, limits on loops,
    missing copies"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def span(n):
        f = lambda line, col: off[line - 1] + len(lines[line - 1].encode()[:col].decode())
        return f(n.lineno, n.col_offset), f(n.end_lineno, n.end_col_offset)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__main__" in (seg(src, n.test) or ""):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Dict, ast.Tuple, ast.JoinedStr)):
            a, b = span(n.value)
            for k in ("round", "abs", "drop", "cap"):
                yield n.lineno, a, b, "__import__('mtrace').w('%s',%s)" % (k, src[a:b])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            a, b = span(n)
            yield n.lineno, a, b, src[a:span(n.func.value)[1]]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "array" and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
            a, b = span(n)
            yield n.lineno, a, b, "__import__('numpy').asarray(%s)" % n.args[0].id
        if isinstance(n, (ast.For, ast.comprehension)):
            a, b = span(n.iter)
            for k in (12, 40):
                yield n.iter.lineno, a, b, "__import__('mtrace').w('limit%d',%s)" % (k, src[a:b])
        if isinstance(n, ast.Continue):
            a, b = span(n)
            yield n.lineno, a, b, "break"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--all", action="store_true", help="survivors also meet the checks not anchored on their file")
    ap.add_argument("--subtle", action="store_true", help="rounding, clipping, limits on loops, missing copies")
    a = ap.parse_args()
    anc = anchors()
    pool = []
    for f, ps in sorted(anc.items()):
        if a.files and not any(x in f for x in a.files.split(",")):
            continue
        p = os.path.join("/repo", f)
        if not p.endswith(".py"):
            continue
        src = open(p, encoding="utf-8", newline="").read()
        for m in (subtle if a.subtle else mutants)(src):
            pool.append((f, ps) + m)
    rnd = random.Random(a.seed)
    rnd.shuffle(pool)
    seen, take = set(), []
    for m in pool:                               # spread over lines
        k = (m[0], m[2]) + (m[3:] if a.subtle else ())
        if k not in seen:
            seen.add(k)
            take.append(m)
    take = take[:a.n]
    print("%d possible, %d taken" % (len(pool), len(take)), flush=True)
    copies = queue.Queue()
    base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    for j in range(a.jobs):
        d = os.path.join(base, str(j))
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        copies.put(d)
    out = open(a.out, "a")
    ids = sorted({p for ps in anc.values() for p in ps})

    def run(m):
        f, ps, line, x, y, new = m
        d = copies.get()
        try:
            p = os.path.join(d, f)
            src = open(p, encoding="utf-8", newline="").read()
            mut = src[:x] + new + src[y:]
            rec = {"file": f, "line": line, "old": src[x:y][:80], "new": new[:80], "text": mut.splitlines()[line - 1].strip()[:160]}
            try:
                compile(mut, f, "exec")
            except SyntaxError:
                return
            open(p, "w", encoding="utf-8", newline="").write(mut)
            if os.path.exists(d + ".hit"):
                os.remove(d + ".hit")
            try:
                e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(HERE, "tools"))
                r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "tests"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                if "20 passed" not in r.stdout:
                    rec["by"] = "tests"
                else:
                    rec["by"] = None
                    for nth, c in enumerate(ps + ([q for q in ids if q not in ps] if a.all else [])):
                        if nth == 3 and "mtrace" in new and not os.path.exists(d + ".hit"):
                            break
                        ev = tempfile.mkdtemp(prefix="ev", dir=base)
                        e = dict(os.environ, VF_REPO=d, VF_EVIDENCE=ev, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", PYTHONPATH=os.path.join(HERE, "tools"), MTRACE=d + ".hit")
                        try:
                            r = subprocess.run([PY, os.path.join(HERE, "check.py"), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                            rc = r.returncode
                        except subprocess.TimeoutExpired:
                            rc = "timeout"
                        shutil.rmtree(ev, True)
                        if rc == 1:
                            rec["by"] = c
                            break
                        if rc != 0:
                            rec.setdefault("broken", []).append([c, rc])
            finally:
                open(p, "w", encoding="utf-8", newline="").write(src)
            out.write(json.dumps(rec, ensure_ascii=False) + "\n")
            out.flush()
            if rec["by"] is None and "mtrace" in new and not os.path.exists(d + ".hit"):
                print("NO EFFECT %s:%d %s" % (f, line, rec["text"]), flush=True)
            elif rec["by"] is None:
                print("SURVIVOR %s:%d %s" % (f, line, rec["text"]), rec.get("broken", ""), flush=True)
        except Exception as e:
            print("ERROR", f, line, e, flush=True)
        finally:
            copies.put(d)
    try:
        with ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(run, take))
    finally:
        shutil.rmtree(base, True)


if __name__ == "__main__":
    main()
