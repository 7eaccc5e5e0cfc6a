#!/usr/bin/env python3
"""Random small mutations of the anchored files, run against the checks which anchor them.

  mutate.py OUT.jsonl [-n PER_FILE] [-s SEED] [-w WORKERS] [FILE-SUBSTRING ...]

Each mutant is made in a scratch clone of /repo (never /repo itself). A mutant which no check
catches is run through the repository's tests; those which pass are the survivors to look at."""
import argparse
import ast
import collections
import json
import multiprocessing
import os
import random
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//",
       ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<"}


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.encode()
        self.starts = [0]
        for line in self.src.split(b"\n"):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.out = []

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def seg(self, n):
        a, b = self.span(n)
        return self.src[a:b].decode()

    def put(self, n, text):
        a, b = self.span(n)
        old = self.src[a:b].decode()
        if old != text:
            self.out.append((a, b, old, text, n.lineno))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "createDescription", "__str__"):
            return
        self.generic_visit(n)

    def visit_Dict(self, n):
        if len(n.keys) > 6:
            return
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.put(n, "%s %s %s" % (self.seg(n.left), CMP[type(n.ops[0])], self.seg(n.comparators[0])))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(%s)" % self.seg(v) for v in n.values) + ")")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return self.generic_visit(n)
        if type(n.op) in BIN:
            self.put(n, "(%s %s %s)" % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, "bool(%s)" % self.seg(n.operand))
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value))
        elif isinstance(n.value, int):
            self.put(n, str(n.value + random.choice((1, -1)) if n.value else 1))

    def stmt(self, n):
        self.put(n, "pass")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.generic_visit(n)
        self.stmt(n)

    def visit_Assign(self, n):
        if n.col_offset and not isinstance(n.value, (ast.Dict,)):
            self.put(n, "pass") if n.col_offset > 4 else None
        self.generic_visit(n)

    visit_AugAssign = visit_Break = visit_Continue = visit_Raise = stmt

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n, "return None")
        self.generic_visit(n)


def work(a):
    clone, fn, checks, m, jobs = a
    start, end, old, new, line = m
    clone += "-%d" % (multiprocessing.current_process()._identity[0])
    if not os.path.isdir(clone):
        sh(["git", "clone", "-q", "/repo", clone], check=True)
    sh(["git", "-C", clone, "checkout", "-q", "--", "."], check=True)
    sh(["git", "-C", clone, "pull", "-q"], check=True)
    path = os.path.join(clone, fn)
    src = open(path, "rb").read()
    src = src[:start] + new.encode() + src[end:]
    open(path, "wb").write(src)
    res = dict(file=fn, line=line, old=old[:200], new=new[:200], checks=checks)
    try:
        compile(src, fn, "exec")
    except SyntaxError:
        return dict(res, status="syntax")
    env = dict(os.environ, VERIF_REPO=clone, VERIF_NOSHRINK="1", PYTHONDONTWRITEBYTECODE="1")
    if sh(["python3", "-c", "import hachoir.parser, hachoir.metadata, hachoir.editor, hachoir.strip, hachoir.subfile.main"],
          cwd=clone, env=env).returncode:
        return dict(res, status="import")
    for c in checks:
        try:
            r = sh([os.path.join(ROOT, "run"), c, "--no-evidence", "--jobs", str(jobs)], env=env, timeout=600)
        except subprocess.TimeoutExpired:
            return dict(res, status="timeout", by=c)
        if r.returncode:
            return dict(res, status="caught" if r.returncode == 1 else "error", by=c, msg=r.stdout[:200])
    t = open("/opt/vp/test.sh").read().replace("/repo", clone)
    out = clone + ".json"
    try:
        sh(["bash", "-c", t, "test.sh", out], timeout=300)
        got = json.load(open(out))
        bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(got.get("passed", got))
    except Exception:
        bad = True
    return dict(res, status="tests" if bad else "SURVIVED")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=5)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-w", type=int, default=3)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("files", nargs="*")
    a = ap.parse_intermixed_args()
    random.seed(a.s)
    m = collections.defaultdict(list)
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        for f in p["anchors"]["files"]:
            m[f].append(p["id"])
    tasks = []
    for fn in sorted(m):
        if a.files and not any(x in fn for x in a.files):
            continue
        src = open("/repo/" + fn).read()
        f = Finder(src)
        f.visit(ast.parse(src))
        for mut in random.sample(f.out, min(a.n, len(f.out))):
            tasks.append(("/tmp/mutclone", fn, m[fn], mut, a.j))
    random.shuffle(tasks)
    print(len(tasks), "mutants", flush=True)
    n = collections.Counter()
    with open(a.out, "a") as out, multiprocessing.Pool(a.w) as pool:
        for r in pool.imap_unordered(work, tasks):
            n[r["status"]] += 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(dict(n))


if __name__ == "__main__":
    main()
