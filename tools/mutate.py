"""Mutation analysis of the checks (development tool, no check uses it).

    tools/mutate.py FILE WORKDIR --checks C01,C02,... [--jobs 4] [--scale 0.4] [--sample N] [--seed S]

Makes one-place changes of /repo/bfit/FILE in scratch copies under WORKDIR, runs the given checks against every
one until one of them reports a violation, and writes the changes which no check noticed to WORKDIR/FILE.log.
"""
import argparse
import ast
import concurrent.futures as cf
import os
import random
import re
import shutil
import subprocess
import sys

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"],
       ast.Mod: ["//"]}
CALLS = {"min": "max", "max": "min", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin",
         "abs": "positive", "nanmin": "nanmax", "nanargmin": "nanargmax", "zeros": "ones", "ones": "zeros",
         "hstack": "concatenate", "append": "insert", "isfinite": "isnan", "logical_and": "logical_or",
         "logical_or": "logical_and", "cos": "sin", "sin": "cos", "insert": "delete", "floor": "ceil",
         "ceil": "floor", "sort": "array", "sum": "max"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for line in src.splitlines(True):
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = src.encode()
        self.out = []
        self.skip = 0

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, a, b, new, kind):
        self.out.append((a, b, new, kind))

    def sub(self, n, new, kind):
        a, b = self.span(n)
        self.put(a, b, new, kind)

    def visit_Raise(self, n):
        self.sub(n, "pass", "no raise")

    def visit_JoinedStr(self, n):
        return

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.sub(n, "pass", "no call")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.sub(n, "pass", "no update")
        op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if op:
            self.sub(n, f"{self.text(n.target)} {op} {self.text(n.value)}", "update op")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            if not (isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name)):
                self.sub(n, "pass", "no assignment")
        self.generic_visit(n)

    def visit_If(self, n):
        self.sub(n.test, f"not ({self.text(n.test)})", "negated if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.sub(n.test, f"not ({self.text(n.test)})", "negated ifexp")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Break(self, n):
        self.sub(n, "pass", "no break")

    def visit_Continue(self, n):
        self.sub(n, "pass", "no continue")

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            a = self.span(left)[1]
            b = self.span(right)[0]
            mid = self.raw[a:b].decode()
            for new in CMP[type(op)]:
                m = re.sub(r"(is not|not in|<=|>=|==|!=|<|>|\bis\b|\bin\b)", new, mid, count=1)
                self.put(a, b, m, "compare")
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.span(n.left)[1], self.span(n.right)[0]
        mid = self.raw[a:b].decode()
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for new in BIN.get(type(n.op), []):
                m = re.sub(r"(\*\*|//|[-+*/%])", new, mid, count=1)
                if m != mid:
                    self.put(a, b, m, "binop")
            self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.sub(n, f"({self.text(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for x, y in zip(n.values, n.values[1:]):
            a, b = self.span(x)[1], self.span(y)[0]
            mid = self.raw[a:b].decode()
            self.put(a, b, mid.replace("and", "OR").replace("or", "and").replace("OR", "or"), "boolop")
        for x in n.values:
            self.sub(x, "False" if isinstance(n.op, ast.Or) else "True", "dropped operand")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.sub(n, str(not v), "bool")
        elif isinstance(v, int):
            self.sub(n, f"{v + 1}", "int+1")
            if v:
                self.sub(n, f"{v - 1}", "int-1")
        elif isinstance(v, float):
            self.sub(n, f"{v * 2.5!r}" if v else "0.125", "float")
            if v:
                self.sub(n, f"{v / 1e3!r}", "float small")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in CALLS:
                a = self.span(f)[1] - len(f.attr)
                self.put(a, a + len(f.attr), CALLS[f.attr], "callee")
            if f.attr in ("copy", "ravel", "flatten") and not n.args:
                self.sub(n, f"({self.text(f.value)})", "no " + f.attr)
            if f.attr in ("abs", "array", "sort", "maximum", "nan_to_num", "atleast_1d", "unique", "asarray"):
                if n.args:
                    self.sub(n, f"({self.text(n.args[0])})", "no " + f.attr)
        elif isinstance(f, ast.Name) and f.id in ("abs", "sorted", "list", "float", "int", "tuple", "max", "min"):
            if n.args:
                self.sub(n, f"({self.text(n.args[0])})", "no " + f.id)
        for k in n.keywords:
            if k.arg:
                a, b = self.span(k)
                rest = self.raw[b:]
                m = re.match(rb"\s*,\s*", rest)
                if m:
                    b += m.end()
                else:
                    m = re.search(rb",\s*$", self.raw[:a])
                    if m:
                        a = m.start()
                self.put(a, b, "", "no keyword")
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            self.visit(s)


def mutants(src):
    g = Gen(src)
    g.visit(ast.parse(src))
    seen = set()
    for a, b, new, kind in g.out:
        s = (g.raw[:a] + new.encode() + g.raw[b:]).decode()
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, "m", "exec")
        except (SyntaxError, ValueError):
            continue
        line = g.raw[:a].count(b"\n") + 1
        yield line, kind, g.raw[a:b].decode(), new, s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("work")
    ap.add_argument("--checks", required=True)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--scale", default="0.4")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default="")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = open(f"/repo/bfit/{args.file}", encoding="utf8").read()
    ms = list(mutants(src))
    if args.lines:
        lo, hi = map(int, args.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if args.sample and args.sample < len(ms):
        ms = random.Random(args.seed).sample(ms, args.sample)
        ms.sort(key=lambda m: m[0])
    print(len(ms), "changes", flush=True)
    if args.list:
        return
    os.makedirs(args.work, exist_ok=True)
    log = open(f"{args.work}/{args.file}.log", "a", encoding="utf8")
    free = list(range(args.jobs))

    def one(m):
        line, kind, old, new, text = m
        slot = free.pop()
        d = f"{args.work}/{args.file}.{slot}"
        try:
            if not os.path.isdir(d):
                shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
            with open(f"{d}/bfit/{args.file}", "w", encoding="utf8") as f:
                f.write(text)
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
            for c in args.checks.split(","):
                try:
                    p = subprocess.run(["./check", c, "--scale", args.scale, "--nwork", "2"], cwd=verif, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    return "timeout " + c
                if rc == 1 and "VIOLATION" in out:
                    return "caught " + c
                if rc != 0:
                    return f"rc{rc} {c} {out[-150:]!r}"
            return "SURVIVED"
        finally:
            free.append(slot)

    with cf.ThreadPoolExecutor(args.jobs) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            log.write(f"{r} | line {m[0]} {m[1]}: {m[2]!r} -> {m[3]!r}\n")
            log.flush()
    for k in range(args.jobs):
        shutil.rmtree(f"{args.work}/{args.file}.{k}", ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
