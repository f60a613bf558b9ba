"""Tries random small changes of the library and lists those no check sees.

    python3 tools/mutate.py OUT.jsonl [--n 50] [--seed 1] [--files a.py,b.py]
                            [--scale 0.5] [--jobs 8] [--lines FILE]

Each change is made in a scratch copy of /repo (removed at the end) and the
checks that concern its file are run on it until one reports a violation. Not
part of any check: it shows where the checks are weak.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("GWV_BASE", "/repo")
G = "gw_eccentricity/"
CORE = ("C02 C33 C20 C32 C03 C11 C12 C13 C10 C30 C01 C04 C08 C14 C15 C05 C06 C07 C09 "
        "C18 C19 C16 C29 C25 C31")
CHECKS = {
    "eccDefinition.py": CORE,
    "eccDefinitionUsingAmplitude.py": CORE,
    "eccDefinitionUsingAmplitudeFits.py": CORE,
    "eccDefinitionUsingFrequency.py": CORE,
    "eccDefinitionUsingFrequencyFits.py":
        "C20 C02 C01 C05 C06 C13 C12 C08 C10 C18 C31 C09 C29",
    "eccDefinitionUsingResidualAmplitude.py": CORE,
    "eccDefinitionUsingResidualFrequency.py": CORE,
    "gw_eccentricity.py": CORE,
    "utils.py": "C17 C02 C09 C10 C08 C22 C23 " + CORE,
    "rational_fit.py": "C16 C02 C01 C10",
    "spin_filter.py": "C15 C14 C10 C08 C09 C29 C07",
    "load_data.py": "C21 C22 C23 C09 C31",
    "plot_settings.py": "C29",
    "compare_methods.py": "C24",
    "truncate_waveform_by_flow.py": "C25",
    "postprocess/core.py": "C26 C27 C28",
    "postprocess/postprocess.py": "C26 C29 C28 C27",
    "postprocess/postprocess_cli.py": "C28 C27 C26",
    "postprocess/postprocess_for_bilby.py": "C28 C26",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
        ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in",
        ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in", ast.Add: "+", ast.Sub: "-",
       ast.Mult: "*", ast.Div: "/"}
NAMES = {"max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax",
         "floor": "ceil", "ceil": "floor", "amax": "amin", "any": "all",
         "all": "any", "cos": "sin", "sin": "cos", "append": "insert"}
MSG = ("debug_message", "warn", "print", "Exception", "ValueError",
       "KeyError", "debug", "info", "error", "warning", "add_argument",
       "set_xlabel", "set_ylabel", "legend", "set_title", "NotImplementedError",
       "RuntimeError", "TypeError", "exception", "critical", "log")


TWINS = [("pericenter", "apocenter"), ("left", "right"), ("start", "end"),
         ("first", "last"), ("amp_gw", "omega_gw"), ("tmin", "tmax"),
         ("t_zeroecc_shifted", "t_zeroecc"), ("tref", "fref"),
         ("peri", "apo"), ("_zeroecc", ""), ("2", "1")]


def callee(node):
    f = node.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")


class Sites(ast.NodeVisitor):
    """Collects (start, end, replacement) of possible changes."""

    def __init__(self, src):
        self.src = src
        self.off = [0]
        for line in src.splitlines(keepends=True):
            self.off.append(self.off[-1] + len(line.encode()))
        self.raw = src.encode()
        self.out = []
        self.depth = 0

    def pos(self, node):
        return (self.off[node.lineno - 1] + node.col_offset,
                self.off[node.end_lineno - 1] + node.end_col_offset)

    def add(self, a, b, new, kind, line):
        if self.depth:
            self.out.append((a, b, new, kind, line))

    def between(self, left, right, op, new, line):
        a, b = self.pos(left)[1], self.pos(right)[0]
        text = self.raw[a:b].decode()
        if text.count(op) >= 1 and "#" not in text:
            i = text.find(op)
            self.add(a + i, a + i + len(op), new, "op", line)

    def visit_FunctionDef(self, node):
        self.depth += 1
        body = node.body
        if (body and isinstance(body[0], ast.Expr)
                and isinstance(body[0].value, ast.Constant)):
            body = body[1:]
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in body:
            self.visit(s)
        self.depth -= 1

    def visit_Raise(self, node):
        pass

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        n = callee(node)
        if n in MSG:
            return
        if n in NAMES and isinstance(node.func, ast.Attribute):
            b = self.pos(node.func)[1]
            self.add(b - len(n), b, NAMES[n], "name", node.lineno)
        if n in ("abs", "sorted") and len(node.args) == 1:
            a, b = self.pos(node)
            c, d = self.pos(node.args[0])
            self.add(a, b, "(" + self.raw[c:d].decode() + ")", "unwrap",
                     node.lineno)
        if (n in ("copy", "deepcopy", "dict", "list", "array", "asarray")
                and len(node.args) == 1 and not node.keywords):
            a, b = self.pos(node)
            c, d = self.pos(node.args[0])
            self.add(a, b, self.raw[c:d].decode(), "copy", node.lineno)
        elif (n == "copy" and not node.args
              and isinstance(node.func, ast.Attribute)):
            a, b = self.pos(node)
            c, d = self.pos(node.func.value)
            self.add(a, b, self.raw[c:d].decode(), "copy", node.lineno)
        for k in node.keywords:
            if k.arg is None:
                continue
            a, b = self.pos(k)
            while self.raw[b:b + 1].isspace():
                b += 1
            if self.raw[b:b + 1] == b",":
                b += 1
            self.add(a, b, "", "keyword", node.lineno)
        self.generic_visit(node)

    def twin(self, node, text):
        a, b = self.pos(node)
        old = self.raw[a:b].decode()
        for x, y in TWINS:
            for u, v in ((x, y), (y, x)):
                if (u and u in text and old.count(u) == 1
                        and text.replace(u, v) in self.src):
                    self.add(a, b, old.replace(u, v), "twin", node.lineno)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load):
            self.twin(node, node.id)

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Load):
            self.twin(node, node.attr)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice):
            a, b = self.pos(node)
            c, d = self.pos(node.value)
            self.add(a, b, self.raw[c:d].decode(), "slice", node.lineno)
        self.generic_visit(node)

    def visit_Compare(self, node):
        left = node.left
        for op, r in zip(node.ops, node.comparators):
            if type(op) in SWAP:
                self.between(left, r, OPS[type(op)], SWAP[type(op)],
                             node.lineno)
            left = r
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in SWAP and not isinstance(
                node.left, (ast.JoinedStr, ast.Constant)):
            self.between(node.left, node.right, OPS[type(node.op)],
                         SWAP[type(node.op)], node.lineno)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for x, y in zip(node.values, node.values[1:]):
            new = "or" if isinstance(node.op, ast.And) else "and"
            self.between(x, y, "and" if new == "or" else "or", new,
                         node.lineno)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        a, b = self.pos(node)
        c, d = self.pos(node.operand)
        self.add(a, b, "(" + self.raw[c:d].decode() + ")", "unary",
                 node.lineno)
        self.generic_visit(node)

    def visit_Constant(self, node):
        a, b = self.pos(node)
        v = node.value
        if isinstance(v, str) and len(v) < 40:
            self.twin(node, v)
        if v is True or v is False:
            self.add(a, b, str(not v), "bool", node.lineno)
        elif isinstance(v, int):
            self.add(a, b, str(v + 1), "int+", node.lineno)
            if v > 0:
                self.add(a, b, str(v - 1), "int-", node.lineno)
        elif isinstance(v, float):
            self.add(a, b, repr(v * 1.5), "float", node.lineno)

    def visit_If(self, node):
        a, b = self.pos(node.test)
        self.add(a, b, "True", "if", node.lineno)
        self.add(a, b, "False", "if", node.lineno)
        self.generic_visit(node)

    def stmt(self, node):
        a, b = self.pos(node)
        self.add(a, b, "pass", "drop", node.lineno)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.stmt(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and callee(node.value) in MSG:
            return
        self.stmt(node)

    def visit_Assign(self, node):
        t = node.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.stmt(node)
        else:
            self.generic_visit(node)


def mutants(path):
    src = open(path).read()
    s = Sites(src)
    s.visit(ast.parse(src))
    for a, b, new, kind, line in s.out:
        raw = s.raw[:a] + new.encode() + s.raw[b:]
        try:
            ast.parse(raw)
        except SyntaxError:
            continue
        yield raw.decode(), kind, line, s.raw[a:b].decode(), new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=",".join(CHECKS))
    ap.add_argument("--checks")
    ap.add_argument("--kinds")
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--jobs", default="8")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    pool = []
    for f in a.files.split(","):
        pool += [(f,) + m for m in mutants(f"{BASE}/{G}{f}")]
    if a.kinds:
        pool = [m for m in pool if m[2] in a.kinds.split(",")]
    rng.shuffle(pool)
    print(len(pool), "possible changes")
    tmp = tempfile.mkdtemp(prefix="gwv-mut-")
    copy = os.path.join(tmp, "repo")
    env = dict(os.environ, GWV_REPO=copy, GWV_FAILFAST="1")
    try:
        shutil.copytree(BASE, copy, symlinks=True)
        for f, text, kind, line, old, new in pool[:a.n]:
            path = f"{copy}/{G}{f}"
            keep = open(path).read()
            open(path, "w").write(text)
            t0 = time.time()
            rec = dict(file=f, line=line, kind=kind, old=old[:120], new=new,
                       killed=None)
            for c in dict.fromkeys((a.checks or CHECKS[f]).split()):
                p = subprocess.run(
                    [os.path.join(ROOT, "bin/check"), c, "--scale", a.scale,
                     "--jobs", a.jobs], env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
                if p.returncode == 1:
                    rec["killed"] = c
                    break
                if p.returncode != 0:
                    rec["killed"] = c + "?"
                    rec["error"] = p.stdout[-600:]
                    if "could not import" in p.stdout:
                        break
            rec["s"] = round(time.time() - t0, 1)
            open(path, "w").write(keep)
            with open(a.out, "a") as o:
                o.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
