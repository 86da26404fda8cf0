"""Calibration only (no check uses it): random small mutants of /repo/src, run against the checks.

    tools/mutate.py OUTDIR SEED COUNT [--n PLANS] [--files SUBSTR,...]

Writes OUTDIR/log.jsonl; surviving mutants keep OUTDIR/<k>.diff.
"""
import argparse
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

SRC = "/repo/src/wam2layers/"
PY = "/opt/venv/bin/python"
CHECKS = {
    "tracking/core.py": "C16 C03 C02 C01", "tracking/forwardtrack.py": "C16 C05 C04 C02 C01 C19 C17 C13",
    "tracking/backtrack.py": "C16 C05 C04 C02 C01 C19 C17 C13",
    "utils/grid.py": "C16 C02 C19 C03", "tracking/io.py": "C06 C05 C04 C01 C17 C12 C15 C18 C13 C07",
    "tracking/shared.py": "C16 C04 C06 C01", "preprocessing/arco.py": "C11 C12", "preprocessing/cmip.py": "C11 C12 C15",
    "preprocessing/era5.py": "C11 C12 C15 C10", "preprocessing/input_validation.py": "C12 C11",
    "preprocessing/pressure_levels.py": "C11 C12", "preprocessing/shared.py": "C11 C12 C10 C09 C18 C13",
    "preprocessing/utils.py": "C11 C12 C15", "preprocessing/xarray_append.py": "C11 C09 C13 C18",
    "download.py": "C14", "cli.py": "C17 C08 C19 C14 C13 C15", "config.py": "C17 C05 C11 C04 C08 C12 C10",
    "utils/profiling.py": "C19 C16", "utils/calendar.py": "C04 C11 C05 C16", "utils/shapefile_mask.py": "C05",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(src):
    """(start offset, end offset, replacement, what)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def pos(l, c):
        return off[l - 1] + c

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    out = []

    def rep(n, new, what):
        out.append((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, what))

    def between(a, c, new, what):
        s, e = pos(a.end_lineno, a.end_col_offset), pos(c.lineno, c.col_offset)
        gap = b[s:e].decode()
        out.append((s, e, f"{') ' * gap.count(')') if gap.strip().startswith(')') else ' '}{new} {'(' * gap.count('(')}", what))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                between(n.left, n.comparators[0], new, "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for new in BIN[type(n.op)]:
                between(n.left, n.right, new, "binop")
            if isinstance(n.op, (ast.Sub, ast.Div)):
                l, r = seg(src, n.left), seg(src, n.right)
                rep(n, f"(({r}) {'-' if isinstance(n.op, ast.Sub) else '/'} ({l}))", "swap operands")
            rep(n, f"({seg(src, n.left)})", "drop right")
        elif isinstance(n, ast.BoolOp):
            rep(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({seg(src, v)})" for v in n.values) + ")", "boolop")
            rep(n, f"({seg(src, n.values[0])})", "drop condition")
            rep(n, f"({seg(src, n.values[-1])})", "drop condition")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, f"({seg(src, n.operand)})", "drop unary")
        elif isinstance(n, ast.Constant) and n not in doc:
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "bool")
            elif isinstance(v, int):
                rep(n, str(v + 1), "int+1")
                if v:
                    rep(n, str(v - 1), "int-1")
            elif isinstance(v, float):
                rep(n, repr(v * 1.05 + (0.1 if v == 0 else 0)), "float")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, f"not ({seg(src, n.test)})", "negate if")
        elif isinstance(n, ast.IfExp):
            rep(n.test, f"not ({seg(src, n.test)})", "negate ifexp")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and n not in doc:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            rep(n, "pass", "drop statement")
        elif isinstance(n, (ast.Raise,)):
            rep(n, "pass", "drop raise")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Subscript, ast.Attribute)):
            t = seg(src, n.targets[0])
            names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)) or t in names:
                rep(n, "pass", "drop assignment")
        elif isinstance(n, ast.Call):
            if n.keywords:
                k = n.keywords[-1]
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    # drop the keyword
                    prev = (n.keywords[-2] if len(n.keywords) > 1 else n.args[-1])
                    e = pos(k.end_lineno, k.end_col_offset)
                    s = pos(prev.end_lineno, prev.end_col_offset)
                    out.append((s, e, "", "drop keyword"))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, c = n.args[0], n.args[1]
                s = pos(a.lineno, a.col_offset)
                e = pos(c.end_lineno, c.end_col_offset)
                out.append((s, e, f"{seg(src, c)}, {seg(src, a)}", "swap arguments"))
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Call, ast.Subscript, ast.Attribute)) and \
                    n.func.attr in ("load", "squeeze", "fillna", "clip", "copy", "sel", "isel", "sortby", "abs", "transpose",
                                    "rename", "astype", "drop_vars", "expand_dims", "compute", "replace", "absolute", "expanduser"):
                rep(n, seg(src, n.func.value), "drop method call")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "abs", "float", "int", "str", "list", "Path") and n.args:
                rep(n, seg(src, n.args[0]), "drop call")
    ok = []
    for s, e, new, what in out:
        m = b[:s] + new.encode() + b[e:]
        try:
            t2 = ast.parse(m.decode())
        except SyntaxError:
            continue
        if ast.dump(t2) != ast.dump(tree):
            ok.append((m.decode(), what, src.encode()[:s].count(b"\n") + 1))
    return ok


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("seed", type=int); a.add_argument("count", type=int)
    a.add_argument("--n", type=int, default=64); a.add_argument("--files", default="")
    a = a.parse_args()
    os.makedirs(a.out, exist_ok=True)
    r = random.Random(a.seed)
    pool = []
    for f in CHECKS:
        if a.files and not any(x in f for x in a.files.split(",")):
            continue
        src = open(SRC + f).read()
        skip = [i + 1 for i, l in enumerate(src.splitlines()) if "logger." in l or "typer" in l]
        for m, what, line in mutants(src):
            if line not in skip:
                pool.append((f, line, what, m))
    print(len(pool), "mutants in the pool")
    for k, (f, line, what, m) in enumerate(r.sample(pool, min(a.count, len(pool)))):
        d = tempfile.mkdtemp(prefix="wammut.", dir="/tmp")
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/src/wam2layers/{f}", "w").write(m)
        diff = "".join(difflib.unified_diff(open(SRC + f).read().splitlines(True), m.splitlines(True), "a/src/wam2layers/" + f,
                                            "b/src/wam2layers/" + f))
        hit = None
        for p in CHECKS[f].split():
            q = subprocess.run([PY, "-m", "sim.check", "--property", p, "--n", str(a.n), "--no-min"], env=dict(os.environ, WAMSIM_REPO=d),
                               cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True)
            if q.returncode:
                hit = p + ("" if q.returncode == 1 else f" rc {q.returncode}")
                detail = next((l for l in q.stdout.splitlines() if l.startswith("# ")), (q.stdout + q.stderr)[-300:])
                break
        rec = {"k": k, "file": f, "line": line, "what": what, "caught": hit, "detail": (detail if hit else "")[:160]}
        with open(f"{a.out}/log.jsonl", "a") as g:
            g.write(json.dumps(rec) + "\n")
        if hit is None:
            open(f"{a.out}/{k}.diff", "w").write(diff)
        shutil.rmtree(d, ignore_errors=True)


main()
