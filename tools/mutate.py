#!/usr/bin/env python3
"""Where the checks have gaps: small changes of the interpreter, one at a time, each
screened with a sample of the cases of all properties. For finding gaps only; no
check uses this.

  mutate.py pool                writes the sample of cases to DIR/pool.pkl
  mutate.py run FILES...        screens all mutants of those files; writes DIR/survivors.txt
"""

import ast
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.environ.get("MUT_DIR", "/tmp/mut")
SRC = os.environ.get("MUT_SRC", "/repo")
PY = sys.executable


def pool(per=14):
    sys.path.insert(0, f"{VERIF}/mc")
    from props import INDEX

    random.seed(5)
    out = []
    jobs = []
    for pid, name in INDEX.items():
        mod = importlib.import_module("props." + name)
        for cfg in mod.configs("quick"):
            jobs.append((pid, name, cfg))
    import multiprocessing as mp

    with mp.Pool(8, maxtasksperchild=1) as p:
        for r in p.imap_unordered(pool_one, [(j, per) for j in jobs], chunksize=1):
            out += r
    random.shuffle(out)
    os.makedirs(DIR, exist_ok=True)
    pickle.dump(out, open(f"{DIR}/pool.pkl", "wb"))
    print(len(out), "cases")


def pool_one(arg):
    (pid, name, cfg), per = arg
    mod = importlib.import_module("props." + name)
    cases = list(mod.cases(cfg, "quick"))
    n = per * {"V20": 12, "V10": 2, "V09": 2, "V13": 3, "V25": 1}.get(pid, 1)
    if pid in ("V14", "V16", "V17", "V21"):
        n = max(3, per // 3)
    rnd = random.Random(f"{pid}{cfg}")
    # every family of cases
    fam = {}
    for c in cases:
        fam.setdefault(c[0].split("/")[0], []).append(c)
    pick = [rnd.choice(v) for v in fam.values()]
    pick += rnd.sample(cases, min(n, len(cases)))
    res = []
    for key, payload in pick:
        if len(str(payload)) > 20000 or "65540" in key or "/7000" in key:
            continue
        t = time.time()
        try:
            w, g = mod.run(cfg, payload)
        except BaseException:
            continue
        if w == g and time.time() - t < 0.6:
            res.append((pid, name, cfg, key, payload))
    return res


class Hung(Exception):
    pass


def prune():
    """Leaves out the cases that fail when all run in one process."""
    bad = screen(True)
    cases = pickle.load(open(f"{DIR}/pool.pkl", "rb"))
    pickle.dump([c for i, c in enumerate(cases) if i not in bad], open(f"{DIR}/pool.pkl", "wb"))
    print("pruned", len(bad))


def screen(every=False):
    """Runs the pool; prints the first case that fails."""
    sys.path.insert(0, f"{VERIF}/mc")
    cases = pickle.load(open(f"{DIR}/pool.pkl", "rb"))

    def alarm(*_):
        raise Hung

    signal.signal(signal.SIGALRM, alarm)
    bad = []
    for i, (pid, name, cfg, key, payload) in enumerate(cases):
        signal.alarm(10)
        try:
            mod = importlib.import_module("props." + name)
            w, g = mod.run(cfg, payload)
        except BaseException as e:
            w, g = 0, repr(e)[:100]
        signal.alarm(0)
        if w != g and every:
            bad.append(i)
        elif w != g:
            print("KILLED", pid, cfg, key[:80], flush=True)
            os._exit(1)
    if every:
        return bad
    print("SURVIVED", flush=True)
    os._exit(0)


# ------------------------------------------------------------- mutants

LOGS = ("log", "print", "logging", "warning", "debug", "info")


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for x in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(x) + 1)
    data = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (data[:a] + new.encode() + data[b:]).decode()))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and (
            isinstance(n.func, ast.Attribute) and n.func.attr in LOGS and isinstance(n.func.value, ast.Name) and n.func.value.id in ("log", "logging", "LOG")
            or isinstance(n.func, ast.Name) and n.func.id == "print"
        ):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.FunctionDef):
            if n.name.startswith("__repr__") or n.name.startswith("fmt_"):
                for c in ast.walk(n):
                    skip.add(id(c))
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for c in ast.walk(a.annotation):
                        skip.add(id(c))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            for c in ast.walk(n):
                skip.add(id(c))
        if isinstance(n, ast.Assert):
            for c in ast.walk(n):
                skip.add(id(c))
    flip = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
            ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f"{text(n.left)} {flip[type(n.ops[0])]} {text(n.comparators[0])}", "compare")
        elif isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + word.join(f"({text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                old = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + old.join(f"({v})" for v in rest) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, text(n.operand), "drop not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), "int+1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), "flip bool")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "True", "if true")
            put(n.test, "False", "if false")
        elif isinstance(n, ast.IfExp):
            put(n, f"({text(n.body)})", "ifexp body")
            put(n, f"({text(n.orelse)})", "ifexp else")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "delete call")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 0:
            put(n, "pass", "delete assign")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, "return None", "return none")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, f"{text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)}", "add/sub")
        elif isinstance(n, ast.Break):
            put(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            put(n, "break", "continue")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "delete raise")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args
            put(n, f"{text(n.func)}({text(b)}, {text(a)})", "swap args")
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Store) and len(n.elts) >= 2:
            e = [text(x) for x in n.elts]
            e[0], e[1] = e[1], e[0]
            put(n, ", ".join(e), "swap targets")
        elif isinstance(n, ast.Delete):
            put(n, "pass", "delete del")
        elif isinstance(n, ast.keyword) and n.arg:
            pass
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name):
            put(n.type, "ZeroDivisionError", "other handler")
    res = []
    for line, what, new in out:
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != src:
            res.append((line, what, new))
    return res


def one(arg):
    w, path, line, what, new = arg
    copy = f"{DIR}/w{os.getpid()}"
    if not os.path.exists(copy):
        shutil.copytree(SRC, copy, ignore=shutil.ignore_patterns(".git", "test", "__pycache__"))
    file = f"{copy}/{path}"
    old = open(file).read()
    open(file, "w").write(new)
    env = dict(os.environ, XPY_REPO=copy, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([PY, os.path.abspath(__file__), "screen"], env=env, capture_output=True, text=True, timeout=240,
                           cwd="/")
        last = (r.stdout.strip().split("\n") or [""])[-1]
        if not last.startswith(("KILLED", "SURVIVED")):
            last = "KILLED crash"
    except subprocess.TimeoutExpired:
        last = "KILLED timeout"
    finally:
        open(file, "w").write(old)
    return path, line, what, last


def run(files):
    import multiprocessing as mp

    jobs = []
    for f in files:
        for i, (line, what, new) in enumerate(mutants(f"{SRC}/{f}")):
            jobs.append((i, f, line, what, new))
    random.seed(1)
    random.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    n = [0, 0]
    with mp.Pool(int(os.environ.get("MUT_J", "8"))) as p, open(f"{DIR}/survivors.txt", "a") as f:
        for path, line, what, last in p.imap_unordered(one, jobs, chunksize=1):
            n[0] += 1
            if last.startswith("SURVIVED"):
                n[1] += 1
                f.write(f"{path}:{line} {what}\n")
                f.flush()
            if n[0] % 50 == 0:
                print(n, flush=True)
    print("done", n)


if __name__ == "__main__":
    sys.path.insert(0, f"{VERIF}/mc")
    {"pool": lambda: pool(), "screen": screen, "prune": prune, "run": lambda: run(sys.argv[2:])}[sys.argv[1]]()
