"""The builtin functions of the version of a program: there while it runs, doing what they should."""

import builtins
import io
import itertools
import os
import sys
import tempfile

import harness
from harness import ALL, PYPY, cfgs, compile_for
from props.pycs import code_for_file, run_file

LEVEL = "model_checking"
RULE = (
    "one run per (version, builtin names), per ordered pair of versions run in one process, and per call of "
    "a function that only older versions have; names, values and exceptions have to be those of the model, "
    "and the builtin module of the host the same afterwards. Distinct: different observation or configuration."
)
BOUNDS = (
    "22 configurations; 66 names each; all ordered pairs of 22 configurations (thorough: triples of 8); about "
    "1500 calls of the functions of 2.x; 30 ways of importing sys x 22 questions about its version"
)
ASSUMPTIONS = ["names of the builtin functions per version as in the library references; those that Python 3.12 lacks "
               "and that the interpreter does not promise are left out"]

COMMON = (
    "abs all any bool callable chr classmethod compile complex delattr dict dir divmod enumerate eval filter float "
    "frozenset getattr globals hasattr hash help hex id input int isinstance issubclass iter len list locals map max "
    "min object oct open ord pow print property range repr reversed round set setattr slice sorted staticmethod str "
    "sum super tuple type vars zip __import__ None True False NotImplemented Ellipsis Exception KeyError OSError IOError"
).split()
ONLY2 = ("apply basestring buffer cmp coerce execfile file intern long raw_input reduce reload unichr unicode xrange "
         "StandardError").split()


def configs(tier):
    return cfgs(ALL, PYPY)


def names_of(v):
    return COMMON + (ONLY2 if v < (3, 0) else ["exec", "ascii", "bytes", "bytearray", "memoryview", "format", "next", "bin"])


def probe(names):
    return "got = []\n" + "".join(f"try:\n    {n}\n    got.append({n!r})\nexcept NameError: pass\n" for n in names) + "log(got)\n"


def probe12(names):
    # (without exception handlers)
    return "log([n for n in %r if n in __builtins__.__dict__])\n" % (names,)


ARGS = {"0": "", "t0": "()", "t1": "(1,)", "t2": "(1, 2)", "l": "[1]", "s": "'ab'", "n": "5", "none": "None"}
KW = {"": "", "d0": "{}", "d1": "{'k': 3}", "d2": "{'k': 3, 'j': 4}", "dn": "None"}
VALUES = ["0", "1", "-1", "2.5", "1.0", "True", "'a'", "'ab'", "''", "(1, 2)", "(1,)", "[1]", "[2]", "3j", "None", "10 ** 30", "E(1)", "E(2)", "L(1)", "L(2)"]
CLASSES = ("class E(object):\n    def __init__(self, v): self.v = v\n    def __eq__(self, o): return isinstance(o, E) and self.v == o.v\n    def __ne__(self, o): return not self == o\n"
           "    def __hash__(self): return 1\nclass L(E):\n    def __lt__(self, o):\n        if not isinstance(o, L): return NotImplemented\n        return self.v < o.v\n    def __gt__(self, o):\n        if not isinstance(o, L): return NotImplemented\n        return self.v > o.v\n    def __repr__(self): return 'L%s' % self.v\n")


def calls():
    """(source of the call, source of what the model says)"""
    for a, k in itertools.product(ARGS, KW):
        if a == "0" and k:
            continue
        args = ", ".join(x for x in ("f", ARGS[a], KW[k]) if x)
        model = "f(" + ", ".join(x for x in (("*" + (ARGS[a] or "()")), ("**" + KW[k]) if k else "") if x) + ")"
        yield f"apply({args})", model
    for x, y in itertools.product(VALUES, repeat=2):
        yield f"cmp({x}, {y})", f"m_cmp({x}, {y})"
        yield f"coerce({x}, {y})", f"m_coerce({x}, {y})"
    for fn in ("lambda p, q: p + q", "lambda p, q: (p, q)", "g2"):
        for seq in ("[]", "[1]", "[1, 2]", "(1, 2, 3)", "'abc'", "iter([1, 2, 3])"):
            yield f"reduce({fn}, {seq})", f"m_reduce({fn}, {seq})"
            yield f"reduce({fn}, {seq}, 10)", f"m_reduce({fn}, {seq}, 10)"
    for n in range(0, 1200, 41):
        yield f"unichr({n})", f"chr({n})"
    for x in VALUES:
        for t in ("basestring", "long", "unicode", "StandardError"):
            m = {"basestring": "str", "long": "int", "unicode": "str", "StandardError": "Exception"}[t]
            yield f"isinstance({x}, {t})", f"isinstance({x}, {m})"
    for s in ("5", "-7", "'12'", "'z'", "2.9", "'ff', 16", "", "10 ** 20"):
        yield f"long({s})", f"int({s})"
    for r in ("3", "1, 4", "5, 0, -2", "0", "1, 2, 0"):
        yield f"list(xrange({r}))", f"list(range({r}))"
        yield f"len(xrange({r}))", f"len(range({r}))"
    for s in ("'a'", "'abc' * 3", "5"):
        yield f"intern({s})", s if s != "5" else "raise_type()"
    for s in ("''", "'x\\n'", "'a b\\nc\\n'"):
        yield f"raw_input()#{s}", f"m_input({s})"
    for e in ("KeyError(1)", "ValueError", "StandardError('x')"):
        yield f"raises({e})", "'caught'"


# files that are run by execfile; where; arguments
EXEC_FILES = {"set": "ex_a = 5\nlog('in', ex_b)\n", "def": "def ex_f(): return ex_b\nlog(ex_f())\n", "raise": "log('r')\nraise KeyError(1)\n",
              "syntax": "log(1\n", "empty": "", "rebind": "ex_b = 7\n", "name": "log(__name__)\n", "noeol": "log(3)"}
EXEC_HOW = {
    "mod": "ex_b = 1\nWRAP execfile(PATH)\nlog('a', GET)\n",
    "glob": "d = {'ex_b': 2, 'log': log}\nWRAP execfile(PATH, d)\nlog(sorted(k for k in d if k != '__builtins__'), d['ex_b'])\n",
    "loc": "d = {'log': log, 'ex_b': 3}\ne = {}\nWRAP execfile(PATH, d, e)\nlog(sorted(k for k in d if k != '__builtins__'), sorted(e))\n",
    "loc2": "d = {'log': log, 'ex_b': 3}\ne = {'ex_b': 4}\nWRAP execfile(PATH, d, e)\nlog(sorted(e), e['ex_b'])\n",
    "funcglob": "def f():\n    d = {'ex_b': 2, 'log': log}\n    WRAP execfile(PATH, d)\n    return sorted(k for k in d if k != '__builtins__')\nlog(f())\n",
    "missing": "WRAP execfile(PATH + 'no')\n",
}


# what a program says about its version: how it gets at sys, where
SYS_IMPORT = {"plain": ("import sys", "sys."), "as": ("import sys as s", "s."), "from": ("from sys import version_info, hexversion, version", ""),
              "star": ("from sys import *", ""), "second": ("import os, sys", "sys."), "twice": ("import sys as a\nimport sys as b", "b.")}
SYS_WHERE = {"mod": "IMP\nUSE\n", "func": "def f():\n IMP\n USE\nf()\n", "class": "class C:\n IMP\n USE\n",
             "outer": "IMP\ndef f():\n USE\nf()\n", "gen": "def g():\n IMP\n USE\n yield 1\nlog(list(g()))\n",
             "nested": "def f():\n IMP\n def g():\n  USE\n g()\nf()\n"}
SYS_LIMITS = [(2, 4), (2, 5), (2, 6), (2, 7), (3,), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9), (3, 10), (3, 11), (3, 12), (3, 13)]


def sys_cases():
    for i, w in itertools.product(SYS_IMPORT, SYS_WHERE):
        if (i == "star" and w != "mod") or (i == "twice" and w not in ("mod", "outer")):
            continue
        yield f"{i}/{w}/major", i, w, "log(PREversion_info[0], PREversion_info[:2])", lambda v: [[str(v[0]), ["T", str(v[0]), str(v[1])]]]
        yield f"{i}/{w}/hex", i, w, "log(PREhexversion >> 16)", lambda v: [str(v[0] << 8 | v[1])]
        yield f"{i}/{w}/str", i, w, "log(PREversion.split()[0].split('.')[:2], PREversion[:3])", lambda v: [
            [["L", repr(str(v[0])), repr(str(v[1]))], repr(("%d.%d.0" % v)[:3])]]
        yield (f"{i}/{w}/fields", i, w, "log(len(PREversion_info), type(PREversion_info[2]).__name__, PREversion_info[3] in "
               "('alpha', 'beta', 'candidate', 'final'), PREversion_info[4] in range(16))",
               lambda v: [["5", "'int'", "True", "True"]])
        yield (f"{i}/{w}/micro", i, w, "log(PREhexversion & 255, (PREhexversion >> 8) & 255 == PREversion_info[2])",
               lambda v: [["240", "True"]])
        for lim in SYS_LIMITS:
            h = (lim + (0, 0))[0] << 24 | (lim + (0, 0))[1] << 16
            yield (f"{i}/{w}/{lim}", i, w, f"log(PREversion_info >= {lim}, PREversion_info[:2] > {lim}, PREhexversion >= {h}, PREhexversion < {h})",
                   lambda v, lim=lim: [[str(v + (99,) >= lim), str(v > lim), str(v >= (lim + (0,))[:2]), str(v < (lim + (0,))[:2])]])


SYS_CASES = {k: rest for k, *rest in sys_cases()}


def cases(cfg, tier):
    v, pypy = cfg
    yield "names", {"kind": "names"}
    for k in SYS_CASES:
        yield f"sys/{k}", {"kind": "sys", "case": k}
    yield "override", {"kind": "override"}
    for o in configs(tier):
        yield f"pair/{harness.cfg_name(o)}", {"kind": "seq", "seq": [o, cfg]}
    if tier != "quick":
        few = [((2, 4), False), ((2, 7), False), ((3, 1), False), ((3, 8), False), ((3, 12), False), ((2, 7), True), ((3, 6), True), ((2, 6), False)]
        for a, b in itertools.product(few, repeat=2):
            yield f"triple/{harness.cfg_name(a)}/{harness.cfg_name(b)}", {"kind": "seq", "seq": [a, b, cfg]}
    if v < (3, 0):
        for src, model in calls():
            yield f"call/{src}", {"kind": "call", "src": src, "model": model}
        for how in EXEC_HOW:
            for f in EXEC_FILES:
                for end in ("", "try"):
                    yield f"execfile/{how}/{f}/{end}", {"kind": "execfile", "how": how, "file": f, "try": end}


def m_cmp(x, y):
    if x == y:
        return 0
    if x < y:
        return -1
    return int(x > y)


def m_coerce(x, y):
    if type(x) not in (bool, int, float, complex) or type(y) not in (bool, int, float, complex):
        raise TypeError
    for t in (complex, float):
        if t in (type(x), type(y)):
            return t(x), t(y)
    return x, y


def m_reduce(f, seq, *init):
    it = iter(seq)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError
    for x in it:
        acc = f(acc, x)
    return acc


def m_input(s):
    if not s:
        raise EOFError
    return s.split("\n")[0]


def raise_type():
    raise TypeError


HOST = set(dir(builtins))


def run(cfg, p):
    kind = p["kind"]
    before = dict(builtins.__dict__)
    if kind in ("names", "seq"):
        want, got = [], []
        for c in p.get("seq", [cfg]):
            v, pypy = tuple(c[0]), c[1]
            names = sorted(set(names_of(v) + ONLY2))
            src = (probe12 if v >= (3, 12) else probe)(names)
            name = "t.pypy38.pyc" if pypy and v == (3, 8) else "t.pyc"
            log, end, out = run_file(code_for_file(src, (v, pypy)), name, keep=True)
            want.append([[["L"] + [repr(n) for n in names if n in names_of(v)]], ["exit", "0"], ""])
            got.append([log, end, out])
        host = dict(builtins.__dict__)
        host.pop("log", None)
        before.pop("log", None)
        return want + [[]], got + [sorted(set(host) ^ set(before)) + [n for n in before if n in host and host[n] is not before[n]]]
    if kind == "override":
        # names that are there already are left alone
        mine = object()
        builtins.cmp = mine
        try:
            src = "log(cmp is mine)\nlog(len(abs(-3) * 'x'))\n"
            builtins.mine = mine
            log, end, out = run_file(code_for_file(src, cfg), "t.pypy38.pyc" if cfg == ((3, 8), True) else "t.pyc", keep=True)
            return [["True", "3"], ["exit", "0"], True], [log, end, getattr(builtins, "cmp", None) is mine]
        finally:
            for n in ("cmp", "mine", "log"):
                builtins.__dict__.pop(n, None)
    if kind == "sys":
        imp, where, use, model = SYS_CASES[p["case"]]
        stm, prefix = SYS_IMPORT[imp]
        src = ""
        for line in SYS_WHERE[where].split("\n"):
            pad = line[:len(line) - len(line.lstrip())]
            src += line.replace("IMP", stm.replace("\n", "\n" + pad)).replace("USE", use.replace("PRE", prefix)) + "\n"
        host = [sys.version_info, sys.hexversion, sys.version, sys.exc_info]
        r = harness.vm_run(src, cfg)
        want = model(tuple(cfg[0])) + ([["L", "1"]] if where == "gen" else [])
        return {"log": want, "end": "ok", "host": True}, {
            "log": r["log"], "end": r["end"], "host": all(x is y for x, y in zip(host, [sys.version_info, sys.hexversion, sys.version, sys.exc_info]))}
    if kind == "execfile":
        return run_execfile(cfg, p)
    src, _, stdin = p["src"].partition("#")
    prog = (CLASSES + "def f(*a, **k): return a, sorted(k.items())\ndef g2(p, q): return 'g'\n"
            "def raises(e):\n    try: raise e\n    except StandardError: return 'caught'\n"
            f"try:\n    r = {src}\n    log(repr(r), type(r).__name__)\nexcept (TypeError, ValueError, EOFError):\n    import sys\n    log(sys.exc_info()[0].__name__)\n")
    env = {"m_cmp": m_cmp, "m_coerce": m_coerce, "m_reduce": m_reduce, "m_input": m_input, "raise_type": raise_type}
    exec(CLASSES + "def f(*a, **k): return a, sorted(k.items())\ndef g2(p, q): return 'g'\n", env)
    try:
        r = eval(p["model"], env)
        want = [[repr(repr(r)), repr(type(r).__name__)]]
    except Exception as e:
        want = [repr(type(e).__name__)]
    old = sys.stdin
    sys.stdin = io.StringIO(eval(stdin) if stdin else "")
    try:
        log, end, out = run_file(code_for_file(prog, cfg))
    finally:
        sys.stdin = old
    return {"log": want, "end": ["exit", "0"], "out": ""}, {"log": log, "end": end, "out": out}


def m_execfile(path, d, e=None):
    with open(path) as f:
        s = f.read()
    exec(compile(s, path, "exec"), d, *([] if e is None else [e]))


def run_execfile(cfg, p):
    fd, path = tempfile.mkstemp(prefix="mcexf", suffix=".py")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(EXEC_FILES[p["file"]])
        lines = []
        for line in EXEC_HOW[p["how"]].splitlines():
            if "WRAP " in line:
                pad = line[:len(line) - len(line.lstrip())]
                call = line.strip()[5:].replace("PATH", repr(path))
                if p["try"]:
                    lines += [pad + "try:", pad + "    " + call, pad + "except Exception:", pad + "    log('exc')"]
                else:
                    lines.append(pad + call)
            else:
                lines.append(line.replace("GET", "ex_b, globals().get('ex_a')"))
        src = "\n".join(lines) + "\n"
        r = native(src)
        log, end, out = run_file(code_for_file(src, cfg))
        return {"log": r[0], "end": r[1]}, {"log": log, "end": end}
    finally:
        os.unlink(path)


def native(src):
    log = harness.Log()
    env = {"__name__": "__main__", "log": log}

    def execfile(path, d=None, e=None):
        # (only used at module level without namespaces)
        m_execfile(path, env if d is None else d, e)

    env["execfile"] = execfile
    try:
        exec(compile(src, "prog.py", "exec"), env)
        return log.items, ["exit", "0"]
    except Exception:
        return log.items, ["exit", "1"]


def stats(p, want):
    n = len(p.get("seq", [0]))
    return {"states": n + 1, "transitions": n, "traces": 1}


def nontrivial(want):
    return True
