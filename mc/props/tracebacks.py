"""What the interpreter reports of an exception that nothing handled."""

import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import traceback

import harness
from gen import ind
from harness import ALL, PYPY, Log, base_env, cfgs, compile_for, new_vm

LEVEL = "model_checking"
RULE = (
    "one run per way to an uncaught exception: what raises it, where in the function's statements, through which "
    "kinds of calls, and what ran before; the report on sys.stderr has to have the header, file, line and function "
    "of every frame on the way and no other, the text of those lines, and the type and message of the exception. "
    "Distinct: different report or configuration."
)
BOUNDS = (
    "43 statements that raise x 19 places; 33 kinds of calls x 19 places, and all chains of 2 kinds (thorough: "
    "of 3), each with the source file at hand or not; all nestings of 2 places (thorough: 3); 34 exceptions; "
    "pairs of programs on one interpreter; with and without tracing"
)
ASSUMPTIONS = [
    "CPython 3.12's traceback of the same source is the reference; statements are on one line each, and before 3.12 "
    "a comprehension has a frame of its own",
    "messages are compared where the program gives them, for other exceptions the type only",
    "the exceptions that the reported one replaced are not part of the report",
]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


# ------------------------------------------------------------- programs

PRE = """class M(object):
 def __enter__(self): return self
 def __exit__(self, *a): return False
class N(object): pass
def boom(x=0): raise ValueError('boom')
def quiet():
 try:
  raise KeyError('quiet')
 except KeyError:
  return 1
def d(): boom()
class L(object):
 def __iter__(self): return self
 def __next__(self): raise ValueError('next')
 next = __next__
class L2(object):
 n = 0
 def __iter__(self): return self
 def __next__(self):
  self.n = self.n + 1
  if self.n > 2: raise ValueError('third')
  return self.n
 next = __next__
class T(object):
 def __bool__(self): raise ValueError('bool')
 __nonzero__ = __bool__
class T2(object):
 n = 0
 def __bool__(self):
  self.n = self.n + 1
  if self.n > 2: raise ValueError('third')
  return True
 __nonzero__ = __bool__
class MX(M):
 def __exit__(self, *a): raise ValueError('exit')
"""

PIECES = re.findall(r"(?:class|def) (\w+)((?:.*\n)(?:[ ].*\n)*(?:\w+ = .*\n)*)", PRE)
NEEDS = {"d": ["boom"], "MX": ["M"]}


def with_pre(src):
    """The program, with those of the above definitions that it uses."""
    used = set(re.findall(r"\w+", src))
    for a, more in NEEDS.items():
        if a in used:
            used.update(more)
    return "".join(
        ("class " if name[0].isupper() else "def ") + name + text for name, text in PIECES if name in used
    ) + src


# what raises: one line each ("\n" for what follows)
LEAVES = {
    "raise": "raise ValueError('v')", "raisecls": "raise ValueError", "call": "boom()", "call2": "d()", "name": "nosuch",
    "attr": "N.nosuch", "delname": "del nosuch", "delattr": "del N.nosuch", "div": "1 // 0", "index": "[][0]", "key": "{}['k']",
    "assert": "assert 0, 'as'", "toomany": "quiet(1, 2)", "noargs": "(lambda p: p)()", "notcall": "(1)()", "unpack": "a, b = (1,)",
    "unpack2": "a, b = (1, 2, 3)", "noniter": "for q in 5: pass", "import": "import nosuchmodule", "importfrom": "from sys import nosuch",
    "native": "int('x')", "nativearg": "len(1, 2)", "setitem": "(1,)[0] = 2", "setattr": "(1).a = 2", "aug": "N.n += 1", "starcall": "quiet(*5)",
    "kwcall": "quiet(nosuch=1)", "lt": "None.a < 1", "cond": "1 if 1 // 0 else 2", "arg": "quiet(boom())", "ret": "a = [1, boom(), 2]",
    "sub": "[1][boom()]", "and": "1 and boom()", "sorted": "sorted([1, 2], key=boom)", "next": "next(iter([]))", "iternext": "for q in L(): pass",
    "bool": "not T()", "exitcall": "MX().__exit__()",
    # more lines: the head of the statement raises after a round of its body
    "fornext": "for q in L2():\n x = 1\n x = 2", "while": "w = T2()\nwhile w:\n x = 1\n x = 2", "iftest": "x = 1\nif T():\n x = 2",
    "elif": "x = 0\nif x:\n x = 2\nelif T():\n x = 3\nelse:\n x = 4", "exprs": "x = 1\ny = boom(\n )" if 0 else "x = 1; y = boom()",
}
TEXTS = {"raise", "call", "call2", "assert", "arg", "ret", "sub", "and", "sorted", "iternext", "bool", "fornext", "while",
         "iftest", "elif", "exprs", "exitcall"}

PLACES = {
    "plain": "{}", "later": "x = 1\n\nx = 2\n{}\nx = 3", "if": "if N:\n {}", "else": "if not N:\n x = 1\nelse:\n {}\nx = 2",
    "for": "for i in (0, 1):\n x = i\n if i:\n  {}\n x = 2", "while": "i = 0\nwhile i < 3:\n i = i + 1\n if i == 2:\n  {}",
    "tryfin": "try:\n {}\nfinally:\n x = 1\n x = 2", "tryexc": "try:\n {}\nexcept ImportWarning:\n x = 1\nx = 2",
    "tryelse": "try:\n x = 1\nexcept ImportWarning:\n x = 2\nelse:\n {}", "infin": "try:\n x = 1\nfinally:\n {}\nx = 2",
    "inexc": "try:\n raise ImportWarning('w')\nexcept ImportWarning:\n x = 1\n {}", "afterexc": "try:\n raise ImportWarning('w')\nexcept ImportWarning:\n x = 1\n{}",
    "aftercall": "try:\n d()\nexcept ValueError:\n x = 1\n{}", "afterquiet": "quiet()\n{}", "with": "with M() as m:\n x = 1\n {}",
    "reraise": "try:\n {}\nexcept Exception:\n x = 1\n raise", "infinexc": "try:\n raise ImportWarning('w')\nfinally:\n x = 1\n {}",
    "loopfin": "for i in (0, 1):\n try:\n  if not i: continue\n  x = 1\n finally:\n  x = 2\n{}", "breakexc": "for i in (0, 1):\n try:\n  raise KeyError(i)\n except KeyError:\n  break\n{}",
}

# kinds of calls: definitions, of {b} the body (a statement in some place), {n} a number; and the call
CALLS = {
    "func": ("def f{n}():\n{b}", "f{n}()"), "args": ("def f{n}(a, b=2, *c, **e):\n{b}", "f{n}(1, *[2, 3], **{{'k': 1}})"),
    "kw": ("def f{n}(a, b=2):\n{b}", "f{n}(b=1, a=2)"), "method": ("class C{n}(object):\n def m(self):\n{bb}", "C{n}().m()"),
    "init": ("class C{n}(object):\n def __init__(self):\n{bb}", "C{n}()"), "static": ("class C{n}(object):\n @staticmethod\n def m():\n{bb}", "C{n}.m()"),
    "classm": ("class C{n}(object):\n @classmethod\n def m(cls):\n{bb}", "C{n}.m()"), "super": ("class B{n}(object):\n def m(self):\n{bb}\nclass C{n}(B{n}):\n def m(self): return super(C{n}, self).m()", "C{n}().m()"),
    "prop": ("class C{n}(object):\n @property\n def p(self):\n{bb}", "C{n}().p"), "getattr": ("class C{n}(object):\n def __getattr__(self, name):\n{bb}", "C{n}().p"),
    "getitem": ("class C{n}(object):\n def __getitem__(self, k):\n{bb}", "C{n}()[1]"), "add": ("class C{n}(object):\n def __add__(self, k):\n{bb}", "C{n}() + 1"),
    "callable": ("class C{n}(object):\n def __call__(self, k):\n{bb}", "C{n}()(1)"), "str": ("class C{n}(object):\n def __str__(self):\n{bb}", "'%s' % C{n}()"),
    "contains": ("class C{n}(object):\n def __contains__(self, k):\n{bb}", "1 in C{n}()"), "eq": ("class C{n}(object):\n def __eq__(self, k):\n{bb}\n __hash__ = None", "[C{n}()].index(1)"),
    "gen": ("def g{n}():\n yield 0\n{b}", "list(g{n}())"), "gennext": ("def g{n}():\n{b}\n yield 0", "next(g{n}())"),
    "genexp": ("", "list({e} for q in [1])"), "genexp1": ("", "list(q for q in {e})"), "lambda": ("L{n} = lambda: {e}", "L{n}()"), "lambda2": ("", "(lambda q: {e})(1)"),
    "key": ("def k{n}(q):\n{b}", "sorted([1], key=k{n})"), "map": ("def k{n}(q):\n{b}", "list(map(k{n}, [1]))"), "eval": ("", "eval(\"{e}\")"),
    "listcomp": ("", "[{e} for q in [1]]  #COMP"), "class": ("def f{n}():\n class K(object):\n  x = 1\n{bb}\n  y = 2", "f{n}()"), "nested": ("def f{n}():\n def inner(): return {e}\n x = 1\n return inner()", "f{n}()"),
    "closure": ("def f{n}(v):\n def inner():\n  v\n  return {e}\n return inner", "f{n}(1)()"), "deco": ("def f{n}(f):\n{b}", "f{n}(0)"),
    "iter": ("class C{n}(object):\n def __iter__(self):\n{bb}", "[q for q in C{n}()]"), "with": ("class C{n}(M):\n def __enter__(self):\n{bb}\ndef f{n}():\n with C{n}(): x = 1", "f{n}()"),
    "withexit": ("class C{n}(M):\n def __exit__(self, *a):\n{bb}\ndef f{n}():\n with C{n}(): x = 1", "f{n}()"),
    "yieldfrom": ("def g{n}():\n yield 0\n{b}\ndef f{n}():\n yield from g{n}()", "list(f{n}())"),
}
QUOTED = {"eval"}  # what its call contains must be one expression without its kind of quotes


def calls_of(v):
    for c in CALLS:
        if c == "yieldfrom" and v < (3, 3):
            continue
        if c in ("with", "withexit") and v < (2, 6):
            continue
        yield c


def places_of(v):
    for p in PLACES:
        if p == "with" and v < (2, 6):
            continue
        yield p


def chain(calls, places, leaf, end="expr"):
    """A program that gets to the leaf through the calls, each in a place."""
    defs = []
    e = LEAVES[leaf]
    for n, c in reversed(list(enumerate(calls))):
        text, call = CALLS[c]
        place = PLACES[places[n + 1] if n + 1 < len(places) else "plain"]
        if ("{e}" in text + call) and (places[n + 1:n + 2] not in ([], ["plain"])):
            return None
        if "{e}" in text + call and n == len(calls) - 1 and leaf not in ("call", "div", "native", "name", "key", "index"):
            return None
        comp = "  #COMP" if "#COMP" in e and "{e}" in text + call else ""
        inner = calls[n + 1:n + 2]
        if comp or c == "listcomp" and inner and "{e}" in CALLS[inner[0]][1]:
            return None  # several frames of one line
        e1 = e.replace("  #COMP", "") if comp else e
        stmt = put(place, e)
        if c == "eval" and ('"' in e1 or "'" in e1):
            return None
        defs.append(text.format(n=n, b=ind(stmt), bb=ind(stmt, 2), e=e1))
        e = call.format(n=n, e=e1) + comp
    main = put(PLACES[places[0]], e)
    return with_pre("".join(d + "\n" for d in defs if d) + main + "\n")


def put(place, stmt):
    out = []
    for line in place.split("\n"):
        if "{}" in line:
            pad = line[:len(line) - len(line.lstrip())]
            out += [pad + s for s in stmt.split("\n")]
        else:
            out.append(line)
    return "\n".join(out)


# exceptions as the program makes them: (definition, expression, version from)
FINAL = [
    ("", "ValueError()", 0), ("", "ValueError('one')", 0), ("", "ValueError('')", 0), ("", "ValueError('a', 2)", 0), ("", "ValueError(None)", 0),
    ("", "ValueError(ValueError(1))", 0), ("", "KeyError('k')", 0), ("", "KeyError('')", 0), ("", "KeyError('a', 'b')", 0), ("", "KeyError(('t',))", 0),
    ("", "ValueError('two\\nlines')", 0), ("", "ValueError('tail\\n')", 0), ("", "ValueError(1.5)", 0), ("", "ValueError([1])", 0),
    ("", "ImportError('i')", 0), ("", "OSError(2, 'nothing')", 0), ("", "OSError(2, 'nothing', 'file')", 0), ("", "IOError('io')", 0), ("", "AssertionError('x')", 0),
    ("", "StopIteration(3)", 0), ("", "GeneratorExit()", 0), ("", "Warning('w')", 0), ("", "BaseException('b')", 0), ("", "Exception", 0), ("", "RuntimeError", 0),
    ("class E(Exception): pass\n", "E('own')", 0), ("class E(Exception): pass\n", "E", 0), ("class E(KeyError): pass\n", "E('own')", 0),
    ("class E(Exception):\n def __str__(self): return 'str ' + str(self.args)\n", "E(1, 2)", 0),
    ("class E(Exception):\n def __str__(self): return ''\n", "E(1, 2)", 0),
    ("class E(Exception):\n def __str__(self): raise KeyError(1)\n", "E(1)", 0),
    ("class E(Exception):\n def __init__(self, a, b): self.a = a\n def __str__(self): return '<%s>' % self.a\n", "E(1, b=2)", 0),
    ("class E(Exception):\n def __repr__(self): return 'repr'\n", "E(1)", 0),
    ("def mk():\n class E(Exception): pass\n return E\nE = mk()\n", "E('local')", (3, 3)),
]
PROGS2 = {
    "f": ("func", "plain", "raise"), "m": ("method", "for", "div"), "g": ("gen", "tryfin", "call"), "c": ("class", "inexc", "name"),
    "k": ("key", "reraise", "raise"), "e": ("eval", "plain", "call"),
}


def cases(cfg, tier):
    v, pypy = cfg
    quick = tier == "quick"
    places, calls = list(places_of(v)), list(calls_of(v))
    turn = ALL.index(v)
    n = 0
    for leaf in LEAVES:
        for place in places:
            for f in ([], ["func"]):
                n += 1
                if quick and place != "plain" and (n + turn + 3 * pypy) % 5 > 1:
                    continue
                src = chain(f, ["plain"] * len(f) + [place], leaf)
                yield f"leaf/{leaf}/{place}/{len(f)}", {"src": src, "text": leaf in TEXTS, "file": 0, "tr": 0}
    for c in calls:
        for k, (p0, p1) in enumerate((a, b) for a in places for b in places):
            if quick and p0 != "plain" and p1 != "plain" and (k + turn + 3 * pypy) % 11:
                continue
            src = chain([c], [p0, p1], "call")
            if src:
                yield f"call/{c}/{p0}/{p1}", {"src": src, "text": True, "file": k % 2, "tr": 0}
    n = 0
    for a in calls:
        for b in calls:
            n += 1
            for leaf in ("call", "raise") if not quick or (n + turn) % 4 == 0 else ("call",):
                src = chain([a, b], ["plain"] * 3, leaf)
                if src:
                    yield f"chain/{a}/{b}/{leaf}", {"src": src, "text": True, "file": n % 2, "tr": (n + turn) % 3 == 0}
            for c in calls:
                n += 1
                if quick and (n + turn + 7 * pypy) % 83:
                    continue
                src = chain([a, b, c], ["plain"] * 4, "call")
                if src:
                    yield f"chain/{a}/{b}/{c}", {"src": src, "text": True, "file": n % 2, "tr": (n + turn) % 3 == 0}
    n = 0
    for a in places:
        for b in places:
            pair = put(PLACES[a], PLACES[b])
            for where in ("plain", "func"):
                n += 1
                if quick and (n + turn + pypy) % 4:
                    continue
                body = put(pair, "d()")
                src = with_pre((body if where == "plain" else "def F():\n" + ind(body) + "\nF()") + "\n")
                yield f"places/{a}/{b}/{where}", {"src": src, "text": True, "file": n % 2, "tr": (n + turn) % 3 == 0}
                if quick:
                    continue
                for c in places:
                    body = put(put(pair, PLACES[c]), "d()")
                    src = with_pre((body if where == "plain" else "def F():\n" + ind(body) + "\nF()") + "\n")
                    yield f"places/{a}/{b}/{c}/{where}", {"src": src, "text": True, "file": 0, "tr": 0}
    for i, (pre, e, low) in enumerate(FINAL):
        if low and v < low:
            continue
        for j, how in enumerate(("raise {}", "def f():\n raise {}\nf()", "x = {}\nraise x", "try:\n raise {}\nfinally:\n x = 1",
                                 "try:\n raise {}\nexcept ImportWarning:\n x = 1")):
            yield f"final/{i}/{j}", {"src": pre + how.format(e) + "\n", "text": True, "file": j % 2, "tr": j % 3 == 0}
    for a in PROGS2:
        for b in PROGS2:
            for tr in (0, 1):
                yield f"twice/{a}/{b}/{tr}", {"srcs": [chain([PROGS2[x][0]], ["plain", PROGS2[x][1]], PROGS2[x][2]) for x in (a, b)], "tr": tr}


# ------------------------------------------------------------- running

DIR = None


def file_for(src):
    """The name of a file with the source in it."""
    global DIR
    if DIR is None:
        import atexit

        DIR = tempfile.mkdtemp(prefix="mc-tb-")
        atexit.register(shutil.rmtree, DIR, True)
    name = f"{DIR}/prog{os.getpid()}.py"
    with open(name, "w") as f:
        f.write(src)
    return name


def strip_own(lines, text):
    """Without the message, if that is not the program's."""
    return lines if text else [x.split(":")[0].rstrip() if not x.startswith(" ") else x for x in lines]


def expected(src, name, text, v, show):
    env = base_env(Log())
    out = io.StringIO()
    try:
        code = compile(src, name, "exec")
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            exec(code, env)
    except BaseException as e:
        error = e
    else:
        return {"status": 0, "report": []}
    if not isinstance(error, Exception):
        return {"status": ["raised", type(error).__name__], "report": []}
    lines = src.split("\n")
    report = ["Traceback (most recent call last):"]
    # CPython < 3.12 has frames for comprehensions
    for f in traceback.extract_tb(error.__traceback__):
        if f.filename not in ((name, "<string>") if v >= (3, 12) else (name,)):
            continue
        names = [f.name]
        own = f.filename == name
        if own and "#COMP" in lines[f.lineno - 1] and (3, 0) <= v < (3, 12):
            names.append("<listcomp>")
        for x in names:
            report.append(f'  File "{f.filename}", line {f.lineno}, in {x}')
            if own and show:
                report.append("    " + lines[f.lineno - 1].strip())
    report += "".join(traceback.format_exception_only(type(error), error)).splitlines()
    return {"status": 1, "report": strip_own(report, text)}


def got(cfg, src, name, text, vm):
    env = base_env(Log())
    out, err = io.StringIO(), io.StringIO()
    code = compile_for(src, cfg, name)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            status = vm.run_code(code, f_globals=env)
        except BaseException as e:
            if isinstance(e, Exception):
                raise
            status = ["raised", type(e).__name__]
    r = {"status": status, "report": strip_own(
        [x for x in err.getvalue().splitlines() if not x.startswith("Running built-in `eval")], text)}
    if out.getvalue():
        r["out"] = out.getvalue()
    return r


def quiet(*a):
    return quiet


def machine(cfg, tr):
    if not tr:
        return new_vm(cfg)
    from xpython.vmtrace import PyVMEVENT_ALL, PyVMTraced
    from xdis.version_info import PythonImplementation

    v, pypy = cfg
    return PyVMTraced(quiet, v, PythonImplementation.PyPy if pypy else PythonImplementation.CPython,
                      event_flags=PyVMEVENT_ALL)


def run(cfg, p):
    vm = machine(cfg, p["tr"])
    if "srcs" in p:
        return ([expected(s, "prog", True, cfg[0], False) for s in p["srcs"]],
                [got(cfg, s, "prog", True, vm) for s in p["srcs"]])
    name = file_for(p["src"]) if p["file"] else "prog"
    want = expected(p["src"], name, p["text"], cfg[0], p["file"])
    r = got(cfg, p["src"], name, p["text"], vm)
    for x in (want, r):
        x["report"] = [s.replace(name, "FILE") for s in x["report"]]
    return want, r


def stats(p, want):
    n = sum(len(w["report"]) for w in (want if isinstance(want, list) else [want]))
    return {"states": n + 1, "transitions": n, "traces": 1}
