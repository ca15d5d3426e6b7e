"""import statements: names bound, modules run, errors, in every place and sequence."""

import importlib.abc
import importlib.util
import itertools
import sys
import types

import harness
from gen import ind
from harness import ALL, PYPY, Log, base_env, cfgs, compile_for, native_run, vm_run_code

LEVEL = "model_checking"
RULE = (
    "one program per (place, sequence of import statements and changes of the module table); the names "
    "bound and their values, the order in which module bodies run, the exceptions, and the module table "
    "afterwards have to be those of the reference. Distinct: different observation or configuration."
)
BOUNDS = (
    "22 modules (packages, cycles, failing bodies, __all__, __getattr__, replaced modules); about 110 "
    "statements singly in 9 places, all pairs and (thorough) triples over a set of 40 at module level; "
    "statements that are relative to 3 kinds of package; histories of up to 3 (thorough: 4) of 13 operations "
    "on the module table; 30 programs on sys"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference; bodies of imported modules are run by the host",
    "imports of 2.x without a level are absolute, as the code of the interpreter says",
]

MODULES = {
    "mctop": "T\nval = 'top'\ndef up(f, *a): return f(*a)",
    "mcp": "#pkg\nT\nval = 'mcp.val'\n_hid = 1",
    "mcp.a": "T\nx = 'a.x'\ny = 'a.y'\n_z = 'a._z'",
    "mcp.b": "T\nfrom . import a\nfrom .a import x as bx",
    "mcp.c": "#pkg\nT\nv = 'c.v'",
    "mcp.c.d": "T\nw = 'd.w'\nfrom .. import val as pv",
    "mcp.all": "T\n__all__ = ['p', '_q']\np = 'p'\n_q = 'q'\nr = 'r'",
    "mcp.alltuple": "T\n__all__ = ('p',)\np = 'p'\nr = 'r'",
    "mcp.allempty": "T\n__all__ = []\np = 'p'",
    "mcp.badall": "T\n__all__ = ['p', 'nope']\np = 'p'",
    "mcp.pkgall": "#pkg\nT\n__all__ = ['sub', 'n']\nn = 1",
    "mcp.pkgall.sub": "T\nq = 2",
    "mcp.ga": "T\nx = 1\ndef __getattr__(n):\n if n.startswith('__'): raise AttributeError(n)\n TR(('getattr', n))\n if n == 'dyn': return 'dyn!'\n if n == 'ke': raise KeyError(n)\n raise AttributeError(n)",
    "mcp.dirm": "T\nx = 1\n_y = 2\ndef __dir__(): return ['zzz', 'x']",
    "mcp.fail": "T\nx = 1\nraise ValueError('boom')",
    "mcp.failimp": "T\nimport mcp.nope",
    "mcp.cyc1": "T\nimport mcp.cyc2\none = 1",
    "mcp.cyc2": "T\nimport mcp.cyc1\ntry:\n from mcp.cyc1 import one\nexcept ImportError:\n TR('partial')\ntwo = 2",
    "mcp.swap": "T\nimport sys\nclass O(object):\n at = 5\n def m(self): return 'm'\nsys.modules[__name__] = O()",
    "mcp.slot": "T\nimport sys\nclass O(object):\n __slots__ = ['at']\no = O()\no.at = 6\nsys.modules[__name__] = o",
    "mcp.early": "T\nimport sys\nx = 1\ndel sys.modules[__name__]\nsys.modules[__name__] = types.ModuleType('other')\nsys.modules[__name__].x = 'other.x'",
    "mcp.shadow": "T\nlen = 'shadowed'\nlog = None\nTRUE = 1",
}
NOFILE = {"mcp.all", "mcp.b"}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds the modules above."""

    def __init__(self):
        self.codes = {}
        for name, text in MODULES.items():
            self.codes[name] = compile(text.replace("T\n", "TR(__name__)\n", 1), name, "exec")
        self.log = None

    def find_spec(self, name, path=None, target=None):
        if name not in self.codes:
            return None
        pkg = MODULES[name].startswith("#pkg")
        spec = importlib.util.spec_from_loader(name, self, is_package=pkg,
                                               origin=f"/nowhere/{name}")
        if name not in NOFILE:
            spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [f"/nowhere/{name}"]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["TR"] = self.log
        module.__dict__["types"] = types
        exec(self.codes[module.__spec__.name], module.__dict__)


FINDER = Finder()


def purge():
    for name in [n for n in sys.modules if n.split(".")[0] in ("mctop", "mcp")]:
        del sys.modules[name]


def table():
    return sorted((n, type(m).__name__ if not isinstance(m, types.ModuleType) else m.__name__)
                  for n, m in sys.modules.items() if n.split(".")[0] in ("mctop", "mcp"))


# --- statements
PATHS = ["mctop", "mcp", "mcp.a", "mcp.c.d", "mcp.b", "mcp.ga", "mcp.cyc1", "mcp.cyc2", "mcp.swap",
         "mcp.fail", "mcp.failimp", "mcp.nope", "mcp.c.nope", "mcnope", "mcp.a.x", "mcp.early", "mcp.all"]
IMPORTS = [f"import {p}" for p in PATHS] + [f"import {p} as n1" for p in PATHS] + [
    "import mcp.a, mcp.c.d", "import mcp.a as n1, mctop as n2", "import mctop, mcnope, mcp", "import mcp, mcp.c as n1",
]
FROMS = [f"from {p} import {n}" for p, ns in [
    ("mcp", ["val", "a", "a as n1", "val, a", "a, val as n1, c", "nope", "val, nope", "c", "fail", "_hid", "cyc1", "swap", "slot"]),
    ("mcp.a", ["x", "x, y", "x as n1, y as n2", "x as n1, x as n2", "_z", "nope", "x, nope, y"]),
    ("mcp.c", ["d", "v, d", "d as n1", "nope"]),
    ("mcp.c.d", ["w", "pv", "w as n1"]),
    ("mcp.b", ["a", "bx", "nope"]),
    ("mcp.ga", ["x", "dyn", "nope", "ke", "dyn as n1, dyn as n2", "x, dyn"]),
    ("mcp.cyc1", ["one", "two", "mcp"]),
    ("mcp.cyc2", ["two", "mcp as n1"]),
    ("mcp.swap", ["at", "m", "nope"]),
    ("mcp.slot", ["at", "nope"]),
    ("mcp.early", ["x"]),
    ("mcp.fail", ["x"]),
    ("mcp.nope", ["x"]),
    ("mcnope", ["x"]),
    ("mctop", ["val", "up", "val as n1", "nope"]),
    ("mcp.pkgall", ["n", "sub", "n, sub as n1"]),
    ("mcp.shadow", ["TRUE", "len"]),
    ("os", ["path", "sep as n1, path as n2"]),
    ("os.path", ["join as n1"]),
] for n in ns]
STARS = [f"from {p} import *" for p in [
    "mcp", "mcp.a", "mcp.all", "mcp.alltuple", "mcp.allempty", "mcp.badall", "mcp.pkgall", "mcp.ga", "mcp.dirm",
    "mcp.fail", "mcp.nope", "mcnope", "mcp.cyc1", "mcp.swap", "mcp.slot", "mcp.shadow", "mcp.b", "mcp.c.d"]]

PLACES = {
    "module": "{X}",
    "func": "def f():\n{X1}\n show(locals())\nf()",
    "global": "def f():\n global n1, n2, mcp, mctop, a, x\n{X1}\n show(locals())\nf()",
    "class": "class A(object):\n{X1}\n show(dict(A0()))\n",
    "cell": "def f():\n{X1}\n def g(): return {N}\n show(locals())\n try: log(g())\n except NameError: log('unbound')\nf()",
    "try": "try:\n{X1}\nexcept ImportError as e: log(type(e).__name__)\nelse: log('ok')",
    "loop": "for i in (1, 2):\n{X1}",
    "cond": "if val0:\n{X1}\nelse: n1 = 0",
    "gen": "def f():\n yield 1\n{X1}\n yield 2\n show(locals())\nlog(list(f()))",
}

PAIR_BASE = [
    "import mctop", "import mcp", "import mcp.a", "import mcp.c.d", "import mcp.b", "import mcp.ga", "import mcp.cyc1",
    "import mcp.cyc2", "import mcp.swap", "import mcp.early", "import mcp.a as n1", "import mcp.c.d as n1",
    "import mcp.b as n2", "import mcp.swap as n1", "from mcp import val", "from mcp import a", "from mcp import a as n1",
    "from mcp import c", "from mcp import nope", "from mcp import b, a", "from mcp.a import x", "from mcp.a import x as n1, y",
    "from mcp.a import nope", "from mcp.c import d", "from mcp.c.d import w, pv", "from mcp.b import a as n2",
    "from mcp.ga import dyn", "from mcp.cyc1 import one", "from mcp.cyc2 import two", "from mcp.swap import at",
    "from mcp import *", "from mcp.all import *", "from mcp.a import *", "from mcp.pkgall import *", "from mcp.badall import *",
    "from mcp import fail", "import mcp.fail", "import mcp.nope", "import mcnope", "from mcp.slot import at",
]

# operations of histories on the module table
OPS = {
    "imp": "import mcp.a",
    "frm": "from mcp import a",
    "frx": "from mcp.a import x",
    "top": "import mcp",
    "fail": "try:\n import mcp.fail\nexcept ValueError: log('ve')",
    "frfail": "try:\n from mcp import fail\nexcept ValueError: log('ve')\nexcept ImportError: log('ie')",
    "delmod": "import sys\nsys.modules.pop('mcp.a', None)",
    "delpkg": "import sys\nsys.modules.pop('mcp', None)",
    "delattr": "try: del mcp.a\nexcept (NameError, AttributeError): log('noattr')",
    "set": "try: mcp.a.x = 'changed'\nexcept (NameError, AttributeError): log('noattr')",
    "none": "import sys\nsys.modules['mcp.a'] = None",
    "fake": "import sys, types\nsys.modules['mcp.a'] = types.ModuleType('fake')\nsys.modules['mcp.a'].x = 'fake.x'",
    "attr": "try: mcp.a = 'attr'\nexcept NameError: log('noattr')",
}

RELATIVE = [f"from {p} import {n}" for p, ns in [
    (".", ["a", "a as n1", "val", "c", "nope", "a, val, c", "d", "*"]),
    ("..", ["a", "val", "c as n1", "nope"]),
    ("...", ["a"]),
    (".a", ["x", "x as n1, y", "nope", "*"]),
    (".c", ["d", "v", "d as n1"]),
    (".c.d", ["w"]),
    ("..a", ["x", "x as n1"]),
    ("..c.d", ["w"]),
    (".nope", ["x"]),
    (".d", ["w", "pv as n1"]),
    ("..nope", ["x"]),
    (".all", ["*"]),
] for n in ns]
CONTEXTS = {
    # __name__, __package__, __path__
    "in": ("mcp.prog", "mcp", None),
    "insub": ("mcp.c.prog", "mcp.c", None),
    "pkg": ("mcp", None, ["/nowhere/mcp"]),
    "name": ("mcp.c.prog", None, None),
    "top": ("prog", "", None),
    "none": ("prog", None, None),
}

PROGRAMS = {
    "hook/name": "def hook(name, *a):\n log(name)\n return real(name, *a)\nwith_hook(hook, lambda: run())\ndef run(): pass",
    "sys/same": "import sys\nimport sys as s2\nlog(sys is s2)\nfrom sys import path\nlog(path is sys.path)",
    "sys/func": "def f():\n import sys\n return sys\ndef g():\n import sys as q\n return q\nlog(f() is g())\ntry: sys\nexcept NameError: log('local')",
    "sys/own": "sys = 5\ndef f():\n import sys\n return sys.maxsize\nlog(f())\nlog(sys)\nimport sys\nlog(type(sys).__name__)",
    "sys/del": "import sys\na = sys\ndel sys\nimport sys\nlog(a is sys)",
    "sys/attr": "import sys\nsys.mc_attr = 5\ndef f():\n import sys\n return sys.mc_attr\nlog(f())\ndel sys.mc_attr\nlog(hasattr(sys, 'mc_attr'))",
    "sys/modules": "import sys\nlog('sys' in sys.modules)\nimport mcp.a\nlog(sys.modules['mcp.a'] is mcp.a)\nlog(sys.modules['mcp'] is mcp)",
    "sys/clean": "def f():\n import sys\n return 1\nf()\nlog(sorted(k for k in globals() if k == 'sys'))",
    "sys/star": "from sys import exc_info, maxsize\nlog(exc_info() == (None, None, None))\nlog(maxsize > 0)\ndel exc_info",
    "sys/excinfo": "import sys\ntry: {}[1]\nexcept KeyError: log(sys.exc_info()[0].__name__)",
    "sys/global": "def f():\n global sys\n import sys\nf()\nlog(sys.maxsize > 0)",
    "sys/class": "class A(object):\n import sys\nlog(A.sys.maxsize > 0)\nlog('sys' in globals())",
    "sys/ns": "def f():\n import sys\n return sys.path\nimport sys\nlog(f() is sys.path)",
    "sys/from": "def f():\n from sys import path as p\n return p\nlog(type(f()).__name__)\nlog('sys' in globals())",
    "sys/two": "import sys, os\nlog(os.sys.path is sys.path)",
    "sys/other": "import mctop\nmctop.sys = 3\nfrom mctop import sys\nlog(sys)\nimport sys as r\nlog(r.maxsize > 0)",
    "callback": "import mctop\nlog(mctop.up(lambda q: q + 1, 5))\ndef f(): raise KeyError(1)\ntry: mctop.up(f)\nexcept KeyError: log('ke')",
    "stdlib": "import itertools\nlog(list(itertools.islice(itertools.count(3), 2)))\nfrom functools import reduce\nlog(reduce(lambda a, b: a + b, [1, 2, 3]))\nimport operator as o\nlog(o.add(1, 2))",
    "stdlib2": "import os.path\nlog(os.path.join('a', 'b'))\nimport os.path as p\nlog(p.basename('x/y'))\nfrom os.path import join as j, split\nlog(j('1', '2'))\nlog(split('a/b'))",
    "stdlib3": "import collections\nN = collections.namedtuple('N', 'a b')\nlog(N(1, 2).b)\nimport string, re\nlog(re.sub('a', lambda m: m.group().upper(), 'banana'))",
    "dunder": "m = __import__('mcp.a')\nlog(m.__name__)\nlog(m.a.x)\nm = __import__('mcp.c', globals(), locals(), ['d'])\nlog(m.__name__)\nlog(m.d.w)",
    "importlib": "import importlib\nm = importlib.import_module('mcp.c.d')\nlog(m.w)\nimport mcp\nlog(mcp.c.d is m)\nlog(importlib.reload(m) is m)",
    "errtype": "try: import mcnope\nexcept ImportError as e: log(type(e).__name__)\ntry: from mcp import nope\nexcept ImportError as e: log(type(e).__name__)",
    "errname": "try: from mcp.a import nope\nexcept ImportError as e: log((e.name, e.path))\ntry: import mcp.nope2\nexcept ImportError as e: log(e.name)",
    "errmodule": "def f():\n import sys, types\n m = types.ModuleType('mcp.noname')\n del m.__dict__['__name__']\n sys.modules['mcp.noname'] = m\n import mcp\n try: from mcp.noname import x\n except ImportError: log('ie')\n del sys.modules['mcp.noname']\nf()",
    "finally": "def f():\n try: import mcp.fail\n except ValueError: return 'v'\n finally: import mctop; log(mctop.val)\nlog(f())",
    "default": "def f(a=__import__('mctop').val): return a\nlog(f())",
    "lambda": "f = lambda: __import__('mctop')\nlog(f().val)",
    "recursive": "def f(n):\n import mctop\n if n: return f(n - 1)\n return mctop.val\nlog(f(3))",
    "comp": "log(list(__import__(n).__name__ for n in ('mctop', 'mcp')))",
    "metapath": "import sys\nclass F(object):\n def find_spec(self, name, path=None, target=None):\n  if name.startswith('mcx'): log(('find', name))\n  return None\nx = F()\nsys.meta_path.insert(0, x)\ntry:\n try: import mcx.y\n except ImportError: log('ie')\nfinally: sys.meta_path.remove(x)",
    "pathhook": "import sys\nn = len(sys.path)\nsys.path.append('/mcnowhere')\ntry: import mcx1\nexcept ImportError: log('ie')\nlog(sys.path.pop())\nlog(len(sys.path) == n)",
}
del PROGRAMS["hook/name"]


def configs(tier):
    return cfgs(ALL, PYPY)


def bound_name(stmt):
    """A name that the statement may bind."""
    last = stmt.split(",")[0]
    if " as " in last:
        return last.split(" as ")[1]
    w = last.split()
    return w[1].split(".")[0] if w[0] == "import" else w[3]


def cases(cfg, tier):
    v, pypy = cfg

    def ok(stmt, place):
        if " as " in stmt and stmt.startswith("import") and v < (3, 7) and "." in stmt.split(" as ")[0] \
                and ("swap" in stmt or "early" in stmt):
            return False
        return True

    for place, text in PLACES.items():
        for stmt in IMPORTS + FROMS + STARS:
            if "*" in stmt and (place not in ("module", "try", "loop", "cond", "class")
                                or (place == "class" and v >= (3, 0))):
                continue
            if place == "class" and "*" in stmt:
                continue
            if not ok(stmt, place):
                continue
            if place == "cell" and v < (3, 0) and "*" in stmt:
                continue
            src = text.replace("{X1}", ind(stmt, 1)).replace("{X}", stmt).replace("{N}", bound_name(stmt))
            yield f"one/{place}/{stmt}", {"src": src}
    base = PAIR_BASE
    for n in (2,) if tier == "quick" else (2, 3):
        for seq in itertools.product(range(len(base)), repeat=n):
            stmts = [base[i] for i in seq]
            if all(ok(s, "module") for s in stmts):
                src = "\n".join(f"try: {s}\nexcept Exception as e: log(type(e).__name__)" for s in stmts)
                yield "seq/" + ".".join(map(str, seq)), {"src": src}
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for seq in itertools.product(OPS, repeat=n):
            if v < (3, 5) and {"delattr", "delmod", "delpkg", "none", "fake", "attr"} & set(seq):
                # IMPORT_FROM looks into the module table from 3.5 on only.
                src = None
            else:
                src = "\n".join(f"try:\n{ind(OPS[o], 1)}\nexcept Exception as e: log(type(e).__name__)\nlook()"
                                for o in seq)
            if src:
                yield "hist/" + ".".join(seq), {"src": src}
    for ctx in CONTEXTS:
        if v < (2, 5) or (v < (2, 6) and CONTEXTS[ctx][1]):
            continue
        for place in ("module", "func"):
            for stmt in RELATIVE:
                if place == "func" and "*" in stmt:
                    continue
                src = PLACES[place].replace("{X1}", ind(stmt, 1)).replace("{X}", stmt)
                yield f"rel/{ctx}/{place}/{stmt}", {"src": src, "ctx": ctx}
                src = f"try: {stmt}\nexcept Exception as e: log(type(e).__name__)\ntry: {stmt}\nexcept Exception as e: log(type(e).__name__)"
                if place == "module":
                    yield f"rel2/{ctx}/{stmt}", {"src": src, "ctx": ctx}
    for name, src in PROGRAMS.items():
        if "{}" in src and False:
            continue
        yield f"prog/{name}", {"src": src}


def observe(log, env, base):
    names = sorted(k for k in env if k not in base and not k.startswith("_") and k not in ("f", "A", "i", "e"))
    log(["names"] + [(k, env[k]) for k in names])
    log(table())


def run(cfg, p):
    out = []
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    for native in (True, False):
        purge()
        log = Log()

        def extra(log=log):
            def show(d):
                log(sorted((k, v) for k, v in d.items() if not k.startswith("_") and k != "g"))

            def look():
                log(table())
                m = sys.modules.get("mcp")
                a = getattr(m, "a", "no a") if m else "no mcp"
                log(getattr(a, "x", a))

            return {"show": show, "look": look, "val0": 1, "A0": dict}

        env = base_env(log)
        env.update(extra())
        if p.get("ctx"):
            name, package, path = CONTEXTS[p["ctx"]]
            env["__name__"] = name
            if package is not None:
                env["__package__"] = package
            if path:
                env["__path__"] = path
        base = set(env)
        FINDER.log = log
        try:
            if native:
                try:
                    exec(compile(p["src"], "prog", "exec"), env)
                    end = "ok"
                except Exception as e:
                    end = ["exc", type(e).__name__]
                r = {"end": end}
            else:
                code = compile_for(p["src"], cfg)
                r = vm_run_code(code, cfg, env=env, log=log)
            observe(log, env, base)
            out.append({"log": log.items, "end": r["end"]})
        finally:
            purge()
    return out


def stats(payload, want):
    n = len(want["log"])
    return {"states": n, "transitions": n, "traces": 1}
