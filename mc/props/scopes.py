"""Scopes and closures."""

import re
from itertools import product

from gen import ind
from harness import ALL, PYPY, cfgs, compile_for, native_run, vm_run_code

LEVEL = "model_checking"
RULE = (
    "scope family: one program per nest of function, parameter and class scopes in which each "
    "scope declares the one variable local, global or nonlocal and reads, writes, augments or "
    "deletes it before and after the inner scope runs; history family: one program per sequence "
    "of calls on closures that share or do not share a variable. State: contents of the variable "
    "in every scope after an operation; transition: one operation; trace: one program, compared "
    "on the interpreter and the reference."
)
BOUNDS = (
    "nests of 2 scopes exhaustively (quick: for 2.4, 2.7, 3.4 and 3.8; 1/4 of them in other "
    "versions, 1/17 in PyPy variants), of 3 in a rotation (1/149 quick, 1/23 thorough), each x "
    "module variable bound or not; histories of length <= 4 (quick) or 5 over 2 instances x 4 "
    "operations; every third variable has the name of a builtin, every third has false values; all parameter kinds as shared variables; comprehension nests to depth 3"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


def extra(log):
    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    return {"probe": probe}


def guarded(k, stmt):
    return (f"try: {stmt}\nexcept UnboundLocalError: log(({k}, 'UL'))\n"
            f"except NameError: log(({k}, 'NE'))\nexcept TypeError: log(({k}, 'TE'))")


def op(o, k):
    return "\n".join({
        "R": guarded(k, f"log(({k}, x))"),
        "W": f"x = 'w{k}'",
        "D": guarded(k, "del x"),
        "A": guarded(k, "x += 'a'"),
        "G": guarded(k, f"log(({k}, list(x for q in (1, 2))))"),
        "L": guarded(k, f"log(({k}, (lambda: x)()))"),
        "F": f"for x in ('f{k}', 'g{k}'): pass",
    }[c] for c in o)


SEQS = [("", "R"), ("W", "R"), ("R", "W"), ("W", "DR"), ("", "WR"), ("W", "AR"), ("RF", "L"),
        ("D", "GW")]


def scope_bodies(v):
    for kind, decl, seq in product(("def", "param", "class"), ("", "global", "nonlocal"),
                                   range(len(SEQS))):
        if decl == "nonlocal" and v < (3, 1) or kind == "param" and decl:
            continue
        yield kind, decl, seq


def nest(levels, k=0):
    """The statement that defines and runs the scopes from levels on."""
    if not levels:
        return "pass"
    kind, decl, seq = levels[0]
    pre, post = SEQS[seq]
    body = "\n".join(s for s in (
        f"{decl} x" if decl else "", op(pre, k), nest(levels[1:], k + 1), op(post, k)) if s)
    if kind == "class":
        return f"class S{k}(object):\n{ind(body)}\nlog(sorted(n for n in S{k}.__dict__ if n == 'x'))"
    arg, val = ("x", f"'p{k}'") if kind == "param" else ("", "")
    return f"def S{k}({arg}):\n{ind(body)}\nS{k}({val})"


_compiled = {}


def valid(src, cfg):
    """Whether the language of the configuration has the program (and remember its code)."""
    from pycompile import Unsupported

    _compiled.clear()
    try:
        compile(src, "prog", "exec")
        _compiled[src] = compile_for(src, cfg)
    except (SyntaxError, Unsupported):
        return False
    return True


FULL = [(2, 4), (2, 7), (3, 4), (3, 8)]


def scope_family(v, pypy, tier):
    bodies = list(scope_bodies(v))
    turn = ALL.index(v)
    step = 1 if tier != "quick" or v in FULL and not pypy else 17 if pypy else 4
    for bound in ("x = 'm'\n", ""):
        tail = "\n" + op("R", 9)
        for n, levels in enumerate(product(bodies, repeat=2)):
            if (n + turn) % step:
                continue
            yield "scope2/" + name(bound, levels), bound + nest(levels) + tail
        mod = 149 if tier == "quick" else 23
        for n, levels in enumerate(product(bodies, repeat=3)):
            if (n + turn) % mod == 0:
                yield "scope3/" + name(bound, levels), bound + nest(levels) + tail


FALSE = {"'m'": "None", "'w0'": "0", "'w1'": "None", "'p0'": "None", "'p1'": "''", "'g0'": "None"}


def shadow(n, src):
    """
    Lets every third program use a variable that has the name of a builtin, and every
    third one values that are false.
    """
    if n % 3 == 1:
        return re.sub(r"\bx\b", "max", src)
    if n % 3 == 2:
        return re.sub(r"'[mwpg]\d?'", lambda m: FALSE.get(m[0], m[0]), src)
    return src


def name(bound, levels):
    return ("b" if bound else "u") + "/" + ",".join(
        f"{k}{'-' + d if d else ''}:{'-'.join(SEQS[s])}" for k, d, s in levels)


MAKERS = {
    "nonlocal": (
        "def mk(x):\n def get(): return x\n def put(v):\n  nonlocal x\n  x = v\n def inc():\n"
        "  nonlocal x\n  x += 1\n  return x\n def drop():\n  nonlocal x\n  del x\n"
        " return get, put, inc, drop\n", ["get()", "put(5)", "inc()", "drop()"], (3, 2)),
    "list": (
        "def mk(x):\n b = [x]\n def get(): return b[0]\n def put(v): b[0] = v\n def inc():\n"
        "  b[0] += 1\n  return b[0]\n def drop(): b.pop()\n return get, put, inc, drop\n",
        ["get()", "put(5)", "inc()", "drop()"], (2, 4)),
    "gen": (
        "def mk(x):\n def get(): return x\n def g():\n  return y\n def it():\n  for i in (7, 8, 9):\n"
        "   yield (i, x)\n n = it()\n y = x * 2\n x = x + 100\n return get, g, (lambda: next(n)), (lambda: [e for e in it()])\n",
        ["get()", "put()", "inc()", "drop()"], (2, 6)),
    "outer": (
        "def mk(x):\n def steps():\n  z = 0\n  while 1:\n   z = z + 1\n   w.append(lambda: (z, x))\n   yield z\n"
        " w = []\n s = steps()\n return (lambda: s.__next__() if hasattr(s, '__next__') else s.next()), "
        "(lambda: w[0]()), (lambda: w[-1]()), (lambda: len(w))\n",
        ["get()", "put()", "inc()", "drop()"], (2, 5)),
}


def history_family(v, tier):
    n = 4 if tier == "quick" else 5
    turn = ALL.index(v)
    for nm, (pre, calls, since) in MAKERS.items():
        if v < since:
            continue
        for k in range(1, n + 1):
            for i, ops in enumerate(product(range(8), repeat=k)):
                if k == n and (i + turn) % (16 if tier == "quick" else 4):
                    continue
                src = pre + "A = mk(1)\nB = mk(2)\n" + "\n".join(
                    f"probe(lambda: {'AB'[o // 4]}[{o % 4}]({calls[o % 4].split('(')[1]})" for o in ops)
                yield f"hist/{nm}/{''.join(map(str, ops))}", src


def fixed_family(v):
    y = {}
    for ps in ("x", "a, x", "x, a", "*x", "**x", "x=1, *a", "a, *x", "*a, **x", "x, *a, **k",
               "a, b=2, x=3", "x, y", "*, x", "*, a, x=5", "*x, y", "x, *, a=1, **k"):
        if "*," in ps and v < (3, 1) or "*x, y" == ps and v < (3, 1):
            continue
        calls = ["f()", "f(1)", "f(1, 2)", "f(x=1)", "f(a=1, x=2)", "f(1, x=3)", "f(y=4)", "f(1, 2, 3)", "f(1, b=3)"]
        if "**x" in ps and v < (3, 7):
            # (the order of the keyword arguments is not defined)
            calls.remove("f(a=1, x=2)")
        for i, body in enumerate((
                "return lambda: x",
                "def g():\n  return x\n r = g()\n x = (r, 2)\n return lambda: (g(), r)",
                "y0 = [x]\n def g(x=x): return (x, y0)\n return g",
                "class C(object):\n  z = x\n  def m(self): return (x, self.z)\n return C().m",
                "def g():\n  def h():\n   return x\n  return h\n return g()")):
            src = f"def f({ps}):\n {body}\n" + "\n".join(f"probe(lambda: {c}())" for c in calls)
            y[f"param/{ps}/{i}"] = src
    y["loop/late"] = "fs = []\nfor i in (1, 2, 3):\n fs.append(lambda: i)\nlog([f() for f in fs])"
    y["loop/late-func"] = "def g():\n fs = []\n for i in (1, 2, 3):\n  fs.append(lambda: i)\n i = 9\n return [f() for f in fs]\nlog(g())"
    y["loop/early"] = "def g():\n fs = []\n for i in (1, 2, 3):\n  fs.append(lambda i=i: i)\n i = 9\n return [f() for f in fs]\nlog(g())"
    y["loop/factory"] = "def mk(i): return lambda: i\nlog([f() for f in [mk(i) for i in (1, 2, 3)]])"
    y["loop/gen"] = "def g():\n return [f() for f in list((lambda: i) for i in (1, 2, 3))]\nlog(g())"
    y["samename"] = "def f(x):\n def g(x):\n  def h(x): return (x, 'h')\n  return (x, h(3))\n return (x, g(2), x)\nlog(f(1))"
    y["caller"] = ("def a():\n x = 1\n def b():\n  x = 2\n  def c(): return x\n  return c\n def d(): return x\n"
                   " return b()(), d(), x\nlog(a())\ndef outer(h):\n x = 5\n def i(): return x\n return h(), i()\n"
                   "def f(xs): return lambda: xs[0]\ndef g(h):\n xs = 5\n k = lambda: xs\n return h(), k()\nlog(g(f([42])))\nlog(outer(f([3])))")
    y["recursion"] = "def f(n):\n def g(): return n\n if n: r = f(n - 1)\n else: r = []\n r.append(g)\n n = n * 10\n return r\nlog([g() for g in f(4)])"
    y["mutual"] = "def f():\n def even(n): return n == 0 or odd(n - 1)\n def odd(n): return n != 0 and even(n - 1)\n return even, odd\ne, o = f()\nlog([(e(i), o(i)) for i in range(5)])"
    y["selfref"] = "def f():\n def g(n): return n and n + g(n - 1)\n return g\ng2 = f()\ng = None\nlog(g2(4))"
    y["unbound"] = "def f():\n def g(): return x\n probe(g)\n x = 1\n probe(g)\n x = None\n probe(g)\nf()"
    y["threecells"] = "def f(a, b, c):\n def g(): return (c, a)\n def h(): return (b, c)\n def i():\n  def j(): return (a, b, c, g())\n  return j\n a, b = b, a\n c = 'C'\n return g(), h(), i()()\nlog(f(1, 2, 3))"
    y["celltype"] = "def f(a):\n b = 2\n def g(): return (a, b)\n return g\ng = f(1)\nlog(len(g.__closure__) if hasattr(g, '__closure__') else 2)\nlog(f(1) is f(1))"
    y["global/func"] = "def f():\n global y\n y = 1\n def g(): return y\n return g\ng = f()\nlog(g())\ny = 2\nlog(g())\ndel y\nprobe(g)\nprobe(lambda: y)"
    y["global/def"] = "def f():\n global h, C, m\n def h(): return 1\n class C(object): z = 3\n import sys as m\nf()\nlog((h(), C.z, m.__name__))"
    y["global/for"] = "def f():\n global i\n for i in (1, 2): pass\nf()\nlog(i)"
    y["global/class"] = "class C(object):\n global q\n q = 5\n r = q\nlog(q)\nlog(hasattr(C, 'q'))\nlog(C.r)"
    y["global/twice"] = "x = 0\ndef f():\n def g():\n  global x\n  x = x + 1\n x = 'loc'\n g()\n g()\n return x\nlog(f())\nlog(x)"
    y["builtin/shadow"] = "def f():\n len = lambda x: 'mine'\n def g(): return len([])\n return g()\nlog(f())\nlog(len([1]))\nlen = lambda x: 'module'\nlog(f())\nlog(len([1]))\ndel len\nlog(len([1, 2]))"
    y["class/skip"] = "x = 'm'\nclass C(object):\n x = 'c'\n def m(self): return x\n y = x\n l = lambda self: x\nlog((C().m(), C.y, C().l()))"
    y["class/nested"] = "def f():\n x = 'f'\n class C(object):\n  x = 'c'\n  class D(object):\n   y = x\n   def m(self): return x\n return C.D.y, C.D().m(), C.x\nlog(f())"
    y["class/closure"] = "def f(x):\n class C(object):\n  def get(self): return x\n  def sub(self):\n   class D(C):\n    def get(self): return (x, C.get(self))\n   return D()\n return C\nA, B = f(1), f(2)\nlog((A().get(), B().get(), A().sub().get(), B().sub().get()))"
    y["class/loop"] = "r = []\nfor n in (1, 2):\n class C(object):\n  k = n\n  def m(self): return (self.k, n)\n r.append(C)\nlog([c().m() for c in r])"
    y["class/ownname"] = "class C(object):\n def mk(self): return C()\n def k(self): return type(self) is C\nD = C\nc = D().mk()\nlog(c.k())\nC = None\nlog(c.k())\nprobe(D().mk)"
    y["class/outer-after"] = "def f():\n class C(object):\n  def m(self): return late\n late = 1\n a = C().m()\n late = 2\n return a, C().m()\nlog(f())"
    for i, (elt, clauses) in enumerate(product(
            ["(a, b)", "[a for c in (1, 2)]", "(lambda: (a, b))()", "x", "[(x, a, d) for d in (b, a)]",
             "list((x, b, e) for e in [a])"],
            ["for a in (1, 2) for b in (a, 5)", "for a in (1, 2) if a > 1 for b in (x, a)",
             "for a, b in ((1, 2), (3, x))", "for b in (1,) for a in (b, x) if b"])):
        kinds = ["list(%s %s)"]
        if v >= (3, 1):
            kinds += ["[%s %s]", "sorted({repr(%s) %s})", "list({%s: 0 %s}.values())"]
        for j, k in enumerate(kinds):
            if j == 3 and "[" in elt:
                continue
            e = k % (elt, clauses)
            y[f"comp/func/{i}/{j}"] = f"def f(x):\n r = {e}\n def g(): return {e}\n x = 7\n return r, g(), {e}\nlog(f(3))"
            y[f"comp/mod/{i}/{j}"] = f"x = 3\nlog({e})\nx = 4\nlog({e})"
            y[f"comp/class/{i}/{j}"] = f"x = 3\nclass C(object):\n x = 8\n try: r = {e}\n except NameError: r = 'NE'\nlog(C.r)"
    if v >= (3, 1):
        y["class/compfirst"] = "class C(object):\n z = [1, 2]\n r = [q for q in z]\n try: s = [z for q in (1,)]\n except NameError: s = 'NE'\nlog((C.r, C.s))"
        y["nonlocal/chain"] = "def a():\n x = 0\n def b():\n  def c():\n   nonlocal x\n   x += 1\n   def d():\n    nonlocal x\n    x *= 10\n   d()\n   return x\n  return c\n c = b()\n return c(), c(), x\nlog(a())"
        y["nonlocal/two"] = "def a():\n x, y = 1, 2\n def b():\n  nonlocal x, y\n  x, y = y, x\n b()\n return x, y\nlog(a())"
        y["nonlocal/for"] = "def a():\n i = 0\n def b():\n  nonlocal i\n  for i in (4, 5): pass\n b()\n return i\nlog(a())"
        y["nonlocal/class"] = "def a():\n x = 1\n class C(object):\n  nonlocal x\n  x = 2\n return x, 'x' in C.__dict__\nlog(a())"
        y["nonlocal/except"] = "def a():\n e = 1\n def b():\n  nonlocal e\n  try: raise KeyError(2)\n  except KeyError as e: log(e)\n b()\n probe(lambda: e)\na()" if v >= (3, 2) else "log(1)"
        y["except/del"] = "def a():\n try: raise KeyError(2)\n except KeyError as e: f = lambda: e; log(f())\n probe(f)\n probe(lambda: e)\na()" if v >= (3, 2) else "log(1)"
        y["except/mod"] = "e = 5\ntry: raise KeyError(2)\nexcept KeyError as e: log(e)\nprobe(lambda: e)"
    if v >= (3, 4):
        for i, val in enumerate(("1", "None", "0", "'c'")):
            for j, body in enumerate((f"locals()['x'] = {val}\n  y = x", f"exec('x = {val}')\n  y = x", f"y = x\n  locals()['x'] = {val}\n  z = x\n  del locals()['x']\n  w = x")):
                y[f"class/own/{i}/{j}"] = f"def f():\n x = 'f'\n class C(object):\n  {body}\n x = 'g'\n return [C.__dict__.get(n, 'none') for n in 'wxyz']\nlog(f())"
            y[f"class/prepare/{i}"] = f"class M(type):\n @classmethod\n def __prepare__(m, n, b): return {{'x': {val}}}\ndef f():\n x = 'f'\n class C(metaclass=M): y = x\n return (C.x, C.y)\nlog(f())\nx = 'm'\nclass D(metaclass=M): y = x\nlog((D.x, D.y))"
    if v >= (3, 8):
        y["walrus/comp"] = "def f():\n r = [(y := a) for a in (1, 2)]\n return r, y\nlog(f())\nlog([(z := q) + 1 for q in (5, 6)])\nlog(z)\ndef g():\n if (n := 4) > 3: return lambda: n\nlog(g()())"
        y["walrus/global"] = "def f():\n global w\n log([(w := a) for a in (1, 2)])\nf()\nlog(w)"
    return y.items()


def cases(cfg, tier):
    v = cfg[0]
    for family in (fixed_family(v), history_family(v, tier), scope_family(v, cfg[1], tier)):
        for n, (key, src) in enumerate(family):
            if key.startswith("scope"):
                src = shadow(n, src)
            if valid(src, cfg):
                yield key, {"src": src}


def run(cfg, payload):
    src = payload["src"]
    want = native_run(src, extra=extra)
    code = _compiled.get(src) or compile_for(src, cfg)
    return want, vm_run_code(code, cfg, extra)


def stats(payload, want):
    n = len(want["log"])
    return {"states": n + 1, "transitions": n, "traces": 1}
