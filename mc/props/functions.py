"""Function objects: definition, defaults, decorators, attributes, recursion."""

from itertools import product

from gen import ind
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "one program per element of: definition sites x body kinds; histories of calls on a function "
    "with mutable defaults; chains of decorators (returning the function, a wrapper, another "
    "object, or raising) x what is decorated; attribute reads and writes on each kind of function; "
    "recursions of each shape and depth. Distinct: different observation or configuration."
)
BOUNDS = (
    "call histories of length <= 4 over 4 operations; decorator chains of length <= 3 over 6 "
    "decorators x 4 decorated things; 12 attributes x 6 kinds of function; recursion depth <= 60"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference",
    "__defaults__ and __kwdefaults__, which are always empty in this interpreter, are not compared",
]


def configs(tier):
    return cfgs(ALL, PYPY)


def extra(log):
    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    return {"probe": probe}


OPS = ["f()", "f(5)", "f(5, [9])", "f.x.append(1) if hasattr(f, 'x') else 0"]
DECOS = {
    "ident": "@ident", "wrap": "@wrap", "const": "@const", "arg": "@mk(3)", "attr": "@ns.deco",
    "bad": "@bad",
}
DECO_PRE = """def ident(f):
 log(('ident', getattr(f, '__name__', '?')))
 return f
def wrap(f):
 log('wrap')
 def g(*a, **k):
  log('in')
  r = f(*a, **k)
  log('out')
  return (r, 'w')
 return g
def const(f):
 log('const')
 return lambda *a: 42
def mk(n):
 log(('mk', n))
 def d(f):
  log(('mk2', n))
  return lambda *a: (n, f(*a))
 return d
def bad(f):
 log('bad')
 raise KeyError('bad')
class ns(object):
 @staticmethod
 def deco(f):
  log('deco')
  return f
"""
DECORATED = {
    "func": "def h(a=log('default')):\n return ('h', a)\nprobe(lambda: h())",
    "method": None,
    "class": "class h(object):\n x = log('body')\nprobe(lambda: type(h()).__name__)",
    "nested": None,
}
ATTRS = ["__name__", "__doc__", "__class__.__name__ in ('function', 'Function')", "zork",
         "__code__.co_name", "__code__.co_varnames", "__code__.co_argcount", "__module__"]
KINDS = {
    "def": "def f(a, b=2):\n 'doc'\n return a\n",
    "nodoc": "def f(): return 1\n",
    "lambda": "f = lambda x, *y: x\n",
    "nested": "def o():\n def f(a): 'inner doc'\n return f\nf = o()\n",
    "closure": "def o(z):\n def f(a):\n  'inner doc'\n  return (a, z)\n return f\nf = o(1)\n",
    "ann": "def f(a: int, b: 'x' = 3) -> str: return a\n",
    "kwo": "def f(a, *, k=4, l): return a\n",
    "gen": "def f():\n yield 1\n",
}


def cases(cfg, tier):
    v, pypy = cfg
    # defaults are evaluated once, when the def is executed, and kept
    n = 5 if tier != "quick" else 4
    for k in range(1, n + 1):
        for ops in product(range(len(OPS)), repeat=k):
            if k == n and tier == "quick" and (sum(ops) + ALL.index(v)) % 3:
                continue
            src = ("def f(a=t(1, 0), b=t(2, [])):\n b.append(a)\n return (a, len(b), b)\n"
                   + "\n".join(f"log({OPS[o]})" for o in ops))
            yield f"defaults/{''.join(map(str, ops))}", {"src": src}
    yield "defaults/loop", {"src": "fs = []\nfor i in (1, 2, 3):\n def f(a, i=i, l=[]):\n  l.append(a)\n"
                            "  return (a, i, l)\n fs.append(f)\nlog([g(7) for g in fs])\nlog([g(8) for g in fs])"}
    yield "defaults/order", {"src": "def f(a=t(1), b=t(2), c=t(3)): pass\nlog([f(), f()])"}
    yield "defaults/outer", {"src": "x = 1\ndef f(a=x, b=lambda: x): return (a, b())\nx = 2\nlog(f())\ndel x\nprobe(f)\nlog(f(1, lambda: 3))"}
    yield "defaults/shared", {"src": "l = []\ndef f(a=l): a.append(1)\ndef g(a=l): return a\nf()\nf()\nlog(g())\nlog(g() is l)"}
    yield "redefine", {"src": "def f(): return 1\ng = f\ndef f(): return 2\nlog((f(), g()))\nf = 3\nlog((f, g()))"}
    if v >= (3, 1):
        for k in range(3):
            for ops in product(range(3), repeat=k + 1):
                src = ("def f(a=t(1, 0), *, b=t(2, []), c):\n b.append(a)\n return (a, len(b), c)\n"
                       + "\n".join("log(" + ["f(c=1)", "f(5, c=2)", "f(5, b=[9], c=3)"][o] + ")" for o in ops))
                if v >= (3, 4):
                    yield f"kwdefaults/{''.join(map(str, ops))}", {"src": src}
        yield "annotations/order", {"src": "log('a')\ndef f(x: t(1, 1), *y: t(2, 2), z: t(3, 3), **w: t(4, 4)) -> t(5, 5): return x\nlog(sorted(f.__annotations__.items()))"}
        yield "annotations/values", {"src": "def f(x: int, y: 'str' = 4, *, z: [1, 2] = 5) -> None: return (x, y, z)\nlog(sorted(f.__annotations__.items(), key=str))\nlog(f(1))\nlog(f(1, z=3))"}
        yield "annotations/none", {"src": "def f(x): return x\nlog(f.__annotations__)"}
    # decorators
    for k in range(4):
        for ds in product(DECOS, repeat=k):
            if k == 3 and tier == "quick" and (sum(map(len, ds)) + ALL.index(v)) % 4:
                continue
            lines = "".join(DECOS[d] + "\n" for d in ds)
            nm = "-".join(ds)
            yield f"deco/func/{nm}", {"src": DECO_PRE + "def go():\n" + ind(lines + DECORATED["func"]) + "\nprobe(go)"}
            if v >= (2, 6):
                yield f"deco/class/{nm}", {"src": DECO_PRE + "def go():\n" + ind(lines + DECORATED["class"]) + "\nprobe(go)"}
            yield f"deco/method/{nm}", {
                "src": DECO_PRE + "def go():\n class C(object):\n"
                       + ind(lines + "def m(self, a=1):\n return ('m', a)", 2)
                       + "\n if '" + nm + "'.find('const') < 0: log(C().m())\nprobe(go)"}
            yield f"deco/closure/{nm}", {
                "src": DECO_PRE + "def go(z):\n" + ind(lines + "def h(*a): return (z, a)") +
                       "\n z = 9\n return h(1)\nprobe(go, 4)"}
    # attributes
    for kind, src in KINDS.items():
        if kind in ("ann", "kwo") and v < (3, 1):
            continue
        for a in ATTRS:
            if kind == "lambda" and a == "__module__":
                continue
            yield f"attr/{kind}/{a}", {"src": src + f"probe(lambda: f.{a})\nprobe(lambda: getattr(f, 'nope', 5))"}
        yield f"attr/set/{kind}", {
            "src": src + "f.tag = [1]\nlog(f.tag)\nf.tag.append(2)\nlog(f.tag)\ng = f\ng.z = 3\nlog(f.z)\n"
                         "del f.z\nprobe(lambda: f.z)\nf.__doc__ = 'new'\nlog(f.__doc__)\nlog(hasattr(f, 'tag'))"}
        yield f"ident/{kind}", {
            "src": src + "g = f\nlog(g is f)\nlog(f == g)\nlog(f != g)\nd = {f: 1}\nlog(d[g])\nlog(callable(f))\n"
                         "log(f in [g])\nlog(bool(f))\nlog(len(set([f, g])))"}
    # calls
    for d in (1, 2, 5, 30, 60):
        yield f"rec/plain/{d}", {"src": f"def f(n):\n if n == 0: return 0\n return 1 + f(n - 1)\nlog(f({d}))"}
        yield f"rec/mutual/{d}", {"src": f"def e(n):\n if n == 0: return True\n return o(n - 1)\ndef o(n):\n if n == 0: return False\n return e(n - 1)\nlog(e({d}))\nlog(o({d}))"}
        yield f"rec/locals/{d}", {"src": f"def f(n, acc):\n x = n\n acc.append(x)\n if n: f(n - 1, acc)\n acc.append(x)\n return acc\nlog(f({d}, []))"}
        yield f"rec/exc/{d}", {"src": f"def f(n):\n x = n\n try:\n  if n == 0: raise KeyError(0)\n  f(n - 1)\n finally:\n  log(x)\nprobe(f, {d})"}
        yield f"rec/lambda/{d}", {"src": f"Y = lambda f: (lambda x: x(x))(lambda y: f(lambda a: y(y)(a)))\nlog(Y(lambda r: lambda n: 1 if n == 0 else n * r(n - 1))({min(d, 12)}))"
                                  if v >= (2, 5) else "log((lambda f: f(f, 5))(lambda f, n: n and f(f, n - 1)))"}
    yield "rec/ackermann", {"src": "def a(m, n):\n if m == 0: return n + 1\n if n == 0: return a(m - 1, 1)\n return a(m - 1, a(m, n - 1))\nlog(a(2, 2))"}
    yield "rec/callback", {"src": "def f(n):\n if n == 0: return []\n return sorted([n, -n], key=lambda x: (f(n - 1), x)[1]) + list(map(lambda x: x, f(n - 1)))\nlog(f(3))"}
    yield "call/notcallable", {"src": "for x in (1, None, 'a', [], {}, object()):\n probe(lambda: x())\n probe(lambda: x(1, a=2))"}
    yield "return/none", {"src": "def f(): pass\nlog(f())\ndef g(): return\nlog(g())\ndef h(x):\n if x: return 5\nlog((h(0), h(1)))"}
    yield "native/callbacks", {
        "src": "l = [3, 1, 2]\nl.sort(key=lambda x: -x)\nlog(l)\nlog(list(map(lambda x, y: x + y, l, l)))\n"
               "log(list(filter(lambda x: x > 1, l)))\nlog(max(l, key=lambda x: -x))\nlog(sorted('bca', key=lambda c: ord(c)))\n"
               "def bad(x): raise KeyError(x)\nprobe(lambda: sorted(l, key=bad))\nprobe(lambda: list(map(bad, l)))\n"
               "import functools\nlog(functools.reduce(lambda a, b: a * 10 + b, l))\np = functools.partial(lambda a, b, c=3: (a, b, c), 1)\n"
               "log(p(2))\nlog(p(2, c=5))\nprobe(lambda: p())"}


def run(cfg, payload):
    return diff_program(payload["src"], cfg, extra)
