"""Instructions with operands wider than the instruction: EXTENDED_ARG and far jumps."""

import importlib

import harness
from gen import ind
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "prefix family: a case of another property, compiled with 1 to 3 EXTENDED_ARG prefixes on every "
    "instruction that has an operand (a valid encoding of the same program), has to give the same "
    "result; size family: one program per construct x size, the sizes around the limits of 8 and "
    "16 bits. Distinct: different observation or configuration."
)
BOUNDS = (
    "prefix family: a slice of the cases of V01 to V12 (about 60 per property and configuration in "
    "the quick tier, 700 in the thorough one) x 1, 2 or 3 prefixes; size family: 27 constructs x "
    "sizes 3, 127, 128, 254 to 257, 600, 1000 (thorough also up to 65540), where the construct allows"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]

MODS = ["operators", "evalorder", "collections_", "branches", "exceptions", "withs", "binding", "functions",
        "scopes", "generators", "classes", "formatting"]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 4


def body(n):
    return "\n".join(f"x = x + {i % 5}" for i in range(n))


def sized(v):
    """name -> function from size to a program, and the largest size that makes sense"""
    y = {}
    y["consts"] = (lambda n: "s = 0\n" + "\n".join(f"s += {i + 1000}" for i in range(n)) + f"\nlog(s)\nlog({n + 5000})\nlog('c{n}')", 2000)
    y["constlist"] = (lambda n: f"l = [{', '.join(str(i + 1000) for i in range(n))}]\nlog((len(l), l[0], l[-1], l[{n} // 2], sum(l)))", 70000)
    y["consttuple"] = (lambda n: "a = 3\nl = (%s)\nlog((len(l), l[0], l[-1], sum(l)))" % "".join(f"a * {i}," for i in range(n)), 70000)
    y["globals"] = (lambda n: "\n".join(f"g{i} = {i} * 2" for i in range(n)) + "\ns = 0\n" + "\n".join(f"s = s * 3 % 10007 + g{i}" for i in range(n)) + f"\nlog(s)\nlog(g{n - 1})\ndel g{n - 1}\nlog('g{n - 1}' in globals())", 2000)
    y["funcglobals"] = (lambda n: "def f():\n global " + ", ".join(f"g{i}" for i in range(n)) + "\n" + "\n".join(f" g{i} = {i} * 2" for i in range(n)) + "\n s = 0\n" + "\n".join(f" s = s * 3 % 10007 + g{i}" for i in range(n)) + f"\n return s\nlog(f())\nlog(g{n - 1})", 2000)
    y["locals"] = (lambda n: "def f():\n" + "\n".join(f" v{i} = {i} * 3" for i in range(n)) + "\n s = 0\n" + "\n".join(f" s = s * 7 % 10007 + v{i}" for i in range(n)) + f"\n del v{n - 1}\n try: v{n - 1}\n except NameError: log('unbound')\n return s\nlog(f())", 2000)
    y["attrs"] = (lambda n: "class O(object): pass\no = O()\ndef f():\n" + "\n".join(f" o.a{i} = {i}" for i in range(n)) + "\n s = 0\n" + "\n".join(f" s = s * 3 % 10007 + o.a{i}" for i in range(n)) + f"\n del o.a{n - 1}\n return s\nlog(f())\nlog(hasattr(o, 'a{n - 1}'))\nlog(o.a{n - 2})", 2000)
    y["methods"] = (lambda n: "class O(object):\n" + "\n".join(f" def m{i}(self): return {i}" for i in range(n)) + "\no = O()\ndef f():\n s = 0\n" + "\n".join(f" s = s * 3 % 10007 + o.m{i}()" for i in range(n)) + "\n return s\nlog(f())", 700)
    y["cells"] = (lambda n: "def f():\n" + "\n".join(f" c{i} = {i}" for i in range(n)) + "\n def g():\n  return [" + ", ".join(f"c{i}" for i in range(n)) + "]\n return g\nl = f()()\nlog((len(l), l[0], l[-1], sum(l)))", 700)
    y["functions"] = (lambda n: "\n".join(f"def f{i}(): return {i}" for i in range(n)) + f"\nlog((f0(), f{n - 1}(), f{n // 2}()))", 700)
    y["if"] = (lambda n: f"def f(c, x):\n if c:\n{ind(body(n), 2)}\n else:\n{ind(body(n), 2)}\n  x = -x\n return x\nlog((f(1, 2), f(0, 2)))", 20000)
    y["ifelif"] = (lambda n: "def f(c):\n if c == 0: return 'zero'\n" + "\n".join(f" elif c == {i}: return {i} * 2" for i in range(1, n)) + f"\n else: return 'none'\nlog([f(i) for i in (0, 1, {n // 2}, {n - 1}, {n})])", 700)
    y["while"] = (lambda n: f"def f(x):\n k = 0\n while k < 3:\n  k += 1\n  if k == 9: break\n{ind(body(n), 2)}\n  if x < 0: continue\n  x += k\n else:\n  x *= 2\n return x\nlog((f(1), f(-10 ** 9)))", 15000)
    y["for"] = (lambda n: f"def f(x, stop):\n for k in (1, 2, 3):\n  if k == stop: break\n{ind(body(n), 2)}\n  if k == 2: continue\n  x += k\n else:\n  x *= 2\n return x\nlog([f(1, s) for s in (0, 1, 2, 3)])", 15000)
    y["breaklate"] = (lambda n: f"def f(x):\n for k in (1, 2, 3):\n{ind(body(n), 2)}\n  if k == 2: break\n  x += 1\n return (k, x)\nlog(f(1))", 15000)
    y["try"] = (lambda n: f"def f(x, w):\n try:\n  if w == 0: raise KeyError(w)\n{ind(body(n), 2)}\n  if w == 1: raise ValueError(w)\n except KeyError:\n{ind(body(n), 2)}\n  x = -x\n except ValueError:\n  x += 1000\n else:\n{ind(body(n), 2)}\n return x\nlog([f(1, w) for w in (0, 1, 2)])", 10000)
    y["finally"] = (lambda n: f"def f(x, w):\n try:\n  try:\n   if w == 0: raise KeyError(w)\n   if w == 1: return 'ret'\n{ind(body(n), 3)}\n  finally:\n{ind(body(n), 3)}\n   log(x)\n except KeyError:\n  x = -x\n return x\nlog([f(1, w) for w in (0, 1, 2)])", 10000)
    y["boolop"] = (lambda n: "def f(a):\n return a and (" + " + ".join(["a"] * n) + ") or 'none'\nlog((f(2), f(0)))\ndef g(a): return (" + " + ".join(["a"] * n) + ") if a else 'else'\nlog((g(1), g(0)))" if v >= (2, 5) else "def f(a):\n return a and (" + " + ".join(["a"] * n) + ") or 'none'\nlog((f(2), f(0)))", 600)
    y["andchain"] = (lambda n: "def f(k):\n return " + " and ".join(f"k != {i}" for i in range(n)) + f"\nlog((f(0), f(1), f({n - 1}), f({n})))", 600)
    y["args"] = (lambda n: f"def f(*a): return (len(a), a[0], a[-1], sum(a))\nlog(f({', '.join(str(i) for i in range(n))}))", 255 if v < (3, 7) else 600)
    y["params"] = (lambda n: "def f(" + ", ".join(f"a{i}" for i in range(n)) + f"): return (a0, a{n - 1}, locals()['a{n // 2}'])\nlog(f({', '.join(str(i) for i in range(n))}))\nlog(f(*range({n})))", 254)
    y["defaults"] = (lambda n: "def f(" + ", ".join(f"a{i}={i}" for i in range(n)) + f"): return (a0, a{n - 1})\nlog(f())\nlog(f(7))", 254)
    y["list"] = (lambda n: f"a = 1\nl = [{', '.join('a + %d' % i for i in range(n))}]\nlog((len(l), sum(l), l[{n} - 1]))", 65600)
    y["dict"] = (lambda n: "a = 1\nd = {" + ", ".join(f"'k{i}': a + {i}" for i in range(n)) + f"}}\nlog((len(d), d['k0'], d['k{n - 1}'], sum(d.values())))", 2000)
    y["unpack"] = (lambda n: ", ".join(f"u{i}" for i in range(n)) + f" = range({n})\nlog((u0, u{n - 1}, u{n // 2}))", 600)
    y["class"] = (lambda n: "class C(object):\n" + "\n".join(f" x{i} = {i}" for i in range(n)) + f"\nlog((C.x0, C.x{n - 1}))", 600)
    y["genjump"] = (lambda n: f"def f(x):\n for k in (1, 2):\n  yield k\n{ind(body(n), 2)}\n  yield x\nlog(list(f(1)))", 10000)
    if v >= (2, 7):
        y["set"] = (lambda n: f"a = 1\ns = set([0]) and {{{', '.join('a + %d' % i for i in range(n))}}}\nlog((len(s), sum(s)))", 2000)
        y["with"] = (lambda n: "class M(object):\n def __init__(self, s): self.s = s\n def __enter__(self): return 5\n def __exit__(self, *a):\n  log(a[0] is None)\n  return self.s\n"
                     f"def f(x, w):\n with M(w == 2) as y:\n  if w: raise KeyError\n{ind(body(n), 2)}\n  x += y\n return x\nlog(f(1, 0))\nlog(f(1, 2))\ntry: f(1, 1)\nexcept KeyError: log('k')", 10000)
    if v >= (3, 6):
        y["fstring"] = (lambda n: "a = 1\ns = f'" + "".join("{a+%d}-" % i for i in range(n)) + "'\nlog((len(s), s[:20], s[-20:]))", 2000)
    return y


SIZES = [3, 127, 128, 254, 255, 256, 257, 600]
BIG = [129, 258, 1500, 5000, 8190, 10900, 13105, 15000, 21840, 40000, 65534, 65535, 65536, 65540]


def hash_(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) & 0xFFFFFFFF
    return h


COUNTS = {}


def pick(name, cfg, tier, want):
    """An evenly spaced slice of the cases of another property."""
    mod = importlib.import_module("props." + name)
    if cfg not in mod.configs("quick"):
        return
    items = [c for c in mod.cases(cfg, "quick") if not c[0].startswith("debugjump")]
    step = max(1, len(items) // want)
    start = hash_(name + harness.cfg_name(cfg)) % step
    for i in range(start, len(items), step):
        yield items[i]


def cases(cfg, tier):
    v, pypy = cfg
    quick = tier == "quick"
    sizes = SIZES if quick and pypy else SIZES + [1000] if quick else SIZES + BIG
    for name, (make, top) in sized(v).items():
        for n in sizes:
            if n > top:
                continue
            yield f"size/{name}/{n}", {"size": (name, n)}
        if quick and not pypy and top > 5000 and v in ((2, 4), (2, 7), (3, 5), (3, 8), (3, 10)):
            # far enough for 16 bits
            yield f"size/{name}/{7000 if top < 60000 else 65540}", {"size": (name, 7000 if top < 60000 else 65540)}
    for name in MODS:
        for j, (key, payload) in enumerate(pick(name, cfg, tier, 60 if quick else 700)):
            ext = 1 + j % 3
            yield f"ext{ext}/{name}/{key}", {"mod": name, "ext": ext, "payload": payload}


def extra(log):
    return {}


def run(cfg, payload):
    if "size" in payload:
        name, n = payload["size"]
        return diff_program(sized(cfg[0])[name][0](n), cfg, extra)
    mod = importlib.import_module("props." + payload["mod"])
    for c in ("_codes", "_compiled"):
        if hasattr(mod, c):
            getattr(mod, c).clear()
    harness.FORCE_EXT = payload["ext"] if cfg[0] >= (3, 6) else min(payload["ext"], 1)
    try:
        return mod.run(cfg, payload["payload"])
    finally:
        harness.FORCE_EXT = 0
