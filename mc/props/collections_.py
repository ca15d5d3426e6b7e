"""Displays, subscripts and slices, unpacking and comprehensions."""

from gen import chunks, ind, prod, supports
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "one program per element of the enumerated families (displays by arity and "
    "star positions; slices by (start, stop, step) and container and access; "
    "unpacking by target pattern and iterable; comprehensions by kind, loops and "
    "conditions); each logs every value it makes or the type of the exception. "
    "Distinct: different observation or configuration."
)
BOUNDS = (
    "displays of up to 4 elements, all star patterns; slice parameters from {absent, "
    "None, -4, -1, 0, 1, 2, 3, 9} (step without 0 as well as 0), on list, tuple, str and "
    "a logging object, reading, assigning, deleting and augmenting; 12 target patterns x "
    "29 iterables; comprehensions of 4 kinds x 9 shapes x 3 nestings; containers with "
    "260 elements"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]


def configs(tier):
    return cfgs(ALL, PYPY)


def extra(log):
    class It(object):
        """An iterable of n that logs, and raises after r elements."""

        def __init__(self, n, r=None):
            self.n, self.r = n, r

        def __iter__(self):
            log("iter")
            for i in range(self.n):
                if i == self.r:
                    raise KeyError(i)
                log(("next", i))
                yield i

    class Seq(object):
        """Old-style iteration by __getitem__."""

        def __getitem__(self, i):
            log(("item", i))
            if i >= 2:
                raise IndexError
            return i * 10

    class Sl(object):
        def __getitem__(self, i):
            log(("get", i))
            return [7]

        def __setitem__(self, i, v):
            log(("set", i, v))

        def __delitem__(self, i):
            log(("del", i))

    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    return {"It": It, "Seq": Seq, "Sl": Sl, "probe": probe}


VALUES = ["None", "0", "''", "7"]
IDX = [None, "None", "-4", "-1", "0", "1", "2", "3", "9"]

PATTERNS = ["a, b", "a,", "[a]", "a, b, c", "(a, b), c", "a, (b, c)", "a, (b,), c",
            "(a, (b, c)), d", "[a, [b, c]]", "a, b, c, d", "((a, b),)", "o.a, o.b"]
ITERS = ["()", "(1,)", "(1, 2)", "[1, 2]", "[1, 2, 3]", "'ab'", "''", "((1, 2), 3)",
         "(1, (2, 3))", "[1, [2], 3]", "It(1)", "It(2)", "It(3)", "It(5)", "It(3, 1)", "Seq()",
         "{'x': 1, 'y': 2}", "5", "None", "((1, (2, 3)), 4)", "iter([1, 2])", "range(3)",
         "range(4)", "['ab', 'c']", "[(1, 2)]", "(x for x in (1, 2))", "map(str, (1, 2))", "(None, 0)", "['', None, 0]"]


STARRED = ["[]", "()", "''", "5", "None", "[('b', 1)]", "[['b', 1]]", "(('b', 1),)", "['bc']", "'bc'", "{'b': 2}", "{'b', 'c'}", "iter([('b', 3)])", "K(0)", "K(1)", "K(2)", "K(3)", "K(4)",
           "J(1)", "J(2)", "D(b=1)", "D2(b=1)", "range(2)", "(i for i in 'pq')", "dict.fromkeys('xyz').items()", "type", "dict", "{}"]
STARRED_PRE = """class K(object):
 def __init__(s, n): s.n = n
 def keys(s):
  log('keys')
  if s.n == 1: raise KeyError(1)
  if s.n == 2: return 5
  if s.n == 3: raise AttributeError(3)
  return ['p', 'q']
 def __getitem__(s, k):
  log(('get', k))
  if s.n == 4 or not isinstance(k, str): raise IndexError(4)
  return k * 2
class J(object):
 def __init__(s, n): s.n = n
 def __getattr__(s, a):
  log(('attr', a))
  if s.n == 2 and a == 'keys': return lambda: ['z']
  raise AttributeError(a)
class D(dict):
 def keys(s): log('keys'); return ['z']
class D2(dict):
 def __getitem__(s, k): log('get'); return 8
"""


def cases(cfg, tier):
    v, pypy = cfg
    # displays
    for kind, (l, r) in {"list": "[]", "tuple": "()", "set": "{}", "dict": "{}"}.items():
        if kind == "set" and v < (2, 7):
            continue
        for n in range(5):
            if kind == "set" and n == 0:
                continue
            for stars in prod((0, 1), repeat=n):
                if sum(stars) and v < (3, 5):
                    continue
                for const in (0, 1):
                    els = []
                    for i, s in enumerate(stars):
                        leaf = VALUES[i] if const else f"t({i}, {VALUES[i]})"
                        if kind == "dict":
                            leaf = (f"**{{'s{i}': {leaf}, 'k0': {i}}}" if s
                                    else f"'k{i}': {leaf}")
                        elif s:
                            leaf = f"*({leaf}, 'x{i}', 1)"
                        els.append(leaf)
                    body = ", ".join(els) + ("," if kind == "tuple" and n == 1 else "")
                    st = "".join(map(str, stars))
                    yield (f"display/{kind}/{n}/{st}/{const}",
                           {"src": f"x = {l}{body}{r}\nlog(x)\nlog(len(x))\n"
                                   f"def f(): return {l}{body}{r}\nprobe(f)\nlog(f() is f())"
                            if not (const and kind == "tuple") else
                            f"x = {l}{body}{r}\nlog(x)"})
    for n in (7, 255, 256, 260):
        seq = ", ".join(f"t({i % 7}, {i})" for i in range(n))
        yield f"display/wide/{n}", {"src": f"log([{seq}])\nlog(({seq}))"}
        d = ", ".join(f"{i}: t({i % 5}, {i})" for i in range(n))
        if v >= (3, 5):
            yield f"display/widedict/{n}", {"src": f"log({{{d}}})"}
    yield "display/dupkeys", {"src": "log({1: 'a', 1.0: 'b', True: 'c'})\nlog({0: 1, 'a': 2, 0: 3})"}
    yield "display/unhashable", {"src": "def f(): return {[]: 1}\nprobe(f)"
                                 + ("\ndef g(): return {1, []}\nprobe(g)" if v >= (2, 7) else "")}
    if v >= (3, 5):
        for bad in ("[*5]", "(*None, 1)", "{*3}", "{**[1]}", "{**None}", "{*'ab', *()}",
                    "[*It(2), *It(1), *Seq()]", "{**{}, **{}}", "{*It(3, 1)}", "[*It(3, 2)]",
                    "{**{'a': 1}, 'a': 2}", "{'a': 2, **{'a': 1}}", "[*{'p': 1}]", "[*'xy', *b'z']"):
            yield f"display/star/{bad}", {"src": f"def f(): return {bad}\nprobe(f)"}
        for x in STARRED:
            for form in ("{**X}", "{'a': 0, **X}", "{**X, 'a': 0}", "{**{'b': 7}, **X}", "{**X, **X}", "[*X]", "(*X, 1)", "{0, *X}", "[*X, *X]", "(*(), *X)"):
                yield f"display/starred/{form}/{x}", {"src": STARRED_PRE + f"def f(): return {form.replace('X', x)}\nprobe(f)"}
    # slices
    for cont in ("list(range(5))", "(0, 1, 2, 3, 4)", "'abcde'", "Sl()"):
        for step in [None, "2", "-1", "1", "None", "0"]:
            if v < (3, 0) and cont == "Sl()" and step is None:
                continue  # __getslice__() and friends of 2.x
            for a in IDX:
                lines = [f"def mk(): return {cont}"]
                for b in IDX:
                    s = (a or "") + ":" + (b or "") + ("" if step is None else ":" + step)
                    lines.append(f"def f(c): return c[{s}]\nprobe(f, mk())")
                    if cont[0] in "lS" and a != "-4":
                        lines.append(f"def f(c):\n c[{s}] = [7, 8]\n return c\nprobe(f, mk())")
                        lines.append(f"def f(c):\n del c[{s}]\n return c\nprobe(f, mk())")
                        if b != "9":
                            lines.append(f"def f(c):\n c[{s}] += [9]\n return c\nprobe(f, mk())")
                yield f"slice/{cont}/{step}/{a}", {"src": "\n".join(lines)}
    for cont in ("[1, 2]", "(1, 2)", "'ab'", "{'a': 1, 0: 2}", "5", "None"):
        lines = []
        for i in ("0", "1", "-1", "2", "'a'", "None", "(0, 1)", "True", "1.0", "[]", "...", "Sl()"):
            lines.append(f"def f(c, i): return c[i]\nprobe(f, {cont}, {i})")
            lines.append(f"def f(c, i): c[i] = 5; return c\nprobe(f, {cont}, {i})")
            lines.append(f"def f(c, i): del c[i]; return c\nprobe(f, {cont}, {i})")
            lines.append(f"def f(c, i): c[i] += 5; return c\nprobe(f, {cont}, {i})")
            if i[0] in "0-'":
                lines.append(f"def f(c): return c[{i}]\nprobe(f, {cont})")
        yield f"subscript/{cont}", {"src": "\n".join(lines)}
    for s in ("1:2, 3", "1:2, ::3", "(1, 2)", "1, ", "..., 1", ":, :", "1:2:3, 4:5"):
        yield (f"extslice/{s}", {"src": f"s = Sl()\nlog(s[{s}])\ns[{s}] = 1\ndel s[{s}]\ns[{s}] += [3]"})
    # unpacking
    for p in PATTERNS:
        names = [c for c in "abcd" if c in p] if "o." not in p else ["o.a", "o.b"]
        lines = ["class O(object): pass\no = O()"]
        for it in ITERS:
            lines.append(
                f"def f():\n {' = '.join(n for n in names if '.' not in n) or 'z'} = 'unset'\n"
                f" try:\n  {p} = {it}\n except Exception:\n  log('bad')\n"
                f" return [{', '.join(names) if '.' not in names[0] else 'sorted(o.__dict__.items())'}]\n"
                f"probe(f)")
            if "(" not in p and "[" not in p:
                lines.append(f"def f():\n for {p} in [{it}]: log('body')\n return ({names[0]},)\nprobe(f)")
        yield f"unpack/{p}", {"src": "\n".join(lines)}
    for n in (1, 3, 255, 256, 257):
        names = ", ".join(f"a{i}" for i in range(n))
        yield (f"unpack/wide/{n}",
               {"src": f"({names},) = range({n})\nlog([{names}])\n"
                       f"def f():\n ({names},) = range({n - 1})\nprobe(f)\n"
                       f"def f():\n ({names},) = range({n + 1})\nprobe(f)"})
    for m in range(1, 5):
        # parallel assignment: the compiler rotates up to three values
        for perm in prod(range(m), repeat=m):
            tgt = ", ".join(f"x{i}" for i in range(m)) + ","
            val = ", ".join(f"x{i}" for i in perm) + ","
            init = "\n".join(f"x{i} = {i}" for i in range(m))
            yield (f"parallel/{m}/{perm}",
                   {"src": f"{init}\n{tgt} = {val}\nlog(({tgt}))\n"
                           f"def f():\n{ind(init)}\n {tgt} = {val}\n return ({tgt})\nprobe(f)"})
    # comprehensions
    shapes = {
        "for": "for x in {A}", "if": "for x in {A} if x % 2", "ifif": "for x in {A} if x if x > 1",
        "forfor": "for x in {A} for y in {B}", "forif": "for x in {A} if x for y in {B}",
        "forforif": "for x in {A} for y in {B} if x != y", "dep": "for x in {A} for y in range(x)",
        "unp": "for x, y in zip({A}, {B})", "ifor": "for x in {A} if x == 1 or t(x, x) and not x % 3",
    }
    kinds = {"list": ("[", "]"), "gen": ("list(", ")")}
    if v >= (2, 7):
        kinds["set"] = ("{", "}")
        kinds["dict"] = ("{", "}")
    for k, (l, r) in kinds.items():
        for sn, sh in shapes.items():
            for sub in (None, "list", "gen"):
                elt = "(x, y)" if " y" in sh and sn not in ("forif",) else "x"
                if sn == "forif":
                    elt = "(x, y)"
                if sub == "list":
                    elt = f"({elt}, tuple([z + x for z in (1, 2) if z != x]))"
                elif sub == "gen":
                    elt = f"({elt}, tuple(z * x for z in (1, 2)))"
                if k == "dict" and v < (3, 8):
                    elt = f"x: {elt}"  # the value is evaluated first
                elif k == "dict":
                    elt = f"t(1, x): t(2, {elt})"
                loops = sh.format(A="It(4)", B="(0, 1, 2)")
                yield (f"comp/{k}/{sn}/{sub}",
                       {"src": f"log({l}{elt} {loops}{r})\n"
                               f"def f(p): return {l}{elt} {sh.format(A='range(p)', B='(p, 1)')}{r}\n"
                               f"probe(f, 3)\nlog(f(0))\n"
                               f"def g(p):\n q = 5\n def h(): return {l}{elt.replace('x', '(x, p, q)', 1) if k != 'dict' else elt} "
                               f"{sh.format(A='It(p)', B='(q, p)')}{r}\n return h()\nprobe(g, 3)\nprobe(g, None)"})
    for k, (l, r) in kinds.items():
        e = "x: x" if k == "dict" else "x"
        for it in ITERS:
            yield (f"compiter/{k}/{it}",
                   {"src": f"def f(): return {l}{e} for x in {it}{r}\nprobe(f)"})
    for k, (l, r) in kinds.items():
        e = "x: 1 // (2 - x)" if k == "dict" else "1 // (2 - x)"
        yield (f"compraise/{k}",
               {"src": f"def f(): return {l}{e} for x in It(4){r}\nprobe(f)\n"
                       f"try:\n {l}{e} for x in It(4){r}\nexcept ZeroDivisionError:\n log('z')"})
    if v >= (3, 0):
        yield ("comp/scope", {"src": "x = 'outer'\nlog([x for x in (1, 2)])\nlog(x)\n"
                                     "def f():\n x = 5\n z = [lambda: x for x in (1, 2)]\n"
                                     " return [q() for q in z] + [x]\nprobe(f)\n"
                                     "def g():\n z = [[y for y in (x, x)] for x in (1, 2)]\n return z\nprobe(g)\n"
                                     "class C(object):\n a = 3\n b = [i for i in range(a)]\nlog(C.b)"})


def run(cfg, payload):
    return diff_program(payload["src"], cfg, extra)


def nontrivial(want):
    return bool(want["log"])
