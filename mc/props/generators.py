"""Generators: histories of operations on them."""

from itertools import product

from harness import ALL, PYPY, cfgs, compile_for, native_run, vm_run_code

LEVEL = "model_checking"
RULE = (
    "a case is a generator body and a history of operations on two generators made from it (next, "
    "send, next on the other, a for loop left after one value, list, unpacking). State: the two "
    "generators after a prefix of a history; transition: one operation; trace: one history, "
    "executed and compared on the interpreter and the reference."
)
BOUNDS = (
    "all histories of length <= 3 over 6 operations, of length 4 and 5 over next, send and next on "
    "the other, sending 7, 0, None, '' or 5 by position (quick: length 5, and in PyPy variants length 3 and more, in a rotation of 1/20 and 1/9); "
    "about 60 generator bodies"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference, with the rule of before 3.7 that a "
    "StopIteration ends a generator",
    "throw() and close(), which this interpreter does not have, are not used",
]

_keep = []


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


DRIVER = """
def loop(g):
 for q in g:
  return ('first', q)
 return 'none'
def unpack(g):
 m, n = g
 return (m, n)
def drive(a, b):
 sent = [7, 0, None, '', 5]
 for o in ops:
  v = sent.pop(0)
  if o == 'N': nx(a)
  elif o == 'S': snd(a, v)
  elif o == 'M': nx(b)
  elif o == 'F': probe(loop, a)
  elif o == 'L': probe(list, a)
  elif o == 'U': probe(unpack, a)
 log('end')
a, b = keep(G()), keep(G())
log(iter(a) is a)
log(a is b)
drive(a, b)
"""


def make_extra(ops):
    def extra(log):
        def probe(f, *a):
            try:
                r = f(*a)
            except Exception as e:
                r = ("raised", type(e).__name__)
            log(r)

        def nx(g):
            try:
                log(("next", next(g)))
            except StopIteration as e:
                log(("stop", e.value))
            except Exception as e:
                log(("raised", type(e).__name__))

        def snd(g, v):
            try:
                log(("sent", g.send(v)))
            except StopIteration as e:
                log(("stop", e.value))
            except Exception as e:
                log(("raised", type(e).__name__))

        def keep(g):
            _keep.append(g)
            return g

        def native_gen(*vals):
            def gen():
                for v in vals:
                    r = yield v
                    log(("native got", r))
                return "nret"
            return keep(gen())

        class NativeIter(object):
            def __init__(self, n):
                self.n = n

            def __iter__(self):
                return self

            def __next__(self):
                self.n -= 1
                if self.n < 0:
                    raise StopIteration("nival")
                return self.n

        return {"probe": probe, "nx": nx, "snd": snd, "keep": keep, "native_gen": native_gen,
                "NativeIter": NativeIter, "ops": ops}

    return extra


CM = """class CM(object):
 def __init__(self, k, s=False):
  self.k = k
  self.s = s
 def __enter__(self):
  log(('enter', self.k))
  return self.k
 def __exit__(self, t, v, tb):
  log(('exit', self.k, t is not None and t.__name__))
  return self.s
"""

# name: (since, body of the module which defines G)
BODIES = {
    "simple": (24, "def G():\n yield 1\n yield 2\n yield 3"),
    "empty": (24, "def G():\n if 0: yield 1"),
    "emptyret": (24, "def G():\n log('run')\n return\n yield 1"),
    "while": (24, "def G():\n n = 0\n while n < 3:\n  yield n\n  n = n + 1\n log(n)"),
    "infinite": (24, "def G():\n n = 0\n while n < 30:\n  n += 1\n  if n % 3: continue\n  yield n"),
    "for": (24, "def G():\n for i in [1, 2, 3]:\n  for j in 'ab':\n   yield (i, j)\n  else:\n   log('else')"),
    "args": (24, "def H(a, b=2, *c, **d):\n yield a\n yield b\n yield c\n yield sorted(d.items())\ndef G(): return H(1, 5, 6, x=7)"),
    "method": (24, "class C(object):\n n = 0\n def g(self, k):\n  while self.n < k:\n   self.n += 1\n   yield self.n\no = C()\ndef G(): return o.g(4)"),
    "closure": (24, "def mk():\n c = [0]\n def g():\n  while c[0] < 5:\n   c[0] += 1\n   yield c[0]\n return g\nG = mk()"),
    "global": (24, "x = 0\ndef G():\n global x\n while x < 5:\n  x += 1\n  yield x"),
    "default": (24, "def G(l=[]):\n l.append(len(l))\n yield list(l)\n l.append('z')\n yield list(l)"),
    "raise": (24, "def G():\n yield 1\n raise KeyError(2)\n yield 3"),
    "raisefirst": (24, "def G():\n raise KeyError(2)\n yield 3"),
    "nameerror": (24, "def G():\n yield 1\n yield nope"),
    "zerodiv": (24, "def G():\n for i in (1, 0, 2):\n  yield 1 // i"),
    "except": (24, "def G():\n for i in (1, 0, 2):\n  try:\n   x = 4 // i\n  except ZeroDivisionError:\n   x = 'inf'\n  yield x"),
    "exceptyield": (25, "def G():\n try:\n  yield 1\n  raise KeyError(2)\n except KeyError:\n  yield 3\n yield 4"),
    "exceptelse": (25, "def G():\n try:\n  yield 1\n except KeyError:\n  yield 2\n else:\n  yield 3\n yield 4"),
    "finally": (25, "def G():\n try:\n  yield 1\n  yield 2\n finally:\n  log('fin')\n yield 3"),
    "finallyyield": (25, "def G():\n try:\n  yield 1\n finally:\n  yield 2\n yield 3"),
    "finallyret": (25, "def G():\n try:\n  yield 1\n  return\n finally:\n  log('fin')\n  yield 2\n  log('fin2')"),
    "finallyraise": (25, "def G():\n try:\n  yield 1\n  raise KeyError(1)\n finally:\n  yield 2\n yield 3"),
    "finallyloop": (25, "def G():\n for i in (1, 2, 3):\n  try:\n   yield i\n   if i == 2: continue\n   yield 'n'\n  finally:\n   log(i)\n  yield 'z'" ),
    "finallybreak": (25, "def G():\n for i in (1, 2, 3):\n  try:\n   yield i\n   if i == 2: break\n  finally:\n   log(i)\n   yield ('f', i)\n yield 'end'"),
    "with": (26, CM + "def G():\n with CM(1) as k:\n  yield k\n  yield 'in'\n yield 'out'"),
    "withraise": (26, CM + "def G():\n with CM(1, True):\n  with CM(2):\n   yield 'in'\n   raise KeyError(1)\n yield 'out'"),
    "withret": (26, CM + "def G():\n for i in (1, 2):\n  with CM(i):\n   yield i\n   if i == 2: return\n yield 'out'"),
    "withbreak": (26, CM + "def G():\n for i in (1, 2, 3):\n  with CM(i):\n   yield i\n   if i == 1: continue\n   if i == 2: break\n yield 'out'"),
    "recv": (25, "def G():\n x = yield 1\n log(x)\n y = yield x\n log((x, y))"),
    "recvloop": (25, "def G():\n t = 0\n while t < 20:\n  v = yield t\n  if v is None: v = 1\n  t += v"),
    "stack": (25, "def G():\n l = [(yield 1), 'm', (yield 2)]\n log(l)\n d = {'a': (yield 3)}\n yield (l, d)"),
    "stackcall": (25, "def f(*a, **k): return (a, sorted(k.items()))\ndef G():\n yield f((yield 1), 5, k=(yield 2))"),
    "nested": (25, "def G():\n x = yield (yield (yield 1))\n log(x)"),
    "arith": (25, "def G():\n x = 10 + ((yield 1) or 2) * 3\n x += (yield x) or 100\n yield x"),
    "cmp": (25, "def G():\n log(1 < ((yield 1) or 2) < 5)\n yield (0 and (yield 2)) or (yield 3)"),
    "subscr": (25, "def G():\n l = [1, 2, 3]\n l[(yield 0) and 1 or 0] = yield 'v'\n yield l"),
    "lambda": (25, "G = lambda: [(yield 1), (yield 2)]"),
    "inner": (24, "def I(n):\n for i in range(n):\n  log(('I', i))\n  yield i\ndef G():\n for x in I(3):\n  yield x * 2\n yield 'end'"),
    "pipeline": (24, "def S():\n for i in (1, 2, 3, 4, 5): yield i\ndef E(s):\n for i in s:\n  if i % 2: yield i\ndef D(s):\n for i in s: yield (i, i)\ndef G(): return D(E(S()))"),
    "recursive": (24, "T = (1, (2, (), ()), (3, (4, (), ()), ()))\ndef W(t):\n if t:\n  for x in W(t[1]): yield x\n  yield t[0]\n  for x in W(t[2]): yield x\ndef G(): return W(T)"),
    "shared": (24, "def S():\n for i in (1, 2, 3, 4): yield i\ns = keep(S())\ndef G():\n for x in s: yield x"),
    "innerraise": (24, "def I():\n yield 1\n raise KeyError(5)\ndef G():\n try:\n  for x in I():\n   log(x)\n except KeyError:\n  log('caught')\n yield 'x'\n yield 'y'"),
    "reenter": (24, "def G():\n yield 1\n nx(a)\n yield 2"),
    "other": (24, "def G():\n yield 1\n if a is not b: nx(b)\n yield 2"),
    "genexp": (24, "def G(): return (x * 2 for x in [1, 2, 3] if x != 2)"),
    "genexp2": (24, "def G():\n n = 10\n g = ((i, j, n) for i in (1, 2) for j in (i, n))\n n = 20\n return g"),
    "genexpfirst": (24, "def first():\n log('first')\n return [1, 2]\ndef G():\n g = (log(i) for i in first() for j in (log('j'), 3))\n log('made')\n return g"),
    "genexpraise": (24, "def G(): return (6 // i for i in (1, 0, 2))"),
    "genexpnest": (24, "def G(): return (list(k for k in range(i)) for i in (0, 1, 2))"),
    "genexpgen": (24, "def I():\n yield 1\n log('mid')\n yield 2\ndef G(): return (x for x in I())"),
    "localsliv": (24, "def G(x=1):\n y = [x]\n for i in 'ab':\n  y.append(i)\n  yield list(y)\n  x = x + 1\n yield x"),
    "nextdef": (24, "def I():\n yield 1\n yield 2\ndef G():\n i = keep(I())\n for x in i:\n  for z in i:\n   yield (x, z)"),
    "listcomp": (24, "def G():\n for l in [[k + i for k in (1, 2)] for i in (10, 20)]: yield l"),
    "stopraise": (24, "def G():\n yield 1\n raise StopIteration"),
    "stopnested": (24, "def stop(): raise StopIteration\ndef G():\n yield 1\n stop()\n yield 2"),
    "stopcaught": (24, "def G():\n try: raise StopIteration\n except StopIteration: log('c')\n yield 1"),
    "stopfinally": (25, "def G():\n try:\n  yield 1\n  raise StopIteration\n finally:\n  log('f')"),
    "return": (33, "def G():\n x = yield 1\n return (x, 'r')"),
    "returnfin": (33, "def G():\n try:\n  yield 1\n  return 'r'\n finally:\n  yield 2\n return 'never'"),
    "returnover": (33, "def G():\n try:\n  yield 1\n  return 'r'\n finally:\n  return 'f'"),
    "fromlist": (33, "def G():\n r = yield from [1, 2, 3]\n log(r)\n yield 4"),
    "fromempty": (33, "def G():\n log((yield from []))\n log((yield from ()))\n yield 1"),
    "fromgen": (33, "def I():\n x = yield 1\n log(('I', x))\n y = yield 2\n return (x, y)\ndef G():\n r = yield from I()\n log(r)\n yield 3\n return r"),
    "fromgen2": (33, "def J():\n r = yield 'j'\n return ('J', r)\ndef I():\n r = yield from J()\n q = yield 'i'\n return (r, q)\ndef G():\n r = yield from I()\n yield r"),
    "fromnative": (33, "def G():\n r = yield from native_gen(1, 2)\n log(r)\n yield 3"),
    "fromiter": (33, "def G():\n r = yield from NativeIter(2)\n log(r)\n yield 3"),
    "fromuser": (33, "class It(object):\n n = 3\n def __iter__(self): return self\n def __next__(self):\n  self.n -= 1\n  if not self.n: raise StopIteration('u')\n  return self.n\ndef G():\n r = yield from It()\n log(r)\n yield 'e'"),
    "fromraise": (33, "def I():\n yield 1\n raise KeyError(5)\ndef G():\n try:\n  yield from I()\n except KeyError: log('caught')\n yield 2"),
    "fromfin": (33, "def I():\n try:\n  yield 1\n  yield 2\n finally: log('fin')\ndef G():\n yield from I()\n yield 3"),
    "frombad": (33, "def G():\n yield 1\n yield from 5"),
    "fromtwice": (33, "s = keep(iter([1, 2, 3, 4]))\ndef G():\n yield from s\n yield 'x'"),
    "fromloop": (33, "def I(n):\n for i in range(n):\n  v = yield (n, i)\n  log(v)\n return n\ndef G():\n t = []\n for n in (0, 1, 2):\n  t.append((yield from I(n)))\n return t"),
    "fromstack": (33, "def I(n):\n v = yield n\n return v\ndef G():\n log([5, (yield from I(1)), (yield from I(2)) or 6])\n yield 'e'"),
    "fromgenexp": (33, "def G():\n yield from (x * x for x in (1, 2, 3))"),
    "fromwith": (33, CM + "def I():\n with CM(1):\n  yield 1\n  yield 2\ndef G():\n with CM(0):\n  yield from I()\n yield 3"),
    "unstarted": (24, "def I():\n log('I')\n yield 1\ndef G():\n i = I()\n log('G')\n yield 1\n for x in i: yield x"),
    "rec": (33, "T = (1, (2, (), ()), (3, (4, (), ()), ()))\ndef W(t):\n if t:\n  yield from W(t[1])\n  yield t[0]\n  yield from W(t[2])\ndef G(): return W(T)"),
    "fstr": (36, "def G():\n x = f'{(yield 1)}-{(yield 2)!r}'\n yield x"),
    "starcall": (35, "def f(*a): return a\ndef G():\n yield f(*[1, (yield 1)], (yield 2))\n yield [*((yield 3) or ()), 4]"),
    "walrus": (38, "def G():\n if (x := (yield 1)) is None: yield x\n yield (x, 2)"),
    "excstate": (25, "def G():\n yield 1\n yield 2\ndef f():\n g = keep(G())\n try: raise KeyError(1)\n except KeyError:\n  nx(g)\n  try: raise\n  except KeyError: log('same')\n nx(g)\nf()"),
}


def histories(tier, v, pypy):
    turn = ALL.index(v)
    i = 0
    for n in (1, 2, 3):
        for ops in product("NSMFLU", repeat=n):
            i += 1
            if tier == "quick" and pypy and n == 3 and (i + turn) % 9:
                continue
            yield "".join(ops)
    for n in (4, 5):
        for ops in product("NSM", repeat=n):
            i += 1
            if tier == "quick" and (n == 5 or pypy) and (i + turn) % (20 if n == 5 else 10):
                continue
            yield "".join(ops)
    if tier != "quick":
        for ops in product("NSMFLU", repeat=4):
            if i % 2 == 0:
                yield "".join(ops)
            i += 1


def cases(cfg, tier):
    v, pypy = cfg
    hs = list(histories(tier, v, pypy))
    for name, (since, src) in BODIES.items():
        if v < divmod(since, 10):
            continue
        if v < (2, 5):
            mine = sorted(set(h.replace("S", "N") for h in hs))
        else:
            mine = hs
        for h in mine:
            yield f"{name}/{h}", {"src": src + DRIVER, "ops": h}


_codes = {}


def run(cfg, payload):
    src = payload["src"]
    _keep.clear()
    if src not in _codes:
        _codes.clear()
        ref = src
        if cfg[0] < (3, 7):
            ref = src.replace("def stop(): raise StopIteration\n", "").replace(" stop()\n", " return\n")
            if "except StopIteration" not in src:
                ref = ref.replace("raise StopIteration\n", "return\n").replace("raise StopIteration('u')", "raise  StopIteration('u')")
        _codes[src] = compile(ref, "prog", "exec"), compile_for(src, cfg)
    ref, code = _codes[src]
    extra = make_extra(payload["ops"])
    want = native_run(ref, extra=extra)
    got = vm_run_code(code, cfg, extra)
    return want, got


def stats(payload, want):
    n = len(payload["ops"])
    return {"states": n + 1, "transitions": n, "traces": 1}
