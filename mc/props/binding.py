"""Binding of call arguments to parameters."""

from itertools import combinations, product

from gen import chunks
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "a case is one signature and a run of call shapes (positional count x keyword names x "
    "*iterable x **mapping), called through one kind of callable; logged per call: the value of "
    "every parameter, or the type of the exception (given family: what iteration and keys() logged too). Distinct: different observation or configuration."
)
BOUNDS = (
    "signatures: 0-3 positional parameters x number of defaults x *args x **kw x 0-2 keyword-only "
    "with and without default (3.x) x positional-only (3.8+); calls: 0-4 positional x keyword sets "
    "of size <= 2 from 5 names (3 thorough) x star {none, 0, 1, 2 elements, iterator, not iterable} "
    "x double star {none, empty, matching, not matching, clashing, not a string key}; callables: "
    "function, bound and unbound method, static and class method, class, lambda, closure, native "
    "callable, instance with __call__; given: 19 objects after ** x 10 forms and 19 after * x 9 forms, x 9 callables"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


def extra(log):
    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    def native(*a, **k):
        return ("native", a, sorted(k.items()))

    class NativeObj(object):
        def __init__(self, *a, **k):
            self.got = (a, sorted(k.items()))

        def m(self, x, y=2, *r, **k):
            return (x, y, r, sorted(k.items()))

    return {"probe": probe, "native": native, "NativeObj": NativeObj,
            "sdict": lambda *a, **k: sorted(dict(*a, **k).items())}


def signatures(v, tier):
    """(parameter list, names to return)"""
    for npos in range(4):
        names = "abc"[:npos]
        for ndef in range(npos + 1):
            for star in ("", "*args", "*"):
                if star == "*" and v < (3, 0):
                    continue
                for kwo in ((), ("k",), ("k=7",), ("k", "l=None"), ("k=0", "l")):
                    if kwo and (v < (3, 0) or not star):
                        continue
                    if star == "*" and not kwo:
                        continue
                    for kw in ("", "**kw"):
                        for po in ([0] if v < (3, 8) else range(min(npos, 2) + 1)):
                            ps = [n if i < npos - ndef else f"{n}={(10, None, 0)[i]}" for i, n in enumerate(names)]
                            if po:
                                ps.insert(po, "/")
                            ps += [star] if star else []
                            ps += kwo
                            ps += [kw] if kw else []
                            ret = list(names) + (["args"] if star == "*args" else [])
                            ret += [k[0] for k in kwo] + (["sorted(kw.items())"] if kw else [])
                            yield ", ".join(ps), "(" + "".join(r + ", " for r in ret) + ")"


STARS = ["", "*()", "*(21,)", "*[0, None]", "*iter((21,))", "*'xy'", "*5"]
DSTARS = ["", "**{}", "**{'a': 31}", "**{'b': None, 'z': 32}", "**{'k': 33}", "**{'l': 3, 'c': 4}",
          "**{5: 1}", "**5", "**M()"]


KWVALUES = (40, None, 0)


def calls(v, tier):
    names = ["a", "b", "c", "k", "z"]
    kwsets = [c for n in range(3 if tier == "quick" else 4) for c in combinations(names, n)]
    for n in range(5):
        for ks in kwsets:
            for st in STARS:
                for ds in DSTARS:
                    if st and ds and (tier == "quick" or len(ks) > 2) and (n + len(ks)) % 2:
                        continue
                    a = [str(i + 1) for i in range(n)]
                    if v >= (3, 5) or not st:
                        a += [st] if st else []
                        a += [f"{k}={KWVALUES[i]}" for i, k in enumerate(ks)]
                    else:
                        # (before 3.5, keywords come before *iterable in the source too,
                        # which makes no difference to the bytecode)
                        a += [st] + [f"{k}={KWVALUES[i]}" for i, k in enumerate(ks)]
                    a += [ds] if ds else []
                    yield ", ".join(a)


KINDS = {
    "function": "def f({sig}): return {ret}",
    "method": "class C(object):\n def m(self{sep}{sig}): return (self is o,) + {ret}\no = C()\nf = o.m",
    "unbound": "class C(object):\n def f(self{sep}{sig}): return {ret}\ng = C.f\ndef f(*a, **k): return g(C(), *a, **k)",
    "static": "class C(object):\n @staticmethod\n def m({sig}): return {ret}\nf = C().m",
    "classm": "class C(object):\n @classmethod\n def m(cls{sep}{sig}): return (cls is C,) + {ret}\nf = C.m",
    "init": "class C(object):\n def __init__(self{sep}{sig}): self.v = {ret}\ndef f(*a, **k): return C(*a, **k).v",
    "callobj": "class C(object):\n def __call__(self{sep}{sig}): return {ret}\nf = C()",
    "lambda": "f = lambda {sig}: {ret}",
    "closure": "def mk(q):\n def f({sig}): return (q,) + {ret}\n return f\nf = mk(5)",
}
M = ("class M(object):\n def keys(self): return ['b', 'zz']\n"
     " def __getitem__(self, k): return 'M' + k\n")


# objects after ** and *
GIVEN = """class K(object):
 def __init__(s, n): s.n = n
 def keys(s):
  log('keys')
  if s.n == 1: raise LookupError(1)
  if s.n == 2: return 5
  if s.n == 3: raise AttributeError(3)
  if s.n == 5: return [1]
  return ['p', 'q']
 def __getitem__(s, k):
  log(('get', k))
  if s.n == 4 or k not in ('p', 'q', 1): raise IndexError(4)
  return k * 2
class D(dict):
 def keys(s): log('keys'); return ['z']
class D2(dict):
 def __getitem__(s, k): log('get'); return 8
class I(object):
 def __init__(s, n): s.n = n
 def __iter__(s):
  log('iter')
  if s.n == 1: raise KeyError(1)
  if s.n == 2: return 5
  if s.n == 3: raise TypeError(3)
  return s
 def __next__(s):
  log('next')
  s.n += 1
  if s.n == 7: raise KeyError(7)
  if s.n > 11: raise StopIteration
  return s.n
 next = __next__
 def __len__(s): return 1
class G(object):
 def __getitem__(s, i):
  log(i)
  if i > 1: raise IndexError
  return i
class S(str): pass
class TT(tuple):
 def __iter__(s): log('iter'); return iter('st')
def f(*a, **k): return (a, sorted(k.items(), key=str))
def g(p, q=2): return (p, q)
def h(**k): return sorted(k.items(), key=str)
class C(object):
 def __init__(s, *a, **k): s.v = (a, sorted(k.items(), key=str))
 def m(s, *a, **k): return (a, sorted(k.items(), key=str))
 __call__ = m
def c(*a, **k): return C(*a, **k).v
o = C()
l = lambda *a, **k: (len(a), sorted(k))
"""
MAPPINGS = ["{}", "{'p': 1}", "{'p': 1, 'q': 2}", "{'r': 5}", "{1: 2}", "{S('p'): 4}", "D(q=1)", "D2(q=1)", "K(0)", "K(1)", "K(2)", "K(3)", "K(4)", "K(5)", "[('p', 1)]", "5", "None", "'pq'", "()"]
ITERABLES = ["()", "[7]", "'xy'", "{3: 4}", "I(0)", "I(1)", "I(2)", "I(3)", "I(4)", "I(8)", "G()", "TT('ab')", "5", "None", "iter([1])", "(i for i in (1, 2))", "(1 // i for i in (1, 0))", "range(3)", "K(0)"]


def given(cfg):
    v = cfg[0]
    for x in MAPPINGS:
        for form in ["**X", "p=3, **X", "0, **X", "0, q=3, **X", "*[6], **X", "*(), q=2, **X"] + ["**X, **{'q': 3}", "**{'p': 3}, **X", "**X, q=5", "*(), **X, **{}"] * (v >= (3, 5)):
            if x[0] in "KD" and "=" in form and v < (3, 6):
                continue  # (the mapping is read, then a name given twice found)
            yield f"given/{form}/{x}", {"src": GIVEN + "\n".join(f"probe(lambda: {n}({form.replace('X', x)}))" for n in ("f", "g", "h", "c", "o.m", "o", "l", "native", "dict"))}
    for x in ITERABLES:
        for form in ["*X", "0, *X", "*X, **{'q': 4}", "0, q=1, *X"] + ["*X, *X", "*X, 0", "*(), *X", "*X, q=4", "*[8], *X, *[9]"] * (v >= (3, 5)):
            yield f"given/{form}/{x}", {"src": GIVEN + "\n".join(f"probe(lambda: {n}({form.replace('X', x)}))" for n in ("f", "g", "c", "o.m", "o", "l", "native", "max"))}


def cases(cfg, tier):
    v, pypy = cfg
    yield from given(cfg)
    sigs = list(signatures(v, tier))
    allcalls = list(calls(v, tier))
    k = 0
    rot = 7 if len(sigs) < 100 else 31 if len(sigs) < 300 else 67
    for i, (sig, ret) in enumerate(sigs):
        for kind, tmpl in KINDS.items():
            k += 1
            if "self" in tmpl or "cls" in tmpl:
                if "/" in sig or sig.startswith("*,") and v < (3, 0):
                    continue
            if kind == "function":
                # all the calls of a signature are spread over the versions
                mine = allcalls if tier != "quick" else allcalls[(i + ALL.index(v)) % rot::rot]
            else:
                mine = allcalls[(k + ALL.index(v)) % (9 * rot)::9 * rot]
                if tier != "quick":
                    mine = allcalls[k % 5::5]
            head = M + tmpl.format(sig=sig, ret=ret, sep=", " if sig else "")
            for n, ch in enumerate(chunks(mine, 60)):
                yield (f"{kind}/({sig})/{n}",
                       {"src": head + "\n" + "\n".join(f"probe(lambda: f({c}))" for c in ch)})
    for n, ch in enumerate(chunks(allcalls if tier != "quick" else allcalls[ALL.index(v) % 3::3], 60)):
        for fn in ("native", "NativeObj", "NativeObj().m", "sdict", "max", "'{0}{a}'.format"):
            tail = ".got" if fn == "NativeObj" else ""
            yield (f"native/{fn}/{n}",
                   {"src": M + "\n".join(f"probe(lambda: {fn}({c}){tail})" for c in ch)})
    # names that an implementation is likely to use for itself
    own = ["self", "func", "f", "vm", "name", "code", "globs", "args", "kwargs", "positional",
           "named", "cls", "obj", "callargs", "frame", "argdefs", "pos_args", "named_args", "values",
           "defaults", "closure", "f_name", "arg2value", "_vm", "version", "instance", "owner"]
    for name in own:
        yield (f"own/{name}", {
            "src": f"def f(a, {name}=3, **kw): return (a, {name}, sorted(kw.items()))\n"
                   f"def g(**kw): return sorted(kw.items())\n"
                   f"class C(object):\n def m(this, {name}=5, *r, **kw): return ({name}, r, sorted(kw.items()))\n"
                   f"probe(lambda: f(1, {name}=2))\nprobe(lambda: f({name}=2, a=1))\n"
                   f"probe(lambda: f(1, **{{'{name}': 4}}))\nprobe(lambda: f(1, 2, {name}=4))\n"
                   f"probe(lambda: g({name}=2))\nprobe(lambda: g(**{{'{name}': 4}}))\n"
                   f"probe(lambda: C().m({name}=2))\nprobe(lambda: C().m(1, 2, x=2, **{{'{name}': 4}}))\n"
                   f"probe(lambda: native({name}=2))\nprobe(lambda: NativeObj().m(1, {name}=4))"
                   if name not in ("self",) else
                   f"def f(a, {name}=3, **kw): return (a, {name}, sorted(kw.items()))\n"
                   f"def g(**kw): return sorted(kw.items())\n"
                   f"probe(lambda: f(1, {name}=2))\nprobe(lambda: f({name}=2, a=1))\n"
                   f"probe(lambda: g({name}=2))\nprobe(lambda: g(**{{'{name}': 4}}))"})
    if v < (3, 0):
        # def f(a, (b, c)): the compiler of the checks names a parameter _tup_* as
        # 2.x compilers name a tuple parameter.
        for pre, post in product(("", "a", "a=1"), ("", "d", "d=4", "*args", "**kw", "d=4, *args")):
            if "=" in pre and post == "d":
                continue
            for dflt in ("", "=(8, 9)"):
                if dflt == "" and "=" in pre or dflt and post == "d":
                    continue
                sig = ", ".join(x for x in (pre, "_tup_b" + dflt, post) if x)
                ret = "".join(x.split("=")[0].strip("*") + ", " for p in (pre, post) for x in p.split(", ") if x)
                ret = ret.replace("kw,", "sorted(kw.items()),")
                args = ["()", "(5, 6)", "[5, 6, 7]", "1", "'xy'"]
                cs = [", ".join(c) for n in range(4) for c in product(args, repeat=n)]
                cs += [c + ", d=3" for c in cs[1:6]] + [c + ", zz=3" for c in cs[1:6]]
                for n, ch in enumerate(chunks(cs, 60)):
                    yield (f"tuple/({sig})/{n}", {
                        "src": f"def f({sig}):\n (b, c) = _tup_b\n return (b, c, {ret})\n"
                               f"def g({sig}):\n (b, c) = _tup_b\n return (lambda: (b, c, {ret}))()\n"
                               + "\n".join(f"probe(lambda: f({c}))\nprobe(lambda: g({c}))" for c in ch)})
    # deep chains of calls, and many arguments
    for n in (10, 100, 254):
        ps = ", ".join(f"a{i}" for i in range(n))
        yield (f"many/{n}", {
            "src": f"def f({ps}): return (a0, a{n - 1}, a{n // 2})\nprobe(lambda: f({', '.join(map(str, range(n)))}))\n"
                   f"probe(lambda: f(*range({n})))\nprobe(lambda: f(*range({n - 1})))\n"
                   f"probe(lambda: f({', '.join(f'a{i}={i}' for i in reversed(range(min(n, 250))))}, **{{'a{n}': 1}}))\n"
                   f"probe(lambda: f({', '.join(f'a{i}={i}' for i in reversed(range(n)))}))"})


def run(cfg, payload):
    src = payload["src"]
    if cfg[0] >= (3, 6) and cfg != ((3, 6), True):
        # the order of keyword arguments counts
        src = src.replace(", key=str", "")
        src = src.replace("sorted(kw.items())", "list(kw.items())").replace("sorted(k.items())", "list(k.items())")
    return diff_program(src, cfg, extra)
