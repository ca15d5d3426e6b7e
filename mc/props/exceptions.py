"""Exceptions: which clauses run, in which order, and what comes out."""

import re

from flow import Ctx, E1, E2, T, X, explore, render, shape, trees
from gen import ind
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "fault_enumeration"
RULE = (
    "a case is one statement tree of try statements, loops, calls and branches, in a function or "
    "a module; its executions are explored by DFS over the outcome of every point: nothing, an "
    "exception of one class, one of another, one no `except Exception` catches. Every execution "
    "is compared with the reference: the clauses that ran, the exceptions and arguments handlers "
    "saw, the result or exception of the whole. State: choice point with history; transition: one "
    "outcome taken. match family: one program per (what follows except, exception raised, place of "
    "the clause)."
)
BOUNDS = (
    "37 things that can follow except x 8 exceptions x 5 places; trees of depth 2 (quick: those with leaves only all, and with one compound hole in a "
    "rotation that differs by version; thorough: all of those, and depth 3 in rotation); up to "
    "2 faults among the first 10 points of an execution; at most 40 executions of a program (quick)"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference",
    "2.x: a bare raise is only used directly in a handler (it names the exception handled last "
    "in 2.x, and the one being handled in 3.x)",
]
TRY = {"A": "try", "B": "handler"}
TEMPLATES = [
    T("try:\n <A>\nexcept E1:\n <B>", TRY),
    T("try:\n <A>\nexcept (E2, E1), e:\n log((type(e).__name__, e.args))\n <B>\np(#)", TRY),
    T("try:\n <A>\nexcept:\n <B>\np(#)", TRY),
    T("try:\n <A>\nexcept E2:\n p(#)\nexcept E1:\n <B>\nelse:\n <C>",
      {"A": "try", "B": "handler", "C": "try"}),
    T("try:\n <A>\nfinally:\n <B>", {"A": "try", "B": "fin"}),
    T("try:\n <A>\nfinally:\n p(#)\n <B>\np(#)", {"A": "try", "B": "fin"}),
    T("try:\n <A>\nexcept Exception, e:\n <B>\nfinally:\n <C>",
      {"A": "try", "B": "handler", "C": "fin"}, since=(2, 5)),
    T("try:\n <A>\nexcept E1:\n p(#)\nelse:\n <B>\nfinally:\n <C>",
      {"A": "try", "B": "try", "C": "fin"}, since=(2, 5)),
    T("try:\n p(#)\nexcept E1:\n <A>\nexcept X:\n <B>\nfinally:\n p(#)",
      {"A": "handler", "B": "handler"}, since=(2, 5)),
    T("try:\n try:\n  <A>\n finally:\n  <B>\nexcept E1, e:\n log(e.args)",
      {"A": "try", "B": "fin"}),
    T("try:\n try:\n  p(#)\n except E1:\n  <A>\n else:\n  p(#)\nexcept E2:\n <B>",
      {"A": "handler", "B": "handler"}),
    T("def g@():\n <A>\n return p(#)\nlog(g@())", {"A": "call"}),
    T("def g@():\n try:\n  return p(#)\n finally:\n  p(#)\ntry:\n <A>\n g@()\nexcept E1:\n <B>", TRY),
    T("for x in (1, 2):\n <A>\nelse:\n <B>", {"A": "loop", "B": "else"}),
    T("for x in It(#):\n <A>\n p(#)", {"A": "loop"}),
    T("while c(#):\n <A>", {"A": "loop"}),
    T("if c(#):\n <A>\nelse:\n <B>"),
    T("<A>\n<B>"),
]
LEAVES = ["p(#)", "break", "continue", "return p(#)", "raise", "raise E2(#)", "raise E3"]
LEAVES3 = LEAVES + ["raise E2(#) from E1(#)"]


def configs(tier):
    return cfgs(ALL, [(2, 7), (3, 6)])


def shards(tier):
    return 1 if tier == "quick" else 4


class Ctx2(Ctx):
    __slots__ = ()

    def but(self, **k):
        c = Ctx2()
        for a in Ctx.__slots__:
            setattr(c, a, getattr(self, a))
        for a, b in k.items():
            setattr(c, a, b)
        return c

    def enter(self, kind):
        if kind == "call":
            return self.but(loop=False, fin=False, func=True,
                            handler=self.handler if self.v >= (3, 0) else False)
        return super().enter(kind)


def wrap_func(s):
    return "def F():\n" + ind(s) + "\n return 'end'\nlog(F())\ntry: log(F())\nfinally: log('after')"


def wrap_mod(s):
    return s + "\nlog('end')"


# ------------------------------------------------- kinds of exceptions and of places

BASES = ["TypeError", "NameError", "UnboundLocalError", "AttributeError", "KeyError", "IndexError", "LookupError",
         "ImportError", "ValueError", "RuntimeError", "AssertionError", "ZeroDivisionError", "StopIteration",
         "ArithmeticError", "OSError", "EOFError", "NotImplementedError", "SystemError", "Exception", "SystemExit",
         "KeyboardInterrupt", "BaseException"]
SITES = {
    "call": "r(1)", "callkw": "r(k=1)", "callstar": "r(*[1])", "callkwstar": "r(**{'k': 1})", "callboth": "r(*[1], **{'k': 2})",
    "method": "O().m()", "methodkw": "O().m(k=1)", "new": "C()", "obj": "O()()", "native": "sorted([2, 1], key=r)", "nested": "q(q(r))",
    "getattr": "O().a", "getitem": "O()[1]", "setattr": "setattr(O(), 'b', 1)", "iter": "[x for x in O()]", "next": "[x for x in O2()]",
    "genexp": "list(r(x) for x in [1])", "contains": "1 in O()", "add": "O() + 1", "radd": "1 + O()", "neg": "-O()", "lt": "O() < 1", "eq": "O() == 1",
    "bool": "not O()", "str": "'%s' % O()", "len": "len(O())", "default": "(lambda x=r(): x)", "gen": "list(g())", "unpack": "f2(*O())",
    "map": "list(map(r, [1]))", "lambda": "(lambda: r())()", "index": "[1, 2][O():]", "hash": "{O(): 1}", "dict": "dict(a=r())",
}
STMTS = {"raisec": "raise B", "raisei": "raise B(1)", "raises": "raise S", "del": "del O().z", "delitem": "del O()[1]", "setitem": "O()[1] = 2", "aug": "x = O()\n  x += 1",
         "unpack": "a, b = O()", "for": "for x in O(): pass", "fornext": "for x in O2(): pass", "class": "class K(O().a): pass", "import": "import sys\n  r()",
         "assert": "assert r()", "if": "if O(): pass", "while": "while O(): pass", "deco": "@r\n  def z(): pass", "return": "return r()", "setattr": "O().b = 1"}
PRE = """class S(%s): pass
class U(S): pass
def r(*a, **k): raise S('x', 5)
def q(f): return f()
def g():
 yield 1
 r()
def f2(*a): pass
class O2(object):
 def __iter__(self): return self
 def __next__(self): r()
 next = __next__
class O(object):
 m = __call__ = __getitem__ = __setitem__ = __delitem__ = __iter__ = __contains__ = __add__ = __radd__ = __iadd__ = __neg__ = __lt__ = __eq__ = __bool__ = __nonzero__ = __str__ = __len__ = __index__ = __hash__ = lambda self, *a, **k: r()
 def __setattr__(self, n, v): r()
 def __delattr__(self, n): r()
 a = property(lambda self: r())
class C(object):
 def __init__(self): r()
B = S
"""


def kinds(v):
    sites = {k: "log(" + e + ")" for k, e in SITES.items()}
    sites.update(("s-" + k, e) for k, e in STMTS.items())
    if v < (2, 6):
        sites = {k: e.replace("@r\n  def", "def") for k, e in sites.items()}
    for i, b in enumerate(BASES):
        for j, (k, e) in enumerate(sites.items()):
            if b == "StopIteration" and ("iter" in k or "next" in k or "gen" in k or "for" in k or "unpack" in k or "map" in k or k in ("contains",)):
                continue
            if b in ("AttributeError", "IndexError") and k in ("getattr", "s-class") and False:
                continue
            pre = PRE % b
            act = f"def act():\n try:\n  log('in')\n  {e}\n  log('not reached')\n except %s:\n  log('caught %s')\n"
            body = ("def sh(e): log((type(e).__name__, e.args, isinstance(e, S)))\n"
                    f"def a1():\n try:\n  {e}\n  log('no')\n except U: log('U')\n except S as e: sh(e)\n except {b}: log('base')\n"
                    f"def a2():\n try:\n  {e}\n  log('no')\n except (KeyboardInterrupt if {b} is not KeyboardInterrupt else EOFError): log('other')\n except {b} as e: sh(e)\n"
                    f"def a3():\n try:\n  try:\n   " + e.replace("\n", "\n ") + "\n  except U: log('U')\n  finally: log('fin')\n except BaseException as e: sh(e)\n"
                    "a1()\na2()\na3()\n")
            yield f"kind/{b}/{k}", {"src": pre + body, "plain": True}


# ------------------------------------------------- what an except clause catches

MATCH_PRE = """class M(type):
 def __subclasscheck__(s, c):
  if s is c: return True  # (raising an exception of that class asks this)
  log(('sc', s.__name__, c.__name__))
  return s.__name__ == 'HY'
 def __instancecheck__(s, i): log(('ic', s.__name__)); return True
HY = M('HY', (Exception,), {})
HN = M('HN', (Exception,), {})
HS = M('HS', (HN,), {})
NH = M('NH', (object,), {})
class TT(tuple): pass
class KS(KeyError): pass
def m(n, x): log(n); return x
"""
# PyErr_GivenExceptionMatches() of 2.x
MATCH2 = """def match(t, m):
 if isinstance(m, tuple): return any(match(t, x) for x in m)
 return isinstance(m, type) and BaseException in m.__mro__ and issubclass(t, m)
"""
MATCHES = ["KeyError", "LookupError", "KS", "(KeyError,)", "()", "((),)", "(ValueError, KeyError)", "(KeyError, ValueError)",
           "(ValueError, (KeyError,))", "((KeyError,), ValueError)", "(((LookupError,),),)", "int", "object", "type", "5", "'KeyError'", "None",
           "[KeyError]", "KeyError(1)", "(int, KeyError)", "(KeyError, int)", "(ValueError, int)", "(ValueError, None)", "TT((KeyError,))",
           "TT((ValueError, TT()))", "HY", "HN", "HS", "(HN, HY)", "(HY, KeyError)", "NH", "(ValueError, HN)", "BaseException", "Exception", "KeyboardInterrupt", "len", "m"]
RAISED = ["KeyError", "KS(3)", "IndexError(1)", "HY", "HS(1)", "HN", "KeyboardInterrupt", "Exception(2)"]
MATCH_FORMS = {
    "first": ["M", "Exception"], "second": ["UnicodeError", "M", "Exception"], "last": ["UnicodeError", "M"], "twice": ["M", "M"], "named": ["M as e", "BaseException"],
}


def matches(cfg, tier):
    v, pypy = cfg
    k = ALL.index(v) if v in ALL else 0
    if pypy and v < (3, 0):
        return
    for m in MATCHES:
        for r in RAISED:
            if v < (2, 6) and ("H" in m or r[0] == "H"):
                continue
            for form, clauses in MATCH_FORMS.items():
                k += 1
                if tier == "quick" and k % 3:
                    continue
                head = f"def f():\n try:\n  raise {r}\n"
                tail = "try: log(f())\nexcept BaseException as x: log(('out', type(x).__name__))\n"
                src, ref = head, head + " except BaseException as _x:\n"
                for i, c in enumerate(clauses):
                    c, named, _ = (c + "  ").partition(" as e")
                    c = f"m({i}, {c.strip()})".replace("M", m) if "M" == c.strip() else c.strip()
                    show = "(type(e).__name__, e.args)" if named else i
                    src += f" except {c}{named}:\n  log({i})\n  return {show}\n"
                    ref += f"  if match(type(_x), {c}):\n   log({i})\n   return {show}\n".replace("(e)", "(_x)").replace("e.args", "_x.args")
                p = {"src": MATCH_PRE + src + tail, "plain": True}
                if v < (3, 0):
                    p["ref"] = MATCH_PRE + MATCH2 + ref + "  raise\n" + tail
                yield f"match/{form}/{m}/{r}", p


# ------------------------------------------------- what can be raised

RAISE_PRE = """class S(KeyError): pass
class TT(tuple): pass
class NX(Exception):
 def __new__(c, *a): log(('new', a)); return 5
class IX(Exception):
 def __init__(s, *a): log(('init', a)); raise S(a)
class A2(Exception):
 def __init__(s, *a): log(a); s.a = a
def m(n, x): log(n); return x
def show(e):
 log((type(e).__name__, [getattr(a, '__name__', a) for a in e.args] * (type(e) not in (TypeError, RuntimeError)), getattr(e, 'a', 0)))
"""
RAISE_NORM = """def norm(t, v=None, tb=None):
 while isinstance(t, tuple) and t: t = t[0]
 if isinstance(t, BaseException):
  if v is not None: raise TypeError
  return t
 if isinstance(t, type) and BaseException in t.__mro__:
  if isinstance(v, BaseException) and isinstance(v, t): return v
  if v is None: v = t()
  elif isinstance(v, tuple): v = t(*v)
  else: v = t(v)
  if not isinstance(v, BaseException): raise TypeError
  return v
 raise TypeError
"""
RAISABLE = ["KeyError", "KeyError(1)", "S", "S(2, 3)", "5", "None", "'KeyError'", "int", "object", "2.5", "NX", "IX", "A2", "A2(1)",
            "(KeyError,)", "()", "((S, 1), KeyError)", "(S(4), 5)", "TT((KeyError,))", "[KeyError]", "type", "len", "KeyboardInterrupt", "SystemExit(4)"]


def raises(cfg, tier):
    v, pypy = cfg
    k = ALL.index(v) if v in ALL else 0
    for x in RAISABLE:
        if x == "None" and v < (3, 0) or v < (2, 7) and x == "NX":
            continue
        for y in [""] + RAISABLE:
            if v < (2, 7) and "NX" in y or y == "NX" and v > (3, 0):  # (nothing checks what NX() is)
                continue
            for form in ("", ", None") if v < (3, 0) and y else ("",):
                if v < (3, 0):
                    src = f"raise m(0, {x})" + (f" from _with(m(1, {y}){form})" if y else "")
                    ref = f"raise norm(m(0, {x})" + (f", m(1, {y})" if y else "") + ") from None"
                    after = "show(e)"
                else:
                    src = ref = f"raise m(0, {x})" + (f" from m(1, {y})" if y else "")
                    after = "show(e)\n show(e.__cause__) if e.__cause__ else log(None)\n log(e.__suppress_context__)"
                k += 1
                for i, place in enumerate(("func", "handler", "mod")):
                    if tier == "quick" and y and (i + k) % 3:
                        continue
                    text = ("def f():\n try: STMT\n finally: log('fin')\ntry: f()" if place == "func" else
                            "def f():\n try: d = [][1]\n except IndexError: STMT\ntry: f()" if place == "handler" else "try: STMT") + f"\nexcept BaseException as e:\n {after}\n"
                    p = {"src": RAISE_PRE + text.replace("STMT", src), "plain": True}
                    if v < (3, 0):
                        p["ref"] = RAISE_PRE + RAISE_NORM + text.replace("STMT", ref)
                    yield f"raise/{place}/{x}/{y}{form}", p


def cases(cfg, tier):
    v = cfg[0]
    yield from matches(cfg, tier)
    yield from raises(cfg, tier)
    for n, (key, payload) in enumerate(kinds(v)):
        if tier == "quick" and (n + ALL.index(v)) % (3 if cfg[1] else 2):
            continue
        yield key, payload
    for wrap in ("func", "mod"):
        ctx = Ctx2(v=v, func=wrap == "func")
        leaves = LEAVES3 if v >= (3, 1) else LEAVES
        if wrap == "mod":
            leaves = [x for x in leaves if not x.startswith("return")]
        depths = [(2, True)] if tier == "quick" else [(2, False), (3, True)]
        rot = {"func": 101, "mod": 211}[wrap] if v < (3, 0) else {"func": 409, "mod": 601}[wrap]
        for d, oc in depths:
            for n, tree in enumerate(trees(TEMPLATES, leaves, d, ctx, oc)):
                deep = not isinstance(tree, str) and any(not isinstance(s, str) for s in tree[1])
                if deep and (tier == "quick" and (n + 7 * ALL.index(v)) % rot
                             or tier != "quick" and d == 3 and n % 400):
                    continue
                if not deep and wrap == "mod" and n % 3:
                    continue
                src = render(tree).replace(", e:", " as e:")
                if v >= (3, 0):
                    # Each point shows what the handled exception is.
                    src = re.sub(r"\bp\((\d+)\)", r"p(\1, xi())", src)
                yield f"{wrap}/{d}/{shape(tree)}", {
                    "src": "from sys import exc_info as xi\n" * (v >= (3, 0)) + (
                        wrap_func if wrap == "func" else wrap_mod)(src)}


def run(cfg, payload, max_runs=40):
    if "plain" in payload:
        payload["_s"] = (1, 1, 0)
        return diff_program(payload["src"], cfg, ref_src=payload.get("ref"))
    want, got, runs, points, cut = explore(payload["src"], cfg, (E1, E2, X), 2, 10, max_runs)
    payload["_s"] = (runs, points, cut)
    return want, got


def stats(payload, want):
    runs, points, cut = payload.pop("_s")
    return {"states": points, "transitions": points + runs - 1, "executions": runs,
            "programs_cut_at_max_runs": cut}
