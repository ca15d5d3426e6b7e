"""with statements."""

from flow import Ctx, E1, T, X, explore, render, shape, trees
from gen import ind
from harness import ALL, PYPY, cfgs, diff_program
from props.exceptions import Ctx2

LEVEL = "fault_enumeration"
RULE = (
    "a case is one tree of with statements, try statements, loops and calls; its executions are "
    "explored by DFS over every outcome: each point may raise either of two exceptions, each "
    "__enter__ may raise, each __exit__ may return false, return true or raise. Compared: the "
    "order of enters, bodies and exits, what each __exit__ was given, the result or exception. "
    "State: choice point with history; transition: one outcome taken. result family: one program per "
    "(what __exit__ gives, way to leave the block, outer with)."
)
BOUNDS = (
    "24 results of __exit__ x 12 ways to leave x 5 outer with statements; "
    "trees of depth 2 (quick: those with leaves only all, and with one compound hole in a rotation "
    "that differs by version; thorough: all of those, and depth 3 in rotation); up to 3 non-default "
    "outcomes among the first 10 points; at most 60 executions of a program (quick)"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]
W = {"A": "try"}
TEMPLATES = [
    T("with CM(#):\n <A>", W),
    T("with CM(#) as x:\n log(x)\n <A>\np(#)", W),
    T("with CM(#) as (x, y):\n log((y, x))\n <A>\nlog(y)", W),
    T("with CM(#) as o.a:\n <A>\nlog(o.a)", W),
    T("with CM(#) as l[0]:\n <A>\nlog(l)", W),
    T("with CM(#), CM(#):\n <A>\np(#)", W, since=(2, 7)),
    T("with CM(#) as x, CM(#) as y:\n log((x, y))\n <A>", W, since=(2, 7)),
    T("with CM(#):\n p(#)\n with CM(#):\n  <A>\n p(#)", W),
    T("with CM(#) as (x, y, z):\n <A>", W),
]
OTHERS = [
    T("try:\n <A>\nexcept E1:\n <B>", {"A": "try", "B": "handler"}),
    T("try:\n <A>\nfinally:\n <B>", {"A": "try", "B": "fin"}),
    T("try:\n p(#)\nexcept E1, e:\n <A>\n log(e.args)\nelse:\n <B>", {"A": "handler", "B": "try"}),
    T("for x in (1, 2):\n <A>\nelse:\n p(#)", {"A": "loop"}),
    T("while c(#):\n <A>", {"A": "loop"}),
    T("def g@():\n <A>\n return p(#)\nlog(g@())", {"A": "call"}),
    T("<A>\n<B>"),
]
LEAVES = ["p(#)", "break", "continue", "return p(#)", "return", "raise E2(#)"]


def configs(tier):
    return cfgs([v for v in ALL if v >= (2, 5)], [(2, 7), (3, 6)])


def shards(tier):
    return 1 if tier == "quick" else 4


PRE = "class O(object): pass\no = O()\nl = [0]\n"


def wrap_func(s):
    return PRE + "def F():\n" + ind(s) + "\n return 'end'\nlog(F())\ntry: log(F())\nfinally: log('after')"


def wrap_gen(s):
    return PRE + "def F():\n" + ind(s) + "\n yield 'end'\nfor q in F(): log(q)\nlog('after')"


# ------------------------------------------------- what __exit__ may give, ways to leave

RESULT_PRE = """class M(type): pass
EM = M('EM', (Exception,), {})
class Sub(EM): pass
class B(object):
 def __init__(s, r): s.r = r
 def __bool__(s):
  log(('bool', s.r))
  if s.r == 2: raise KeyError('b')
  return s.r == 1
 __nonzero__ = __bool__
class L(object):
 def __init__(s, n): s.n = n
 def __len__(s): log(('len', s.n)); return s.n
class C(object):
 def __init__(s, n, r): s.n, s.r = n, r
 def __enter__(s): log(('in', s.n)); return s
 def __exit__(s, t, v, tb):
  log(('out', s.n, t and t.__name__, type(v).__name__, getattr(v, 'args', None)))
  return s.r
"""
RESULTS = ["True", "False", "None", "0", "1", "2.5", "0.0", "''", "'x'", "'silenced'", "'return'", "[]", "[0]", "()", "(0,)", "{}", "B(0)", "B(1)", "B(2)", "L(0)", "L(1)", "KeyError", "EM", "len"]
LEAVE = {"end": "log('e')", "raise": "raise KeyError(1)", "base": "raise KeyboardInterrupt(1)", "exit": "raise SystemExit(3)", "meta": "raise EM(1)", "sub": "raise Sub(1)",
         "stop": "raise StopIteration(1)", "return": "return 5", "break": "break", "continue": "continue", "callee": "boom(EM)", "div": "1 // 0"}


def results(cfg, tier):
    n = ALL.index(cfg[0]) if cfg[0] in ALL else 0
    for r in RESULTS:
        for k, s in LEAVE.items():
            for k2, r2 in (("one", None), ("none", "None"), ("yes", "B(1)"), ("no", "B(0)"), ("bad", "B(2)")):
                n += 1
                if tier == "quick" and n % 3:
                    continue
                w = f"   with C(0, {r}):\n    {s}\n" if r2 is None else f"   with C(1, {r2}):\n    with C(0, {r}):\n     {s}\n    log('between')\n"
                yield f"result/{k}/{k2}/{r}", {"plain": True, "src": RESULT_PRE + "def boom(x): raise x('c')\ndef f():\n try:\n  for i in (1, 2):\n" + w
                                              + "   log(('after', i))\n  else: log('else')\n finally: log('fin')\n return 'end'\n"
                                              "try: log(f())\nexcept BaseException as e: log(('esc', type(e).__name__, e.args))\n"}


def has_with(tree):
    return not isinstance(tree, str) and (
        "with " in tree[0].text or any(map(has_with, tree[1])))


def cases(cfg, tier):
    v = cfg[0]
    yield from results(cfg, tier)
    for wrap in ("func", "gen", "mod"):
        ctx = Ctx2(v=v, func=wrap == "func", gen=wrap == "gen")
        leaves = list(LEAVES)
        if wrap != "func":
            leaves = [x for x in leaves if not x.startswith("return")]
        if wrap == "gen":
            leaves += ["yield p(#)", "log((yield p(#)))"]
        depths = [(2, True)] if tier == "quick" else [(2, False), (3, True)]
        rot = {"func": 7, "mod": 13, "gen": 17}[wrap] if v < (3, 0) else {"func": 11, "mod": 19, "gen": 17}[wrap]
        for d, oc in depths:
            n = 0
            for tree in trees(TEMPLATES + OTHERS, leaves, d, ctx, oc):
                if not has_with(tree):
                    continue
                n += 1
                deep = any(not isinstance(s, str) for s in tree[1])
                if deep and (tier == "quick" and (n + 5 * ALL.index(v)) % rot
                             or tier != "quick" and d == 3 and n % 50):
                    continue
                src = render(tree).replace(", e:", " as e:")
                if wrap == "gen" and "def g" in src and "yield" in src:
                    continue
                src = {"func": wrap_func, "gen": wrap_gen, "mod": lambda s: PRE + s + "\nlog('end')"}[wrap](src)
                yield f"{wrap}/{d}/{shape(tree)}", {"src": src}


def run(cfg, payload, max_runs=60):
    if "plain" in payload:
        payload["_s"] = (1, 1, 0)
        return diff_program(payload["src"], cfg)
    want, got, runs, points, cut = explore(payload["src"], cfg, (E1, X), 3, 10, max_runs)
    payload["_s"] = (runs, points, cut)
    return want, got


def stats(payload, want):
    runs, points, cut = payload.pop("_s")
    return {"states": points, "transitions": points + runs - 1, "executions": runs,
            "programs_cut_at_max_runs": cut}
