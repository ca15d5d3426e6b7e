"""Branches and loops."""

from flow import Ctx, T, explore, render, shape, trees
from gen import ind
from harness import ALL, PYPY, cfgs

LEVEL = "model_checking"
RULE = (
    "a case is one statement tree built from the branch and loop templates, in one of three "
    "places (function, module, class body); its executions are explored by DFS over the "
    "outcome of every condition and iteration. State: a choice point reached with its history; "
    "transition: one outcome taken; trace: one complete execution, compared between the "
    "interpreter and the reference."
)
BOUNDS = (
    "trees of depth 2 (quick: those with leaves only all, and with one compound hole in a 1/47 rotation that differs by version; thorough: all of those, "
    "and depth 3 in a 1/40 rotation); up to 3 non-default outcomes among the first 8 choice points; at most "
    "40 executions of a program (quick)"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]
LOOP = {"A": "loop", "B": "else"}
TEMPLATES = [
    T("if c(#):\n <A>\np(#)"),
    T("if c(#):\n <A>\nelse:\n <B>"),
    T("if c(#):\n <A>\nelif c(#):\n <B>\nelse:\n p(#)"),
    T("if not c(#):\n <A>\nelse:\n <B>"),
    T("if c(#) and c(#):\n <A>\nelse:\n <B>"),
    T("if c(#) or not c(#):\n <A>\nelse:\n <B>"),
    T("if not (c(#) or c(#)) and c(#):\n <A>\np(#)"),
    T("if 1 < (p(#) or 2) < 3:\n <A>\nelse:\n <B>"),
    T("if [z for z in (1, 2) if c(#)]:\n <A>\nelse:\n <B>"),
    T("x = p(#) if c(#) else p(#)\nif x in (1, 2, 3):\n <A>\nelse:\n <B>", since=(2, 5)),
    T("while c(#):\n <A>", LOOP),
    T("while c(#):\n <A>\nelse:\n <B>", LOOP),
    T("while 1:\n if c(#): p(#)\n else: break\n <A>", LOOP),
    T("while True:\n p(#)\n if not c(#): break\n <A>\nelse:\n p(#)", LOOP),
    T("while not n(#):\n if p(#): break\n <A>", LOOP),
    T("for x in It(#):\n <A>", LOOP),
    T("for x in It(#):\n <A>\nelse:\n <B>", LOOP),
    T("for x in [#, None, 0]:\n if c(#): continue\n log(x)\n <A>\nelse:\n p(#)", LOOP),
    T("for i, x in enumerate('ab'):\n log((i, x))\n <A>\nlog((i, x))", LOOP),
    T("for x in Old(#):\n log(x)\n <A>", LOOP),
    T("for x in ():\n <A>\nelse:\n <B>", LOOP),
    T("<A>\n<B>"),
    T("p(#)\n<A>\np(#)"),
    T("assert not c(#), p(#)\n<A>"),
]
LEAVES = ["p(#)", "break", "continue", "return p(#)", "pass", "return"]


def configs(tier):
    return cfgs(ALL, [(2, 7), (3, 5), (3, 6), (3, 8)])


def shards(tier):
    return 1 if tier == "quick" else 4


def wraps(v):
    return {
        "func": lambda s: "def F():\n" + ind(s) + "\n return 'end'\nlog(F())\nlog(F())",
        "mod": lambda s: s + "\nlog('end')",
        "class": lambda s: "class C(object):\n" + ind(s) + "\n y = 1\nlog(C.y)",
        "gen": lambda s: "def F():\n" + ind(s) + "\n yield 'end'\nlog(list(F()))",
    }


def cases(cfg, tier):
    v = cfg[0]
    if cfg[1] and v in ((2, 7), (3, 5)):
        for wrap in ("func", "mod", "class"):
            yield f"debugjump/{wrap}", {
                "src": wraps(v)[wrap]("p(1)\nassert not c(2), p(3)\np(4)"), "asserts": 1}
    for wrap in ("func", "mod", "class"):
        ctx = Ctx(v=v, func=wrap == "func")
        leaves = LEAVES if wrap == "func" else LEAVES[:3]
        w = wraps(v)[wrap]
        depths = [(2, True)] if tier == "quick" else [(2, False), (3, True)]
        for d, oc in depths:
            for n, tree in enumerate(trees(TEMPLATES, leaves, d, ctx, oc)):
                deep = not isinstance(tree, str) and any(not isinstance(s, str) for s in tree[1])
                if deep and (tier == "quick" and (n + ALL.index(v)) % (47 if wrap == "func" else 61)
                             or tier != "quick" and d == 3 and n % 40):
                    continue
                yield f"{wrap}/{d}/{shape(tree)}", {"src": w(render(tree))}


def run(cfg, payload, max_runs=40):
    import pycompile

    pycompile.Compiler.debug_jumps = "asserts" in payload
    want, got, runs, points, cut = explore(payload["src"], cfg, (), 3, 8, max_runs)
    payload["_s"] = (runs, points, cut)
    return want, got


def stats(payload, want):
    runs, points, cut = payload.pop("_s")
    return {"states": points, "transitions": points + runs - 1, "traces": runs, "programs_cut_at_max_runs": cut}
