"""Several runs on one interpreter, and several interpreters in one process."""

import itertools
import sys

import harness
from harness import ALL, PYPY, Log, TooMuch, base_env, cfgs, compile_for, exc_obs, native_run, new_vm, vm_run_code

LEVEL = "model_checking"
RULE = (
    "one case per history: programs one after the other on one interpreter, programs within programs on "
    "several interpreters of the same and of other versions, calls of a program's functions and generators "
    "after its run or from another program; each program has to do what it does alone. Distinct: different "
    "observation or configuration."
)
BOUNDS = (
    "25 programs: all ordered pairs (thorough: triples of 16) on one interpreter, plain and traced; 25 x 8 "
    "nestings on two interpreters; 14 exported functions and generators x 5 ways to use them x other "
    "configurations (quick: 4, thorough: 21); all interleavings of two generators of different versions up to 6 steps"
)
ASSUMPTIONS = ["CPython 3.12 running the same source is the reference"]

PROGS = {
    "ok": "log(1)\n",
    "raise": "log('a')\nraise KeyError(1)\n",
    "infunc": "def f(): g()\ndef g():\n    x = 1\n    raise ValueError(x)\nf()\n",
    "inloop": "for i in range(3):\n    for j in range(3):\n        if j: raise KeyError(i)\n",
    "intry": "try:\n    try: raise KeyError(1)\n    finally: log('f')\nfinally: log('g')\n",
    "inexcept": "try: raise KeyError(1)\nexcept KeyError:\n    log('h')\n    raise ValueError(2)\n",
    "reraise": "try: raise KeyError(1)\nexcept KeyError:\n    raise\n",
    "nestedexcept": "try: raise KeyError(1)\nexcept KeyError:\n    try: raise ValueError(2)\n    except ValueError:\n        def f():\n            try: raise IndexError(3)\n            except IndexError: raise TypeError(4)\n        f()\n",
    "handled": "try: raise KeyError(1)\nexcept KeyError: log('h')\nlog('after')\n",
    "funchandled": "def f():\n    try: raise KeyError(1)\n    except KeyError: return 'r'\nlog(f())\n",
    "genraise": "def g():\n    yield 1\n    raise KeyError(2)\nfor x in g(): log(x)\n",
    "genleft": "def g():\n    for i in range(5): yield i\nit = g()\nfor x in it: break\nlog(x)\n",
    "genhandler": "def g():\n    try: raise KeyError(1)\n    except KeyError: yield 5\nit = iter(g())\nfor x in it: log(x)\n",
    "exit": "log('e')\nraise SystemExit(3)\n",
    "exitfunc": "def f():\n    for i in range(3):\n        try: raise SystemExit(i)\n        finally: log('f')\nf()\n",
    "kbd": "def f():\n    raise KeyboardInterrupt()\nf()\n",
    "native": "def k(x):\n    log('k', x)\n    raise KeyError(x)\nsorted([2, 1], key=k)\n",
    "nativeok": "def k(x): return -x\nlog(sorted([2, 1, 3], key=k), list(map(k, (1, 2))))\n",
    "toomuch": "def f():\n    boom()\nf()\n",
    "bare": "try:\n    raise\nexcept (RuntimeError, TypeError): log('nothing')\n",
    "excinfo": "import sys\nlog(sys.exc_info()[0] is None)\n",
    "class": "class A(object):\n    def __init__(self): self.x = 1\n    def m(self): return self.x\nclass B(A):\n    def m(self): return A.m(self) + 1\nlog(B().m())\n",
    "cont": "n = 0\nwhile n < 5:\n    n += 1\n    try:\n        if n == 2: continue\n        if n == 4: break\n    except KeyError: pass\n    log(n)\n",
    "name": "def f(): return nosuchname\nf()\n",
    "exec": "log(eval('1 + 1'))\nexec('raise KeyError(1)', {})\n",
}
# places to run another program in
NEST = {
    "plain": "log('A')\nother()\nlog('B')\n",
    "func": "def f(a):\n    b = a + 1\n    other()\n    return b\nlog(f(1))\n",
    "except": "import sys\ntry: raise KeyError('own')\nexcept KeyError:\n    other()\n    log(sys.exc_info()[0].__name__)\n    try: raise\n    except KeyError: log('own again')\nlog(sys.exc_info()[0] is None or V2)\n",
    "finally": "try:\n    try: raise KeyError('own')\n    finally: other()\nexcept KeyError: log('own')\n",
    "loop": "for i in range(2):\n    other()\n    log(i)\n",
    "gen": "def g():\n    yield 1\n    other()\n    yield 2\nlog(list(g()))\n",
    "class": "class A(object):\n    x = 1\n    other()\n    y = x\nlog(A.y)\n",
    "key": "def k(x):\n    other()\n    return -x\nlog(sorted([1, 2], key=k))\n",
}
# what one program exports, and what it is called with
EXPORT = {
    "f": ("def f(x): return x + 1\n", (4,)),
    "default": ("def f(x, y=5, *z, **k): return x, y, z, sorted(k)\n", (4,)),
    "closure": ("def o(n):\n    def f(x): return x + n\n    return f\nf = o(3)\n", (4,)),
    "lambda": ("f = lambda x: (x, x)\n", (4,)),
    "raises": ("def f(x): raise KeyError(x)\n", (4,)),
    "nested": ("def g(x):\n    try: raise KeyError(x)\n    except KeyError: return 'h'\ndef f(x): return g(x), g(x)\n", (4,)),
    "callback": ("def f(x): return x(1), x(2)\n", (lambda y: y * 10,)),
    "callbackraise": ("def f(x):\n    try: return x(1)\n    except ZeroDivisionError: return 'z'\n", (lambda y: y // 0,)),
    "callbackraise2": ("def f(x): return x(1)\n", (lambda y: y // 0,)),
    "class": ("class A(object):\n    def __init__(self, x): self.x = x\n    def __call__(self): return self.x\n    def __eq__(self, o): return self.x == o.x\n    def __hash__(self): return 1\ndef f(x): return A(x)(), A(x) == A(x)\n", (4,)),
    "globals": ("n = [0]\ndef f(x):\n    global m\n    n.append(x)\n    m = len(n)\n    return m\n", (4,)),
    "recursive": ("def f(x):\n    if x: return x + f(x - 1)\n    return 0\n", (4,)),
    "listcomp": ("def f(x): return [i * x for i in range(3) if i], list(j for j in (1, 2))\n", (4,)),
    "excinfo": ("import sys\ndef f(x): return sys.exc_info()[0] is None\n", (4,)),
}
USES = {
    "call": "log(f(ARG))\nlog(f(ARG))\n",
    "try": "import sys\ntry: log(f(ARG))\nexcept Exception: log('caught', sys.exc_info()[0].__name__)\nlog('after')\n",
    "infunc": "def u():\n    x = 5\n    try: return f(ARG), x\n    finally: log('fin', x)\nlog(u())\n",
    "loop": "def u():\n    for i in range(2):\n        yield f(ARG)\nfor r in u(): log(r)\n",
    "sort": "log(sorted([3, 1, 2], key=lambda q: str(f(ARG))))\n",
}
TRIPLES = ["ok", "infunc", "intry", "inexcept", "reraise", "nestedexcept", "funchandled", "genhandler", "exit", "kbd", "native", "toomuch", "bare",
           "excinfo", "cont", "class"]
OTHERS = [((2, 4), False), ((2, 7), False), ((3, 5), False), ((3, 8), False), ((3, 10), False), ((3, 6), True)]


def configs(tier):
    return cfgs(ALL, PYPY)


def others(cfg, tier):
    if tier != "quick":
        return cfgs(ALL, PYPY)
    return [c for c in OTHERS if c != cfg][:4]


def cases(cfg, tier):
    names = list(PROGS)
    for traced in (0, 1):
        for a, b in itertools.product(names, repeat=2):
            yield f"seq/{traced}/{a}/{b}", {"kind": "seq", "traced": traced, "seq": [a, b]}
    if tier != "quick":
        for seq in itertools.product(TRIPLES, repeat=3):
            yield "seq/0/" + "/".join(seq), {"kind": "seq", "traced": 0, "seq": seq}
    for o in [cfg] + others(cfg, tier):
        for place in NEST:
            for b in names:
                if b in ("bare", "excinfo") and place in ("except", "finally"):
                    continue  # (whether the exception of the other program shows is not specified)
                yield f"nest/{place}/{b}/{harness.cfg_name(o)}", {"kind": "nest", "place": place, "prog": b, "cfg": o}
        for e in EXPORT:
            if e == "excinfo" and o[0] < (3, 0):
                continue  # (there the last exception stays)
            yield f"host/{e}/{harness.cfg_name(o)}", {"kind": "host", "export": e, "cfg": o}
            for u in USES:
                yield f"use/{e}/{u}/{harness.cfg_name(o)}", {"kind": "use", "export": e, "use": u, "cfg": o}
        for n in range(1, 7 if tier != "quick" else 5):
            for steps in itertools.product("ab", repeat=n):
                yield f"gens/{''.join(steps)}/{harness.cfg_name(o)}", {"kind": "gens", "steps": "".join(steps), "cfg": o}


class Stop(BaseException):
    pass


def boom():
    raise Stop("boom")


def quiet(event, offset, opname, oparg, lineno, arg, stack, vm):
    return quiet


def make_vm(cfg, traced):
    if traced:
        from xdis.version_info import PythonImplementation
        from xpython.vmtrace import PyVMTraced

        return PyVMTraced(quiet, cfg[0], PythonImplementation.PyPy if cfg[1] else PythonImplementation.CPython)
    return new_vm(cfg)


_codes = {}


def code_for(src, cfg):
    cfg = (tuple(cfg[0]), cfg[1])
    if (src, cfg) not in _codes:
        _codes[src, cfg] = compile_for(src, cfg)
    return _codes[src, cfg]


def extra(log):
    return {"boom": boom}


def on(vm, cfg, src, log, names=None):
    """Run a program on this interpreter; how it ended."""
    env = base_env(log, extra)
    env["V2"] = cfg[0] < (3, 0)
    env.update(names or {})
    r = vm_run_code(code_for(src, cfg), cfg, vm=vm, env=env, log=log)
    return r["end"], env


def natively(src, log, names=None):
    env = base_env(log, extra)
    env["V2"] = False
    env.update(names or {})
    try:
        exec(compile(src, "prog", "exec"), env)
        return "ok", env
    except Exception as e:
        return exc_obs(e), env
    except BaseException as e:
        return ["base"] + exc_obs(e), env


class Native:
    """Stands for an interpreter on the side of the reference."""


def script(p, cfg, start, run):
    """The history of a case. start(cfg, traced) makes an interpreter,
    run(interpreter, cfg, source, log, names) runs a program on it."""
    log = Log()
    o = tuple(p["cfg"][0]), p["cfg"][1]
    kind = p["kind"]
    if kind == "nest":
        a, b = start(cfg, 0), start(o, 0)

        def other():
            log("end", run(b, o, PROGS[p["prog"]], log)[0])

        log("end", run(a, cfg, NEST[p["place"]], log, {"other": other})[0])
        log("end", run(b, o, PROGS["cont"], log)[0])
        log("end", run(a, cfg, PROGS["handled"], log)[0])
        return log.items
    if kind == "gens":
        a, b = start(cfg, 0), start(o, 0)
        src = ("def g(n):\n    try: raise KeyError(n)\n    except KeyError:\n        yield 'h'\n    for i in range(2):\n        "
               "yield n * i\n    raise ValueError(n)\n")
        its = {"a": run(a, cfg, src, log)[1]["g"](3), "b": run(b, o, src, log)[1]["g"]('x')}
        for s in p["steps"]:
            try:
                log(s, next(its[s]))
            except Exception as e:
                log(s, type(e).__name__)
        return log.items
    src, args = EXPORT[p["export"]]
    a, b = start(o, 0), start(cfg, 0)
    end, env = run(a, o, src, log)
    f = env["f"]
    if kind == "host":
        for i in range(3):
            try:
                log("host", f(*args))
            except Exception as e:
                log("host", type(e).__name__)
            log("end", run(a, o, PROGS[("inexcept", "ok", "native")[i]], log)[0])
        return log.items
    log("end", run(b, cfg, USES[p["use"]], log, {"f": f, "ARG": args[0]})[0])
    log("end", run(a, o, PROGS["handled"], log)[0])
    log("end", run(b, cfg, PROGS["cont"], log)[0])
    return log.items


def run(cfg, p):
    if p["kind"] == "seq":
        vm = make_vm(cfg, p["traced"])
        want, got = [], []
        for name in p["seq"]:
            w, g = Log(), Log()
            want.append([natively(PROGS[name], w)[0], w.items])
            got.append([on(vm, cfg, PROGS[name], g)[0], g.items])
        return want, got
    want = script(p, cfg, lambda c, t: None, lambda vm, c, src, log, names=None: natively(src, log, names))
    got = script(p, cfg, make_vm, on)
    return want, got


def stats(p, want):
    n = len(p.get("seq", "")) or 4
    return {"states": 2 * n, "transitions": n, "traces": 1}


def nontrivial(want):
    return True
