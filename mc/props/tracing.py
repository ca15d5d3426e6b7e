"""Tracing: what a traced program does, and the events of the trace."""

import builtins
import importlib

import harness
from harness import ALL, HOST, PYPY, base_env, cfgs, compile_for, native_run, vm_run_code
from monitor import Monitor
from props.wide import MODS, pick

LEVEL = "model_checking"
RULE = (
    "corpus family: a case of V01 to V14 run with a callback for all events gives the result of the "
    "reference, and every event of the run is accepted by an automaton of calls, resumptions and ends "
    "with its own decoding of the bytecode; stream family: for each program and each of the 64 sets of "
    "event kinds, the events are the projection of the complete stream, and the line events of statements "
    "agree with the order in which the statements ran; made family: an interpreter made with fewer arguments gives the same events. Distinct: different stream or observation."
)
BOUNDS = (
    "corpus: about 24 cases per property and configuration (12 for PyPy) in the quick tier, 400 in the thorough one; "
    "stream: 26 programs x 64 sets of kinds, and with EXTENDED_ARG prefixes on every operand"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference for what a program does",
    "the events are delivered synchronously (they are function calls)",
]

# T is replaced by t(NUMBER OF THE LINE).
PROGRAMS = {
    "straight": "T\nx = T\nT\n",
    "if": "for a in (0, 1, 2):\n T\n if a == 0:\n  T\n elif a == 1:\n  T\n else:\n  T\n T\n",
    "while": "k = 0\nwhile k < 3:\n k += 1\n T\n if k == 2:\n  T\n  continue\n T\nelse:\n T\nT\n",
    "break": "for k in (1, 2, 3):\n T\n if k == 2:\n  T\n  break\n T\nelse:\n T\nT\n",
    "nested": "def f(n):\n T\n for i in (1, 2):\n  for j in (1, 2):\n   if i == j:\n    T\n    continue\n   T\n T\n return n\nlog(f(3))\nT\n",
    "calls": "def g(a, b=2):\n T\n return a + b\ndef f(a):\n T\n x = g(a)\n T\n y = g(a, b=x)\n T\n return y\nlog(f(1))\nlog(f(2))\nT\n",
    "recursion": "def f(n):\n T\n if n == 0:\n  T\n  return 1\n T\n r = n * f(n - 1)\n T\n return r\nlog(f(3))\n",
    "closure": "def f(a):\n T\n def g():\n  T\n  return a\n T\n return g\nh = f(3)\nT\nlog(h())\n",
    "gen": "def g():\n T\n yield 1\n T\n for i in (2, 3):\n  T\n  yield i\n T\nfor x in g():\n T\nT\n",
    "gen2": "def g(k):\n T\n yield k\n T\n yield k + 1\na = g(1)\nb = g(5)\nfor x in (1, 2):\n T\n log(next(a))\n T\n log(next(b))\nT\n",
    "gen3": "def g():\n T\n yield 1\n T\ndef h():\n T\n for x in g():\n  T\n  yield x\n T\nlog(list(h()))\nT\n",
    "genleft": "def g():\n T\n yield 1\n T\n yield 2\n T\nx = g()\nlog(next(x))\nT\n",
    "genexc": "def g():\n T\n yield 1\n T\n raise KeyError(1)\ntry:\n T\n for x in g():\n  T\nexcept KeyError:\n T\nT\n",
    "genexpr": "def f(x):\n T\n return x\nlog(list(f(i) for i in (1, 2)))\nT\n",
    "except": "for w in (0, 1, 2):\n try:\n  T\n  if w == 0:\n   T\n   raise KeyError(w)\n  elif w == 1:\n   T\n   raise ValueError(w)\n  T\n except KeyError:\n  T\n except ValueError:\n  T\n else:\n  T\n T\n",
    "unwind": "def h():\n T\n raise KeyError(1)\ndef g():\n T\n h()\n T\ndef f():\n T\n try:\n  T\n  g()\n  T\n except KeyError:\n  T\n T\nf()\nT\n",
    "finally": "def f(w):\n T\n try:\n  T\n  if w == 0:\n   T\n   return 1\n  if w == 1:\n   T\n   raise KeyError(w)\n  T\n finally:\n  T\n  w = 5\n T\n return 2\nfor w in (0, 1, 2):\n try:\n  log(f(w))\n except KeyError:\n  T\n T\n",
    "finloop": "def f():\n T\n for k in (0, 1, 2):\n  try:\n   T\n   if k == 0:\n    T\n    continue\n   if k == 1:\n    T\n    break\n  finally:\n   T\n   w = 5\n T\n return k\nlog(f())\nT\n",
    "nestedexc": "def f():\n T\n try:\n  try:\n   T\n   raise KeyError(1)\n  except KeyError:\n   T\n   raise ValueError(2)\n except ValueError:\n  T\n T\nf()\nT\n",
    "class": "class A(object):\n T\n x = T\n def m(self):\n  T\n  return 1\n T\na = A()\nT\nlog(a.m())\nT\n",
    "init": "class A(object):\n def __init__(self, x):\n  T\n  self.x = x\n  T\n def __add__(self, o):\n  T\n  return A(self.x + o.x)\nlog((A(1) + A(2)).x)\nT\n",
    "native": "def key(x):\n T\n return -x\nlog(sorted([1, 3, 2], key=key))\nT\nlog(list(map(lambda x: x + 1, [1, 2])))\nT\n",
    "callback": "def f(x):\n T\n return x\ndef g(h, x):\n T\n return h(h(x))\nlog(g(f, 1))\nT\n",
    "uncaught": "def f():\n T\n raise KeyError(1)\nT\nf()\nT\n",
    "exit": "def f():\n T\n raise SystemExit(3)\nT\nf()\nT\n",
    "with": "class M(object):\n def __enter__(self):\n  T\n  return 1\n def __exit__(self, *a):\n  T\n  return True\ndef f(w):\n T\n with M() as y:\n  T\n  if w:\n   T\n   raise KeyError(w)\n  T\n T\n return y\nlog(f(0))\nlog(f(1))\n",
    "del": "def f():\n T\n x = [1, 2]\n del x[0]\n T\n x.append(3)\n T\n del x\n T\nf()\n",
}
NAMES = sorted(PROGRAMS)

FULL = 127
KINDS = ("instruction", "line", "call", "return", "exception", "yield")


def text(name):
    lines = PROGRAMS[name].split("\n")
    return "\n".join(x.replace("T", f"t({n})") if x.strip() in ("T", "x = T") else x
                     for n, x in enumerate(lines, 1))


def configs(tier):
    return cfgs(ALL, PYPY)


def names_for(cfg):
    for n in NAMES:
        if n == "with" and cfg[0] < (2, 6):
            continue
        yield n


def cases(cfg, tier):
    quick = tier == "quick"
    if cfg != ((3, 8), True):
        for name in names_for(cfg):
            for ext in (0, 1) if quick else (0, 1, 2):
                yield f"stream/{name}/{ext}", {"stream": name, "ext": ext}
    for form in () if cfg[1] else MADE if cfg[0] == HOST else MADE[:2]:
        yield f"made/{form}", {"made": form}
    for name in MODS + ["printing", "wide"]:
        for key, payload in pick(name, cfg, tier, (12 if cfg[1] else 24) if quick else 400):
            if len(str(payload)) < 20000:
                yield f"run/{name}/{key}", {"mod": name, "payload": payload}


MADE = ("version", "keywords", "nothing")


def run_made(cfg, form):
    """The events on an interpreter that was made with that choice of arguments."""
    from xdis.version_info import PythonImplementation
    from xpython.vmtrace import PyVMEVENT_ALL, PyVMTraced

    v, impl = cfg[0], PythonImplementation.PyPy if cfg[1] else PythonImplementation.CPython
    src = "def f(n):\n    for i in range(n):\n        yield i\nlog(list(f(2)))\n"
    code = compile_for(src, cfg)

    def seen(form):
        events = []

        def callback(event, offset, name, op, line, arg, event_arg, vm):
            events.append([event, offset, name, line])
            return callback

        vm = {
            "all": lambda: PyVMTraced(callback, v, impl, False, PyVMEVENT_ALL),
            "keywords": lambda: PyVMTraced(callback=callback, python_version=v, event_flags=PyVMEVENT_ALL),
            "version": lambda: PyVMTraced(callback, v),
            "nothing": lambda: PyVMTraced(callback),
        }[form]()
        log = []
        status = vm.run_code(code, f_globals={"__name__": "m", "log": log.append, "__builtins__": builtins})
        return [status, log, events]

    try:
        got = seen(form)
    except Exception as e:
        got = [type(e).__name__]
    want = seen("all")
    global LAST
    LAST = {"states": len(want[2]), "transitions": len(want[2]), "traces": 2}
    return want, got


_codes = {}


def code_of(name, cfg, ext):
    k = (name, cfg, ext)
    if k not in _codes:
        _codes[k] = compile_for(text(name), cfg, min_ext=ext)
    return _codes[k]


def extra_for(mon):
    def extra(log):
        def t(k, v=None):
            log(["t", k])
            if mon is not None:
                a = mon.acts[-1] if mon.acts else None
                if mon.strict and (a is None or a.line != k):
                    mon.bad("statement ran outside of its line event", k, a and a.line)
                mon.history.append(["t", k])
            return v

        return {"t": t, "next": next}

    return extra


def traced(name, cfg, ext=0, answer=None, flags=None, strict=True):
    mon = Monitor(cfg, answer, strict)
    vm = mon.make_vm(flags)
    got = vm_run_code(code_of(name, cfg, ext), cfg, extra_for(mon), vm=vm)
    if strict:
        mon.finish()
    else:
        if vm.frames or vm.frame is not None:
            mon.bad("frames left", len(vm.frames))
    return got, mon


def project(history, mask):
    """The events of a run where only the kinds in mask are asked for.
    history: [event, offset, name, line, ...] of a run with all kinds."""
    out = []
    for e in history:
        kind = e[0]
        if kind == "line":
            if mask & 3:
                out.append(e)
        elif kind == "instruction":
            if mask & 1:
                out.append(e)
        elif kind == "call":
            if mask & 4:
                out.append(e)
        elif kind == "return":
            if mask & 8:
                out.append(e)
        elif kind == "exception":
            if mask & 16:
                out.append(e)
        elif kind == "yield":
            if mask & 32:
                out.append(e)
    return out


def run_stream(cfg, name, ext):
    src = text(name)
    want = native_run(src, extra=extra_for(None))
    got, mon = traced(name, cfg, ext)
    problems = list(mon.problems)
    # the lines of statements, in the order in which they ran
    lines_t = {n for n, x in enumerate(PROGRAMS[name].split("\n"), 1) if x.strip() in ("T", "x = T")}
    ran = [e[1] for e in mon.history if e[0] == "t"]
    shown = [e[5] for e in mon.history if e[0] != "t" and e[2] == "line" and e[5] in lines_t]
    if ran != shown:
        problems.append(["line events", ran[:40], shown[:40]])
    got2, mon2 = traced(name, cfg, ext, strict=False)
    full = [e for e in mon2.history if e[0] != "t"]
    if got2 != got:
        problems.append(["second run", got2])
    ends = {(e[1], e[2]) for e in full if e[0] == "exception"}
    runs = 2
    for mask in range(64):
        flags = sum(b for b, k in ((1, 1), (2, 2), (4, 4), (8, 8), (16, 16), (32, 32)) if mask & b)
        g, m = traced(name, cfg, ext, flags=flags, strict=False)
        runs += 1
        if g != got:
            problems.append(["result with kinds", mask, g])
        evs, exp = m.history, project(full, mask)
        evs = [e for e in evs if e[0] != "t"]
        if mask & 8 and not mask & 16:
            # (whether the end of a call by an exception is then a return is open)
            evs = [e for e in evs if not (e[0] == "return" and (e[1], e[2]) in ends)]
            exp = [e for e in exp if not (e[0] == "return" and (e[1], e[2]) in ends)]
        if evs != exp:
            k = next((i for i, (a, b) in enumerate(zip(evs, exp)) if a != b), min(len(evs), len(exp)))
            problems.append(["events with kinds", mask, k, exp[k:k + 2], evs[k:k + 2]])
        problems += m.problems
        if len(problems) > 5:
            break
    global LAST
    LAST = {"states": len(mon.heights), "transitions": mon.events, "traces": runs}
    return {"result": want, "problems": []}, {"result": got, "problems": problems[:5]}


LAST = {}


def stats(payload, want):
    return LAST


def run(cfg, payload):
    if "made" in payload:
        return run_made(cfg, payload["made"])
    if "stream" in payload:
        return run_stream(cfg, payload["stream"], payload["ext"])
    mod = importlib.import_module("props." + payload["mod"])
    for c in ("_codes", "_compiled"):
        if hasattr(mod, c):
            getattr(mod, c).clear()
    mons = []

    def factory(cfg):
        m = Monitor(cfg, record=False)
        mons.append(m)
        return m.make_vm()

    harness.VM_FACTORY = factory
    try:
        want, got = mod.run(cfg, payload["payload"])
    finally:
        harness.VM_FACTORY = None
    problems = []
    for m in mons:
        m.finish()
        problems += m.problems
    global LAST
    LAST = {"states": sum(len(m.heights) for m in mons), "transitions": sum(m.events for m in mons),
            "traces": len(mons)}
    return {"result": want, "problems": []}, {"result": got, "problems": problems[:5]}


def nontrivial(want):
    return True
