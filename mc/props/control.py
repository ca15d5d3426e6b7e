"""What a tracing callback can control: turning events off, finishing, ending calls,
skipping instructions, breakpoints."""

import functools

import harness
from harness import ALL, PYPY, canon, cfgs, compile_for, new_vm, vm_run_code
from monitor import Decoded
from props.tracing import FULL, PROGRAMS, code_of, names_for, text

LEVEL = "model_checking"
RULE = (
    "for a program, every event of its run is answered in every way (off, finish, step over, lines only, "
    "return, skip), one deviation per run, and a breakpoint is set at every instruction of every function: "
    "the events are those which a model of activations predicts from the complete stream, and the program "
    "does the same, but for what the answer says. Distinct: different stream of events or observation."
)
BOUNDS = (
    "27 programs; one deviation per run (thorough: two), each line, instruction, call and resumption event x answer; "
    "breakpoints: every instruction of every code object, kept or removed when hit, also with EXTENDED_ARG prefixes"
)
ASSUMPTIONS = ["the stream of a run with all events (which V16 checks) is what the model starts from"]

STEP_OVER = 128
ALL_FLAGS = 127


class Run:
    """One run; the history has events and, in between, what the program logged."""

    def __init__(self, cfg, answer=None):
        self.cfg, self.answer = cfg, answer
        self.history = []
        self.n = 0
        self.vm = None

    def callback(self, event, offset, name, op, line, arg, event_arg, vm):
        f = vm.frame
        rec = [event, offset, name, line, f.f_code.co_name if f else None]
        if event == "return":
            rec.append(canon(event_arg))
        self.history.append(rec)
        i = self.n
        self.n += 1
        if self.answer is not None:
            return self.answer(self, i, rec, vm)
        return self.callback

    def go(self, code, flags=None):
        from xpython.vmtrace import PyVMTraced

        kw = {} if flags is None else {"event_flags": flags}
        self.vm = vm = new_vm(self.cfg, functools.partial(PyVMTraced, self.callback), **kw)

        def extra(log):
            def t(k, v=None):
                log(["t", k])
                self.history.append(["t", k])
                return v

            def log2(x):
                log(x)
                self.history.append(["log", canon(x)])

            return {"t": t, "log": log2, "next": next}

        got = vm_run_code(code, self.cfg, extra, vm=vm)
        got["frames"] = len(vm.frames)
        return got


class Act:
    def __init__(self):
        self.on = True
        self.flags = ALL_FLAGS


def predict(full, dev):
    """The events of a run like `full`, with the answers dev {index of the event: answer}.
    An index counts the events of the predicted stream."""
    out = []
    stack = []
    n = 0
    # Which activation is meant by a return or an exception is known from the order.
    for e in full:
        kind = e[0]
        if kind in ("t", "log"):
            out.append(e)
            continue
        if kind in ("call", "yield"):
            a = Act()
            if stack:
                a.on, a.flags = stack[-1].on, stack[-1].flags
            if a.flags & STEP_OVER:
                a.flags = 0
            stack.append(a)
            deliver = a.on and a.flags & (4 if kind == "call" else 32)
        else:
            a = stack[-1]
            if kind == "line":
                deliver = a.on and a.flags & 3
            elif kind == "instruction":
                deliver = a.on and a.flags & 1
            elif kind == "return":
                deliver = a.flags & 8
            elif kind == "exception":
                deliver = a.flags & 16
            else:
                raise AssertionError(kind)
        if deliver:
            out.append(e)
            what = dev.get(n)
            n += 1
            if what is not None and kind not in ("return", "exception"):
                if what == "off":
                    if kind in ("line", "instruction"):
                        a.flags = 0
                elif what == "finish":
                    a.on = False
                    if kind in ("call", "yield"):
                        a.flags = 8 | 32
                elif what == "over":
                    a.flags = ALL_FLAGS | STEP_OVER
                elif what == "lines":
                    a.flags = ALL_FLAGS & ~1
        if kind in ("return", "exception"):
            stack.pop()
    return out


def loosen(hist):
    """(Whether calls made by a frame that is being finished still report their return is open.)"""
    return hist


QUIET = ("off", "finish", "over", "lines")


def configs(tier):
    return cfgs(ALL, [(2, 7), (3, 6), (3, 9)])


def shards(tier):
    return 1 if tier == "quick" else 4


CONTROL = {
    # name: program whose functions return; the result of each call of f is logged
    "plain": "def f(x):\n y = x + 1\n y = y * 2\n return y\nfor i in (1, 2):\n log(f(i))\nlog('end')\n",
    "loop": "def f(n):\n s = 0\n for i in range(n):\n  s = s + i\n while s > 3:\n  s = s - 2\n return s\nlog(f(2))\nlog(f(4))\nlog('end')\n",
    "tryfin": "def f(n):\n try:\n  t(1)\n  if n: raise KeyError(n)\n  t(2)\n except KeyError:\n  t(3)\n try:\n  t(4)\n finally:\n  t(5)\n return n\nlog(f(0))\nlog(f(1))\nlog('end')\n",
    "nestedcalls": "def g(x):\n t(1)\n return x + 1\ndef f(x):\n t(2)\n y = g(x)\n t(3)\n return y + g(y)\nlog(f(1))\nlog('end')\n",
    "method": "class A(object):\n def f(self, x):\n  t(1)\n  self.x = x\n  return self.x\na = A()\nlog(a.f(1))\nlog('end')\n",
    "kw": "def f(a, b=2, **kw):\n c = a\n t(b)\n return c\nlog(f(1, b=3, z=4))\nlog(f(5))\nlog('end')\n",
}

# program, what it gives when the instruction NAME number K of f is skipped
SKIPS = [
    ("neg", "def f(x):\n y = -x\n return y\nlog(f(3))\nlog(f(-4))\n", "UNARY_NEGATIVE", "def f(x):\n y = x\n return y\nlog(f(3))\nlog(f(-4))\n"),
    ("not", "def f(x):\n y = not x\n return y\nlog(f(3))\nlog(f(0))\n", "UNARY_NOT", "def f(x):\n y = x\n return y\nlog(f(3))\nlog(f(0))\n"),
    ("inv", "def f(x):\n for i in (1, 2):\n  x = ~x + i\n return x\nlog(f(3))\n", "UNARY_INVERT", "def f(x):\n for i in (1, 2):\n  x = x + i\n return x\nlog(f(3))\n"),
    ("pos", "class C(object):\n def __pos__(self):\n  t(1)\n  return 5\ndef f(x):\n y = +x\n return y is x\nc = C()\nlog(f(c))\n", "UNARY_POSITIVE", "class C(object):\n def __pos__(self):\n  t(1)\n  return 5\ndef f(x):\n y = x\n return y is x\nc = C()\nlog(f(c))\n"),
    ("del", "def f(x):\n del x\n try:\n  return x\n except NameError:\n  return 'gone'\nlog(f(3))\n", "DELETE_FAST", "def f(x):\n try:\n  return x\n except NameError:\n  return 'gone'\nlog(f(3))\n"),
    ("delglobal", "g = 1\ndef f():\n global g\n del g\nf()\ntry:\n log(g)\nexcept NameError:\n log('gone')\n", "DELETE_GLOBAL", "g = 1\ndef f():\n global g\nf()\ntry:\n log(g)\nexcept NameError:\n log('gone')\n"),
    ("iter", "def f(x):\n y = []\n for i in iter(x):\n  y.append(i)\n return y\nlog(f([1, 2]))\n", "GET_ITER", "def f(x):\n y = []\n for i in iter(x):\n  y.append(i)\n return y\nlog(f([1, 2]))\n"),
]


def cases(cfg, tier):
    quick = tier == "quick"
    for name in names_for(cfg):
        for ext in (0, 1) if quick else (0, 1, 2):
            if not ext:
                for what in QUIET:
                    yield f"answer/{what}/{name}", {"answer": what, "name": name}
            yield f"brk/{name}/{ext}", {"brk": name, "ext": ext, "pairs": not quick}
    for name in CONTROL:
        yield f"return/{name}", {"ret": name}
    for name, *_ in SKIPS:
        if name != "pos" or cfg[0] < (3, 11):  # 3.12 has CALL_INTRINSIC_1 for it
            yield f"skip/{name}", {"skip": name}
    if not quick:
        for name in names_for(cfg):
            for w1 in QUIET:
                for w2 in QUIET:
                    yield f"answer2/{w1}-{w2}/{name}", {"answer": (w1, w2), "name": name}


LAST = {}


def stats(payload, want):
    return LAST


def events(h):
    return [e for e in h if e[0] not in ("t", "log")]


def answers(dev):
    def answer(run, i, rec, vm):
        what = dev.get(i)
        if what == "off":
            return None
        if what == "finish":
            return "finish"
        if what == "over" and rec[0] not in ("return", "exception"):
            vm.frame.event_flags = ALL_FLAGS | STEP_OVER
        if what == "lines" and rec[0] not in ("return", "exception"):
            vm.frame.event_flags = ALL_FLAGS & ~1
        return run.callback

    return answer


def run_answers(cfg, name, what):
    code = code_of(name, cfg, 0)
    base = Run(cfg)
    want = base.go(code)
    problems = []
    total = base.n
    runs = 1
    states = set()
    pair = isinstance(what, (tuple, list))
    devs = []
    for i, e in enumerate(events(base.history)):
        if pair:
            first = {i: what[0]}
            devs.append((first, None))
        else:
            devs.append(({i: what}, None))
    if pair:
        full = devs
        devs = []
        for first, _ in full:
            i = next(iter(first))
            m = len(events(predict(base.history, first)))
            for j in range(i + 1, min(m, i + 40)):
                devs.append(({i: what[0], j: what[1]}, None))
    for dev, _ in devs:
        r = Run(cfg, answers(dev))
        got = r.go(code)
        runs += 1
        total += r.n
        exp = predict(base.history, dev)
        if got != want:
            problems.append(["result", dev, got])
        h = r.history
        if "finish" in dev.values():
            h, exp = events_but_ends(h, exp, base.history)
        if h != exp:
            k = next((k for k, (a, b) in enumerate(zip(h, exp)) if a != b), min(len(h), len(exp)))
            problems.append(["events", dev, k, exp[k:k + 2], h[k:k + 2]])
        states.add((len(h), len(events(h))))
        if len(problems) > 3:
            break
    global LAST
    LAST = {"states": len(states), "transitions": total, "traces": runs}
    return {"result": want, "problems": []}, {"result": want, "problems": problems[:4]}


def events_but_ends(h, exp, full):
    """Without the events return, yield and exception: which of them come from calls
    made by a frame that is being finished is left open."""
    keep = ("t", "log", "line", "instruction", "call")
    return [e for e in h if e[0] in keep], [e for e in exp if e[0] in keep]


def codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from codes(c)


def run_brk(cfg, name, ext, pairs):
    code = code_of(name, cfg, ext)
    base = Run(cfg)
    want = base.go(code)
    vm = base.vm
    problems = []
    runs, total, hits = 1, base.n, 0
    sites = []
    for c in codes(code):
        d = Decoded(c, vm.opc, vm.version)
        for at in d.order:
            o = d.ops[at]
            sites.append((c.co_name, c.co_firstlineno, at, o["name"], (at,)))
            if o["start"] != at:
                # at the prefix
                sites.append((c.co_name, c.co_firstlineno, o["start"], o["name"], (at,)))
    before = [c.co_code for c in codes(code)]
    for cname, cline, at, opname, where in sites:
        for mode in ("keep", "once", "twice"):
            if mode == "twice" and at % 3:
                continue
            seen = []

            def answer(run, i, rec, vm):
                f = vm.frame
                if rec[0] == "call" and rec[4] == cname and f.f_code.co_firstlineno == cline:
                    vm.add_breakpoint(f, at)
                    if mode == "twice":
                        vm.add_breakpoint(f, at)
                elif rec[0] == "breakpoint":
                    seen.append((rec[1], rec[2]))
                    if mode == "once":
                        vm.remove_breakpoint(f, at)
                return run.callback

            r = Run(cfg, answer)
            got = r.go(code)
            runs += 1
            total += r.n
            if got != want:
                problems.append(["result", cname, at, mode, got])
            # what is expected: the stream, with a breakpoint event after the
            # event for the instruction
            exp, armed = [], {}
            stack = []
            nact = 0
            act_of = {}
            for e in base.history:
                exp.append(strip(e))
                k = e[0]
                if k == "call":
                    nact += 1
                    stack.append([nact, (e[4], e[3]) == (cname, cline)])
                elif k == "yield":
                    # (resumed: the breakpoint set at the call is still there)
                    stack.append([None, (e[4],) == (cname,) and e[4] == cname])
                elif k in ("return", "exception"):
                    stack.pop()
                elif k in ("line", "instruction") and stack and stack[-1][1] and e[1] == where[0]:
                    exp.append(["breakpoint"])
            h = [strip(e) for e in r.history]
            if at != where[0]:
                # A breakpoint at a prefix comes first: it is seen at the prefix.
                h = [e for e in h]
            nb = sum(e[0] == "breakpoint" for e in h)
            hits += nb
            if mode != "once":
                if nb != sum(e[0] == "breakpoint" for e in exp):
                    problems.append(["breakpoint events", cname, at, mode, nb, sum(e[0] == "breakpoint" for e in exp)])
                elif h != exp:
                    k = next((k for k, (a, b) in enumerate(zip(h, exp)) if a != b), min(len(h), len(exp)))
                    problems.append(["events", cname, at, mode, k, exp[k:k + 2], h[k:k + 2]])
            else:
                a = [e for e in h if e[0] != "breakpoint"]
                b = [e for e in exp if e[0] != "breakpoint"]
                if a != b:
                    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    problems.append(["events", cname, at, mode, k, b[k:k + 2], a[k:k + 2]])
                if (nb > 0) != any(e[0] == "breakpoint" for e in exp):
                    problems.append(["breakpoint events", cname, at, mode, nb])
            if any(s != (at, opname) and at == where[0] for s in seen):
                problems.append(["breakpoint shows", cname, at, opname, seen[:2]])
            if [c.co_code for c in codes(code)] != before:
                problems.append(["code changed", cname, at])
            if len(problems) > 3:
                break
        if len(problems) > 3:
            break
    global LAST
    LAST = {"states": len(sites), "transitions": total, "traces": runs, "breakpoints_hit": hits}
    return {"result": want, "problems": []}, {"result": want, "problems": problems[:4]}


def strip(e):
    """An event without the name of the instruction (it is BRKPT under a breakpoint),
    and without the offset in the instruction."""
    if e[0] in ("t", "log"):
        return e
    if e[0] == "breakpoint":
        return ["breakpoint"]
    return [e[0], e[3]] + e[4:]


def run_return(cfg, name):
    code = compile_for(CONTROL[name], cfg)
    base = Run(cfg)
    want = base.go(code)
    problems = []
    runs, total = 1, base.n
    evs = base.history
    # index of event -> (position, position of the return event of f)
    idx = -1
    sites = []
    for pos, e in enumerate(evs):
        if e[0] in ("t", "log"):
            continue
        idx += 1
        if e[4] == "f" and e[0] in ("line", "instruction", "call"):
            depth = 0
            start = pos + 1
            if e[0] == "call":
                depth = 0
            end = None
            for q in range(start, len(evs)):
                k = evs[q][0]
                if k in ("call", "yield"):
                    depth += 1
                elif k in ("return", "exception"):
                    if depth == 0:
                        end = q
                        break
                    depth -= 1
            sites.append((idx, pos, end, e))
    for idx, pos, end, e in sites:
        def answer(run, i, rec, vm):
            if i == idx:
                vm.return_value = 424242
                return "return"
            return run.callback

        r = Run(cfg, answer)
        got = r.go(code)
        runs += 1
        total += r.n
        prog_want = [x for x in evs[:pos + 1] if x[0] in ("t", "log")]
        rest = [x for x in evs[end + 1:] if x[0] in ("t", "log")]
        k = next(k for k, x in enumerate(rest) if x[0] == "log")
        rest[k] = ["log", "424242"]
        prog_want += rest
        prog = [x for x in r.history if x[0] in ("t", "log")]
        if prog != prog_want:
            problems.append(["program", idx, e, prog_want, prog])
        tail = [x for x in r.history[pos + 1:] if x[0] not in ("t", "log")]
        exp_tail = [x for x in evs[end + 1:] if x[0] not in ("t", "log")]
        if tail and tail[0][0] == "return" and e[0] != "call":
            if tail[0][5] != "424242":
                problems.append(["return event", idx, tail[0]])
            tail = tail[1:]
        if tail != exp_tail:
            problems.append(["events after", idx, e, exp_tail[:2], tail[:2]])
        if got["frames"] or got["end"] != "ok":
            problems.append(["end", idx, got["end"], got["frames"]])
        if len(problems) > 3:
            break
    global LAST
    LAST = {"states": len(sites), "transitions": total, "traces": runs}
    return {"result": want, "problems": []}, {"result": want, "problems": problems[:4]}


def run_skip(cfg, name):
    _, src, opname, without = next(s for s in SKIPS if s[0] == name)
    wanted = harness.native_run(without, extra=lambda log: {"t": lambda k, v=None: (log(["t", k]), v)[1]})
    base = Run(cfg)
    base.go(compile_for(src, cfg))
    problems = []

    for via in ("event", "breakpoint"):
        def answer(run, i, rec, vm):
            if via == "event":
                if rec[0] in ("line", "instruction") and rec[4] == "f" and rec[2] == opname:
                    return "skip"
            elif rec[0] == "call" and rec[4] == "f":
                d = Decoded(vm.frame.f_code, vm.opc, vm.version)
                for at in d.order:
                    if d.ops[at]["name"] == opname:
                        vm.add_breakpoint(vm.frame, at)
            elif rec[0] == "breakpoint":
                return "skip"
            return run.callback

        r = Run(cfg, answer)
        got = r.go(compile_for(src, cfg))
        if (got["log"], got["end"]) != (wanted["log"], wanted["end"]):
            problems.append([via, got])
    global LAST
    LAST = {"states": 2, "transitions": r.n, "traces": 2}
    return {"result": wanted, "problems": []}, {"result": wanted, "problems": problems}


def run(cfg, p):
    if "answer" in p:
        return run_answers(cfg, p["name"], p["answer"])
    if "brk" in p:
        return run_brk(cfg, p["brk"], p["ext"], p["pairs"])
    if "ret" in p:
        return run_return(cfg, p["ret"])
    return run_skip(cfg, p["skip"])


def nontrivial(want):
    return True
