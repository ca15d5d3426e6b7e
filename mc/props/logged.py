"""What the log of a run says, and that asking for it changes nothing."""

import contextlib
import dis
import importlib
import io
import logging
import re
import sys

import harness
from harness import ALL, PYPY, Log, TooMuch, base_env, cfgs, compile_for, new_vm, vm_run_code
from monitor import Decoded
from props.tracing import PROGRAMS, names_for, text
from props.wide import MODS, pick

LEVEL = "model_checking"
RULE = (
    "run family: a case of V01 to V14 run with a log of instructions (INFO) or of instructions and stacks (DEBUG) "
    "gives the result of the reference; log family: every record of a run agrees with a decoding of the bytecode "
    "of its own, with the stack and with the flow of control, and none is missing; trace family (3.12): the "
    "instructions logged are those that CPython's own opcode trace of the same code object has. Distinct: "
    "different log or observation."
)
BOUNDS = (
    "run: about 16 cases per property and configuration (8 for PyPy) in the quick tier, 300 in the thorough one, "
    "with INFO or DEBUG; log: 29 programs x plain and traced interpreter x INFO and DEBUG, with and without "
    "EXTENDED_ARG prefixes; trace: 240 cases per property (thorough: all)"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference for what a program does",
    "no __repr__ of the programs of the log family has effects",
]

MORE = {
    "ops": "a = 7\nb = 2\nlog(a + b, a - b, a * b, a // b, a % b, a ** b, a << b, a >> b, a & b, a | b, a ^ b)\nlog(a < b, a <= b, a == b, a != b, a > b, a >= b)\nlog(a in [b], a not in [b], a is b, a is not b)\nlog(-a, +a, ~a, not a)\na += b\na -= 1\na *= b\na //= 3\na %= 5\na **= b\na <<= b\na >>= 1\na &= 6\na |= 9\na ^= b\nlog(a)\nlog([1, 2][0:b])\n",
    "vars": "g = 1\ndef f(p, q=2, *r, **s):\n global g\n u = p\n def h(): return u + q\n g = u\n del p\n return h()\nclass K(object):\n x = 1\n y = x\nk = K()\nk.x = 5\nk.z = k.x\ndel k.z\nl = [1, 2, 3]\nl[0] = 4\ndel l[1]\na, b = l\nlog(f(3), f(1, 2), K.y, k.x, l, a, b)\ndel a\n",
}


def all_names(cfg):
    return list(names_for(cfg)) + list(MORE)


def source(name):
    return MORE[name] if name in MORE else text(name)


# not those whose objects have a __repr__ or __format__ with effects
QUIET_MODS = [m for m in MODS + ["printing", "wide"] if m not in ("formatting", "evalorder")]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


def cases(cfg, tier):
    quick = tier == "quick"
    v, pypy = cfg
    if cfg != ((3, 8), True):
        for name in all_names(cfg):
            for level in ("INFO", "DEBUG"):
                for tr in (0, 1):
                    for ext in (0, 1) if v < (3, 12) else (0,):
                        yield f"log/{name}/{level}/{tr}/{ext}", {"log": name, "level": level, "tr": tr, "ext": ext}
    for name in QUIET_MODS:
        for i, (key, payload) in enumerate(pick(name, cfg, tier, (8 if pypy else 16) if quick else 300)):
            if len(str(payload)) < 20000 and not any(
                    x in key for x in ("formatting", "evalorder", "65540", "/7000")):
                yield f"run/{name}/{key}", {"mod": name, "payload": payload, "level": "DEBUG" if i % 2 else "INFO", "tr": i % 3 == 1}
    if v >= (3, 12):
        for name in MODS:
            for key, payload in pick(name, cfg, tier, 240 if quick else 10**9):
                if isinstance(payload, dict) and isinstance(payload.get("src"), str) and len(payload["src"]) < 20000 and "__subclasscheck__" not in payload["src"]:
                    yield f"trace/{name}/{key}", {"trace": name, "src": payload["src"]}


# ------------------------------------------------------------- the log

LOGGERS = ("xpython.vm", "xpython.vmtrace", "xpython.byteop.byteop", "xpython.byteop.byteop24")


class Records(logging.Handler):
    def __init__(self, take=None):
        super().__init__()
        self.take = take

    def emit(self, record):
        message = record.getMessage()
        if self.take is not None:
            self.take(record.levelname, message)


@contextlib.contextmanager
def logging_to(handler, level):
    saved = []
    for n in LOGGERS:
        lg = logging.getLogger(n)
        saved.append((lg, lg.level, lg.handlers, lg.propagate))
        lg.setLevel(getattr(logging, level))
        lg.handlers = [handler]
        lg.propagate = False
    try:
        yield
    finally:
        for lg, lev, handlers, propagate in saved:
            lg.setLevel(lev)
            lg.handlers = handlers
            lg.propagate = propagate


def noop(*a):
    return noop


def machine(cfg, tr):
    if not tr:
        from xpython.vm import PyVM

        return new_vm(cfg, PyVM)
    from xpython.vmtrace import PyVMTraced
    from xdis.version_info import PythonImplementation

    v, pypy = cfg
    return PyVMTraced(noop, v, PythonImplementation.PyPy if pypy else PythonImplementation.CPython)


LINE = re.compile(r"^( *?)(?:L\. (\d+) *|       )@ *(\d+): ([A-Z][A-Z_0-9+]*)(?: (.*))?$", re.S)
CMP = ("<", "<=", "==", "!=", ">", ">=", "in", "not in", "is", "is not")


class Checker:
    def __init__(self, vm, cfg):
        self.vm, self.v = vm, cfg[0]
        self.problems = []
        self.codes = {}
        self.last = {}
        self.keep = []
        self.n = 0
        self.stack = None
        self.seq = []

    def bad(self, *what):
        if len(self.problems) < 4:
            self.problems.append([str(x)[:200] for x in what])

    def decoded(self, code):
        if id(code) not in self.codes:
            self.codes[id(code)] = Decoded(code, self.vm.opc, self.v), code
        return self.codes[id(code)][0]

    def take(self, level, message):
        frame = self.vm.frame
        if level == "DEBUG":
            if message.lstrip().startswith("frame.stack: "):
                self.stack = message, frame
            return
        if message.startswith("exception in the execution of"):
            m = LINE.match(message.split("\n\t", 1)[1])
            if not m or int(m[3]) != frame.f_lasti:
                self.bad("failed instruction", message, frame.f_lasti)
            return
        m = LINE.match(message)
        if not m:
            self.bad("record", message)
            return
        self.n += 1
        offset, name, rest = int(m[3]), m[4], m[5] or ""
        d = self.decoded(frame.f_code)
        o = d.ops.get(offset)
        self.seq.append((frame.f_code.co_name, offset, name))
        if o is None or o["name"] != name:
            self.bad("not that instruction", message, o and o["name"])
            return
        if len(m[1]) != 4 * (len(self.vm.frames) - 1):
            self.bad("depth", message, len(self.vm.frames))
        if m[2] != (None if o["line"] is None else str(o["line"])):
            self.bad("line", message, o["line"])
        if frame.f_lasti != offset:
            self.bad("frame is elsewhere", message, frame.f_lasti)
        if self.stack is not None:
            text, f = self.stack
            if f is not frame or not self.debug:
                self.bad("stack of another frame", text)
            elif not text.endswith("frame.stack: (?)") and text != "  " + m[1] + "frame.stack: " + repr(frame.stack):
                self.bad("stack", text, frame.stack)
            self.stack = None
            tail = f" {frame.f_code.co_name} in {frame.f_code.co_filename}:{frame.f_lineno}"
            if not rest.endswith(tail):
                self.bad("place", message, tail)
            rest = rest[:-len(tail)]
        elif self.debug:
            self.bad("no stack", message)
        self.operand(frame, o, name, rest, message)
        last = self.last.get(id(frame))
        if last is None:
            if offset != d.order[0]:
                self.bad("first instruction", message)
            self.keep.append(frame)
        elif last in d.ops and offset not in d.successors(last) and not (offset == last and name == "YIELD_FROM"):
            self.bad("flow", message, last, d.ops[last]["name"])
        self.last[id(frame)] = offset

    def operand(self, frame, o, name, rest, message):
        opc, arg, code, stack = self.vm.opc, o["arg"], frame.f_code, frame.stack
        shown = None
        if arg is None:
            pass
        elif o["target"] is not None:
            shown = str(o["target"])
        elif o["op"] in opc.NAME_OPS:
            shift = 0
            if self.v >= (3, 11) and name == "LOAD_GLOBAL" or self.v >= (3, 12) and name == "LOAD_ATTR":
                shift = 1
            elif name == "LOAD_SUPER_ATTR":
                shift = 2
            shown = code.co_names[arg >> shift]
        elif o["op"] in opc.LOCAL_OPS:
            shown = code.co_varnames[arg]
        elif o["op"] in opc.CONST_OPS and isinstance(code.co_consts[arg], (int, type(None))):
            shown = str(code.co_consts[arg])
        elif o["op"] in opc.FREE_OPS and self.v < (3, 11):
            shown = (code.co_cellvars + code.co_freevars)[arg]
        elif name == "COMPARE_OP" and (arg >> (4 if self.v >= (3, 12) else 0)) < len(CMP):
            shown = CMP[arg >> (4 if self.v >= (3, 12) else 0)]
        if shown is not None and rest != shown and not rest.replace("-", " ").endswith(" " + shown.replace("-", " ")):
            self.bad("operand", message, shown)
        n = 2 if (name.startswith(("BINARY_", "INPLACE_")) and name not in ("BINARY_OP", "BINARY_SLICE")) or name == "COMPARE_OP" else \
            1 if name.startswith("UNARY_") or name in ("STORE_NAME", "STORE_FAST", "STORE_GLOBAL", "RETURN_VALUE") else 0
        if n and len(stack) >= n and all(type(x) is int for x in stack[-n:]):
            values = "(" + ", ".join(str(x) for x in stack[-n:]) + ")"
            if rest.startswith("(") and not (rest == values or rest.startswith(values + " ")):
                self.bad("operands", message, values)


def run_log(cfg, p):
    src = source(p["log"])
    code = compile_for(src, cfg, min_ext=p["ext"])

    def extra(log):
        return {"t": lambda k, v=None: log(["t", k]) or v, "next": next}

    vm0 = machine(cfg, 0)
    want = vm_run_code(code, cfg, extra, vm=vm0)
    native = harness.native_run(src, extra=extra)
    vm = machine(cfg, p["tr"])
    c = Checker(vm, cfg)
    c.debug = p["level"] == "DEBUG"
    with logging_to(Records(c.take), p["level"]):
        got = vm_run_code(code, cfg, extra, vm=vm)
    global LAST
    LAST = {"states": len(set(c.seq)), "transitions": c.n, "traces": 1}
    if not c.n:
        c.bad("nothing was logged")
    return ({"result": native["log"], "end": native["end"], "unlogged": want, "problems": []},
            {"result": got["log"], "end": got["end"], "unlogged": got, "problems": c.problems})


# ------------------------------------------------------------- CPython's trace

# instructions that CPython's trace leaves out, or that only prepare the frame
UNTRACED = {"CACHE", "EXTENDED_ARG", "RESUME", "MAKE_CELL", "COPY_FREE_VARS", "RETURN_GENERATOR", "END_FOR"}


def started(code, at):
    """What drops the value that starts a generator."""
    b = code.co_code
    return at >= 2 and b[at] == dis.opmap["POP_TOP"] and b[at - 2] == dis.opmap["RETURN_GENERATOR"]


def host_trace(src, name, extra):
    """The instructions that CPython runs."""
    code = compile(src, name, "exec")
    seq = []
    names = {}

    def trace(frame, event, arg):
        c = frame.f_code
        if c.co_filename != name:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if event == "opcode":
            at = frame.f_lasti
            if id(c) not in names:
                names[id(c)] = {i.offset: i.opname for i in dis.get_instructions(c)}, c
            op = names[id(c)][0][at]
            if op not in UNTRACED and not started(c, at):
                seq.append((c.co_name, at, op))
        return trace

    env = base_env(Log(), extra)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        before = sys.gettrace()
        sys.settrace(trace)
        try:
            exec(code, env)
        except BaseException:
            pass
        finally:
            sys.settrace(before)
    return seq


def run_trace(cfg, p):
    extra = getattr(importlib.import_module("props." + p["trace"]), "extra", None)
    global warm
    if not warm:  # CPython 3.12 leaves out the events of the first frame with opcode events
        warm = True
        host_trace("x = 1\n", "warm", None)
    want = host_trace(p["src"], "prog", extra)
    vm = machine(cfg, 0)
    seq = []

    def take(level, message):
        c = vm.frame.f_code
        m = LINE.match(message)
        if m and c.co_filename == "prog" and m[4] not in UNTRACED and not started(c, int(m[3])):
            seq.append((c.co_name, int(m[3]), m[4]))

    with logging_to(Records(take), "INFO"):
        vm_run_code(compile_for(p["src"], cfg), cfg, extra, vm=vm)
    global LAST
    LAST = {"states": len(set(want)), "transitions": len(want), "traces": 1}
    if want == seq:
        return len(want), len(want)
    i = next((i for i, (a, b) in enumerate(zip(want, seq)) if a != b), min(len(want), len(seq)))
    return [i, want[max(0, i - 2):i + 2]], [i, seq[max(0, i - 2):i + 2]]


LAST = {}
warm = False


def stats(payload, want):
    return LAST


def run(cfg, p):
    if "log" in p:
        return run_log(cfg, p)
    if "trace" in p:
        return run_trace(cfg, p)
    mod = importlib.import_module("props." + p["mod"])
    for c in ("_codes", "_compiled"):
        if hasattr(mod, c):
            getattr(mod, c).clear()
    n = [0]

    def take(level, message):
        n[0] += 1

    harness.VM_FACTORY = lambda c: machine(c, p["tr"])
    try:
        with logging_to(Records(take), p["level"]):
            want, got = mod.run(cfg, p["payload"])
    finally:
        harness.VM_FACTORY = None
    global LAST
    LAST = {"states": 1, "transitions": n[0], "traces": 1}
    return want, got


def nontrivial(want):
    return True
