"""A monitor for the events of a traced run, with its own decoding of the bytecode.

It follows the calls of one run as an automaton: which activations there are,
what has been executed in each, and what may come next. It records the history
(events and what the program logged, in order) and everything that is wrong.
"""

import functools

from harness import canon, new_vm

HANDLER_OPS = ("SETUP_EXCEPT", "SETUP_FINALLY", "SETUP_WITH", "SETUP_LOOP", "SETUP_ASYNC_WITH")
NO_FALL = ("JUMP_FORWARD", "JUMP_ABSOLUTE", "RETURN_VALUE", "CONTINUE_LOOP", "BREAK_LOOP",
           "RAISE_VARARGS", "RERAISE", "RETURN_CONST", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")


def exception_table(code):
    """The offsets of the handlers of a code object of 3.11 or later."""
    data = iter(code.co_exceptiontable)

    def varint():
        b = next(data)
        n = b & 63
        while b & 64:
            b = next(data)
            n = n << 6 | b & 63
        return n

    while True:
        try:
            start = varint()
        except StopIteration:
            return
        size, target, depth = varint(), varint(), varint()
        yield 2 * start, 2 * (start + size), 2 * target, depth >> 1, bool(depth & 1)


class Decoded:
    """The instructions of a code object."""

    def __init__(self, code, opc, version):
        self.code = code
        self.name = code.co_name
        b = code.co_code
        if isinstance(b, str):
            b = b.encode("latin-1")
        self.ops = {}
        order = []
        i, ext, start = 0, 0, None
        ext_op = opc.EXTENDED_ARG
        starts = dict((o, ln) for o, ln in opc.findlinestarts(code, dup_lines=True) if ln is not None)
        line = None
        while i < len(b):
            if start is None:
                start = i
            if i in starts:
                line = starts[i]
            op, at = b[i], i
            if version >= (3, 6):
                has = op >= opc.HAVE_ARGUMENT
                arg = (b[i + 1] | ext) if has else None
                i += 2
                shift = 8
            elif op >= opc.HAVE_ARGUMENT:
                arg = (b[i + 1] | b[i + 2] << 8) + ext
                i += 3
                shift = 16
            else:
                arg = None
                i += 1
            if op == ext_op:
                ext = arg << shift
                continue
            ext = 0
            target = None
            if arg is not None:
                mul = 2 if version >= (3, 10) else 1
                if op in opc.hasjrel:
                    name = opc.opname[op]
                    if version >= (3, 12) and name in ("FOR_ITER", "SEND"):
                        target = i + 2 + arg * mul  # there is one CACHE
                    elif version >= (3, 11) and "BACKWARD" in name:
                        target = i - arg * mul
                    else:
                        target = i + arg * mul
                elif op in opc.hasjabs:
                    target = arg * mul
            self.ops[at] = dict(name=opc.opname[op], op=op, arg=arg, start=start, next=i,
                                target=target, line=line)
            order.append(at)
            start, line = None, None
        self.order = order
        # the offset of the operation of the instruction that starts at an offset
        self.at = {self.ops[o]["start"]: o for o in order}
        self.at.update((o, o) for o in order)
        self.handlers = {o["target"] for o in self.ops.values() if o["name"] in HANDLER_OPS}
        if version >= (3, 11):
            self.handlers = {x[2] for x in exception_table(code)}
        self.conts = {o["target"] for o in self.ops.values() if o["name"] in ("CONTINUE_LOOP", "JUMP_ABSOLUTE")}
        self.loose = self.find_loose(version)

    def find_loose(self, version):
        """Offsets in handlers of finally and with: what is on the stack there
        depends on how they were entered."""
        loose = set()
        if version >= (3, 9):
            enders = ("RERAISE",)
        else:
            enders = ("END_FINALLY",)
        names = ("SETUP_FINALLY", "SETUP_WITH", "SETUP_ASYNC_WITH")
        if version < (2, 7):
            names = ("SETUP_FINALLY",)
        for o in self.ops.values():
            if o["name"] not in names or version >= (3, 9):
                continue
            depth = 0
            for at in self.order:
                if at < self.at[o["target"]]:
                    continue
                loose.add(at)
                n = self.ops[at]["name"]
                if n in ("SETUP_EXCEPT", "SETUP_FINALLY", "SETUP_WITH"):
                    depth += 1
                elif n in enders:
                    if depth == 0:
                        break
                    depth -= 1
        return loose

    def successors(self, at):
        o = self.ops[at]
        s = set()
        n = o["name"]
        if n not in NO_FALL:
            s.add(o["next"])
        if o["target"] is not None and n not in HANDLER_OPS:
            s.add(o["target"])
        s |= self.handlers
        if n in ("END_FINALLY", "POP_FINALLY", "WITH_CLEANUP", "WITH_CLEANUP_FINISH", "RETURN_VALUE"):
            s |= self.conts
            s |= {x["next"] for x in self.ops.values() if x["name"] == "CALL_FINALLY"}
        return {self.at[x] for x in s if x in self.at}


class Activation:
    def __init__(self, frame, parent, n):
        self.frame, self.parent, self.n = frame, parent, n
        self.last = None
        self.line = None


class Monitor:
    """answer(monitor, event record) gives what the callback answers."""

    def __init__(self, cfg, answer=None, strict=True, record=True):
        self.cfg = cfg
        self.answer = answer
        self.strict = strict
        self.keep = record
        self.history = []
        self.problems = []
        self.acts = []
        self.frames = {}
        self.heights = {}
        self.decoded = {}
        self.events = 0
        self.n_acts = 0
        self.vm = None

    def bad(self, *what):
        if len(self.problems) < 5:
            self.problems.append(list(what))

    def make_vm(self, flags=None):
        from xpython.vmtrace import PyVMTraced

        kw = {} if flags is None else {"event_flags": flags}
        self.vm = new_vm(self.cfg, functools.partial(PyVMTraced, self.callback), **kw)
        return self.vm

    def decode(self, code):
        d = self.decoded.get(id(code))
        if d is None or d.code is not code:
            d = self.decoded[id(code)] = Decoded(code, self.vm.opc, self.vm.version)
        return d

    def callback(self, event, offset, name, op, line, arg, event_arg, vm):
        self.events += 1
        if self.vm is None:
            self.vm = vm
        try:
            rec = self.event(event, offset, name, op, line, arg, event_arg, vm)
        except Exception as e:
            import traceback

            self.bad("monitor", event, traceback.format_exc()[-600:])
            rec = None
        if self.answer is not None:
            return self.answer(self, rec)
        return self.callback

    def event(self, event, offset, name, op, line, arg, event_arg, vm):
        if not self.strict:
            f = vm.frame
            if event in ("call", "yield"):
                n = self.frames.setdefault(id(f), (len(self.frames), f))[0]
                self.acts.append(n)
            rec = [event, offset, name, line]
            if event == "return":
                rec.append(canon(event_arg))
            if self.keep:
                self.history.append(rec)
            return rec
        f = vm.frame
        if event in ("call", "yield"):
            parent = self.acts[-1] if self.acts else None
            if event == "call":
                if id(f) in self.frames and self.frames[id(f)].frame is f:
                    self.bad("second call event for a frame", f.f_code.co_name)
                a = Activation(f, parent, self.n_acts)
                self.n_acts += 1
                self.frames[id(f)] = a
                if f.f_back is not (parent.frame if parent else None):
                    self.bad("call: f_back is not the caller", f.f_code.co_name)
                if offset != (parent.frame.f_lasti if parent else -1):
                    self.bad("call: offset is not that of the call", offset)
                if line != f.f_code.co_firstlineno:
                    self.bad("call: line", line, f.f_code.co_firstlineno)
            else:
                a = self.frames.get(id(f))
                if a is None or a.frame is not f:
                    self.bad("resumption of a frame that was never called", f.f_code.co_name)
                    a = Activation(f, parent, self.n_acts)
                    self.n_acts += 1
                    self.frames[id(f)] = a
                elif a in self.acts:
                    self.bad("resumption of a running frame", f.f_code.co_name)
                elif a.last != offset and not self.delegating(a, offset):
                    self.bad("resumption not where it stopped", a.last, offset)
                a.parent = parent
            self.acts.append(a)
            return self.record(a, event, offset, name, line)
        if not self.acts:
            self.bad("event outside of every call", event)
            return None
        a = self.acts[-1]
        if event in ("line", "instruction", "breakpoint"):
            if f is not a.frame:
                self.bad("event in a frame that was not called last", event, f.f_code.co_name)
            d = self.decode(f.f_code)
            o = d.ops.get(offset)
            if o is None:
                self.bad("not an instruction", event, offset)
                return self.record(a, event, offset, name, line)
            if event == "breakpoint":
                return self.record(a, event, offset, name, line)
            if (o["name"], o["op"], o["line"]) != (name, op, line):
                self.bad("instruction", event, offset, [o["name"], o["op"], o["line"]], [name, op, line])
            if (event == "line") != (o["line"] is not None):
                self.bad("kind of event", event, offset, o["line"])
            if o["target"] is None and o["name"] != "BRKPT" and arg != o["arg"]:
                self.bad("operand", event, offset, o["arg"], arg)
            if line is not None:
                a.line = line
                if f.f_lineno != line:
                    self.bad("f_lineno", f.f_lineno, line)
            if f.f_lasti != offset:
                self.bad("f_lasti", f.f_lasti, offset)
            if a.last is None:
                if offset != d.order[0]:
                    self.bad("first instruction", offset)
            elif a.last in d.ops and offset not in d.successors(a.last) and not (
                    offset == a.last and name == "YIELD_FROM"):
                self.bad("control flow", d.name, a.last, d.ops[a.last]["name"], offset)
            a.last = offset
            if offset not in d.loose:
                h = (len(f.stack), tuple(b.type for b in f.block_stack))
                k = (id(f.f_code), offset)
                first = self.heights.setdefault(k, (h, f.f_code))[0]
                if first != h:
                    self.bad("stack", d.name, offset, name, list(map(str, first)), list(map(str, h)))
            return self.record(a, event, offset, name, line)
        if event in ("return", "exception"):
            if offset != a.last:
                self.bad("end of a call: offset", event, a.last, offset)
            self.acts.pop()
            rec = self.record(a, event, offset, name, line)
            if event == "return":
                if f is not (a.parent.frame if a.parent else None):
                    self.bad("return: frame is not the caller")
                rec.append(canon(event_arg))
            else:
                rec.append(canon(event_arg[1]))
                if event_arg[0] is not type(event_arg[1]) and not isinstance(event_arg[1], str):
                    self.bad("exception: type", str(event_arg[0]), str(event_arg[1]))
            return rec
        self.bad("event", event)
        return None

    def delegating(self, a, offset):
        """yield from runs again when it is resumed."""
        d = self.decode(a.frame.f_code)
        o = d.ops.get(a.last)
        return o is not None and o["name"] == "YIELD_FROM" and offset == o["start"] - (
            2 if self.vm.version >= (3, 6) else 1)

    def record(self, a, event, offset, name, line):
        rec = [a.n, a.frame.f_code.co_name, event, offset, name, line]
        if self.keep:
            self.history.append(rec)
        return rec

    def finish(self):
        if self.acts:
            self.bad("calls without an end", [a.frame.f_code.co_name for a in self.acts])
        if self.vm.frames or self.vm.frame is not None:
            self.bad("frames left", len(self.vm.frames))
