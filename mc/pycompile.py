"""A compiler from Python source to the bytecode of CPython 2.4 .. 3.10.

The sandbox has one Python only, so the programs the checks enumerate are
compiled for every other bytecode version by this module, following the code
generators of the respective CPython releases (no peephole optimiser).  How it
is kept honest: tools/validate_compiler.py compares its output, code object by
code object, with the .pyc files of the repository (real compilers' output).

Source is parsed with the running Python's `ast`.  Two pseudo calls give the
statements that no longer exist:
    __py2print__(a, b, nl=True, dest=x)     print >>x, a, b
    __py2exec__(code, globals, locals)      exec code in globals, locals
    __py2raise__(type, value)               raise type, value
"""
import ast
import functools

from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation

CO_OPTIMIZED, CO_NEWLOCALS, CO_VARARGS, CO_VARKEYWORDS = 1, 2, 4, 8
CO_NESTED, CO_GENERATOR, CO_NOFREE = 16, 32, 64

CMP = {
    ast.Lt: 0, ast.LtE: 1, ast.Eq: 2, ast.NotEq: 3, ast.Gt: 4, ast.GtE: 5,
    ast.In: 6, ast.NotIn: 7, ast.Is: 8, ast.IsNot: 9,
}
BINOP = {
    ast.Add: "ADD", ast.Sub: "SUBTRACT", ast.Mult: "MULTIPLY",
    ast.FloorDiv: "FLOOR_DIVIDE", ast.Mod: "MODULO", ast.Pow: "POWER",
    ast.LShift: "LSHIFT", ast.RShift: "RSHIFT", ast.BitAnd: "AND",
    ast.BitOr: "OR", ast.BitXor: "XOR", ast.MatMult: "MATRIX_MULTIPLY",
    ast.Div: "TRUE_DIVIDE",
}
UNOP = {ast.UAdd: "POSITIVE", ast.USub: "NEGATIVE", ast.Invert: "INVERT", ast.Not: "NOT"}


class Unsupported(Exception):
    """The construct does not exist in (or is not produced for) this version."""


@functools.lru_cache(None)
def opcodes(version, pypy=False):
    return get_opcode_module(
        version, PythonImplementation.PyPy if pypy else PythonImplementation.CPython
    )


# --------------------------------------------------------------------------
# assembler
# --------------------------------------------------------------------------
class Label:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


class Instr:
    __slots__ = ("op", "arg", "line", "offset", "size")

    def __init__(self, op, arg, line):
        self.op, self.arg, self.line = op, arg, line


def opmap_of(opc):
    """name -> number; xdis spells SLICE+n "SLICE_n" in opmap only."""
    m = dict(opc.opmap)
    for n, v in list(m.items()):
        if "SLICE_" in n:
            m[n.replace("SLICE_", "SLICE+")] = v
    return m


def assemble(instrs, version, opc, min_ext=0):
    """instrs: list of Instr | Label.  Returns (bytes, [(offset, line)]).

    min_ext > 0 forces at least that many EXTENDED_ARG prefixes on every
    instruction with an argument (a valid, if wasteful, encoding)."""
    word = version >= (3, 6)
    seq = list(instrs)
    opmap = opmap_of(opc)
    for i in seq:
        if isinstance(i, Instr):
            if i.op not in opmap:
                raise Unsupported("%s in %s" % (i.op, version))
    have = opc.HAVE_ARGUMENT
    ext_op = opmap["EXTENDED_ARG"]
    isjrel = set(opc.hasjrel)
    isjabs = set(opc.hasjabs)
    unit = 2 if version >= (3, 10) else 1

    def nwords(v):
        n = 1
        if word:
            while v > 0xFF:
                v >>= 8
                n += 1
        else:
            while v > 0xFFFF:
                v >>= 16
                n += 1
        return n

    ext = {id(i): min_ext for i in seq if isinstance(i, Instr)}
    while True:
        off = 0
        for i in seq:
            if isinstance(i, Label):
                i.pos = off
            else:
                i.offset = off
                o = opmap[i.op]
                if word:
                    i.size = 2 * (1 + (ext[id(i)] if o >= have else 0))
                elif o >= have:
                    i.size = 3 * (1 + ext[id(i)])
                else:
                    i.size = 1
                off += i.size
        changed = False
        for i in seq:
            if isinstance(i, Instr):
                o = opmap[i.op]
                if o < have:
                    continue
                v = argval(i, o, isjrel, isjabs, unit)
                need = nwords(v) - 1
                if need > ext[id(i)]:
                    ext[id(i)] = need
                    changed = True
        if not changed:
            break
    out = bytearray()
    lines = []
    last = None
    for i in seq:
        if isinstance(i, Label):
            continue
        o = opmap[i.op]
        if i.line is not None and i.line != last:
            lines.append((i.offset, i.line))
            last = i.line
        if o < have:
            out.append(o)
            if word:
                out.append(0)
            continue
        v = argval(i, o, isjrel, isjabs, unit)
        e = ext[id(i)]
        if word:
            for k in range(e, 0, -1):
                out += bytes([ext_op, (v >> (8 * k)) & 0xFF])
            out += bytes([o, v & 0xFF])
        else:
            for k in range(e, 0, -1):
                w = (v >> (16 * k)) & 0xFFFF
                out += bytes([ext_op, w & 0xFF, w >> 8])
            out += bytes([o, v & 0xFF, (v >> 8) & 0xFF])
    return bytes(out), lines


def peephole(instrs, old_jumps):
    """The jump simplifications of the optimizer of 2.4 to 3.10 that change how
    often a truth value is tested: a conditional jump to a conditional jump, and
    a conditional jump on a negation."""

    def after(label):
        """Index of the instruction at label."""
        k = instrs.index(label)
        while k < len(instrs) and isinstance(instrs[k], Label):
            k += 1
        return k

    changed = True
    while changed:
        changed = False
        for k, i in enumerate(instrs):
            if isinstance(i, Label):
                continue
            nxt = instrs[k + 1] if k + 1 < len(instrs) else None
            if i.op == "UNARY_NOT" and isinstance(nxt, Instr):
                if nxt.op == "POP_JUMP_IF_FALSE":
                    nxt.op = "POP_JUMP_IF_TRUE"
                    del instrs[k]
                    changed = True
                    break
                if nxt.op == "JUMP_IF_FALSE" and isinstance(instrs[k + 2], Instr) \
                        and instrs[k + 2].op == "POP_TOP" \
                        and instrs[after(nxt.arg)].op == "POP_TOP":
                    nxt.op = "JUMP_IF_TRUE"
                    del instrs[k]
                    changed = True
                    break
            if i.op not in (
                ("JUMP_IF_FALSE", "JUMP_IF_TRUE") if old_jumps
                else ("JUMP_IF_FALSE_OR_POP", "JUMP_IF_TRUE_OR_POP")
            ):
                continue
            at = after(i.arg)
            if at >= len(instrs):
                continue
            tgt = instrs[at]
            if "JUMP_IF" not in tgt.op:
                continue
            if ("TRUE" in tgt.op) == ("TRUE" in i.op):
                i.op, i.arg = tgt.op, tgt.arg
            else:
                label = Label()
                instrs.insert(at + 1, label)
                if not old_jumps:
                    i.op = "POP_JUMP_IF_TRUE" if "TRUE" in i.op else "POP_JUMP_IF_FALSE"
                i.arg = label
            changed = True
            break


def argval(i, o, isjrel, isjabs, unit):
    a = i.arg
    if isinstance(a, Label):
        if o in isjrel:
            d = a.pos - (i.offset + i.size)
            assert d >= 0, (i.op, d)
            return d // unit
        assert o in isjabs, i.op
        return a.pos // unit
    return 0 if a is None else a


def line_table(version, lines, firstlineno, code_len):
    if version >= (3, 10):
        out = bytearray()
        ents = list(lines)
        if ents and ents[0][0] > 0:
            ents.insert(0, (0, firstlineno))
        line = firstlineno
        for k, (off, ln) in enumerate(ents):
            end = ents[k + 1][0] if k + 1 < len(ents) else code_len
            d = ln - line
            line = ln
            while d > 127:
                out += bytes([0, 127])
                d -= 127
            while d < -127:
                out += bytes([0, (-127) & 0xFF])
                d += 127
            n = end - off
            first = True
            while n > 254:
                out += bytes([254, d & 0xFF if first else 0])
                first = False
                n -= 254
            out += bytes([n, d & 0xFF if first else 0])
        return bytes(out)
    out = bytearray()
    poff, pline = 0, firstlineno
    for off, ln in lines:
        db, dl = off - poff, ln - pline
        if dl < 0 and version < (3, 6):
            continue
        if db == 0 and dl == 0:
            continue
        while db > 255:
            out += bytes([255, 0])
            db -= 255
        if version >= (3, 6):
            while dl > 127:
                out += bytes([db, 127])
                db = 0
                dl -= 127
            while dl < -128:
                out += bytes([db, 128])
                db = 0
                dl += 128
            out += bytes([db, dl & 0xFF])
        else:
            while dl > 255:
                out += bytes([db, 255])
                db = 0
                dl -= 255
            out += bytes([db, dl])
        poff, pline = off, ln
    if version < (3, 0):
        return bytes(out).decode("latin-1")
    return bytes(out)


def make_code(version, **kw):
    d = dict(
        co_argcount=0, co_posonlyargcount=0, co_kwonlyargcount=0, co_nlocals=0,
        co_stacksize=100, co_flags=CO_NOFREE, co_code=b"", co_consts=(),
        co_names=(), co_varnames=(), co_filename="<mc>", co_name="<module>",
        co_firstlineno=1, co_lnotab=b"", co_freevars=(), co_cellvars=(),
        version_triple=version,
    )
    d.update(kw)
    if version < (3, 0):
        d.pop("co_kwonlyargcount")
    return to_portable(**d)


# --------------------------------------------------------------------------
# symbol table
# --------------------------------------------------------------------------
class Scope:
    def __init__(self, kind, name, parent, node):
        self.kind, self.name, self.parent, self.node = kind, name, parent, node
        self.bound, self.used = set(), set()
        self.globals, self.nonlocals = set(), set()
        self.explicit = set()
        self.children = []
        self.params = []
        self.free = set()
        self.cell = set()
        self.needs_class_cell = False
        self.is_gen = False
        # 2.x: has an exec statement without namespaces, or an import *
        self.unoptimized = False
        self.private = parent.private if parent else None
        if parent:
            parent.children.append(self)

    def is_func(self):
        return self.kind in ("function", "comp")


def mangle(private, name):
    if not private or not name.startswith("__") or name.endswith("__") or "." in name:
        return name
    p = private.lstrip("_")
    return "_" + p + name if p else name


class SymVisitor(ast.NodeVisitor):
    def __init__(self, version, top, cpython=True):
        self.v = version
        self.impl_cpython = cpython
        self.s = top
        self.scopes = {}

    def bind(self, n):
        self.s.bound.add(mangle(self.s.private, n))

    def use(self, n):
        self.s.used.add(mangle(self.s.private, n))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            if n.id in ("__py2print__", "__py2exec__", "__py2raise__"):
                return
            self.use(n.id)
            if n.id == "super" and self.v >= (3, 0) and self.s.is_func():
                self.use("__class__")
        else:
            self.bind(n.id)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "__py2exec__" and len(n.args) == 1:
            self.s.unoptimized = self.s.is_func()
        self.generic_visit(n)

    def visit_Global(self, n):
        names = {mangle(self.s.private, x) for x in n.names}
        self.s.globals |= names
        top = self.s
        while top.parent:
            top = top.parent
        # CPython's st_global: a name that any scope declares is explicitly global in the module
        if self.impl_cpython:
            top.explicit |= names

    def visit_Nonlocal(self, n):
        if self.v < (3, 0):
            raise Unsupported("nonlocal")
        self.s.nonlocals |= {mangle(self.s.private, x) for x in n.names}

    def enter(self, kind, name, node):
        s = Scope(kind, name, self.s, node)
        self.scopes[node] = s
        self.s = s
        return s

    def leave(self):
        self.s = self.s.parent

    def args(self, a, s):
        names = [x.arg for x in a.posonlyargs + a.args]
        names += [x.arg for x in a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        s.params = [mangle(s.private, n) for n in names]
        s.bound |= set(s.params)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.visit_defaults(n)
        self.bind(n.name)
        s = self.enter("function", n.name, n)
        self.args(n.args, s)
        for b in n.body:
            self.visit(b)
        self.leave()

    def visit_defaults(self, n):
        a = n.args
        for d in a.defaults + [k for k in a.kw_defaults if k is not None]:
            self.visit(d)
        if isinstance(n, ast.FunctionDef):
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                if x is not None and x.annotation is not None:
                    self.visit(x.annotation)
            if n.returns is not None:
                self.visit(n.returns)

    def visit_Lambda(self, n):
        self.visit_defaults(n)
        s = self.enter("function", "<lambda>", n)
        self.args(n.args, s)
        self.visit(n.body)
        self.leave()

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for b in n.bases:
            self.visit(b)
        for k in n.keywords:
            self.visit(k.value)
        self.bind(n.name)
        s = self.enter("class", n.name, n)
        s.private = n.name
        for b in n.body:
            self.visit(b)
        self.leave()

    def comp(self, n, name, elts):
        self.visit(n.generators[0].iter)
        inline = name == "<listcomp>" and self.v < (3, 0)
        if not inline:
            s = self.enter("comp", name, n)
            s.params = [".0"]
            s.bound.add(".0")
        for i, g in enumerate(n.generators):
            self.visit(g.target)
            if i:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for e in elts:
            self.visit(e)
        if not inline:
            self.leave()

    def visit_ListComp(self, n):
        self.comp(n, "<listcomp>", [n.elt])

    def visit_SetComp(self, n):
        self.comp(n, "<setcomp>", [n.elt])

    def visit_DictComp(self, n):
        self.comp(n, "<dictcomp>", [n.key, n.value])

    def visit_GeneratorExp(self, n):
        self.comp(n, "<genexpr>", [n.elt])

    def visit_NamedExpr(self, n):
        self.visit(n.value)
        name, comps, s = mangle(self.s.private, n.target.id), [], self.s
        while s.kind == "comp":
            comps.append(s)
            s = s.parent
        for c in comps:
            if s.parent is None or name in s.globals:
                c.globals.add(name)
            else:
                c.nonlocals.add(name)
        s.bound.add(name)

    def visit_Yield(self, n):
        self.s.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name:
            self.bind(n.name)
        for b in n.body:
            self.visit(b)

    def visit_Import(self, n):
        for a in n.names:
            self.bind(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name != "*":
                self.bind(a.asname or a.name)
            elif self.v < (3, 0):
                self.s.unoptimized = self.s.is_func()

    def visit_AnnAssign(self, n):
        self.generic_visit(n)


def resolve(scope, v):
    """Fill scope.free / scope.cell for the whole tree below scope."""
    for c in scope.children:
        resolve(c, v)
    want = set()
    for c in scope.children:
        want |= c.free
    if scope.is_func():
        local = (scope.bound - scope.globals) - scope.nonlocals
        scope.cell = want & local
        passthru = want - local
        mine = (scope.used | scope.nonlocals | (scope.bound & scope.nonlocals)) - local - scope.globals
        scope.free = {n for n in (mine | passthru) if lookup_enclosing(scope.parent, n)}
    elif scope.kind == "class":
        if "__class__" in want and v >= (3, 0):
            scope.needs_class_cell = True
            want = want - {"__class__"}
        local = scope.bound - scope.globals - scope.nonlocals
        mine = (scope.used | scope.nonlocals) - local - scope.globals
        scope.free = {n for n in (mine | want) if lookup_enclosing(scope.parent, n)}
    return scope


def lookup_enclosing(s, n):
    while s is not None:
        if s.is_func():
            if n in s.globals:
                return False
            if n in s.bound and n not in s.nonlocals:
                return True
        elif s.kind == "class" and n == "__class__":
            return True
        s = s.parent
    return False


# --------------------------------------------------------------------------
# compiler
# --------------------------------------------------------------------------
class FB:
    def __init__(self, kind, block=None, exit=None, datum=None):
        self.kind, self.block, self.exit, self.datum = kind, block, exit, datum


class Unit:
    def __init__(self, comp, scope, name, qualname, firstlineno):
        self.scope, self.name, self.qualname = scope, name, qualname
        self.firstlineno = firstlineno
        self.instrs = []
        self.consts, self.names = [], []
        self.varnames = list(scope.params) if scope.is_func() else []
        self.cellvars = sorted(scope.cell)
        self.freevars = sorted(scope.free)
        if scope.kind == "class" and scope.needs_class_cell:
            self.cellvars = ["__class__"]
        self.fblocks = []
        self.const_at = {}
        self.argcount = self.kwonly = self.posonly = 0
        self.flags = 0
        self.tmp = 0


def const_key(c):
    if isinstance(c, tuple):
        return (tuple, tuple(const_key(x) for x in c))
    if isinstance(c, float):
        return (float, repr(c))
    if isinstance(c, complex):
        return (complex, repr(c))
    if isinstance(c, (int, bool, str, bytes, type(None), type(Ellipsis), frozenset)):
        return (type(c), c)
    return (type(c), id(c))


class Compiler:
    debug_jumps = False  # PyPy: put JUMP_IF_NOT_DEBUG before the code of an assert

    def __init__(self, version, filename="<mc>", min_ext=0, pypy=False):
        self.v = tuple(version[:2])
        self.filename = filename
        self.opc = opcodes(self.v, pypy)
        self.pypy = pypy
        self.min_ext = min_ext
        self.old_jumps = self.v < (2, 7) or self.v == (3, 0)
        self.py3 = self.v >= (3, 0)

    # ---- infrastructure
    def op(self, name, arg=None):
        self.u.instrs.append(Instr(name, arg, self.line))

    def mark(self, label):
        self.u.instrs.append(label)

    def const_index(self, c):
        u, k = self.u, const_key(c)
        if k not in u.const_at:
            u.const_at[k] = len(u.consts)
            u.consts.append(c)
        return u.const_at[k]

    def load_const(self, c):
        self.op("LOAD_CONST", self.const_index(c))

    def name_index(self, n):
        if n not in self.u.names:
            self.u.names.append(n)
        return self.u.names.index(n)

    def var_index(self, n):
        if n not in self.u.varnames:
            self.u.varnames.append(n)
        return self.u.varnames.index(n)

    def deref_index(self, n):
        if n in self.u.cellvars:
            return self.u.cellvars.index(n)
        return len(self.u.cellvars) + self.u.freevars.index(n)

    def nop(self, name, n):
        self.op(name, self.name_index(mangle(self.u.scope.private, n)))

    # ---- names
    def name(self, kind, n):
        """kind: LOAD / STORE / DELETE"""
        n = mangle(self.u.scope.private, n)
        s = self.u.scope
        if kind == "LOAD":
            if n == "None" or (self.py3 and n in ("True", "False")):
                return self.load_const({"None": None, "True": True, "False": False}[n])
        if n in s.globals or n in s.explicit:
            return self.op(kind + "_GLOBAL", self.name_index(n))
        if s.is_func():
            if n in s.cell or n in s.free:
                if kind == "DELETE" and self.v < (3, 2):
                    raise Unsupported("DELETE_DEREF")
                return self.op(kind + "_DEREF", self.deref_index(n))
            if n in s.bound:
                return self.op(kind + "_FAST", self.var_index(n))
            return self.op(kind + ("_NAME" if s.unoptimized else "_GLOBAL"), self.name_index(n))
        if s.kind == "class":
            if n in s.free and (n not in s.bound or n in s.nonlocals):
                if kind == "LOAD" and self.v >= (3, 4) and n not in s.nonlocals:
                    return self.op("LOAD_CLASSDEREF", self.deref_index(n))
                return self.op(kind + "_DEREF", self.deref_index(n))
        return self.op(kind + "_NAME", self.name_index(n))

    # ---- conditional jumps, old and new style
    def jump_false(self, label):
        if self.old_jumps:
            self.op("JUMP_IF_FALSE", label)
            self.op("POP_TOP")
        else:
            self.op("POP_JUMP_IF_FALSE", label)

    def jump_true(self, label):
        if self.old_jumps:
            self.op("JUMP_IF_TRUE", label)
            self.op("POP_TOP")
        else:
            self.op("POP_JUMP_IF_TRUE", label)

    def mark_cond(self, label):
        self.mark(label)
        if self.old_jumps:
            self.op("POP_TOP")

    def jump_if(self, e, label, cond):
        """Jump to label if bool(e) is cond (3.7+ compiler_jump_if)."""
        if self.v >= (3, 7):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return self.jump_if(e.operand, label, not cond)
            if isinstance(e, ast.BoolOp):
                cond2 = isinstance(e.op, ast.Or)
                next2 = label
                if cond2 != cond:
                    next2 = Label()
                for x in e.values[:-1]:
                    self.jump_if(x, next2, cond2)
                self.jump_if(e.values[-1], label, cond)
                if next2 is not label:
                    self.mark(next2)
                return
            if isinstance(e, ast.IfExp):
                end, next2 = Label(), Label()
                self.jump_if(e.test, next2, False)
                self.jump_if(e.body, label, cond)
                self.op("JUMP_FORWARD", end)
                self.mark(next2)
                self.jump_if(e.orelse, label, cond)
                self.mark(end)
                return
            if isinstance(e, ast.Compare) and len(e.ops) > 1:
                cleanup, end = Label(), Label()
                self.expr(e.left)
                for o, c in list(zip(e.ops, e.comparators))[:-1]:
                    self.expr(c)
                    self.op("DUP_TOP")
                    self.op("ROT_THREE")
                    self.cmpop(o)
                    self.op("POP_JUMP_IF_FALSE", cleanup)
                self.expr(e.comparators[-1])
                self.cmpop(e.ops[-1])
                (self.jump_true if cond else self.jump_false)(label)
                self.op("JUMP_FORWARD", end)
                self.mark(cleanup)
                self.op("POP_TOP")
                if not cond:
                    self.op("JUMP_ABSOLUTE", label)
                self.mark(end)
                return
        self.expr(e)
        (self.jump_true if cond else self.jump_false)(label)

    # ---- units
    def enter(self, scope, name, firstlineno):
        parent = self.u
        q = name
        if parent is not None and parent.scope.kind != "module":
            if mangle(parent.scope.private, name) in parent.scope.globals:
                q = name
            elif parent.scope.kind == "class":
                q = parent.qualname + "." + name
            else:
                q = parent.qualname + ".<locals>." + name
        self.stack.append((parent, self.line))
        self.u = Unit(self, scope, name, q, firstlineno)
        self.line = firstlineno

    def leave(self):
        u = self.u
        code = self.finish(u)
        self.u, self.line = self.stack.pop()
        return code, u

    def finish(self, u):
        if self.v < (3, 11):
            peephole(u.instrs, self.old_jumps)
        co_code, lines = assemble(u.instrs, self.v, self.opc, self.min_ext)
        flags = u.flags
        s = u.scope
        if s.is_func():
            flags |= CO_NEWLOCALS if s.unoptimized else CO_OPTIMIZED | CO_NEWLOCALS
            if s.is_gen:
                flags |= CO_GENERATOR
        elif s.kind == "class":
            if not self.py3:
                flags |= CO_NEWLOCALS
            elif self.v < (3, 4):
                flags |= CO_NEWLOCALS
        if s.parent is not None and s.parent.is_func():
            flags |= CO_NESTED
        if not u.freevars and not u.cellvars:
            flags |= CO_NOFREE
        return make_code(
            self.v, co_argcount=u.argcount, co_posonlyargcount=u.posonly,
            co_kwonlyargcount=u.kwonly, co_nlocals=len(u.varnames),
            co_flags=flags, co_code=co_code, co_consts=tuple(u.consts),
            co_names=tuple(u.names), co_varnames=tuple(
                # (a tuple parameter of 2.x, see V07)
                f".{i}" if x.startswith("_tup_") and not self.py3 else x
                for i, x in enumerate(u.varnames)),
            co_filename=self.filename, co_name=u.name,
            co_firstlineno=u.firstlineno,
            co_lnotab=line_table(self.v, lines, u.firstlineno, len(co_code)),
            co_freevars=tuple(u.freevars), co_cellvars=tuple(u.cellvars),
        )

    def compile(self, source, mode="exec"):
        tree = ast.parse(source, self.filename, mode) if isinstance(source, str) else source
        top = Scope("module", "<module>", None, tree)
        sv = SymVisitor(self.v, top, not self.pypy)
        sv.visit(tree)
        self.scopes = sv.scopes
        resolve(top, self.v)
        self.stack = []
        self.u = None
        self.line = 1
        self.enter(top, "<module>", 1)
        if mode == "eval":
            self.line = 1
            self.expr(tree.body)
            self.op("RETURN_VALUE")
        else:
            body = tree.body
            if body:
                self.line = self.u.firstlineno = body[0].lineno if self.v >= (2, 5) else 1
            self.body(body)
            self.load_const(None)
            self.op("RETURN_VALUE")
        return self.leave()[0]

    def body(self, stmts, want_ann=True):
        if self.v >= (3, 6) and want_ann and self.u.scope.kind in ("module", "class"):
            if any(isinstance(n, ast.AnnAssign) for s in stmts for n in walk_block(s)):
                self.op("SETUP_ANNOTATIONS")
        doc = docstring(stmts)
        if doc is not None and self.u.scope.kind in ("module", "class"):
            self.line = stmts[0].lineno
            self.load_const(doc)
            self.op("STORE_NAME", self.name_index("__doc__"))
            stmts = stmts[1:]
        for s in stmts:
            self.stmt(s)

    # ---- statements
    def stmt(self, s):
        self.line = s.lineno
        getattr(self, "s_" + type(s).__name__, self.unsupported)(s)

    def unsupported(self, n):
        raise Unsupported("%s in %s" % (type(n).__name__, self.v))

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Expr(self, s):
        e = s.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == "__py2print__":
                return self.py2print(e)
            if e.func.id == "__py2exec__":
                return self.py2exec(e)
            if e.func.id == "__py2raise__":
                for a in e.args:
                    self.expr(a)
                return self.op("RAISE_VARARGS", len(e.args))
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, ast.Yield) and self.v < (2, 5):
            self.expr(e.value) if e.value else self.load_const(None)
            self.op("YIELD_VALUE")
            return
        self.expr(e)
        self.op("POP_TOP")

    def py2print(self, e):
        if self.py3:
            raise Unsupported("print statement")
        nl = True
        dest = None
        for k in e.keywords:
            if k.arg == "nl":
                nl = k.value.value
            else:
                dest = k.value
        if dest is not None:
            self.expr(dest)
            for a in e.args:
                self.op("DUP_TOP")
                self.expr(a)
                self.op("ROT_TWO")
                self.op("PRINT_ITEM_TO")
            if nl:
                self.op("PRINT_NEWLINE_TO")
            else:
                self.op("POP_TOP")
        else:
            for a in e.args:
                self.expr(a)
                self.op("PRINT_ITEM")
            if nl:
                self.op("PRINT_NEWLINE")

    def py2exec(self, e):
        if self.py3:
            raise Unsupported("exec statement")
        self.expr(e.args[0])
        if len(e.args) > 1:
            self.expr(e.args[1])
            if len(e.args) > 2:
                self.expr(e.args[2])
            else:
                self.op("DUP_TOP")
        else:
            self.load_const(None)
            self.op("DUP_TOP")
        self.op("EXEC_STMT")

    def s_Assign(self, s):
        v, t = s.value, s.targets[0]
        if (
            self.pypy
            and isinstance(v, (ast.Tuple, ast.List))
            and isinstance(t, (ast.Tuple, ast.List))
            and len(s.targets) == 1
            and len(v.elts) == len(t.elts)
            and not any(isinstance(x, ast.Starred) for x in v.elts + t.elts)
            and (len(v.elts) in (2, 3) or all(isinstance(x, ast.Name) for x in t.elts))
        ):
            # PyPy's codegen.py, _optimize_unpacking
            for x in v.elts:
                self.expr(x)
            if all(isinstance(x, ast.Name) for x in t.elts):
                seen = set()
                for x in reversed(t.elts):
                    if x.id in seen:
                        self.op("POP_TOP")
                    else:
                        self.store(x)
                    seen.add(x.id)
                return
            if len(v.elts) == 3:
                self.op("ROT_THREE")
            self.op("ROT_TWO")
            for x in t.elts:
                self.store(x)
            return
        if (
            self.v >= (2, 5)
            and isinstance(v, ast.Tuple)
            and isinstance(t, (ast.Tuple, ast.List))
            and len(s.targets) == 1
            and len(v.elts) == len(t.elts) in (2, 3)
            and not any(isinstance(x, ast.Starred) for x in v.elts + t.elts)
            and self.const_seq(v.elts) is None
        ):
            # what the peephole optimizer makes of BUILD_TUPLE UNPACK_SEQUENCE
            for x in v.elts:
                self.expr(x)
            if len(v.elts) == 3:
                self.op("ROT_THREE")
            self.op("ROT_TWO")
            for x in t.elts:
                self.store(x)
            return
        self.expr(s.value)
        for i, t in enumerate(s.targets):
            if i < len(s.targets) - 1:
                self.op("DUP_TOP")
            self.store(t)

    def s_AnnAssign(self, s):
        if self.v < (3, 6):
            raise Unsupported("variable annotation")
        if s.value is not None:
            self.expr(s.value)
            self.store(s.target)
        if isinstance(s.target, ast.Name) and s.simple and not self.u.scope.is_func():
            self.expr(s.annotation)
            if self.v == (3, 6):
                self.nop("STORE_ANNOTATION", s.target.id)
            else:
                self.op("LOAD_NAME", self.name_index("__annotations__"))
                self.load_const(mangle(self.u.scope.private, s.target.id))
                self.op("STORE_SUBSCR")

    def s_AugAssign(self, s):
        o = "INPLACE_" + BINOP[type(s.op)]
        if isinstance(s.op, ast.MatMult) and self.v < (3, 5):
            raise Unsupported("@")
        if isinstance(s.op, ast.Div) and not self.py3:
            o = "INPLACE_DIVIDE"
        t = s.target
        if isinstance(t, ast.Name):
            self.name("LOAD", t.id)
            self.expr(s.value)
            self.op(o)
            self.name("STORE", t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.op("DUP_TOP")
            self.nop("LOAD_ATTR", t.attr)
            self.expr(s.value)
            self.op(o)
            self.op("ROT_TWO")
            self.nop("STORE_ATTR", t.attr)
        elif isinstance(t, ast.Subscript):
            if self.simple_slice(t.slice):
                n, bits = self.push_simple_slice(t)
                if n == 0:
                    self.op("DUP_TOP")
                else:
                    self.op("DUP_TOPX", n + 1)
                self.op("SLICE+%d" % bits)
                self.expr(s.value)
                self.op(o)
                self.op({0: "ROT_TWO", 1: "ROT_THREE", 2: "ROT_FOUR"}[n])
                self.op("STORE_SLICE+%d" % bits)
                return
            self.expr(t.value)
            self.index(t.slice)
            if self.v >= (3, 2):
                self.op("DUP_TOP_TWO")
            else:
                self.op("DUP_TOPX", 2)
            self.op("BINARY_SUBSCR")
            self.expr(s.value)
            self.op(o)
            self.op("ROT_THREE")
            self.op("STORE_SUBSCR")

    def s_Delete(self, s):
        for t in s.targets:
            self.delete(t)

    def delete(self, t):
        if isinstance(t, ast.Name):
            self.name("DELETE", t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.nop("DELETE_ATTR", t.attr)
        elif isinstance(t, ast.Subscript):
            if self.simple_slice(t.slice):
                n, bits = self.push_simple_slice(t)
                return self.op("DELETE_SLICE+%d" % bits)
            self.expr(t.value)
            self.index(t.slice)
            self.op("DELETE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x)

    def store(self, t):
        if isinstance(t, ast.Name):
            self.name("STORE", t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.nop("STORE_ATTR", t.attr)
        elif isinstance(t, ast.Subscript):
            if self.simple_slice(t.slice):
                n, bits = self.push_simple_slice(t)
                return self.op("STORE_SLICE+%d" % bits)
            self.expr(t.value)
            self.index(t.slice)
            self.op("STORE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                if not self.py3:
                    raise Unsupported("starred target")
                i = star[0]
                self.op("UNPACK_EX", i | ((len(t.elts) - i - 1) << 8))
            else:
                self.op("UNPACK_SEQUENCE", len(t.elts))
            for x in t.elts:
                self.store(x.value if isinstance(x, ast.Starred) else x)
        else:
            self.unsupported(t)

    def s_Return(self, s):
        if self.v < (3, 8):
            if s.value is not None:
                self.expr(s.value)
            else:
                self.load_const(None)
            self.op("RETURN_VALUE")
            return
        preserve = s.value is not None and not isinstance(s.value, ast.Constant)
        if preserve:
            self.expr(s.value)
        self.unwind_all(preserve)
        if s.value is None:
            self.load_const(None)
        elif not preserve:
            self.expr(s.value)
        self.op("RETURN_VALUE")

    # -- 3.8+ block unwinding
    def unwind_all(self, preserve):
        saved = list(self.u.fblocks)
        while self.u.fblocks:
            fb = self.u.fblocks.pop()
            self.unwind(fb, preserve)
        self.u.fblocks[:] = saved

    def unwind(self, fb, preserve):
        k = fb.kind
        o = self.op
        if k == "while":
            return
        if k in ("for", "pop_value"):
            if preserve:
                o("ROT_TWO")
            o("POP_TOP")
        elif k == "except":
            o("POP_BLOCK")
        elif k == "finally_try":
            o("POP_BLOCK")
            if self.v == (3, 8):
                o("CALL_FINALLY", fb.exit)
            else:
                if preserve:
                    self.u.fblocks.append(FB("pop_value"))
                for st in fb.datum:
                    self.stmt(st)
                if preserve:
                    self.u.fblocks.pop()
        elif k == "finally_try2":
            o("POP_BLOCK")
            if preserve:
                o("ROT_TWO")
                o("POP_TOP")
                o("CALL_FINALLY", fb.exit)
            else:
                o("CALL_FINALLY", fb.exit)
                o("POP_TOP")
        elif k == "finally_end":
            if self.v == (3, 8):
                fb.left = True
                o("POP_FINALLY", 1 if preserve else 0)
                if preserve:
                    o("ROT_TWO")
                o("POP_TOP")
            else:
                if preserve:
                    o("ROT_FOUR")
                o("POP_TOP"); o("POP_TOP"); o("POP_TOP")
                if preserve:
                    o("ROT_FOUR")
                o("POP_EXCEPT")
        elif k == "with":
            o("POP_BLOCK")
            if preserve:
                o("ROT_TWO")
            if self.v == (3, 8):
                o("BEGIN_FINALLY")
                o("WITH_CLEANUP_START")
                o("WITH_CLEANUP_FINISH")
                o("POP_FINALLY", 0)
            else:
                self.exit_nones()
                o("POP_TOP")
        elif k == "handler":
            if self.v == (3, 8):
                if preserve:
                    o("ROT_FOUR")
                if fb.exit is not None:
                    # 3.8: POP_BLOCK; POP_EXCEPT; CALL_FINALLY
                    o("POP_BLOCK")
                    o("POP_EXCEPT")
                    o("CALL_FINALLY", fb.exit)
                else:
                    o("POP_EXCEPT")
            else:
                if fb.datum:
                    o("POP_BLOCK")
                if preserve:
                    o("ROT_FOUR")
                o("POP_EXCEPT")
                if fb.datum:
                    self.load_const(None)
                    self.name("STORE", fb.datum)
                    self.name("DELETE", fb.datum)
        else:
            raise AssertionError(k)

    def exit_nones(self):
        self.load_const(None)
        self.op("DUP_TOP")
        self.op("DUP_TOP")
        self.op("CALL_FUNCTION", 3)

    def s_If(self, s):
        end, nxt = Label(), Label()
        c = s.test.value if isinstance(s.test, ast.Constant) else None
        if isinstance(s.test, ast.Constant) and self.v >= (3, 0):
            # constant conditions are folded
            for st in (s.body if c else s.orelse):
                self.stmt(st)
            return
        self.jump_if(s.test, nxt, False)
        for st in s.body:
            self.stmt(st)
        if s.orelse or self.old_jumps or self.v < (3, 0):
            self.op("JUMP_FORWARD", end)
        self.mark_cond(nxt)
        for st in s.orelse:
            self.stmt(st)
        self.mark(end)

    def s_While(self, s):
        c = const_truth(s.test, self.py3)
        loop, end, anchor = Label(), Label(), Label()
        if c is False:
            for st in s.orelse:
                self.stmt(st)
            return
        if self.v < (3, 8):
            self.op("SETUP_LOOP", end)
        self.mark(loop)
        self.u.fblocks.append(FB("while", loop, end))
        if c is None:
            self.jump_if(s.test, anchor, False)
        body = Label()
        self.mark(body)
        for st in s.body:
            self.stmt(st)
        if c is None and self.v >= (3, 10):
            self.line = s.lineno
            self.jump_if(s.test, body, True)
        else:
            self.op("JUMP_ABSOLUTE", loop)
        if c is None:
            self.mark_cond(anchor)
            if self.v < (3, 8):
                self.op("POP_BLOCK")
        self.u.fblocks.pop()
        for st in s.orelse:
            self.stmt(st)
        self.mark(end)

    def s_For(self, s):
        start, cleanup, end = Label(), Label(), Label()
        if self.v < (3, 8):
            self.op("SETUP_LOOP", end)
        self.u.fblocks.append(FB("for", start, end))
        self.expr(s.iter)
        self.op("GET_ITER")
        self.mark(start)
        self.op("FOR_ITER", cleanup)
        self.store(s.target)
        for st in s.body:
            self.stmt(st)
        self.op("JUMP_ABSOLUTE", start)
        self.mark(cleanup)
        if self.v < (3, 8):
            self.op("POP_BLOCK")
        self.u.fblocks.pop()
        for st in s.orelse:
            self.stmt(st)
        self.mark(end)

    def s_Break(self, s):
        if self.v < (3, 8):
            return self.op("BREAK_LOOP")
        saved = list(self.u.fblocks)
        while True:
            fb = self.u.fblocks.pop()
            self.unwind(fb, False)
            if fb.kind in ("for", "while"):
                break
        self.op("JUMP_ABSOLUTE", fb.exit)
        self.u.fblocks[:] = saved

    def s_Continue(self, s):
        fbs = self.u.fblocks
        if self.v < (3, 8):
            if fbs[-1].kind in ("for", "while"):
                return self.op("JUMP_ABSOLUTE", fbs[-1].block)
            for fb in reversed(fbs):
                if fb.kind in ("for", "while"):
                    return self.op("CONTINUE_LOOP", fb.block)
                if fb.kind == "finally_end":
                    raise Unsupported("continue in finally")
            raise AssertionError
        saved = list(fbs)
        while True:
            fb = self.u.fblocks[-1]
            if fb.kind in ("for", "while"):
                break
            self.u.fblocks.pop()
            self.unwind(fb, False)
        self.op("JUMP_ABSOLUTE", fb.block)
        self.u.fblocks[:] = saved

    # -- try
    def s_Try(self, s):
        if s.finalbody:
            self.try_finally(s)
        else:
            self.try_except(s)

    def try_inner(self, s):
        if s.handlers:
            self.try_except(s)
        else:
            for st in s.body:
                self.stmt(st)

    def try_finally(self, s):
        end, exit = Label(), Label()
        push, pop = self.u.fblocks.append, self.u.fblocks.pop
        if self.v == (3, 8):
            # As in CPython, the finally clause is compiled first, to find out
            # whether break, continue or return leave it.
            outer, self.u.instrs = self.u.instrs, []
            line = self.line
            fb = FB("finally_end")
            push(fb)
            for st in s.finalbody:
                self.stmt(st)
            self.op("END_FINALLY")
            pop()
            left = getattr(fb, "left", False)
            final, self.u.instrs = self.u.instrs, outer
            self.line = line
            if left:
                self.load_const(None)
            self.op("SETUP_FINALLY", end)
            push(FB("finally_try2" if left else "finally_try", None, end, s.finalbody))
            self.try_inner(s)
            self.op("POP_BLOCK")
            self.op("BEGIN_FINALLY")
            pop()
            self.mark(end)
            self.u.instrs.extend(final)
            if left:
                self.op("POP_TOP")
            return
        self.op("SETUP_FINALLY", end)
        push(FB("finally_try", None, end, s.finalbody))
        if self.v >= (3, 9):
            self.try_inner(s)
            self.op("POP_BLOCK")
            pop()
            for st in s.finalbody:
                self.stmt(st)
            self.op("JUMP_FORWARD", exit)
            self.mark(end)
            push(FB("finally_end"))
            for st in s.finalbody:
                self.stmt(st)
            pop()
            self.op("RERAISE", 0)
            self.mark(exit)
            return
        self.try_inner(s)
        self.op("POP_BLOCK")
        self.load_const(None)
        pop()
        self.mark(end)
        push(FB("finally_end"))
        for st in s.finalbody:
            self.stmt(st)
        self.op("END_FINALLY")
        pop()

    def try_except(self, s):
        exc, orelse, end = Label(), Label(), Label()
        push, pop = self.u.fblocks.append, self.u.fblocks.pop
        self.op("SETUP_FINALLY" if self.v >= (3, 8) else "SETUP_EXCEPT", exc)
        push(FB("except"))
        for st in s.body:
            self.stmt(st)
        self.op("POP_BLOCK")
        pop()
        self.op("JUMP_FORWARD", orelse)
        self.mark(exc)
        for h in s.handlers:
            self.line = h.lineno
            nxt = Label()
            if h.type is not None:
                self.op("DUP_TOP")
                self.expr(h.type)
                if self.v >= (3, 9):
                    self.op("JUMP_IF_NOT_EXC_MATCH", nxt)
                else:
                    self.op("COMPARE_OP", 10)
                    self.jump_false(nxt)
            self.op("POP_TOP")
            if h.name and self.py3:
                self.name("STORE", h.name)
                self.op("POP_TOP")
                cleanup = Label()
                self.op("SETUP_FINALLY", cleanup)
                if self.v >= (3, 9):
                    push(FB("handler", None, None, h.name))
                    for st in h.body:
                        self.stmt(st)
                    pop()
                    self.op("POP_BLOCK")
                    self.op("POP_EXCEPT")
                    self.load_const(None)
                    self.name("STORE", h.name)
                    self.name("DELETE", h.name)
                    self.op("JUMP_FORWARD", end)
                    self.mark(cleanup)
                    self.load_const(None)
                    self.name("STORE", h.name)
                    self.name("DELETE", h.name)
                    self.op("RERAISE", 1)
                else:
                    push(FB("handler" if self.v == (3, 8) else "finally_try", None, cleanup))
                    for st in h.body:
                        self.stmt(st)
                    pop()
                    self.op("POP_BLOCK")
                    if self.v == (3, 8):
                        self.op("BEGIN_FINALLY")
                    else:
                        if self.v < (3, 7) and not self.pypy:
                            self.op("POP_EXCEPT")
                        self.load_const(None)
                    self.mark(cleanup)
                    push(FB("finally_end"))
                    self.load_const(None)
                    self.name("STORE", h.name)
                    self.name("DELETE", h.name)
                    self.op("END_FINALLY")
                    pop()
                    if self.v >= (3, 7) or self.pypy:
                        self.op("POP_EXCEPT")
                    self.op("JUMP_FORWARD", end)
            else:
                if h.name:
                    self.name("STORE", h.name)
                else:
                    self.op("POP_TOP")
                self.op("POP_TOP")
                if self.v >= (3, 8):
                    push(FB("handler"))
                elif self.py3:
                    push(FB("finally_try"))
                for st in h.body:
                    self.stmt(st)
                if self.py3:
                    pop()
                    self.op("POP_EXCEPT")
                self.op("JUMP_FORWARD", end)
            if h.type is not None:
                self.mark_cond(nxt)
                if self.v >= (3, 9):
                    pass
        if self.v >= (3, 9):
            self.op("RERAISE", 0)
        else:
            self.op("END_FINALLY")
        self.mark(orelse)
        for st in s.orelse:
            self.stmt(st)
        self.mark(end)

    # -- with
    def s_With(self, s, pos=0):
        if self.v < (2, 5):
            raise Unsupported("with")
        item = s.items[pos]
        block, fin, exit = Label(), Label(), Label()
        push, pop = self.u.fblocks.append, self.u.fblocks.pop

        def inner():
            if pos + 1 < len(s.items):
                self.s_With(s, pos + 1)
            else:
                for st in s.body:
                    self.stmt(st)

        self.expr(item.context_expr)
        if self.v < (2, 7) or self.v == (3, 1):
            # no SETUP_WITH
            self.op("DUP_TOP")
            self.nop("LOAD_ATTR", "__exit__")
            self.op("ROT_TWO")
            self.nop("LOAD_ATTR", "__enter__")
            self.op("CALL_FUNCTION", 0)
            tmp = None
            if item.optional_vars is not None:
                self.u.tmp += 1
                tmp = "_[%d]" % self.u.tmp
                self.u.scope.bound.add(tmp)
                self.name("STORE", tmp)
            else:
                self.op("POP_TOP")
            self.op("SETUP_FINALLY", fin)
            push(FB("finally_try"))
            if tmp:
                self.name("LOAD", tmp)
                self.name("DELETE", tmp)
                self.store(item.optional_vars)
            inner()
            self.op("POP_BLOCK")
            pop()
            self.load_const(None)
            self.mark(fin)
            push(FB("finally_end"))
            self.op("WITH_CLEANUP")
            self.op("END_FINALLY")
            pop()
            return
        self.op("SETUP_WITH", fin)
        push(FB("with" if self.v >= (3, 8) else "finally_try"))
        if item.optional_vars is not None:
            self.store(item.optional_vars)
        else:
            self.op("POP_TOP")
        inner()
        self.op("POP_BLOCK")
        pop()
        if self.v >= (3, 9):
            self.exit_nones()
            self.op("POP_TOP")
            self.op("JUMP_FORWARD", exit)
            self.mark(fin)
            self.op("WITH_EXCEPT_START")
            cleanup = Label()
            self.op("POP_JUMP_IF_TRUE", cleanup)
            self.op("RERAISE", 1)
            self.mark(cleanup)
            self.op("POP_TOP"); self.op("POP_TOP"); self.op("POP_TOP")
            self.op("POP_EXCEPT")
            self.op("POP_TOP")
            self.mark(exit)
            return
        if self.v == (3, 8):
            self.op("BEGIN_FINALLY")
        else:
            self.load_const(None)
        self.mark(fin)
        push(FB("finally_end"))
        if self.v >= (3, 5):
            self.op("WITH_CLEANUP_START")
            self.op("WITH_CLEANUP_FINISH")
        else:
            self.op("WITH_CLEANUP")
        self.op("END_FINALLY")
        pop()

    def s_Raise(self, s):
        n = 0
        if s.exc is not None:
            self.expr(s.exc)
            n = 1
            if s.cause is not None and not self.py3:
                # "raise X from _with(Y, Z)" stands for "raise X, Y, Z".
                if not (isinstance(s.cause, ast.Call) and isinstance(s.cause.func, ast.Name) and s.cause.func.id == "_with"):
                    raise Unsupported("raise from")
                for e in s.cause.args:
                    self.expr(e)
                    n += 1
            elif s.cause is not None:
                self.expr(s.cause)
                n = 2
        self.op("RAISE_VARARGS", n)

    def s_Assert(self, s):
        end = Label()
        if self.pypy and self.debug_jumps and "JUMP_IF_NOT_DEBUG" in self.opc.opmap:
            self.op("JUMP_IF_NOT_DEBUG", end)
        self.jump_if(s.test, end, True)
        if self.v >= (3, 9):
            self.op("LOAD_ASSERTION_ERROR")
        else:
            self.op("LOAD_GLOBAL", self.name_index("AssertionError"))
        if s.msg is not None:
            self.expr(s.msg)
            if self.v < (2, 7):
                self.op("RAISE_VARARGS", 2)
            else:
                self.op("CALL_FUNCTION", 1)
                self.op("RAISE_VARARGS", 1)
        else:
            self.op("RAISE_VARARGS", 1)
        self.mark_cond(end)

    def s_Import(self, s):
        for a in s.names:
            if self.v >= (2, 5):
                self.load_const(0 if self.py3 else -1)
            self.load_const(None)
            self.op("IMPORT_NAME", self.name_index(a.name))
            if a.asname:
                parts = a.name.split(".")[1:]
                for i, p in enumerate(parts):
                    if self.v >= (3, 7):
                        self.op("IMPORT_FROM", self.name_index(p))
                        if i < len(parts) - 1:
                            self.op("ROT_TWO")
                            self.op("POP_TOP")
                    else:
                        self.op("LOAD_ATTR", self.name_index(p))
                self.name("STORE", a.asname)
                if self.v >= (3, 7) and parts:
                    self.op("POP_TOP")
            else:
                self.name("STORE", a.name.split(".")[0])

    def s_ImportFrom(self, s):
        if self.v >= (2, 5):
            lvl = s.level or 0
            self.load_const(lvl if (self.py3 or lvl) else -1)
        self.load_const(tuple(a.name for a in s.names))
        self.op("IMPORT_NAME", self.name_index(s.module or ""))
        if s.names[0].name == "*":
            self.op("IMPORT_STAR")
            return
        for a in s.names:
            self.op("IMPORT_FROM", self.name_index(a.name))
            self.name("STORE", a.asname or a.name)
        self.op("POP_TOP")

    # -- functions and classes
    def s_FunctionDef(self, s):
        if s.decorator_list and self.v < (2, 4):
            raise Unsupported("decorators")
        for d in s.decorator_list:
            self.expr(d)
        self.function(s, s.name, s.body)
        for d in s.decorator_list:
            self.op("CALL_FUNCTION", 1)
        self.name("STORE", s.name)

    def function(self, n, name, body):
        a = n.args
        v = self.v
        if (a.posonlyargs and v < (3, 8)) or (a.kwonlyargs and not self.py3):
            raise Unsupported("parameter kind")
        kwd = [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        anns = []
        if isinstance(n, ast.FunctionDef):
            for x in a.posonlyargs + a.args + [a.vararg] + a.kwonlyargs + [a.kwarg]:
                if x is not None and x.annotation is not None:
                    anns.append((x.arg, x.annotation))
            if n.returns is not None:
                anns.append(("return", n.returns))
        if anns and not self.py3:
            raise Unsupported("annotations")
        flags = 0
        if v >= (3, 6):
            if a.defaults:
                flags |= 1
                if all(isinstance(d, ast.Constant) for d in a.defaults):
                    self.load_const(tuple(d.value for d in a.defaults))
                else:
                    for d in a.defaults:
                        self.expr(d)
                    self.op("BUILD_TUPLE", len(a.defaults))
            if kwd:
                flags |= 2
                for _, d in kwd:
                    self.expr(d)
                self.load_const(tuple(mangle(self.u.scope.private, k) for k, _ in kwd))
                self.op("BUILD_CONST_KEY_MAP", len(kwd))
            if anns:
                flags |= 4
                if v >= (3, 10):
                    for k, x in anns:
                        self.load_const(k)
                        self.expr(x)
                    self.op("BUILD_TUPLE", 2 * len(anns))
                else:
                    for k, x in anns:
                        self.expr(x)
                    self.load_const(tuple(k for k, _ in anns))
                    self.op("BUILD_CONST_KEY_MAP", len(anns))
            arg = flags
        else:
            kw_first = v < (3, 4)  # magic 3250

            def kwdefaults():
                for k, d in kwd:
                    self.load_const(mangle(self.u.scope.private, k))
                    self.expr(d)

            if kw_first:
                kwdefaults()
            for d in a.defaults:
                self.expr(d)
            if not kw_first:
                kwdefaults()
            nann = 0
            if anns:
                for k, x in anns:
                    self.expr(x)
                self.load_const(tuple(k for k, _ in anns))
                nann = len(anns) + 1
            arg = len(a.defaults) | (len(kwd) << 8) | (nann << 16)
        line = self.line
        if isinstance(n, ast.FunctionDef) and n.decorator_list and v < (3, 8):
            line = n.decorator_list[0].lineno
        self.enter(self.scopes[n], name, line)
        u = self.u
        u.argcount = len(a.posonlyargs) + len(a.args)
        u.posonly = len(a.posonlyargs)
        u.kwonly = len(a.kwonlyargs)
        if a.vararg:
            u.flags |= CO_VARARGS
        if a.kwarg:
            u.flags |= CO_VARKEYWORDS
        if v >= (3, 10) and u.scope.is_gen:
            self.op("GEN_START", 0)
        if isinstance(n, ast.Lambda):
            if self.py3:
                self.const_index(None)
            self.expr(body)
            self.op("RETURN_VALUE")
        else:
            doc = docstring(body)
            if doc is not None:
                self.const_index(doc)
                body = body[1:]
            else:
                self.const_index(None)
            for st in body:
                self.stmt(st)
            self.load_const(None)
            self.op("RETURN_VALUE")
        code, u = self.leave()
        self.make_closure(code, u, arg, flags)

    def make_closure(self, code, u, arg, flags=0):
        v = self.v
        if u.freevars:
            for f in u.freevars:
                self.op("LOAD_CLOSURE", self.deref_index(f))
            if v >= (2, 5):
                self.op("BUILD_TUPLE", len(u.freevars))
            flags |= 8
        self.load_const(code)
        if v >= (3, 3):
            self.load_const(u.qualname)
        if v >= (3, 6):
            self.op("MAKE_FUNCTION", flags)
        elif u.freevars:
            self.op("MAKE_CLOSURE", arg)
        else:
            self.op("MAKE_FUNCTION", arg)

    def s_ClassDef(self, s):
        v = self.v
        if s.decorator_list and v < (2, 6):
            raise Unsupported("class decorator")
        for d in s.decorator_list:
            self.expr(d)
        if not self.py3:
            self.load_const(s.name)
            for b in s.bases:
                self.expr(b)
            self.op("BUILD_TUPLE", len(s.bases))
            if s.keywords:
                raise Unsupported("class keyword")
        else:
            self.op("LOAD_BUILD_CLASS")
        line = self.line
        if s.decorator_list and v < (3, 8):
            line = s.decorator_list[0].lineno
        self.enter(self.scopes[s], s.name, line)
        u = self.u
        if self.py3 and v < (3, 4):
            u.argcount = 1
            u.varnames = ["__locals__"]
            self.op("LOAD_FAST", 0)
            self.op("STORE_LOCALS")
        self.op("LOAD_NAME" if v >= (2, 5) else "LOAD_GLOBAL", self.name_index("__name__"))
        self.op("STORE_NAME", self.name_index("__module__"))
        if v >= (3, 3):
            self.load_const(u.qualname)
            self.op("STORE_NAME", self.name_index("__qualname__"))
        self.body(s.body)
        if not self.py3:
            self.op("LOAD_LOCALS")
        elif u.scope.needs_class_cell:
            self.op("LOAD_CLOSURE", 0)
            if v >= (3, 6):
                self.op("DUP_TOP")
                self.op("STORE_NAME", self.name_index("__classcell__"))
        else:
            self.load_const(None)
        self.op("RETURN_VALUE")
        code, u = self.leave()
        self.make_closure(code, u, 0)
        if not self.py3:
            self.op("CALL_FUNCTION", 0)
            self.op("BUILD_CLASS")
        else:
            self.load_const(s.name)
            self.call_tail(s.bases, s.keywords, 2)
        for d in s.decorator_list:
            self.op("CALL_FUNCTION", 1)
        self.name("STORE", s.name)

    # ---- expressions
    def expr(self, e):
        getattr(self, "e_" + type(e).__name__, self.unsupported)(e)

    def e_Constant(self, e):
        c = e.value
        if not self.py3 and isinstance(c, bool):
            return self.name("LOAD", str(c))
        self.load_const(c)

    def e_Name(self, e):
        self.name("LOAD", e.id)

    def e_NamedExpr(self, e):
        if self.v < (3, 8):
            raise Unsupported("named expression")
        self.expr(e.value)
        self.op("DUP_TOP")
        self.store(e.target)

    def e_Attribute(self, e):
        self.expr(e.value)
        self.nop("LOAD_ATTR", e.attr)

    def simple_slice(self, sl):
        return not self.py3 and isinstance(sl, ast.Slice) and sl.step is None

    def push_simple_slice(self, t):
        self.expr(t.value)
        n = bits = 0
        if t.slice.lower is not None:
            self.expr(t.slice.lower)
            n += 1
            bits |= 1
        if t.slice.upper is not None:
            self.expr(t.slice.upper)
            n += 1
            bits |= 2
        return n, bits

    def index(self, sl):
        if isinstance(sl, ast.Slice):
            n = 2
            self.expr(sl.lower) if sl.lower else self.load_const(None)
            self.expr(sl.upper) if sl.upper else self.load_const(None)
            if sl.step is not None:
                self.expr(sl.step)
                n = 3
            self.op("BUILD_SLICE", n)
        elif isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
            for x in sl.elts:
                self.index(x)
            self.op("BUILD_TUPLE", len(sl.elts))
        else:
            self.expr(sl)

    def e_Subscript(self, e):
        if self.simple_slice(e.slice):
            _, bits = self.push_simple_slice(e)
            return self.op("SLICE+%d" % bits)
        self.expr(e.value)
        self.index(e.slice)
        self.op("BINARY_SUBSCR")

    def e_BinOp(self, e):
        if isinstance(e.op, ast.MatMult) and self.v < (3, 5):
            raise Unsupported("@")
        self.expr(e.left)
        self.expr(e.right)
        if isinstance(e.op, ast.Div) and not self.py3:
            return self.op("BINARY_DIVIDE")
        self.op("BINARY_" + BINOP[type(e.op)])

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(
            e.operand.value, (int, float)
        ) and not isinstance(e.operand.value, bool):
            return self.load_const(-e.operand.value)
        self.expr(e.operand)
        self.op("UNARY_" + UNOP[type(e.op)])

    def e_BoolOp(self, e):
        end = Label()
        for x in e.values[:-1]:
            self.expr(x)
            if self.old_jumps:
                self.op("JUMP_IF_FALSE" if isinstance(e.op, ast.And) else "JUMP_IF_TRUE", end)
                self.op("POP_TOP")
            else:
                self.op(
                    "JUMP_IF_FALSE_OR_POP" if isinstance(e.op, ast.And) else "JUMP_IF_TRUE_OR_POP", end
                )
        self.expr(e.values[-1])
        self.mark(end)

    def cmpop(self, o):
        if self.v >= (3, 9):
            if isinstance(o, (ast.Is, ast.IsNot)):
                return self.op("IS_OP", int(isinstance(o, ast.IsNot)))
            if isinstance(o, (ast.In, ast.NotIn)):
                return self.op("CONTAINS_OP", int(isinstance(o, ast.NotIn)))
        self.op("COMPARE_OP", CMP[type(o)])

    def e_Compare(self, e):
        self.expr(e.left)
        if len(e.ops) == 1:
            self.expr(e.comparators[0])
            return self.cmpop(e.ops[0])
        cleanup, end = Label(), Label()
        for i, (o, c) in enumerate(zip(e.ops, e.comparators)):
            self.expr(c)
            if i < len(e.ops) - 1:
                self.op("DUP_TOP")
                self.op("ROT_THREE")
                self.cmpop(o)
                if self.old_jumps:
                    self.op("JUMP_IF_FALSE", cleanup)
                    self.op("POP_TOP")
                else:
                    self.op("JUMP_IF_FALSE_OR_POP", cleanup)
            else:
                self.cmpop(o)
        self.op("JUMP_FORWARD", end)
        self.mark(cleanup)
        self.op("ROT_TWO")
        self.op("POP_TOP")
        self.mark(end)

    def e_IfExp(self, e):
        nxt, end = Label(), Label()
        self.jump_if(e.test, nxt, False)
        self.expr(e.body)
        self.op("JUMP_FORWARD", end)
        self.mark_cond(nxt)
        self.expr(e.orelse)
        self.mark(end)

    def const_seq(self, elts):
        if elts and all(
            isinstance(x, ast.Constant)
            and (self.py3 or not isinstance(x.value, bool)) for x in elts
        ):
            return tuple(x.value for x in elts)
        return None

    def star_seq(self, e, kind):
        v = self.v
        if v < (3, 5):
            raise Unsupported("starred display")
        if v >= (3, 9):
            build = "BUILD_SET" if kind == "SET" else "BUILD_LIST"
            add = "SET_UPDATE" if kind == "SET" else "LIST_EXTEND"
            append = "SET_ADD" if kind == "SET" else "LIST_APPEND"
            seen = False
            for i, x in enumerate(e):
                if isinstance(x, ast.Starred):
                    if not seen:
                        self.op(build, i)
                        seen = True
                    self.expr(x.value)
                    self.op(add, 1)
                else:
                    self.expr(x)
                    if seen:
                        self.op(append, 1)
            if kind == "TUPLE":
                self.op("LIST_TO_TUPLE")
            return
        nseen = nsub = 0
        for x in e:
            if isinstance(x, ast.Starred):
                if nseen:
                    self.op("BUILD_SET" if kind == "SET" else "BUILD_TUPLE", nseen)
                    nseen = 0
                    nsub += 1
                self.expr(x.value)
                nsub += 1
            else:
                self.expr(x)
                nseen += 1
        if nseen:
            self.op("BUILD_SET" if kind == "SET" else "BUILD_TUPLE", nseen)
            nsub += 1
        self.op("BUILD_%s_UNPACK" % kind, nsub)

    def e_Tuple(self, e):
        if not isinstance(e.ctx, ast.Load):
            return self.unsupported(e)
        c = self.const_seq(e.elts)
        if c is not None and self.v >= (2, 5):
            return self.load_const(c)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, "TUPLE")
        for x in e.elts:
            self.expr(x)
        self.op("BUILD_TUPLE", len(e.elts))

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, "LIST")
        c = self.const_seq(e.elts)
        if self.v >= (3, 9) and c is not None and len(c) > 2:
            self.op("BUILD_LIST", 0)
            self.load_const(c)
            return self.op("LIST_EXTEND", 1)
        for x in e.elts:
            self.expr(x)
        self.op("BUILD_LIST", len(e.elts))

    def e_Set(self, e):
        if self.v < (2, 7):
            raise Unsupported("set display")
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, "SET")
        c = self.const_seq(e.elts)
        if self.v >= (3, 9) and c is not None and len(c) > 2:
            self.op("BUILD_SET", 0)
            self.load_const(frozenset(c))
            return self.op("SET_UPDATE", 1)
        for x in e.elts:
            self.expr(x)
        self.op("BUILD_SET", len(e.elts))

    def e_Dict(self, e):
        v = self.v
        n = len(e.keys)
        if v < (3, 5):
            if any(k is None for k in e.keys):
                raise Unsupported("** in dict")
            self.op("BUILD_MAP", n if v >= (2, 6) else 0)
            for k, x in zip(e.keys, e.values):
                if v < (2, 5):
                    self.op("DUP_TOP")
                    self.expr(k)
                    self.expr(x)
                    self.op("ROT_THREE")
                    self.op("STORE_SUBSCR")
                elif v < (2, 6):
                    self.op("DUP_TOP")
                    self.expr(x)
                    self.op("ROT_TWO")
                    self.expr(k)
                    self.op("STORE_SUBSCR")
                else:
                    self.expr(x)
                    self.expr(k)
                    self.op("STORE_MAP")
            return

        def subdict(keys, values):
            if v >= (3, 6) and len(keys) > (not self.pypy) and all(isinstance(k, ast.Constant) for k in keys):
                for x in values:
                    self.expr(x)
                self.load_const(tuple(k.value for k in keys))
                self.op("BUILD_CONST_KEY_MAP", len(keys))
            else:
                for k, x in zip(keys, values):
                    self.expr(k)
                    self.expr(x)
                self.op("BUILD_MAP", len(keys))

        if v >= (3, 9):
            have = False
            run = []
            for k, x in zip(e.keys, e.values):
                if k is None:
                    if run:
                        subdict([a for a, _ in run], [b for _, b in run])
                        if have:
                            self.op("DICT_UPDATE", 1)
                        have = True
                        run = []
                    if not have:
                        self.op("BUILD_MAP", 0)
                        have = True
                    self.expr(x)
                    self.op("DICT_UPDATE", 1)
                else:
                    run.append((k, x))
            if run:
                subdict([a for a, _ in run], [b for _, b in run])
                if have:
                    self.op("DICT_UPDATE", 1)
                have = True
            if not have:
                self.op("BUILD_MAP", 0)
            return
        containers = 0
        run = []
        for k, x in zip(e.keys, e.values):
            if k is None:
                if run:
                    subdict([a for a, _ in run], [b for _, b in run])
                    containers += 1
                    run = []
                self.expr(x)
                containers += 1
            else:
                run.append((k, x))
        if run or not containers:
            subdict([a for a, _ in run], [b for _, b in run])
            containers += 1
        if containers > 1 or any(k is None for k in e.keys):
            self.op("BUILD_MAP_UNPACK", containers)

    # -- calls
    def e_Call(self, e):
        plain = not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args)
        if self.pypy and isinstance(e.func, ast.Attribute) and self.v < (3, 9):
            # PyPy's codegen.py, _optimize_method_call
            if not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords):
                self.expr(e.func.value)
                self.nop("LOOKUP_METHOD", e.func.attr)
                for a in e.args:
                    self.expr(a)
                if self.v < (3, 7) or not e.keywords:
                    for k in e.keywords:
                        self.load_const(k.arg)
                        self.expr(k.value)
                    return self.op("CALL_METHOD", len(e.args) | len(e.keywords) << 8)
                for k in e.keywords:
                    self.expr(k.value)
                self.load_const(tuple(k.arg for k in e.keywords))
                return self.op("CALL_METHOD_KW", len(e.args) + len(e.keywords))
        if self.v >= (3, 7) and isinstance(e.func, ast.Attribute) and plain:
            self.expr(e.func.value)
            self.nop("LOAD_METHOD", e.func.attr)
            for a in e.args:
                self.expr(a)
            return self.op("CALL_METHOD", len(e.args))
        self.expr(e.func)
        self.call_tail(e.args, e.keywords, 0)

    def call_tail(self, args, keywords, n):
        v = self.v
        if v < (3, 5):
            star = None
            kwstar = None
            for i, a in enumerate(args):
                if isinstance(a, ast.Starred):
                    if i != len(args) - 1:
                        raise Unsupported("call unpacking")
                    star = a.value
                else:
                    self.expr(a)
                    n += 1
            nkw = 0
            for i, k in enumerate(keywords):
                if k.arg is None:
                    if i != len(keywords) - 1:
                        raise Unsupported("call unpacking")
                    kwstar = k.value
                else:
                    self.load_const(k.arg)
                    self.expr(k.value)
                    nkw += 1
            o = "CALL_FUNCTION"
            if star is not None:
                self.expr(star)
                o += "_VAR"
            if kwstar is not None:
                self.expr(kwstar)
                o += "_KW"
            return self.op(o, n | nkw << 8)
        if v < (3, 6) or (self.pypy and v < (3, 7)):
            nseen = nsub = 0
            for a in args:
                if isinstance(a, ast.Starred):
                    if nseen:
                        self.op("BUILD_TUPLE", nseen)
                        nseen = 0
                        nsub += 1
                    self.expr(a.value)
                    nsub += 1
                elif nsub:
                    self.expr(a)
                    nseen += 1
                else:
                    self.expr(a)
                    n += 1
            if nseen:
                self.op("BUILD_TUPLE", nseen)
                nsub += 1
            code = 0
            if nsub:
                code |= 1
                if nsub > 1:
                    self.op("BUILD_LIST_UNPACK", nsub)
            nkw = nseen = nsubkw = 0
            for k in keywords:
                if k.arg is None:
                    if nseen:
                        self.op("BUILD_MAP", nseen)
                        nseen = 0
                        nsubkw += 1
                    self.expr(k.value)
                    nsubkw += 1
                elif nsubkw:
                    self.load_const(k.arg)
                    self.expr(k.value)
                    nseen += 1
                else:
                    self.load_const(k.arg)
                    self.expr(k.value)
                    nkw += 1
            if nseen:
                self.op("BUILD_MAP", nseen)
                nsubkw += 1
            if nsubkw:
                code |= 2
                if nsubkw > 1:
                    pos = n + nkw * 2 + 1 + (code & 1)
                    self.op("BUILD_MAP_UNPACK_WITH_CALL", nsubkw | pos << 8)
            return self.op(
                ["CALL_FUNCTION", "CALL_FUNCTION_VAR", "CALL_FUNCTION_KW", "CALL_FUNCTION_VAR_KW"][code],
                n | nkw << 8,
            )
        # 3.6 .. 3.10
        star = any(isinstance(a, ast.Starred) for a in args)
        kwstar = any(k.arg is None for k in keywords)
        if not star and not kwstar:
            for a in args:
                self.expr(a)
            if keywords:
                for k in keywords:
                    self.expr(k.value)
                self.load_const(tuple(k.arg for k in keywords))
                return self.op("CALL_FUNCTION_KW", n + len(args) + len(keywords))
            return self.op("CALL_FUNCTION", n + len(args))

        def subkw(ks):
            if len(ks) > (not self.pypy):
                for k in ks:
                    self.expr(k.value)
                self.load_const(tuple(k.arg for k in ks))
                self.op("BUILD_CONST_KEY_MAP", len(ks))
            else:
                self.load_const(ks[0].arg)
                self.expr(ks[0].value)
                self.op("BUILD_MAP", 1)

        if v >= (3, 9):
            if n == 0 and len(args) == 1 and star:
                self.expr(args[0].value)
            else:
                # starunpack_helper with n values already pushed
                seen = False
                if not star:
                    for a in args:
                        self.expr(a)
                    self.op("BUILD_TUPLE", n + len(args))
                else:
                    for i, a in enumerate(args):
                        if isinstance(a, ast.Starred):
                            if not seen:
                                self.op("BUILD_LIST", n + i)
                                seen = True
                            self.expr(a.value)
                            self.op("LIST_EXTEND", 1)
                        else:
                            self.expr(a)
                            if seen:
                                self.op("LIST_APPEND", 1)
                    self.op("LIST_TO_TUPLE")
            if keywords:
                have = False
                run = []
                for k in keywords:
                    if k.arg is None:
                        if run:
                            subkw(run)
                            if have:
                                self.op("DICT_MERGE", 1)
                            have = True
                            run = []
                        if not have:
                            self.op("BUILD_MAP", 0)
                            have = True
                        self.expr(k.value)
                        self.op("DICT_MERGE", 1)
                    else:
                        run.append(k)
                if run:
                    subkw(run)
                    if have:
                        self.op("DICT_MERGE", 1)
            return self.op("CALL_FUNCTION_EX", int(bool(keywords)))
        nseen, nsub = n, 0
        for a in args:
            if isinstance(a, ast.Starred):
                if nseen:
                    self.op("BUILD_TUPLE", nseen)
                    nseen = 0
                    nsub += 1
                self.expr(a.value)
                nsub += 1
            else:
                self.expr(a)
                nseen += 1
        if nsub == 0 or nseen:
            self.op("BUILD_TUPLE", nseen)
            nsub += 1
        if nsub > 1:
            self.op("BUILD_TUPLE_UNPACK" if self.pypy else "BUILD_TUPLE_UNPACK_WITH_CALL", nsub)
        if keywords:
            nsub = 0
            run = []
            for k in keywords:
                if k.arg is None:
                    if run:
                        subkw(run)
                        nsub += 1
                        run = []
                    self.expr(k.value)
                    nsub += 1
                else:
                    run.append(k)
            if run:
                subkw(run)
                nsub += 1
            if nsub > 1:
                self.op("BUILD_MAP_UNPACK_WITH_CALL", nsub)
        self.op("CALL_FUNCTION_EX", int(bool(keywords)))

    def e_Lambda(self, e):
        self.function(e, "<lambda>", e.body)

    def e_Yield(self, e):
        if self.v < (2, 5):
            raise Unsupported("yield expression")
        self.expr(e.value) if e.value else self.load_const(None)
        self.op("YIELD_VALUE")

    def e_YieldFrom(self, e):
        if self.v < (3, 3):
            raise Unsupported("yield from")
        self.expr(e.value)
        self.op("GET_YIELD_FROM_ITER" if self.v >= (3, 5) else "GET_ITER")
        self.load_const(None)
        self.op("YIELD_FROM")

    # -- comprehensions
    def e_ListComp(self, e):
        if not self.py3:
            return self.py2_listcomp(e)
        self.comp(e, "<listcomp>", "BUILD_LIST")

    def e_SetComp(self, e):
        if self.v < (2, 7):
            raise Unsupported("set comprehension")
        self.comp(e, "<setcomp>", "BUILD_SET")

    def e_DictComp(self, e):
        if self.v < (2, 7):
            raise Unsupported("dict comprehension")
        self.comp(e, "<dictcomp>", "BUILD_MAP")

    def e_GeneratorExp(self, e):
        self.comp(e, "<genexpr>", None)

    def py2_listcomp(self, e):
        tmp = None
        single = self.pypy and len(e.generators) == 1 and not e.generators[0].ifs
        if not single:
            self.op("BUILD_LIST", 0)
        if self.v < (2, 7):
            self.u.tmp += 1
            tmp = "_[%d]" % self.u.tmp
            self.u.scope.bound.add(tmp)
            self.op("DUP_TOP")
            self.name("STORE", tmp)

        def gen(i):
            g = e.generators[i]
            start, cleanup = Label(), Label()
            skip = [Label() for _ in g.ifs]
            self.expr(g.iter)
            if single:
                self.op("BUILD_LIST_FROM_ARG", 0)
            self.op("GET_ITER")
            self.mark(start)
            self.op("FOR_ITER", cleanup)
            self.store(g.target)
            for k, c in enumerate(g.ifs):
                self.jump_if(c, skip[k] if self.old_jumps else start, False)
            if i + 1 < len(e.generators):
                gen(i + 1)
            elif tmp:
                self.name("LOAD", tmp)
                self.expr(e.elt)
                self.op("LIST_APPEND")
            else:
                self.expr(e.elt)
                self.op("LIST_APPEND", len(e.generators) + 1)
            if self.old_jumps:
                self.op("JUMP_ABSOLUTE", start)
                for sk in reversed(skip):
                    self.mark_cond(sk)
                    self.op("JUMP_ABSOLUTE", start)
            else:
                self.op("JUMP_ABSOLUTE", start)
            self.mark(cleanup)

        gen(0)
        if tmp:
            self.name("DELETE", tmp)
            self.u.tmp -= 1

    def comp(self, e, name, build):
        line = self.line
        self.enter(self.scopes[e], name, line)
        u = self.u
        u.argcount = 1
        single = self.pypy and self.v >= (3, 6) and build == "BUILD_LIST" and len(e.generators) == 1 and not e.generators[0].ifs
        if build is None:
            u.scope.is_gen = True
            if self.v >= (3, 10):
                self.op("GEN_START", 0)
        elif not single:
            self.op(build, 0)

        def gen(i):
            g = e.generators[i]
            start, cleanup, end = Label(), Label(), Label()
            skip = [Label() for _ in g.ifs]
            block = build is None and self.v < (2, 7)
            if block:
                self.op("SETUP_LOOP", end)
            if i == 0:
                self.op("LOAD_FAST", 0)
                if single:
                    self.op("BUILD_LIST_FROM_ARG", 0)
            else:
                self.expr(g.iter)
                self.op("GET_ITER")
            self.mark(start)
            self.op("FOR_ITER", cleanup)
            self.store(g.target)
            for k, c in enumerate(g.ifs):
                self.jump_if(c, skip[k] if self.old_jumps else start, False)
            n = len(e.generators)
            if i + 1 < n:
                gen(i + 1)
            elif build is None:
                self.expr(e.elt)
                self.op("YIELD_VALUE")
                if self.v >= (2, 5):
                    self.op("POP_TOP")
            elif build == "BUILD_MAP":
                if self.v >= (3, 8):
                    self.expr(e.key)
                    self.expr(e.value)
                else:
                    self.expr(e.value)
                    self.expr(e.key)
                self.op("MAP_ADD", n + 1)
            else:
                self.expr(e.elt)
                self.op("LIST_APPEND" if build == "BUILD_LIST" else "SET_ADD", n + 1)
            self.op("JUMP_ABSOLUTE", start)
            if self.old_jumps:
                for sk in reversed(skip):
                    self.mark_cond(sk)
                    self.op("JUMP_ABSOLUTE", start)
            self.mark(cleanup)
            if block:
                self.op("POP_BLOCK")
                self.mark(end)

        gen(0)
        if build is None:
            self.load_const(None)
        self.op("RETURN_VALUE")
        code, u = self.leave()
        self.make_closure(code, u, 0)
        self.expr(e.generators[0].iter)
        self.op("GET_ITER")
        self.op("CALL_FUNCTION", 1)

    # -- f-strings
    def e_JoinedStr(self, e):
        if self.v < (3, 6) and not (self.pypy and self.v >= (3, 5)):
            raise Unsupported("f-string")
        values = [x for x in e.values if not (isinstance(x, ast.Constant) and x.value == "")]
        for x in values:
            self.expr(x)
        if len(values) != 1:
            self.op("BUILD_STRING", len(values))

    def e_FormattedValue(self, e):
        self.expr(e.value)
        f = {-1: 0, 115: 1, 114: 2, 97: 3}[e.conversion]
        if e.format_spec is not None:
            self.expr(e.format_spec)
            f |= 4
        self.op("FORMAT_VALUE", f)


def walk_block(s):
    """s and the statements nested in it, not entering functions or classes."""
    yield s
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return
    for f in ("body", "orelse", "finalbody"):
        for x in getattr(s, f, ()) or ():
            yield from walk_block(x)
    for h in getattr(s, "handlers", ()):
        for x in h.body:
            yield from walk_block(x)


def docstring(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
        body[0].value.value, str
    ):
        return body[0].value.value
    return None


def const_truth(e, py3):
    if isinstance(e, ast.Constant) and (py3 or not isinstance(e.value, bool)):
        return bool(e.value)
    return None


def compile_source(source, version, filename="<mc>", mode="exec", min_ext=0, pypy=False):
    return Compiler(version, filename, min_ext, pypy).compile(source, mode)
