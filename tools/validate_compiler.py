#!/usr/bin/env python3
"""Compares the code mc/pycompile.py makes with the .pyc files of the repository, which
the compilers of each version made.

  validate_compiler.py [-v] [DIR...]     e.g. bytecode-2.7; all by default

Every file whose source is in /repo/test is compiled for its version, and the code
objects are compared pairwise: flags, names of the parameters, variables, cells, and
their instructions, as graphs: two instructions agree if they have the same operation
and operand and what follows them (on every branch) agrees. Which code is laid out
where, NOPs, jumps to jumps and dead code, and constants the optimizers fold, make no
difference.
"""

import collections
import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "mc"), "/repo"]

from xdis.load import load_module  # noqa: E402
from xdis.version_info import PythonImplementation  # noqa: E402
from xdis.op_imports import get_opcode_module  # noqa: E402
import pycompile  # noqa: E402

SKIP = {"JUMP_IF_NOT_DEBUG", "NOP", "EXTENDED_ARG", "SETUP_LOOP", "SET_LINENO"}
JUMP = {"JUMP_FORWARD", "JUMP_ABSOLUTE", "CONTINUE_LOOP"}
END = {"RETURN_VALUE", "RAISE_VARARGS", "STOP_CODE", "BREAK_LOOP", "RERAISE"}


def iscode(c):
    return hasattr(c, "co_code")


def const(v):
    if iscode(v):
        return "<code>"
    if isinstance(v, tuple):
        return tuple(const(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(const(x) for x in v)
    if isinstance(v, (bytes, str)):
        return v.decode("latin-1") if isinstance(v, bytes) else str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, int) and not isinstance(v, bool):
        return int(v)
    return repr(v)


class Code:
    def __init__(self, co, opc, loaded=False):
        self.co, self.loaded = co, loaded
        self.ins = self.decode(co, opc)
        self.at = {i[0]: n for n, i in enumerate(self.ins)}
        self.fold()

    def decode(self, co, opc):
        """(offset, name, operand, jump target or None)"""
        b = co.co_code
        if isinstance(b, str):
            b = b.encode("latin-1")
        wide = opc.version_tuple >= (3, 6)
        out, i, ext, start = [], 0, 0, None
        # xdis 6.3.0 exchanges free and cell variables of the code it loads
        cells = tuple(co.co_cellvars) + tuple(co.co_freevars)
        if self.loaded:
            cells = tuple(co.co_freevars) + tuple(co.co_cellvars)
        while i < len(b):
            op = b[i]
            if start is None:
                start = i
            has = op >= opc.HAVE_ARGUMENT
            if wide:
                arg, n = b[i + 1] | ext, 2
            elif has:
                arg, n = b[i + 1] | b[i + 2] << 8 | ext, 3
            else:
                arg, n = 0, 1
            name = opc.opname[op].replace("+", "_")
            if name == "EXTENDED_ARG":
                ext = arg << (8 if wide else 16)
                i += n
                continue
            ext = 0
            val, target = (arg if has else None), None
            unit = 2 if opc.version_tuple >= (3, 10) else 1
            if op in opc.JREL_OPS:
                target, val = i + n + arg * unit, None
            elif op in opc.JABS_OPS:
                target, val = arg * unit, None
            elif op in opc.CONST_OPS:
                val = const(co.co_consts[arg])
                if iscode(co.co_consts[arg]):
                    val = ("code", arg)
            elif op in opc.NAME_OPS:
                val = co.co_names[arg]
            elif op in opc.LOCAL_OPS:
                val = co.co_varnames[arg]
            elif op in opc.FREE_OPS:
                val = cells[arg]
            elif op in opc.COMPARE_OPS:
                val = ("cmp", arg)
            out.append((start, name, val, target))
            start = None
            i += n
        return out

    def fold(self):
        """constants that optimizers fold; jump targets keep what they are"""
        targets = {i[3] for i in self.ins if i[3] is not None}
        self.succ = {}
        for n, (off, name, val, target) in enumerate(self.ins):
            self.succ[n] = n + 1
        changed = True
        ins = self.ins
        dead = set()

        def prev(n):
            n -= 1
            while n >= 0 and (n in dead or ins[n][1] in SKIP):
                n -= 1
            return n

        for n, (off, name, val, target) in enumerate(ins):
            if name in ("BUILD_TUPLE", "BUILD_LIST", "BUILD_SET"):
                k, args, m = val, [], n
                while k and m >= 0:
                    m = prev(m)
                    if m < 0 or ins[m][1] != "LOAD_CONST" or isinstance(ins[m][2], tuple) and ins[m][2][:1] == ("code",):
                        break
                    args.insert(0, (m, ins[m][2]))
                    k -= 1
                if k or not args and name != "BUILD_TUPLE":
                    continue
                for m, _ in args:
                    dead.add(m)
                ins[n] = (off, "LOAD_CONST" if name == "BUILD_TUPLE" else name + "_CONST", tuple(a for _, a in args), None)
            elif name.startswith("UNARY_") and name != "UNARY_CONVERT" or name.startswith("BINARY_"):
                a = prev(n)
                if a >= 0 and ins[a][1] == "LOAD_CONST" and isinstance(ins[a][2], (int, float, str)):
                    if name.startswith("UNARY"):
                        dead.add(a)
                        ins[n] = (off, "LOAD_CONST", "?", None)
                    else:
                        b = prev(a)
                        if b >= 0 and ins[b][1] == "LOAD_CONST" and isinstance(ins[b][2], (int, float, str)):
                            dead |= {a, b}
                            ins[n] = (off, "LOAD_CONST", "?", None)
        self.dead = dead

    def skip(self, n):
        """the next instruction that does something"""
        seen = set()
        while n < len(self.ins) and n not in seen:
            seen.add(n)
            off, name, val, target = self.ins[n]
            if name in JUMP:
                n = self.at[target]
            elif name in SKIP or n in self.dead:
                n += 1
            elif name == "LOAD_CONST" and n + 1 < len(self.ins) and self.ins[n + 1][1] == "POP_JUMP_IF_FALSE":
                n = n + 2 if val not in ("None", "False", 0, "", ()) else self.at[self.ins[n + 1][3]]
            elif name == "LOAD_CONST" and n + 1 < len(self.ins) and self.ins[n + 1][1] == "POP_JUMP_IF_TRUE":
                n = n + 2 if val in ("None", "False", 0, "", ()) else self.at[self.ins[n + 1][3]]
            else:
                break
        return n

    def get(self, n):
        """(name, value, next, target) with conditional jumps to conditional jumps resolved"""
        off, name, val, target = self.ins[n]
        t = None
        if target is not None:
            t = self.skip(self.at[target])
            for _ in range(20):
                tn = self.ins[t][1] if t < len(self.ins) else ""
                if name in ("JUMP_IF_FALSE", "JUMP_IF_TRUE"):
                    if tn == name:
                        t = self.skip(self.at[self.ins[t][3]])
                    elif tn in ("JUMP_IF_FALSE", "JUMP_IF_TRUE"):
                        t = self.skip(t + 1)
                    else:
                        break
                elif name.endswith("_OR_POP") and name.startswith("JUMP_IF"):
                    kind = name[: -len("_OR_POP")]
                    if tn == "POP_" + kind:
                        name, t = "POP_" + kind, self.skip(self.at[self.ins[t][3]])
                    elif tn in ("POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE"):
                        name, t = "POP_" + kind, self.skip(t + 1)
                    elif tn == name:
                        t = self.skip(self.at[self.ins[t][3]])
                    elif tn.startswith("JUMP_IF") and tn.endswith("_OR_POP"):
                        name, t = "POP_" + kind, self.skip(t + 1)
                    else:
                        break
                else:
                    break
        if name == "UNARY_NOT":
            m = self.skip(n + 1)
            if m < len(self.ins) and self.ins[m][1] in ("POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE"):
                _, nm, v, tt = self.ins[m]
                inv = "POP_JUMP_IF_TRUE" if nm.endswith("FALSE") else "POP_JUMP_IF_FALSE"
                return inv, v, self.skip(m + 1), self.skip(self.at[tt])
        return name, val, self.skip(n + 1), t


def same(a, b):
    if a == b or a == "?" or b == "?":
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] not in (("code",), ("cmp",)):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def compare(real, ours, opc, path, diffs, count):
    count[0] += 1
    for f in ("co_argcount", "co_kwonlyargcount", "co_posonlyargcount", "co_name", "co_freevars", "co_cellvars", "co_flags"):
        a, b = getattr(real, f, None), getattr(ours, f, None)
        if f in ("co_freevars", "co_cellvars"):
            a = real.co_cellvars if f == "co_freevars" else real.co_freevars
        if a == "?" or f == "co_argcount" and real.co_varnames[:1] == ("__locals__",):
            continue
        if f in ("co_freevars", "co_cellvars"):
            a, b = tuple(sorted(a or ())), tuple(sorted(b or ()))
        if f == "co_flags":
            a, b = a & 0x3F, b & 0x3F
        if a != b and not (not a and not b):
            diffs.append((path, f, a, b))
    A, B = Code(real, opc, True), Code(ours, opc)
    n = getattr(real, "co_argcount", 0) + (getattr(real, "co_kwonlyargcount", 0) or 0)
    if real.co_varnames[:1] == ("__locals__",):
        n = 0
    if tuple(real.co_varnames[:n]) != tuple(ours.co_varnames[:n]):
        diffs.append((path, "parameters", real.co_varnames, ours.co_varnames))
    todo, seen, pairs = [(A.skip(0), B.skip(0))], set(), []
    while todo:
        a, b = todo.pop()
        if (a, b) in seen:
            continue
        seen.add((a, b))
        if a >= len(A.ins) or b >= len(B.ins):
            if (a >= len(A.ins)) != (b >= len(B.ins)):
                diffs.append((path, "end", a, b))
                return
            continue
        na, va, xa, ta = A.get(a)
        nb, vb, xb, tb = B.get(b)
        code = isinstance(va, tuple) and va[:1] == ("code",) and isinstance(vb, tuple) and vb[:1] == ("code",)
        if na != nb or (ta is None) != (tb is None) or not code and not same(va, vb):
            diffs.append((path, f"offset {A.ins[a][0]}/{B.ins[b][0]}", (na, va, ta), (nb, vb, tb)))
            return
        if code:
            pairs.append((real.co_consts[va[1]], ours.co_consts[vb[1]]))
        if ta is not None:
            todo.append((ta, tb))
        if na not in END:
            todo.append((xa, xb))
    count[1] += len(seen)
    for r, o in pairs:
        compare(r, o, opc, f"{path}.{r.co_name}", diffs, count)


def main():
    verbose = "-v" in sys.argv
    dirs = [a for a in sys.argv[1:] if a != "-v"]
    if not dirs:
        dirs = sorted(os.path.basename(d) for d in glob.glob("/repo/test/bytecode-*"))
    for d in dirs:
        if d in ("bytecode-3.11", "bytecode-3.12"):
            continue
        good = bad = other = codes = nins = 0
        kinds = collections.Counter()
        for p in sorted(glob.glob(f"/repo/test/{d}/*.pyc")):
            r = load_module(p)
            version, co = tuple(r[0][:2]), r[3]
            pypy = "pypy" in d
            src = None
            for base in ("/repo/test", "/repo/test/examples"):
                f = os.path.join(base, co.co_filename)
                if os.path.isfile(f):
                    src = open(f).read()
            name = os.path.basename(p)
            if src is None:
                other += 1
                continue
            try:
                ours = pycompile.compile_source(src, version, co.co_filename, pypy=pypy)
            except (pycompile.Unsupported, SyntaxError) as e:
                other += 1
                if verbose:
                    print(f"   {d}/{name}: not compiled: {e!r:.80}")
                continue
            opc = get_opcode_module(version, PythonImplementation.PyPy if pypy else PythonImplementation.CPython)
            diffs, count = [], [0, 0]
            compare(co, ours, opc, name, diffs, count)
            if diffs:
                bad += 1
                for x in diffs:
                    kinds[str(x[1:])[:120]] += 1
                    if verbose:
                        print("  ", d, *x)
            else:
                good += 1
                codes += count[0]
                nins += count[1]
        print(f"{d}: {good} files agree ({codes} code objects, {nins} instructions), {bad} differ, {other} have no source here or are not compiled")


if __name__ == "__main__":
    main()
