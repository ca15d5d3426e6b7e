"""The print statement of 2.x: what it writes where, and when it writes a space."""

import ast

from itertools import product

from harness import PYPY, V2, cfgs, native_run, vm_run

LEVEL = "model_checking"
RULE = (
    "a case is a sequence of print statements and direct writes on up to two files. State: the text "
    "in each file and its softspace; transition: one statement; trace: one sequence, executed on the "
    "interpreter and on a model of the print statement of 2.7, which is run by the reference "
    "implementation in the place of the statement. Compared: every call of write on a file, and "
    "the softspace after every statement."
)
BOUNDS = (
    "all sequences of up to 3 operations out of 16 on one of 5 kinds of file (4 in a rotation of "
    "1/7, thorough all), of up to 3 out of 9 on two files; 16 kinds of items x 3 positions"
)
ASSUMPTIONS = [
    "the model is PRINT_ITEM and PRINT_NEWLINE of CPython 2.7 ceval.c with file_PyObject_Print "
    "replaced by write(str(item))",
]

OPS = [
    ("P('a')", None), ("P('a', nl=False)", None), ("P('a', 5)", None), ("P()", None), ("P('', nl=False)", None),
    ("P('b\\n', nl=False)", None), ("P('c\\t', nl=False)", None), ("P('d ', nl=False)", None), ("P(7, nl=False)", None),
    ("P(None, 'x', nl=False)", None), ("P('e\\n')", None), ("P(O('\\n'), nl=False)", None),
    ("P(S('s'), nl=False)", None), ("F.write('w')", None), ("F.softspace = 0", None), ("F.softspace = 1", None),
]
FILES = ["sys.stdout", "Plain()", "Soft()", "Slots()", "Odd()"]
PRE = (
    "import sys\n"
    "class O(object):\n def __init__(self, s): self.s = s\n def __str__(self):\n  log(('str', self.s))\n  return self.s\n def __repr__(self): return 'r'\n"
    "class S(str):\n def __str__(self): return 'q\\n'\n"
    "class Bad(object):\n def __str__(self): raise KeyError('bad')\n"
    "class Plain(object):\n def write(self, s): log((self.__class__.__name__, s))\n"
    "class Soft(Plain):\n softspace = 0\n"
    "class Slots(object):\n __slots__ = ()\n def write(self, s): log(('slots', s))\n"
    "class Odd(Plain):\n softspace = 'odd'\n"
    "class Raises(Plain):\n def write(self, s):\n  log(('w', s))\n  raise ValueError(s)\n"
    "class RO(Plain):\n softspace = property(lambda self: 1)\n"
    "class NoWrite(object): pass\n"
    "def state(*fs):\n log([getattr(f, 'softspace', None) for f in fs])\n"
)


PRE_CODE = compile(PRE, "pre", "exec")


class Out(object):
    """Stands for sys.stdout: it records what is written."""

    def __init__(self, log):
        self.log = log

    def write(self, s):
        self.log(("out", s))

    def flush(self):
        pass


def extra(log):
    import sys

    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    def soft(f, new):
        try:
            old = f.softspace
        except AttributeError:
            old = 0
        if not isinstance(old, int):
            old = 0
        try:
            f.softspace = new
        except AttributeError:
            pass
        return old

    def print_item(item, dest):
        f = sys.stdout if dest is None else dest
        if soft(f, 0):
            f.write(" ")
        f.write(str(item))
        if isinstance(item, str):
            s = "".join(item)
            if not s or not s[-1].isspace() or s[-1] == " ":
                soft(f, 1)
        else:
            soft(f, 1)

    def print_newline(dest):
        f = sys.stdout if dest is None else dest
        f.write("\n")
        soft(f, 0)

    sys.stdout = Out(log)
    env = {"log": log, "__name__": "m"}
    exec(PRE_CODE, env)
    env = {k: x for k, x in env.items() if k not in ("__builtins__", "log", "__name__", "sys")}
    env.update(probe=probe, print_item=print_item, print_newline=print_newline)
    return env


class Expand(ast.NodeTransformer):
    """Puts what a print statement does in its place: evaluate the file, then evaluate and
    write one item after the other."""

    n = 0

    def visit_Expr(self, node):
        c = node.value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "__py2print__"):
            return node
        self.n += 1
        d = f"_d{self.n}"
        kw = {k.arg: k.value for k in c.keywords}
        dest = ast.unparse(kw["dest"]) if "dest" in kw else "None"
        lines = [f"{d} = {dest}"] + [f"print_item({ast.unparse(a)}, {d})" for a in c.args]
        if "nl" not in kw or kw["nl"].value:
            lines.append(f"print_newline({d})")
        return ast.parse("\n".join(lines)).body


def reference(src):
    return ast.unparse(ast.fix_missing_locations(Expand().visit(ast.parse(src))))


def stmt(op, dest):
    """A statement on dest, logging a failure."""
    if op.startswith("P("):
        args = op[2:-1]
        if dest != "sys.stdout":
            args += (", " if args else "") + f"dest={dest}"
        s = f"__py2print__({args})"
    else:
        s = op.replace("F.", dest + ".")
    return f"try: {s}\nexcept Exception: log(('raised', sys.exc_info()[0].__name__))\nstate({dest})"


def program(ops, filexpr):
    if filexpr == "sys.stdout":
        return "import sys\n" + "\n".join(stmt(o, "sys.stdout") for o in ops)
    return f"import sys\nf = {filexpr}\n" + "\n".join(stmt(o, "f") for o in ops)


ITEMS = ["1", "-2.5", "'s'", "'\\n'", "' '", "''", "None", "(1, 2)", "['a']", "O('o')", "O('')", "S('')", "Bad()", "len('abc')", "t(3, 'v')", "1 if t(4) else 'z'"]


def configs(tier):
    return cfgs(V2, [(2, 7)])


def shards(tier):
    return 2 if tier == "quick" else 6


def cases(cfg, tier):
    v, pypy = cfg
    quick = tier == "quick"
    names = [o for o, _ in OPS]
    turn = int(v[1]) + pypy
    for fe in FILES + ["Raises()", "RO()", "NoWrite()", "None", "5"]:
        for n in (1, 2, 3):
            if n == 3 and fe not in FILES:
                continue
            for i, ops in enumerate(product(names, repeat=n)):
                if n == 3 and quick and (i + turn) % 3 and fe != "sys.stdout":
                    continue
                yield f"one/{fe}/{'|'.join(ops)}", {"src": program(ops, fe)}
    for i, ops in enumerate(product(names, repeat=4)):
        if (i + turn) % (41 if quick else 4) == 0:
            yield f"one4/{'|'.join(ops)}", {"src": program(ops, ["sys.stdout", "Plain()"][i % 2])}
    two = ["P('a')", "P('a', nl=False)", "P()", "P('b\\n', nl=False)"]
    alts = [(o, d) for o in two for d in ("f", "g")] + [("P(7, nl=False)", "sys.stdout")]
    for n in (2, 3):
        for seq in product(alts, repeat=n):
            yield (f"two/{'|'.join(o + d for o, d in seq)}",
                   {"src": "import sys\nf = Soft()\ng = Plain()\n" + "\n".join(stmt(o, d) for o, d in seq)})
    for it, pos, nl in product(ITEMS, range(3), (", nl=False", "")):
        items = ["t(1, 'a')", "t(2, 'b')"]
        items.insert(pos, it)
        for dest in ("", ", dest=t(9, f)"):
            yield (f"item/{it}/{pos}/{nl}/{dest}",
                   {"src": f"import sys\nf = Soft()\ntry: __py2print__({', '.join(items)}{nl}{dest})\nexcept Exception: log(sys.exc_info()[0].__name__)\n"
                           "state(f, sys.stdout)\n__py2print__('end')"})
    for i, src in enumerate([
        "def f(x):\n __py2print__(x, nl=False)\n return x\n__py2print__(f(1), f(2))",
        "sys.stdout = f = Soft()\n__py2print__(1, nl=False)\nsys.stdout = g = Plain()\n__py2print__(2)\nstate(f, g)",
        "for i in range(3): __py2print__(i, nl=False)\n__py2print__()",
        "def gen():\n for i in range(2):\n  __py2print__('g', i, nl=False)\n  yield i\nfor x in gen(): __py2print__('x', x)",
        "f = Soft()\ndef dest():\n log('dest')\n return f\n__py2print__(t(1, 'a'), t(2, 'b'), dest=dest())",
        "class K(object):\n def __str__(self):\n  __py2print__('inner', nl=False)\n  return 'outer'\n__py2print__('a', K(), 'b')",
        "f = None\n__py2print__('a', 'b', dest=f, nl=False)\n__py2print__('c')",
        "f = Soft()\n__py2print__(dest=f)\n__py2print__(dest=f, nl=True)\nstate(f)",
    ]):
        key = "stdout-rebound" if "sys.stdout = f" in src else i
        yield f"misc/{key}", {"src": "import sys\n" + src}


def run(cfg, payload):
    import sys

    old = sys.stdout
    try:
        want = native_run(reference(payload["src"]), extra=extra, redirect=False)
        got = vm_run(payload["src"], cfg, extra=extra, redirect=False)
        return want, got
    finally:
        sys.stdout = old
