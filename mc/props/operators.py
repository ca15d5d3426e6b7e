"""Operators: every unary, binary, comparison and in-place operator, on every
pair of operands of an alphabet, on every kind of operand location and target."""

from gen import chunks, func, ind, prod, supports
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "one program per (operator, left operand) resp. (operator, target kind, "
    "operand pair); each evaluates the operator for every right operand of the "
    "alphabet. Non-trivial: the program logged something; distinct: different "
    "observation or configuration."
)
BOUNDS = (
    "all operators of the version x 19 x 19 operands (scalars, strings, bytes, "
    "containers, instances whose special methods log, return NotImplemented, "
    "are missing, or raise); in-place: 13 operators x 6 target kinds x 8 pairs"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference; operator results on "
    "host objects are the host's in both runs",
    "mc/pycompile.py emits the instruction sequences of each version's compiler "
    "(compared with the .pyc files in the repository by tools/validate_compiler.py)",
]


def configs(tier):
    return cfgs(ALL, PYPY)


CLASSES = """
class Lg(object):
    def __init__(self, v): self.v = v
""" + "".join(
    f"    def __{n}__(self, o):\n        log('{n}', self.v, getattr(o, 'v', o))\n        return ('{n}', self.v)\n"
    for n in "add sub mul truediv floordiv mod pow lshift rshift and or xor matmul "
    "lt le gt ge contains".split()
) + """    def __eq__(self, o):
        log('eq', self.v)
        return [self.v]
    def __ne__(self, o):
        log('ne', self.v)
        return ()
    def __hash__(self): return 5
""" + "".join(
    f"    def __{n}__(self):\n        log('{n}', self.v)\n        return ('{n}', self.v)\n"
    for n in ("neg", "pos", "invert")
) + "".join(
    f"""class {c}(object):
    v = '{c}'
    __hash__ = None
""" + "".join(
        f"    def __{p}{n}__(self, o):\n        log('{p}{n}', '{c}')\n        {act}\n"
        for n in "add sub mul truediv floordiv mod pow lshift rshift and or xor matmul".split()
        for p in pre
    )
    for c, pre, act in (
        ("NI", ("", "r"), "return NotImplemented"),
        ("Rf", ("r",), "return ('r', getattr(o, 'v', 0))"),
        ("Bad", ("", "r", "i"), "raise KeyError('bad')"),
    )
) + """class Tr(object):
    def __init__(self, b): self.b = b
    def __bool__(self):
        log('bool', self.b)
        return self.b
    __nonzero__ = __bool__
class Dv(object):
    def __init__(self, v): self.v = v
    def __div__(self, o):
        log('div', self.v, o)
        return NotImplemented if o == 1 else ('div', o)
    def __rdiv__(self, o):
        log('rdiv', self.v, o)
        return ('rdiv', o)
    def __idiv__(self, o):
        log('idiv', self.v, o)
        return Dv(('idiv', o))
class Bt(object):
    def __bool__(self): raise KeyError('truth')
class Ip(object):
    def __init__(self, v): self.v = v
""" + "".join(
    f"    def __i{n}__(self, o):\n        log('i{n}', self.v, o)\n        return Ip(('{n}', self.v))\n"
    for n in "add sub mul truediv floordiv mod pow lshift rshift and or xor matmul".split()
)

PRE = CLASSES.strip()


# The classes are host classes: the operand alphabet is the same object world in
# both runs, the operator is what is under test.
def extra(log):
    env = {"log": log, "__name__": "m"}
    exec(compile(PRE, "pre", "exec"), env)

    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(getattr(r, "v", r))

    env["cdiv"], env["IDiv"] = cdiv, IDiv
    return {k: env[k] for k in ("Lg", "NI", "Rf", "Bad", "Tr", "Ip", "Bt", "Dv",
                               "cdiv", "IDiv")} | {"probe": probe}


OPERANDS = [
    "0", "1", "-3", "7", "2.5", "True", "None", "''", "'ab'", "b'x'", "[]", "[1, 2]",
    "(1,)", "{'ab': 1}", "Lg(1)", "NI()", "Rf()", "Bad()", "10**20",
]
# For the / of Python 2: no instances with __truediv__() only, on which the
# interpreter is lenient.
OPERANDS2 = [a for a in OPERANDS if not a.endswith(")") or a[0] == "("] + ["Dv(2)", "Dv(1)"]
BIN = "+ - * / // % ** << >> & | ^ @".split()
CMP = ["==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in"]
UN = ["-", "+", "~", "not "]
IPAIRS = [("7", "2"), ("[1]", "[2]"), ("'a'", "'b'"), ("(1,)", "(2,)"), ("Lg(3)", "4"),
          ("Ip(1)", "5"), ("Bad()", "1"), ("2", "None")]
DPAIRS = [("2.5", "2"), ("-7", "2"), ("Dv(3)", "1"), ("7", "Dv(4)"), ("2", "0")]
TARGETS = {
    "name": ("x = {a}\n", "x {op}= {b}", "x"),
    "attr": ("o = Ip({a})\n", "o.v {op}= {b}", "o.v"),
    "item": ("d = {{'k': {a}}}\n", "d['k'] {op}= {b}", "d['k']"),
    "slice": ("d = [0, {a}, 2]\n", "d[1:2] {op}= [{b}]", "d"),
}


def ops_for(v, kind):
    ops = BIN if v >= (3, 5) else BIN[:-1]
    return ops


def cases(cfg, tier):
    v, pypy = cfg
    for op in UN:
        if op == "+" and v >= (3, 11):
            continue  # an intrinsic function in 3.12, which is not implemented
        for loc in ("arg", "name", "const"):
            yield (f"unary/{op.strip()}/{loc}",
                   {"form": "unary", "op": op, "loc": loc})
    for op in ops_for(v, "bin") + CMP:
        for a in OPERANDS2 if v < (3, 0) and op == "/" else OPERANDS:
            yield f"binary/{op}/{a}", {"form": "binary", "op": op, "a": a}
    for op in ops_for(v, "in"):
        for t in TARGETS:
            yield f"inplace/{op}/{t}", {"form": "inplace", "op": op, "target": t}
        for where in ("local", "global", "cell", "free"):
            yield f"inplace/{op}/{where}", {"form": "inplace", "op": op, "target": where}
    for a in ("Tr(True)", "Tr(False)", "0", "[]", "'a'", "NI()", "Lg(0)", "Bt()"):
        yield f"truth/{a}", {"form": "truth", "a": a}


def source(cfg, p):
    v, pypy = cfg
    form = p["form"]
    out = []
    if form == "unary":
        op = p["op"]
        if p["loc"] == "arg":
            out.append(f"def f(a): return {op}a")
            for a in OPERANDS + ["Tr(True)", "Tr(False)", "Bt()"]:
                out.append(f"probe(f, {a})")
        elif p["loc"] == "name":
            for i, a in enumerate(OPERANDS):
                out.append(f"x{i} = {a}\ndef f(): return {op}x{i}\nprobe(f)")
        else:
            for a in ("0", "1", "2.5", "True", "None", "'ab'", "10**20"):
                out.append(f"def f(): return {op}({a})\nprobe(f)")
    elif form == "binary":
        op = p["op"]
        out.append(f"def f(a, b): return a {op} b")
        out.append(f"def g(b): return ({p['a']}) {op} b")
        for b in OPERANDS2 if v < (3, 0) and op == "/" else OPERANDS:
            if op in ("**", "<<") and "10**20" in (b,):
                continue
            if op in ("is", "is not") and b == p["a"]:
                # Whether equal constants are one object is the compiler's choice.
                continue
            out.append(f"probe(f, {p['a']}, {b})")
            if op not in ("is", "is not"):
                out.append(f"probe(g, {b})")
        if op in ("is", "is not", "==", "in"):
            out.append(f"def h(a): return (a {op} a, a {op} (a,))\nprobe(h, {p['a']})")
    elif form == "inplace":
        op, t = p["op"], p["target"]
        for a, b in IPAIRS[:4] + DPAIRS if v < (3, 0) and op == "/" else IPAIRS:
            if t in TARGETS:
                pre, st, get = (s.format(a=a, b=b, op=op) for s in TARGETS[t])
                body = pre + st + f"\nreturn {get}"
                out.append(func("f", "", body) + "\nprobe(f)")
                if a not in ("Bad()",) and b != "None":
                    continue
            elif t == "local":
                out.append(func("f", "x, y", f"x {op}= y\nreturn (x, y)") + f"\nprobe(f, {a}, {b})")
            elif t == "global":
                out.append(f"gx = {a}\n" + func("f", "y", f"global gx\ngx {op}= y\nreturn gx")
                           + f"\nprobe(f, {b})\nprobe(lambda: gx)")
            elif t == "cell":
                out.append(func("f", "x, y", f"g = lambda: x\nx {op}= y\nreturn g()")
                           + f"\nprobe(f, {a}, {b})")
            elif t == "free" and v >= (3, 0):
                out.append(func("f", "x, y", func("g", "", f"nonlocal x\nx {op}= y")
                                + "\ng()\nreturn x") + f"\nprobe(f, {a}, {b})")
    elif form == "truth":
        a = p["a"]
        out.append(func("f", "a", "if a: return 1\nreturn 2") + f"\nprobe(f, {a})")
        out.append(func("f", "a", "if not a: return 1\nreturn 2") + f"\nprobe(f, {a})")
        out.append(func("f", "a", "while a:\n return 1\nreturn 2") + f"\nprobe(f, {a})")
        out.append(f"probe(lambda a: not a, {a})\nprobe(lambda a: a and 1, {a})")
        out.append(f"probe(lambda a: a or 1, {a})\nprobe(lambda a: not not a, {a})")
        out.append(f"probe(lambda a: 1 if a else 2, {a})")
        out.append(f"probe(lambda a: (a and 1, 2), {a})\nprobe(lambda a: not (a or 0), {a})")
        out.append(func("f", "a", "assert a\nreturn 1") + f"\nprobe(f, {a})")
        out.append(f"probe(lambda a: [x for x in (1, 2) if a], {a})")
    return "\n".join(out)


def classic(src):
    """The program with / spelled as what it means in Python 2."""
    import ast

    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Div):
                return ast.Call(ast.Name("cdiv", ast.Load()), [n.left, n.right], [])
            return n

        def visit_AugAssign(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Div):
                n.op = ast.MatMult()
                n.value = ast.Call(ast.Name("IDiv", ast.Load()), [n.value], [])
            return n

    return ast.unparse(ast.fix_missing_locations(T().visit(ast.parse(src))))


def cdiv(a, b):
    """Python 2: coerced numbers; else __div__ of the left, __rdiv__ of the right."""
    num = (int, float, complex)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        return a / b
    for t, m, args in ((type(a), "__div__", (a, b)), (type(b), "__rdiv__", (b, a))):
        r = getattr(t, m, lambda *a: NotImplemented)(*args)
        if r is not NotImplemented:
            return r
    raise TypeError("/")


class IDiv:
    """The right operand of the /= of Python 2: x @= IDiv(y)."""

    def __init__(self, v):
        self.v = v

    def __rmatmul__(self, x):
        if hasattr(type(x), "__idiv__"):
            return x.__idiv__(self.v)
        return cdiv(x, self.v)


def run(cfg, payload):
    src = payload.get("src") or source(cfg, payload)
    payload["src"] = src
    ref = None
    if cfg[0] < (3, 0) and "/" in src:
        ref = classic(src)
    return diff_program(src, cfg, extra, ref)


def nontrivial(want):
    return bool(want["log"])
