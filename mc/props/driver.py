"""Running files, modules and strings: status, what a program sees, and the host afterwards."""

import contextlib
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile

import harness  # noqa: F401

LEVEL = "model_checking"
RULE = (
    "one run or sequence of runs per (form of invocation, program, arguments, state of the host): status, "
    "output, what the program sees of its invocation, and sys.argv, sys.path, sys.modules['__main__'] and "
    "the current directory of the host afterwards have to be those of the model. Distinct: different observation."
)
BOUNDS = (
    "7 forms of invocation x 36 endings x 4 argument lists; 7 forms x 12 changes of host state, with and without "
    "an exception; all ordered pairs (thorough: triples) of 27 runs in one process; 22 source texts; "
    "command lines: all sets of options x kinds of operand"
)
ASSUMPTIONS = [
    "exit status as in CPython: 0, the argument of SystemExit, 1 for an uncaught exception; 1, 2, 3, 4 for what "
    "cannot be run, as the code of the command says",
]

PROBE = """import sys
print(__name__)
print(__file__)
print(sys.argv)
print(sys.path[0])
import __main__
print(__main__.__dict__ is globals())
print(__package__)
print(sys.modules['__main__'] is __main__)
"""
# name: (program, end, last line of output)
ENDINGS = {
    "normal": ("print('body')\n", 0),
    "nonl": ("print('body')", 0),
    "empty": ("", 0),
    "pass": ("pass", 0),
    "comment": ("# nothing", 0),
    "exit": ("import sys\nsys.exit()\n", None),
    "exit0": ("import sys\nsys.exit(0)\n", 0),
    "exit1": ("import sys\nsys.exit(1)\n", 1),
    "exit7": ("import sys\nprint('x')\nsys.exit(7)\n", 7),
    "exit256": ("import sys\nsys.exit(256)\n", 256),
    "exitneg": ("import sys\nsys.exit(-1)\n", -1),
    "exittrue": ("import sys\nsys.exit(True)\n", True),
    "exitstr": ("import sys\nsys.exit('bye')\n", "bye"),
    "exittuple": ("import sys\nsys.exit((1, 2))\n", (1, 2)),
    "exitfloat": ("import sys\nsys.exit(2.5)\n", 2.5),
    "raiseexit": ("raise SystemExit\n", None),
    "raiseexit3": ("raise SystemExit(3)\n", 3),
    "exitfunc": ("import sys\ndef f(n):\n    if n == 0:\n        sys.exit(4)\n    f(n - 1)\nf(3)\nprint('not')\n", 4),
    "exitcaller": ("import sys\ndef f():\n    sys.exit(6)\nprint(list(map(lambda x: f(), [1])))\n", 6),
    "quit": ("quit(5)\n", 5),
    "exitb": ("exit(2)\n", 2),
    "keyerror": ("print('a')\nraise KeyError(3)\n", "!KeyError: 3"),
    "valueerror": ("raise ValueError('why')\n", "!ValueError: why"),
    "runtime": ("raise RuntimeError('r')\n", "!RuntimeError: r"),
    "zero": ("x = 0\n1 // x\n", "!ZeroDivisionError: integer division or modulo by zero"),
    "nameerror": ("nope\n", "!NameError: name 'nope' is not defined"),
    "attr": ("(1).nope\n", "!AttributeError: 'int' object has no attribute 'nope'"),
    "importerror": ("import mcnope\n", "!ModuleNotFoundError: No module named 'mcnope'"),
    "typeerror": ("len(1)\n", "!TypeError: object of type 'int' has no len()"),
    "assertion": ("raise AssertionError('a')\n", "!AssertionError: a"),
    "infunc": ("def f():\n    raise IndexError('i')\ndef g():\n    f()\ng()\n", "!IndexError: i"),
    "innative": ("def f(x):\n    raise LookupError('n')\nsorted([1, 2], key=f)\n", "!LookupError: n"),
    "stop": ("raise StopIteration(1)\n", "!StopIteration: 1"),
    "kbd": ("print('k')\nraise KeyboardInterrupt\n", KeyboardInterrupt),
    "syntax": ("print('no')\nx = (\n", SyntaxError),
    "indent": ("print('no')\n  x = 1\n", IndentationError),
}
ARGS = [[], ["a"], ["-x", "--y", ""], ["b c", "ü", "1", "2"]]
FORMS = ["abs", "rel", "dir", "noext", "string", "module", "submodule", "package"]
STATE = {
    "argvappend": "sys.argv.append('more')",
    "argvset": "sys.argv = ['q']",
    "argvclear": "del sys.argv[:]",
    "pathinsert": "sys.path.insert(0, '/mc/first')",
    "pathappend": "sys.path.append('/mc/last')",
    "pathset0": "sys.path[0] = '/mc/zero'",
    "pathclear": "del sys.path[:]",
    "pathset": "sys.path = []",
    "maindel": "del sys.modules['__main__']",
    "mainset": "sys.modules['__main__'] = sys",
    "mainattr": "import __main__\n__main__.zzz = 1\nprint(zzz)",
    "stdoutset": "sys.mc_attr = 1",
}


def configs(tier):
    return [((3, 12), False)]


def shards(tier):
    return 4


def nontrivial(want):
    return True


class Box:
    """A scratch directory with the program in every form."""

    def __init__(self, text):
        self.dir = tempfile.mkdtemp(prefix="mcdrv")
        self.text = text
        data = text if isinstance(text, bytes) else text.encode()
        os.makedirs(f"{self.dir}/sub/mcpkg/inner")
        for name in ("prog.py", "prog", "sub/prog.py", "mcprog.py", "sub/mcpkg/mod.py",
                     "sub/mcpkg/__main__.py"):
            with open(f"{self.dir}/{name}", "wb") as f:
                f.write(data)
        for name in ("sub/mcpkg/__init__.py", "sub/mcpkg/inner/__init__.py"):
            open(f"{self.dir}/{name}", "w").close()

    def close(self):
        shutil.rmtree(self.dir)
        for n in [n for n in sys.modules if n.split(".")[0] in ("mcpkg", "mcprog")]:
            del sys.modules[n]


def invoke(box, form, args, callback=None):
    """Runs the program of the box; returns what is to be seen of that."""
    from xpython import execfile

    d = box.dir
    kw = {} if callback is None else {"callback": callback}
    saved = os.getcwd(), sys.argv, list(sys.path), sys.modules["__main__"], sys.path
    out = io.StringIO()
    os.chdir(d)
    sys.argv = host_argv = ["host", "arg"]
    sys.path.insert(0, "/mc/host0")
    host_path = list(sys.path)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                if form == "abs":
                    execfile.run_python_file(f"{d}/prog.py", args, **kw)
                elif form == "rel":
                    execfile.run_python_file("prog.py", tuple(args), **kw)
                elif form == "dir":
                    execfile.run_python_file("sub/prog.py", args, **kw)
                elif form == "noext":
                    execfile.run_python_file("prog", args, **kw)
                elif form == "string":
                    text = box.text if isinstance(box.text, str) else box.text.decode()
                    execfile.run_python_string(text, args, **kw)
                elif form == "module":
                    execfile.run_python_module("mcprog", args)
                else:
                    os.chdir(f"{d}/sub")
                    execfile.run_python_module(
                        "mcpkg.mod" if form == "submodule" else "mcpkg", args)
                end = ["returned"]
            except SystemExit as e:
                end = ["exit", repr(e.code)]
            except BaseException as e:
                end = ["raised", type(e).__name__]
        host = [sys.argv is host_argv and sys.argv == ["host", "arg"], list(sys.path) == host_path,
                sys.path is saved[4], sys.modules.get("__main__") is saved[3]]
    finally:
        os.chdir(saved[0])
        sys.argv = saved[1]
        sys.path = saved[4]
        sys.path[:] = saved[2]
        sys.modules["__main__"] = saved[3]
    text = out.getvalue().replace(d, "DIR")
    return {"end": end, "out": text, "host": host}


# What a program sees, by form: __file__, sys.path[0], __package__
SEEN = {
    "abs": ("DIR/prog.py", "DIR", None), "rel": ("prog.py", "DIR", None), "dir": ("sub/prog.py", "DIR/sub", None),
    "noext": ("prog", "DIR", None), "module": ("DIR/mcprog.py", "DIR", None),
    "submodule": ("DIR/sub/mcpkg/mod.py", "", "mcpkg"), "package": ("DIR/sub/mcpkg/__main__.py", "", "mcpkg"),
}


def expected(form, name, args):
    """The model."""
    text, end = ENDINGS[name]
    if form == "string":
        fn, path0, package = f"<string {(PROBE + text)[:20]}>", "/mc/host0", None
    else:
        fn, path0, package = SEEN[form]
    if isinstance(end, type) and issubclass(end, SyntaxError):
        return {"end": ["raised", end.__name__], "out": "", "host": [True] * 4}
    out = f"__main__\n{fn}\n{[fn] + args!r}\n{path0}\nTrue\n{package}\nTrue\n"
    out += {"normal": "body\n", "nonl": "body\n", "exit7": "x\n", "keyerror": "a\n", "kbd": "k\n"}.get(name, "")
    if isinstance(end, type):
        end = ["raised", end.__name__]
    elif isinstance(end, str) and end.startswith("!"):
        out += "TB\n" + end[1:] + "\n"
        end = ["exit", "1"]
    else:
        end = ["exit", repr(end)]
    return {"end": end, "out": out, "host": [True] * 4}


def strip_tb(r):
    """Replaces the traceback, which V22 looks at."""
    lines = r["out"].splitlines(True)
    for i, x in enumerate(lines):
        if x.startswith("Traceback (most recent"):
            j = i + 1
            while j < len(lines) and (lines[j].startswith(" ") or '", line ' in lines[j]):
                j += 1
            lines[i:j] = ["TB\n"]
            break
    return dict(r, out="".join(lines))


def quiet(event, offset, name, op, line, arg, event_arg, vm):
    return quiet


TEXTS = {
    "crlf": b"x = 1\r\nif x:\r\n    print('crlf')\r\n", "cr": b"x = 1\rprint(x)\r", "bom": b"\xef\xbb\xbfprint('bom')\n",
    "utf8": "print('ü→')\n".encode(), "cookie": b"# -*- coding: latin-1 -*-\nprint('\xfc' == chr(252))\n",
    "cookie2": b"#!/usr/bin/python\n# vim: set fileencoding=utf-8 :\nprint('\xc3\xbc' == chr(252))\n",
    "badutf8": b"print('\xff')\n", "badcookie": b"# coding: nope\nprint(1)\n", "bomcookie": b"\xef\xbb\xbf# coding: latin-1\nprint(1)\n",
    "null": b"print(1)\n\x00\n", "formfeed": b"x = 1\n\x0cprint(x)\n", "tabs": b"if 1:\n\tprint('tab')\n", "mixed": b"if 1:\n        print(1)\n\tprint(2)\n",
    "cont": b"x = 1 + \\\n  2\nprint(x)\n", "conteof": b"x = 1 + \\", "docstring": b"'''doc'''\nprint(__doc__)\n", "triple": b"x = '''a\nb'''\nprint(x)",
    "blank": b"\n\n\n", "spaces": b"   ", "future": b"from __future__ import annotations\nx: nope = 1\nprint(x)\n", "longline": b"x = [" + b"1, " * 3000 + b"]\nprint(len(x))\n",
    "manylines": b"x = 1\n" * 2000 + b"print(x)\n", "returntop": b"print(1)\nreturn 2\n", "nonlocal": b"nonlocal x\n",
}

PAIR_RUNS = [(f, e) for f in ("abs", "string", "package") for e in (
    "normal", "exit7", "keyerror", "infunc", "exitfunc", "kbd", "syntax", "importerror", "innative")]


def cases(cfg, tier):
    for form in FORMS:
        for name in ENDINGS:
            for n in range(len(ARGS)):
                yield f"end/{form}/{name}/{n}", {"kind": "end", "form": form, "name": name, "args": ARGS[n], "cb": 0}
            if form in ("abs", "dir", "string"):
                yield f"cb/{form}/{name}", {"kind": "end", "form": form, "name": name, "args": ["a"], "cb": 1}
        for name in STATE:
            for then in ("", "raise KeyError(1)\n", "sys.exit(3)\n"):
                yield f"state/{form}/{name}/{then[:5]}", {"kind": "state", "form": form, "name": name, "then": then}
    for n in (2,) if tier == "quick" else (2, 3):
        for seq in itertools.product(range(len(PAIR_RUNS)), repeat=n):
            yield "seq/" + ".".join(map(str, seq)), {"kind": "seq", "seq": seq}
    for name in TEXTS:
        for form in ("abs", "noext", "module"):
            yield f"text/{form}/{name}", {"kind": "text", "form": form, "name": name}
    for verbose in ([], ["-v"], ["-vv"], ["-v", "-v"], ["--verbose"]):
        for kind in CLI:
            if kind.startswith("run") or len(verbose) < 2:
                yield f"cli/{'.'.join(verbose)}/{kind}", {"kind": "cli", "verbose": verbose, "name": kind}


# command lines: words, end, output
CLI = {
    "run": (["prog.py"], ["exit", "0"], "main prog.py ['prog.py']\n"),
    "runargs": (["prog.py", "a", "b"], ["exit", "0"], "main prog.py ['prog.py', 'a', 'b']\n"),
    "rundashes": (["prog.py", "--", "-x", "--y"], ["exit", "0"], "main prog.py ['prog.py', '-x', '--y']\n"),
    "rundashes2": (["--", "prog.py", "-v", "-m"], ["exit", "0"], "main prog.py ['prog.py', '-v', '-m']\n"),
    "runnofile": (["nofile.py"], ["exit", "2"], "No file to run: 'nofile.py'\n"),
    "rundir": (["sub"], ["exit", "2"], "No file to run: 'sub'\n"),
    "runexit": (["exit.py"], ["exit", "9"], ""),
    "runexitstr": (["exitstr.py"], ["exit", "'bye'"], ""),
    "runraise": (["raise.py"], ["exit", "1"], "TB\nKeyError: 1\n"),
    "runmodule": (["-m", "mcmain", "z"], ["exit", "0"], "main DIR/mcmain.py ['DIR/mcmain.py', 'z']\n"),
    "runmodule2": (["--module", "mcmain"], ["exit", "0"], "main DIR/mcmain.py ['DIR/mcmain.py']\n"),
    "runpkg": (["-m", "mcp2"], ["exit", "0"], "main DIR/mcp2/__main__.py ['DIR/mcp2/__main__.py']\n"),
    "runsub": (["-m", "mcp2.m"], ["exit", "0"], "main DIR/mcp2/m.py ['DIR/mcp2/m.py']\n"),
    "runnomod": (["-m", "mcnope"], ["exit", "2"], "No module named 'mcnope'\n"),
    "runnosub": (["-m", "mcp2.nope"], ["exit", "2"], "No module named 'mcp2.nope'\n"),
    "runnopkg": (["-m", "mcnope.sub"], ["exit", "2"], "No module named 'mcnope'\n"),
    "runnomain": (["-m", "mcp3"], ["exit", "2"], "No module named 'mcp3.__main__'\n"),
    "runbuiltin": (["-m", "sys"], ["exit", "2"], "module does not live in a file: 'sys'\n"),
    "runcmd": (["-c", "print(5)"], ["exit", "0"], "5\n"),
    "runcmdlong": (["--command-to-run", "print(6)"], ["exit", "0"], "6\n"),
    "runcmdexit": (["-c", "import sys; sys.exit(8)"], ["exit", "8"], ""),
    "runcmdraise": (["-c", "raise ValueError(4)"], ["exit", "1"], "TB\nValueError: 4\n"),
    "runcmdboth": (["-c", "print(1)", "prog.py"], ["exit", "4"], "You must pass either a file name or a command string, not both.\n"),
    "runnone": ([], ["exit", "4"], "You must pass either a file name or a command string, neither found.\n"),
    "runbadopt": (["--nope"], ["exit", "2"], ""),
    "runhelp": (["--help"], ["exit", "0"], None),
    "runversion": (["--version"], ["exit", "0"], None),
    "runempty": (["empty.py"], ["exit", "0"], ""),
    "runbadpyc": (["bad.pyc"], ["exit", "2"], "No file to run: 'bad.pyc'\n"),
    "runemptypyc": (["empty.pyc"], ["exit", "2"], "No file to run: 'empty.pyc'\n"),
    "runoldpyc": (["old.pyc"], ["exit", "3"], None),
    "runkbd": (["kbd.py"], ["exit", "1"], "k\n"),
}
PROG = "import sys\nprint('main', __file__, sys.argv)\n"


def run_cli(p):
    import xpython.__main__ as main

    words, end, text = CLI[p["name"]]
    d = tempfile.mkdtemp(prefix="mcdrv")
    saved = os.getcwd(), sys.argv, list(sys.path), logging.root.level, list(logging.root.handlers)
    out, err = io.StringIO(), io.StringIO()
    try:
        files = {"prog.py": PROG, "exit.py": "import sys\nsys.exit(9)\n", "exitstr.py": "import sys\nsys.exit('bye')\n",
                 "raise.py": "raise KeyError(1)\n", "mcmain.py": PROG, "mcp2/__main__.py": PROG, "mcp2/__init__.py": "",
                 "mcp2/m.py": PROG, "mcp3/__init__.py": "", "empty.py": "", "sub/x": "", "empty.pyc": "",
                 "kbd.py": "print('k')\nraise KeyboardInterrupt\n"}
        for name, s in files.items():
            os.makedirs(os.path.dirname(f"{d}/{name}"), exist_ok=True)
            with open(f"{d}/{name}", "w") as f:
                f.write(s)
        with open(f"{d}/bad.pyc", "wb") as f:
            f.write(b"\x01\x02\x03\x04" * 8)
        with open(f"{d}/old.pyc", "wb") as f:  # 2.3
            f.write(b"\x3b\xf2\r\n\0\0\0\0N" + b"\0" * 60)
        os.chdir(d)
        sys.path.insert(0, "/mc/host0")
        logging.root.handlers[:] = [logging.NullHandler()]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main.main(args=p["verbose"] + words, prog_name="xpython")
                got = ["returned"]
            except SystemExit as e:
                got = ["exit", repr(e.code)]
            except BaseException as e:
                got = ["raised", type(e).__name__]
    finally:
        os.chdir(saved[0])
        sys.argv = saved[1]
        sys.path[:] = saved[2]
        logging.root.handlers[:] = saved[4]
        logging.root.setLevel(saved[3])
        shutil.rmtree(d)
        for n in [n for n in sys.modules if n.startswith("mcp2") or n.startswith("mcp3") or n == "mcmain"]:
            del sys.modules[n]
    # of what goes to stderr, only the traceback
    text2 = err.getvalue()
    text2 = text2[text2.index("Traceback (most"):] if "Traceback (most" in text2 else ""
    r = strip_tb({"end": got, "out": (out.getvalue() + text2).replace(d, "DIR")})
    if text is None:
        text = r["out"]
    if p["name"] == "runoldpyc" and sum(w.count("v") for w in p["verbose"] if w != "--verbose") > 1:
        end = ["raised", "WrongBytecodeError"]  # -vv asks for the traceback
    return {"end": end, "out": text}, r


def native_text(data, form):
    """What running this source text should give."""
    out = io.StringIO()
    env = {"__name__": "__main__", "__doc__": None}
    try:
        code = compile(data, "prog", "exec")
    except (SyntaxError, ValueError) as e:
        return ["raised", type(e).__name__], ""
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        exec(code, env)
    return ["exit", "0"], out.getvalue()


def run(cfg, p):
    kind = p["kind"]
    if kind == "cli":
        return run_cli(p)
    if kind == "seq":
        want, got = [], []
        for i in p["seq"]:
            form, name = PAIR_RUNS[i]
            box = Box(PROBE + ENDINGS[name][0])
            try:
                want.append(expected(form, name, ["a"]))
                got.append(strip_tb(invoke(box, form, ["a"])))
            finally:
                box.close()
        return want, got
    if kind == "text":
        box = Box(TEXTS[p["name"]])
        try:
            end, out = native_text(TEXTS[p["name"]], p["form"])
            r = invoke(box, p["form"], [])
            if end[0] == "raised":
                # (which error it is depends on who decodes the file)
                end = ["not run"]
                r["end"] = ["not run"] if r["end"][0] == "raised" else r["end"]
            return {"end": end, "out": out, "host": [True] * 4}, r
        finally:
            box.close()
    if kind == "state":
        text = "import sys\n" + STATE[p["name"]] + "\n" + p["then"]
        box = Box(text)
        try:
            r = strip_tb(invoke(box, p["form"], ["a"]))
            end = ["exit", {"": "0", "r": "1", "s": "3"}[p["then"][:1]]]
            out = ("1\n" if p["name"] == "mainattr" else "") + ("TB\nKeyError: 1\n" if p["then"].startswith("r") else "")
            return {"end": end, "out": out, "host": [True] * 4}, r
        finally:
            box.close()
    box = Box(PROBE + ENDINGS[p["name"]][0])
    try:
        want = expected(p["form"], p["name"], p["args"])
        return want, strip_tb(invoke(box, p["form"], p["args"], quiet if p["cb"] else None))
    finally:
        box.close()


def stats(payload, want):
    n = len(want) if isinstance(want, list) else 1
    return {"states": n, "transitions": n, "traces": n}
