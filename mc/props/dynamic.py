"""Code and names made at run time: exec, eval, compile, globals, locals, vars, dir."""

import harness
from gen import ind
from harness import ALL, PYPY, cfgs, compile_for, native_run, vm_run_code

LEVEL = "exploration"
RULE = (
    "one program per (place, kind of source, namespaces given, snippet): the place runs the snippet "
    "through exec or eval and then shows what the snippet gave, raised, and did to the names that "
    "every way of looking shows; result, exceptions and namespaces have to be those of the reference. "
    "Distinct: different observation or configuration."
)
BOUNDS = (
    "7 places x {exec, eval} x 3 kinds of source x 5 choices of namespaces x 14 to 16 snippets; 60 programs "
    "on globals(), locals(), vars(), dir() and the exec statement in the places that can have them"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference; for the exec statement of 2.x in a function, "
    "the reference is the same program with exec() on the namespaces the statement works on",
    "source given to exec() or eval() by bytecode of another version is compiled and run by the host Python "
    "(documented in the code; there is no compiler for the other version)",
]

EVALS = {
    "const": "42",
    "local": "a + 1",
    "global": "G + 1",
    "both": "(a, G)",
    "missing": "nope",
    "call": "f2(a)",
    "lambda": "(lambda q: q + G)(5)",
    "comp": "[q for q in (1, 2, G)]",
    "raise": "1 // 0",
    "syntax": "1 +",
    "spaces": " a ",
    "nested": "eval('a')",
    "attr": "log",
    "builtin": "len([a, G])",
    "shadow": "len",
    "stmt": "a = 5",
}
EXECS = {
    "new": "n1 = a",
    "newg": "n1 = G",
    "read": "log((a, G))",
    "glob": "global H\nH = G + 1",
    "def": "def n1(q): return q + G\nlog(n1(1))",
    "missing": "log(nope)",
    "raise": "raise KeyError('k')",
    "caught": "try:\n raise KeyError('k')\nexcept KeyError:\n n1 = 'caught'",
    "syntax": "1 +",
    "loop": "for n1 in (1, 2): log(n1)",
    "class": "class n1(object):\n z = 3\nlog(n1.z)",
    "import": "import string as n1\nlog(n1.digits)",
    "nested": "exec('n1 = 5')\nlog(n1)",
    "del": "n1 = 1\ndel n1",
}
NS = ["none", "g", "gl", "same", "empty"]
SOURCES = ["str", "bytes", "code"]

# {X} is the statement(s)
PLACES = {
    "module": "a = 7\n{X}\n{S}",
    "func": "def f(a):\n{X1}\n{S1}\nf(7)",
    "method": "class A(object):\n def m(self, a):\n{X2}\n{S2}\nA().m(7)",
    "classbody": "class A(object):\n a = 7\n{X1}\n{S1}",
    "nestedfunc": "def o():\n a = 7\n def f():\n  a\n{X2}\n{S2}\n f()\no()",
    "cellfunc": "def f(a):\n g = lambda: a\n{X1}\n{S1}\nf(7)",
    "gen": "def f(a):\n yield 1\n{X1}\n{S1}\nlist(f(7))",
}
PRE = "G = 100\ndef f2(x): return x * 2\n"
SHOW = "log(sorted(k for k in globals() if k in ('n1', 'H')))\nlog(sorted(k for k in show))"


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1


def program(place, kind, source, ns, snippet, text):
    lines = ["show = {}"]
    call = kind
    src = repr(text) if source == "str" else "b" + repr(text) if source == "bytes" else \
        f"compile({text!r}, 'dyn', {kind!r})"
    if ns == "none":
        args = ""
    elif ns == "g":
        lines.append("ns = {'a': 1, 'G': 2, 'log': log, 'f2': f2}")
        args = ", ns"
    elif ns == "gl":
        lines.append("ns = {'a': 1, 'G': 2, 'log': log, 'f2': f2}\nls = {'a': 3}")
        args = ", ns, ls"
    elif ns == "same":
        lines.append("ns = {'a': 1, 'G': 2, 'log': log, 'f2': f2}")
        args = ", ns, ns"
    else:
        lines.append("ns = {}")
        args = ", ns"
    if kind == "eval":
        lines.append(f"try: log(eval({src}{args}))\nexcept Exception as e: log(type(e).__name__)")
    else:
        stmt = f"EXEC({src}{args})"
        if snippet == "nested":
            stmt = stmt
        lines.append(f"try: {stmt}\nexcept Exception as e: log(type(e).__name__)")
    if ns in ("g", "same", "empty"):
        lines.append("show = [k for k in list(ns) if k != '__builtins__']")
        lines.append("if 'n1' in ns: log(type(ns['n1']).__name__.lower())")
    elif ns == "gl":
        lines.append("show = [k + '.g' for k in list(ns) if k != '__builtins__'] + [k + '.l' for k in list(ls)]")
    x = "\n".join(lines)
    s = SHOW
    return (PRE + PLACES[place].replace("{X1}", ind(x, 1)).replace("{X2}", ind(x, 2)).replace("{X}", x)
            .replace("{S1}", ind(s, 1)).replace("{S2}", ind(s, 2)).replace("{S}", s))


# programs that are run as they are
PROGRAMS = {
    "globals/read": "x = 1\ndef f():\n return globals()['x']\nlog(f())\nx = 2\nlog(f())",
    "globals/write": "def f():\n globals()['x'] = 5\nf()\nlog(x)\ndef g():\n return x\nlog(g())",
    "globals/del": "x = 1\ndef f():\n del globals()['x']\nf()\ntry: x\nexcept NameError: log('gone')",
    "globals/same": "def f(): return globals()\nlog(f() is globals())\nclass A(object):\n g = globals()\nlog(A.g is globals())",
    "globals/module": "log(globals() is locals())\nlocals()['x'] = 3\nlog(x)\nx = 4\nlog(locals()['x'])",
    "globals/alias": "g = globals\nx = 9\ndef f():\n return g()['x']\nlog(f())",
    "globals/keys": "y = 1\nlog(sorted(k for k in globals() if not k.startswith('__')))",
    "globals/nested": "def f():\n def g():\n  return sorted(k for k in globals() if k in ('f', 'g', 'zz'))\n return g\nzz = 1\nlog(f()())",
    "globals/gen": "def f():\n yield globals()['q']\nq = 5\nlog(list(f()))",
    "globals/args": "for a in ((1,), (1, 2)):\n try: globals(*a)\n except TypeError: log('te')",
    "locals/func": "def f(a, b=2, *c, **d):\n e = 5\n return sorted(locals().items())\nlog(f(1, 2, 3, z=4))",
    "locals/empty": "def f(): return locals()\nlog(f())",
    "locals/unbound": "def f(w):\n if w: x = 1\n return sorted(locals())\nlog(f(0))\nlog(f(1))",
    "locals/deleted": "def f(x, y):\n del x\n return sorted(locals())\nlog(f(1, 2))",
    "locals/cell": "def f(a):\n b = a\n def g(): return a, b\n return sorted(locals())\nlog(f(1))",
    "locals/cellvalue": "def f(a):\n def g(): return a\n a = a + 1\n d = dict(locals())\n return d['a']\nlog(f(1))",
    "locals/free": "def f(a):\n def g():\n  a\n  return sorted(locals().items())\n return g()\nlog(f(1))",
    "locals/freechange": "def f(a):\n def g():\n  a\n  return dict(locals())\n x = g()\n a = 2\n return (x, g())\nlog(f(1))",
    "locals/unboundcell": "def f(w):\n def g(): return x\n if w: x = 1\n return sorted(locals())\nlog(f(0))\nlog(f(1))",
    "locals/class": "class A(object):\n x = 1\n l = sorted(k for k in locals() if not k.startswith('__'))\n locals()['y'] = 5\nlog(A.l)\nlog(A.y)",
    "locals/classread": "class A(object):\n locals()['y'] = 5\n z = y + 1\nlog(A.z)",
    "locals/gen": "def f(a):\n b = 1\n yield sorted(locals())\n c = 2\n yield sorted(locals())\nfor x in f(1): log(x)",
    "locals/genexp": "log([list(sorted(k for k in locals() if k != '.0') for y in (1,))])",
    "locals/loop": "def f():\n r = []\n for i in (1, 2):\n  r.append(dict(locals())['i'])\n return r\nlog(f())",
    "locals/update": "def f():\n d = dict(locals())\n x = 1\n return (sorted(d), sorted(k for k in locals() if k != 'd'))\nlog(f())",
    "locals/args": "try: locals(1)\nexcept TypeError: log('te')",
    "vars/none": "def f(a):\n b = 2\n return sorted(vars().items())\nlog(f(1))",
    "vars/module": "log(vars() is globals())",
    "vars/class": "class A(object):\n x = 1\n v = sorted(k for k in vars() if not k.startswith('__'))\nlog(A.v)",
    "vars/object": "class A(object): pass\na = A()\na.x = 1\nlog(vars(a))\nvars(a)['y'] = 2\nlog(a.y)",
    "vars/type": "class A(object):\n x = 1\nlog(vars(A)['x'])",
    "vars/error": "try: vars(1)\nexcept TypeError: log('te')",
    "dir/none": "def f(a):\n b = 2\n return dir()\nlog(f(1))",
    "dir/module": "zz = 1\nlog('zz' in dir())\nlog([k for k in dir() if k in ('zz', 'log', 'cfg')])",
    "dir/class": "class A(object):\n x = 1\n y = 2\n v = [k for k in dir() if k in ('x', 'y', 'z')]\nlog(A.v)",
    "dir/object": "class A(object):\n x = 1\n def m(self): pass\na = A()\na.y = 1\nlog([k for k in dir(a) if not k.startswith('__')])",
    "eval/args": "for a in ((), ('1', {}, {}, {}), (1,), ('1', 5)):\n try: log(eval(*a))\n except TypeError: log('te')",
    "exec/args": "for a in ((), ('1', {}, {}, {}), (1,), ('1', 5)):\n try: log(EXEC(*a))\n except TypeError: log('te')",
    "eval/alias": "e = eval\ndef f(a):\n return e('a + 1')\nlog(f(4))",
    "eval/two": "def f(a):\n return eval('a') + eval('a * 2')\nlog(f(4))",
    "eval/kept": "a = 1\nc = compile('a + 1', 'x', 'eval')\nlog(eval(c))\na = 5\nlog(eval(c))\ndef f(a): return eval(c)\nlog(f(10))",
    "eval/order": "def t2(k, v):\n log(k)\n return v\nlog(eval(t2(1, 'x + y'), t2(2, {'x': 1, 'y': 2}), t2(3, {'y': 5})))",
    "eval/nslookup": "class M(dict):\n def __getitem__(self, k):\n  log(('get', k))\n  if k == 'log': raise KeyError(k)\n  return k + '!'\nlog(eval('x + y', {}, M()))",
    "eval/defaultns": "def f(x):\n def g(y):\n  return eval('y')\n return g(x + 1)\nlog(f(1))",
    "eval/inexcept": "def f():\n try: eval('1 // 0')\n except ZeroDivisionError: return 'zde'\nlog(f())",
    "eval/infinally": "def f():\n try: return eval('5')\n finally: log(eval('6'))\nlog(f())",
    "eval/inargs": "def f(a, b): return (a, b)\nlog(f(eval('1'), b=eval('2')))",
    "eval/func": "def mk(): return eval('lambda q: q + base', {'base': 10})\nlog(mk()(1))",
    "eval/recursive": "def f(n):\n return 1 if n == 0 else n * eval('f(n - 1)')\nlog(f(4))",
    "eval/vmfunc": "def f(x): return x + 1\nlog(eval('list(map(f, [1, 2]))'))\nlog(eval('f(f(1))'))",
    "eval/vmgen": "def g():\n yield 1\n yield 2\nlog(eval('sum(g())'))\nlog(eval('[x for x in g()]'))",
    "eval/vmclass": "class A(object):\n def __init__(self, x): self.x = x\n def m(self): return self.x + 1\nlog(eval('A(4).m()'))",
    "compile/exec": "c = compile('x = 5\\ny = x + 1', 'n', 'exec')\nns = {}\nEXEC(c, ns)\nlog((ns['x'], ns['y']))",
    "compile/bad": "for s, m in (('1 +', 'eval'), ('x = 1', 'eval'), ('def', 'exec')):\n try: compile(s, 'n', m)\n except SyntaxError: log('se')",
    "compile/mode": "try: compile('1', 'n', 'nope')\nexcept ValueError: log('ve')",
    "compile/name": "log(compile('1', 'nm', 'eval').co_filename)",
    "compile/twice": "c = compile('k.append(1)', 'n', 'exec')\nk = []\nEXEC(c)\nEXEC(c)\nlog(k)",
    "exec/module": "EXEC('qq = 5')\nlog(qq)\nEXEC('qq = qq + 1')\nlog(qq)\nEXEC('del qq')\ntry: qq\nexcept NameError: log('gone')",
    "exec/defines": "EXEC('def f(x):\\n return x * K')\nK = 3\nlog(f(2))\nK = 4\nlog(f(2))",
    "exec/class": "class A(object):\n EXEC('y = 5')\n z = 6\nlog((A.y, A.z))",
    "exec/ns": "ns = {'x': 1}\nEXEC('x += 1', ns)\nEXEC('x += 1', ns)\nlog(ns['x'])",
    "exec/nsbuiltins": "ns = {}\nEXEC('x = 1', ns)\nlog('__builtins__' in ns)\nls = {}\nEXEC('x = 1', {}, ls)\nlog(ls)",
    "exec/cb": "out = []\ndef cb(x):\n out.append(x)\nEXEC('for i in (1, 2): cb(i)')\nlog(out)",
    "exec/raise": "def cb(x): raise KeyError(x)\ntry: EXEC('cb(1)')\nexcept KeyError as e: log(e.args)",
    "exec/gen": "ns = {}\nEXEC('def g():\\n yield 1\\n yield 2', ns)\nlog(list(ns['g']()))\nfor x in ns['g'](): log(x)",
    "exec/subclass": "class A(object):\n def m(self): return 'A'\nns = {'A': A}\nEXEC('class B(A):\\n def m(self): return \"B\" + A.m(self)', ns)\nlog(ns['B']().m())",
    "exec/loop": "for i in (1, 2, 3):\n EXEC('v%d = i' % i)\nlog((v1, v2, v3))",
    "exec/none": "log(EXECV('1'))",
}

# The exec statement: (program of 2.x, what the reference runs).
STATEMENTS = {
    "new": ("def f():\n __py2exec__('x = 5')\n return x\nlog(f())\nlog('x' in globals())", "log(5)\nlog(False)"),
    "read": ("def f(a):\n __py2exec__('log(a)')\nf(3)", "log(3)"),
    "write": ("def f(a):\n __py2exec__('a = a + 1')\n return a\nlog(f(3))", "log(4)"),
    "global": ("g = 1\ndef f():\n __py2exec__('log(g)')\n __py2exec__('g = 2')\n return g\nlog(f())\nlog(g)", "log(1)\nlog(2)\nlog(1)"),
    "fallback": ("def f():\n __py2exec__('y = 1')\n return (y, h)\nh = 3\nlog(f())", "log((1, 3))"),
    "missing": ("def f(w):\n if w: __py2exec__('x = 5')\n else: __py2exec__('y = 5')\n return x\nlog(f(1))\ntry: f(0)\nexcept NameError: log('ne')", "log(5)\nlog('ne')"),
    "builtin": ("def f():\n __py2exec__('len = 5')\n return len\nlog(f())\nlog(len([1]))", "log(5)\nlog(1)"),
    "inns": ("ns = {'a': 1}\n__py2exec__('b = a + 1', ns)\nlog(ns['b'])", "log(2)"),
    "inns2": ("ns = {'a': 1}\nls = {}\n__py2exec__('b = a + 1', ns, ls)\nlog(ls)\nlog('b' in ns)", "log({'b': 2})\nlog(False)"),
    "innone": ("a = 1\n__py2exec__('b = a + 1', None)\nlog(b)", "log(2)"),
    "funcns": ("def f(a):\n ns = {}\n __py2exec__('b = 2', ns)\n return (a, ns['b'])\nlog(f(1))", "log((1, 2))"),
    "tuple2": ("ns = {'a': 1}\n__py2exec__(('b = a + 1', ns))\nlog(ns['b'])", "log(2)"),
    "tuple3": ("ns = {'a': 1}\nls = {}\n__py2exec__(('b = a + 1', ns, ls))\nlog(ls)", "log({'b': 2})"),
    "code": ("c = compile('b = 2', 'x', 'exec')\n__py2exec__(c)\nlog(b)", "log(2)"),
    "module": ("__py2exec__('q = 4')\nlog(q)", "log(4)"),
    "class": ("class A(object):\n __py2exec__('y = 5')\nlog(A.y)", "log(5)"),
    "raise": ("def f():\n try: __py2exec__('raise KeyError(1)')\n except KeyError: return 'k'\nlog(f())", "log('k')"),
    "syntax": ("try: __py2exec__('1 +')\nexcept SyntaxError: log('se')", "log('se')"),
    "badtype": ("try: __py2exec__(5)\nexcept TypeError: log('te')", "log('te')"),
    "loop": ("def f():\n for i in (1, 2):\n  __py2exec__('v%d = i * 2' % i)\n return (v1, v2)\nlog(f())", "log((2, 4))"),
}


def cases(cfg, tier):
    v, pypy = cfg
    for place in PLACES:
        for kind, snippets in (("eval", EVALS), ("exec", EXECS)):
            for source in SOURCES:
                if source == "bytes" and v < (3, 0):
                    continue
                for ns in NS:
                    for name, text in snippets.items():
                        if kind == "exec" and ns == "none" and place not in ("module", "classbody"):
                            if v < (3, 0) and name == "nested":
                                continue
                            if name == "nested":
                                continue
                        if v < (3, 0) and kind == "exec" and ns == "none" and place in (
                                "nestedfunc", "cellfunc") :
                            continue  # (a syntax error in 2.x)
                        yield (f"dyn/{place}/{kind}/{source}/{ns}/{name}",
                               {"src": program(place, kind, source, ns, name, text)})
    for name, src in PROGRAMS.items():
        yield f"prog/{name}", {"src": src}
    if v < (3, 0):
        for name, (src, ref) in STATEMENTS.items():
            yield f"stmt/{name}", {"src": src, "ref": ref}


def adapt(src, cfg):
    """EXEC(...) is the exec statement before 3.0."""
    v = cfg[0]
    import re

    if v < (3, 0):
        src = re.sub(r"\bEXECV\(", "EXECF(", src)
        if "EXEC(*" in src:
            src = src.replace("EXEC(*", "EXECF(*")
        return src.replace("EXEC(", "__py2exec__(")
    return src.replace("EXECV(", "exec(").replace("EXEC(", "exec(")


def reference(src):
    return src.replace("EXECV(", "exec(").replace("EXECF(", "exec(").replace("EXEC(", "exec(")


def extra(log):
    return {"EXECF": exec}


def run(cfg, p):
    want = native_run(p.get("ref") or reference(p["src"]), extra=extra)
    got = vm_run_code(compile_for(adapt(p["src"], cfg), cfg), cfg, extra)
    return want, got
