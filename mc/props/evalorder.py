"""Order of evaluation: composite expressions and statements over a universal
object; every event (leaf, operation, truth test) may raise."""

import itertools

from gen import ind, supports
from harness import ALL, Log, base_env, cfgs, compile_for, native_run, vm_run_code
from uni import Universe

LEVEL = "fault_enumeration"
RULE = (
    "a case is one program: an expression or statement form with one of its slots "
    "filled by another expression form, at module level or in a function; it is run "
    "for every truth pattern and, for each, with an exception raised at each of its "
    "events in turn (leaf evaluation, operation, truth test, iteration). Non-trivial: "
    "some event happened; distinct: different sequence of events or configuration."
)
BOUNDS = (
    "quick: every form on its own and every form x slot x a twelfth of the expression "
    "forms (which twelfth rotates with form and slot); thorough: every form x slot x every "
    "expression form; truth patterns of length <= 2; all single faults; 130 statements x (module, function) x "
    "(telling, raising) with an object whose special methods are all spied on"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference",
    "forms whose order of evaluation changed between versions are left out for the "
    "versions where it differs (dict displays before 3.5, keyword defaults before 3.4, unpacking in displays and "
    "calls, which iterates after all operands are evaluated, before 3.9)",
]


def configs(tier):
    return cfgs(ALL)


def shards(tier):
    return 1 if tier == "quick" else 2


# (form, lowest version, highest version)
EXPR = [
    "-{0}", "~{0}", "not {0}", "{0} + {1}", "{0} - {1} * {2}", "{0} ** {1}", "{0}[{1}]",
    "{0} < {1}", "{0} == {1} != {2}", "{0} in {1}", "{0} is {1}", "{0} < {1} <= {2} > {3}",
    "{0} not in {1} in {2}",
    "{0} and {1}", "{0} or {1}", "{0} and {1} or {2}", "{0} or {1} and {2}",
    "({0} or {1}) and not ({2} and {3})", "not {0} or not {1}",
    ("{0} if {1} else {2}", (2, 5)), ("({0} if {1} and {2} else {3}) + {4}", (2, 5)),
    "{0}.aa", "{0}.aa.ab", "{0}({1})", "{0}({1}, {2})", "{0}(k={1})", "{0}({1}, k={2}, j={3})",
    "{0}(*{1})", "{0}(**{1})", "{0}({1}, *{2})", ("{0}({1}, *{2}, **{3})", (3, 9)),
    "{0}(k={1}, **{2})", "{0}.am({1})", "{0}.am({1}, k={2})", ("{0}.am(*{1}, **{2})", (3, 9)),
    ("{0}(*{1}, *{2})", (3, 9)), ("{0}(*{1}, {2})", (3, 9)), ("{0}(**{1}, **{2})", (3, 9)),
    ("{0}({1}, *{2}, {3}, k={4}, **{5})", (3, 9)),
    ("{0}(**{1}, k={2}, **{3})", (3, 9)),
    "[{0}, {1}]", "({0}, {1}, {2})", "({0},)", ("{{{0}, {1}}}", (2, 7)),
    ("{{{0}: {1}}}", (3, 5)), ("{{{0}: {1}, {2}: {3}}}", (3, 5)),
    ("[*{0}, {1}]", (3, 9)), ("({0}, *{1}, *{2})", (3, 9)), ("{{*{0}, {1}}}", (3, 9)),
    ("{{**{0}, k: {1}}}", (3, 9)), ("{{k: {0}, **{1}, **{2}}}", (3, 9)),
    "{0}[{1}, {2}]", "{0}[{1}:{2}:{3}]", "{0}[::{1}]", "{0}[{1}:{2}, {3}]",
    ("{0}[{1}:{2}]", (3, 1)), ("{0}[:{1}]", (3, 1)), ("{0}[{1}:]", (3, 1)), ("{0}[:]", (3, 1)),
    "(lambda x={0}: x)({1})", "(lambda x, y={0}: (x, y))({1})", "(lambda *x: x)(*{0})",
    "[x + {1} for x in {0}]", "[x for x in {0} if {1}]", "[(x, y) for x in {0} for y in {1}]",
    "[x for x in {0} if {1} if {2}]",
    "list(x for x in {0})", "list(x + {1} for x in {0} if {2})",
    ("{{x for x in {0} if {1}}}", (2, 7)), ("{{x: {1} for x in {0}}}", (3, 8)),
    ("f'<{{{0}}}{{{1}!r:>{{{2}}}}}>'", (3, 6)), ("f'{{{0}!s}}{{{1}!a:x}}'", (3, 6)),
]
STMT = [
    "x = {0}", "x = y = {0}", "{0}.aa = {1}", "{0}[{1}] = {2}", "x = {0}.aa = {1}",
    "{0}.aa, {1}[{2}] = {3}", "x, y = {0}", "x, (y, z) = {0}, {1}", "[x, y] = {0}, {1}",
    "x, y = {0}, {1}", "x, y, z = {0}, {1}, {2}", "{0}.aa, x = {1}, {2}",
    "{0}[{1}], {2}.aa = {3}, {4}",
    "{0}.aa += {1}", "{0}[{1}] -= {2}", "{0}.aa -= {1}", "{0}[{1}] *= {2}",
    "x = {0}\nx += {1}\nx", "{0}[{1}:{2}:{3}] += {4}",
    ("{0}[{1}:{2}] = {3}", (3, 1)), ("{0}[{1}:{2}] += {3}", (3, 1)), ("del {0}[{1}:{2}]", (3, 1)),
    "{0}[{1}:{2}:{3}] = {4}", "del {0}.aa", "del {0}[{1}]", "del {0}.aa, {1}[{2}]",
    "del {0}[{1}:{2}:{3}]",
    "assert {0}", "assert {0}, {1}", "{0}\n{1}",
    "if {0}:\n t(91)\nelse:\n t(92)", "if {0}:\n t(91)\nelif {1}:\n t(92)\nt(93)",
    "while {0}:\n {1}\n break\nelse:\n t(92)", "i = 0\nwhile {0}:\n i += 1\n if {1} or i > 2: break\nelse:\n t(92)",
    "for x in {0}:\n {1}\nelse:\n t(92)", "for {0}.aa in {1}:\n {2}",
    "for x, y in [{0}, {1}]:\n {2}\n continue",
    "def f(a={0}, b={1}): return {2}\nf()", "def f(a, b={0}): return (a, b)\nf({1})[1].aa",
    "@{0}\ndef f(a={1}): pass", "@{0}\n@{1}\ndef f(a): pass",
    ("def f(a, *, b={0}): return b\nf(1).aa", (3, 1)),
    ("def f(a={0}, *, b={1}): return b\nf(1).aa", (3, 4)),
    ("def f(a: {0}): return a", (3, 1)), ("def f(a: {0}={1}) -> {2}: return a\nf().aa", (3, 4)),
    ("@{0}\nclass C(object): x = {1}", (2, 6)),
    "class C(object):\n x = {0}\n y = [x, {1}]\nC.y[0].aa",
    "class C(object):\n def m(self, a={0}): return a\n {1}\nC().m().aa",
    ("with {0} as {1}.aa:\n {2}", (2, 6)), ("with {0} as (x, y), {1}:\n {2}", (2, 7)),
    "try:\n {0}\nfinally:\n {1}", "try:\n {0}\nexcept ValueError:\n {1}",
    "try:\n {0}\nexcept KeyError:\n {1}\nelse:\n {2}", "try:\n {0}\nexcept [{1}.aa, KeyError][1]:\n {2}",
    "raise {0}", ("raise ValueError({0}) from {1}", (3, 1)),
    "log(str({0}))", "'%s' % ({0},)",
    "{0}.aa = {1}.ab = {2}", "x = {0}; y = {1}",
    "RET return {0}", "RET return {0}, {1}", "RET if {0}: return {1}\nreturn {2}",
    "RET global gg\ngg = {0}\ngg += {1}\nreturn gg",
    "RET def h(): return w.aa\nw = {0}\nh()\nw = {1}\nreturn h()",
]


def norm(f):
    return f if isinstance(f, tuple) else (f, (2, 4))


def slots(f):
    return sum("{%d}" % i in f for i in range(8))


def fill(form, k0=0, sub=None):
    """The form with leaves t(k); sub: (slot, inner form) replaces that leaf."""
    args, k = [], k0
    for i in range(slots(form)):
        if sub and sub[0] == i:
            inner = [f"t({50 + j})" for j in range(8)]
            # (a list comprehension of 2.x does not have a scope of its own)
            text = sub[1].replace("x", "v").replace("y", "u")
            args.append("(" + text.format(*inner) + ")")
        else:
            args.append(f"t({k})")
        k += 1
    return form.format(*args)


# Statements that only move values about: no operation on them may be performed.
MOVES = [
    "x = S\ny = x\nlog(y is S)", "def f():\n x = S\n y = x\n return y\nlog(f() is S)",
    "def f(x): return x\nlog(f(S) is S)", "def f(x=S): return x\nlog(f() is S)",
    "def f(x, y=S): return y\nlog(f(1) is S, f(y=S, x=2) is S, f(S, 3))",
    "def f(*a): return a\nlog(f(S, S)[1] is S, f(*[S])[0] is S)",
    "def f(**k): return k\nlog(f(x=S)['x'] is S, f(**{'x': S})['x'] is S)",
    "def f(a, *b, **c): return c\nlog(f(S, S, x=S)['x'] is S)",
    "f = lambda x=S: x\nlog(f() is S, f(S) is S)",
    "def f(x):\n def g(): return x\n return g\nlog(f(S)() is S)",
    "def f(x):\n def g():\n  return lambda: x\n return g\nlog(f(S)()() is S)",
    "def f():\n x = 1\n def g(): return x\n x = S\n r = g()\n x = None\n return r\nlog(f() is S)",
    "def f():\n global gg\n gg = S\n return gg\nlog(f() is S)\ndel gg",
    "def f(x):\n del x\n return 1\nlog(f(S))", "x = S\ndel x",
    ("def f():\n x = 1\n def g():\n  nonlocal x\n  x = S\n g()\n return x\nlog(f() is S)", (3, 1)),
    ("def f(x, *, y=S): return y\nlog(f(1) is S, f(1, y=S) is S)", (3, 1)),
    ("def f(x: S, y: 1 = S) -> S: return y\nlog(f(1) is S, f.__annotations__['x'] is S)", (3, 4)),
    "x, y = S, 1\nlog(x is S)\nx, y = y, x\nlog(y is S)", "x, y, z = 1, S, 2\nx, y, z = z, y, x\nlog(y is S)",
    "x, (y, z) = 1, (2, S)\nlog(z is S)", "[x, y] = [S, S]\nlog(y is S)",
    "x = [S, 1, S]\nlog(x[0] is S)", "x = (S, S)\nlog(x[1] is S)", "x = {1: S, 'a': S}\nlog(x['a'] is S)",
    "x = [1]\nx[0] = S\nlog(x.pop() is S)", "x = {}\nx['a'] = S\ndel x['a']\nlog(len(x))",
    "x = [[S] for i in range(2)]\nlog(x[1][0] is S)", "x = [i for i in [S, S]]\nlog(x[1] is S)",
    "x = [(i, j) for i in [S] for j in [S]]\nlog(x[0][1] is S)",
    "x = list(i for i in [S, S])\nlog(x[0] is S)",
    ("x = {i: S for i in [1, 2]}\nlog(x[1] is S)", (2, 7)),
    ("x = [*[S], S]\nlog(x[0] is S)", (3, 9)), ("x = {**{'a': S}, 'b': S}\nlog(x['b'] is S)", (3, 9)),
    ("x = (*[S, S], *(S,))\nlog(x[2] is S)", (3, 9)),
    "for x in [S, S]:\n log(x is S)", "for x, y in [(1, S)]:\n log(y is S)",
    "for x in (S,):\n continue\nelse:\n log(x is S)", "for x in [S, 1]:\n break\nlog(x is S)",
    "for x in {'a': S}.values():\n log(x is S)",
    "def g():\n yield S\n yield 1\n yield S\nlog([i is S for i in g()])",
    ("def g():\n r = yield S\n log(r is S)\n yield r\ni = g()\nlog(next(i) is S)\nlog(i.send(S) is S)", (2, 5)),
    ("def g():\n yield 1\n return S\ndef h():\n r = yield from g()\n log(r is S)\nlog(list(h()))", (3, 3)),
    ("def h():\n r = yield from [S, S]\n log(r is None)\nlog([i is S for i in h()])", (3, 3)),
    ("def g():\n r = yield\n log(r is S)\n yield\ndef h(): yield from g()\ni = h()\nnext(i)\ni.send(S)", (3, 3)),
    "try:\n x = S\nfinally:\n log('f')\nlog(x is S)",
    "def f():\n try:\n  return S\n finally:\n  log('f')\nlog(f() is S)",
    "def f():\n for i in [S]:\n  try:\n   return i\n  finally:\n   x = S\nlog(f() is S)",
    "def f():\n while 1:\n  try:\n   x = S\n   break\n  finally:\n   log('f')\n return x\nlog(f() is S)",
    "def f(x):\n try:\n  raise ValueError('e')\n except ValueError:\n  return x\nlog(f(S) is S)",
    "def f(x):\n try:\n  x.n0\n except (KeyError, AttributeError):\n  return x\nf(E)",
    "def f(x):\n try:\n  raise x\n except ValueError:\n  return 1\nlog(f(E))",
    "def f(x):\n try:\n  raise x\n finally:\n  log('f')\ntry:\n f(E)\nexcept ValueError:\n log('c')",
    "def f(x):\n try:\n  raise ValueError(x)\n except ValueError:\n  return 2\nlog(f(S))",
    ("class M(object):\n def __enter__(self): return S\n def __exit__(self, *a): pass\n"
     "with M() as x:\n log(x is S)\nlog(x is S)", (2, 6)),
    ("class M(object):\n def __enter__(self): return S\n def __exit__(self, *a): return S\n"
     "def f():\n with M() as x:\n  return x\nlog(f() is S)", (2, 6)),
    ("class M(object):\n def __enter__(self): return S\n def __exit__(self, *a): return None\n"
     "for i in [1, 2]:\n with M() as x:\n  continue", (2, 6)),
    "class C(object):\n x = S\n y = x\nlog(C.y is S)", "class C(object): pass\nc = C()\nc.x = S\nlog(c.x is S)\ndel c.x",
    "class C(object):\n x = S\n def m(self, a=x): return a\nlog(C().m() is S, C().m(S) is S)",
    "class C(object):\n def __init__(self, x): self.x = x\nlog(C(S).x is S)",
    "class C(object):\n def __get__(self, o, t): return S\nclass D(object): c = C()\nlog(D().c is S)",
    "class C(object):\n def m(self): return S\nlog(C().m() is S)",
    "log((S is S) and 1, S is not None, None is S)", "x = S if 1 else 2\nlog(x is S)",
    "x = 1 and S\nlog(x is S)", "x = 0 or S\nlog(x is S)", "x = (lambda: S)()\nlog(x is S)",
    "S", "[S]", "(S, 1)", "x = S; x = 1", "if S is None: pass\nlog('x')", "assert S is not None",
    "def d(f): return S\n@d\ndef g(): pass\nlog(g is S)", "def d(x): return lambda f: x\n@d(S)\ndef g(): pass\nlog(g is S)",
    ("def d(f): return S\n@d\nclass G(object): pass\nlog(G is S)", (2, 6)),
    ("x, *y = [S, S, 1]\nlog(y)", (99, 0)),
    ("x = (y := S)\nlog(x is S, y is S)", (3, 8)), ("log(f'{1}' and S is S)", (3, 6)),
    "def f(n, x):\n if n: return f(n - 1, x)\n return x\nlog(f(3, S) is S)",
    "def f(x):\n y = [x]\n def g(): y[0] = x\n g()\n return y[0]\nlog(f(S) is S)",
    "x = [S].pop\nlog(x() is S)", "l = []\nl.append(S)\nl.extend([S])\nlog(len(l))",
    "d = dict(a=S)\nlog(d['a'] is S, d.get('b', S) is S)", "x = tuple([S])\nlog(x[0] is S)",
    "log(list(map(lambda v: v is S, [S, 1])))", "log(sorted([(2, 1), (1, 3)], key=lambda v: v[0]))",
    "x = list(zip([S], [S]))\nlog(x[0][1] is S)", "x = dict([('a', S)])\nlog(x['a'] is S)",
    "log(isinstance(S, int))", "log(type(S) is type(S))", "log(id(S) == id(S))", "log(callable(len))",
    # one operation, performed once
    "x = S == S\nlog(x)", "x = S != 1\nlog(x)", "x = S < S\nlog(x)", "x = 1 in S\nlog(x)",
    "if S: log('t')", "while S:\n break", "x = not S\nlog(x)", "x = S and 1\nlog(x is S)", "x = S or 1\nlog(x)",
    "x = S[0]\nlog(x)", "x = S.aa\nlog(x)", "x = S()\nlog(x)", "x = S(1, k=2)\nlog(x)", "x = S.m(1)\nlog(x)",
    "x = {S: 1}\nlog(len(x))", "x = len(S)\nlog(x)", "x = -S\nlog(x)", "x = S + 1\nlog(x)", "x = 1 + S\nlog(x)",
    "x = S\nx += 1\nlog(x is S)", "S[0] = S", "S.aa = S", "del S[0]", "del S.aa", "x = str(S)\nlog(x)", "x = repr(S)\nlog(x)",
    "x = '%s %r' % (S, S)\nlog(x)", "x = bool(S)\nlog(x)", "x = S in [1, S]\nlog(x)", "x = [1, 2].count(S)\nlog(x)",
    "x = iter(S)\nlog(x)", "for x in S:\n log(x)", "x, y = S\nlog(x)", "x = list(S)\nlog(x)",
    ("x = f'{S}{S!r:>5}'\nlog(x)", (3, 6)), 
    "def f(x=1): return x\nlog(f(*S))", "x = hash(S)\nlog(x)", "@S\ndef f(): pass\nlog(f)",
]

SPECIAL = ("add radd iadd sub mul eq ne lt le gt ge hash bool nonzero repr str format len length_hint contains "
           "getitem setitem delitem setattr delattr call iter next enter exit get neg index int "
           "float complex bytes fspath instancecheck subclasscheck set_name missing reversed "
           "copy deepcopy reduce_ex sizeof getattr getattribute").split()


def spy(log, base, raising):
    """An object all of whose special methods tell that they were used, with an
    answer or (raising) with an exception."""
    answers = {"hash": 7, "bool": True, "nonzero": True, "repr": "<r>", "str": "<s>", "format": "<f>", "len": 2,
               "contains": True, "index": 1, "int": 1, "exit": None, "setattr": None,
               "delattr": None, "setitem": None, "delitem": None, "iter": None}

    def make(n):
        def op(self, *a):
            if n == "getattribute" and a[0] in ("__class__", "__dict__"):
                return object.__getattribute__(self, a[0])
            log("op", n, *[x for x in a if type(x) in (int, str)])
            if raising:
                raise (AttributeError if n.startswith("getattr") else LookupError)(n)
            if n == "getattr" or n == "getattribute" and a[0].startswith("__"):
                raise AttributeError(a[0])
            if n == "iter":
                return iter(["i", "j"])
            if n == "getattribute" and a[0] == "m":
                return lambda *b: b
            return answers.get(n, n + "!")
        return op

    return type("Spy", (base,), {
        "__%s__" % n: make(n) for n in SPECIAL
        if base is object or not n.startswith("getattr")})()


def program(stmt):
    if stmt.startswith("RET "):
        return "def F():\n" + ind(stmt[4:]) + "\nlog(F() is None)"
    return stmt


def cases(cfg, tier):
    v = cfg[0]
    for f, low in map(norm, MOVES):
        if low <= v:
            for raising in (0, 1):
                for w in (0, 1):
                    src = f if not w else "def F():\n" + ind(f) + "\nF()"
                    yield (f"moves/{f!r}/{raising}/{w}", {"src": src, "spy": raising})
    exprs = [norm(f)[0] for f in EXPR if norm(f)[1] <= v]
    stmts = [norm(f)[0] for f in STMT if norm(f)[1] <= v]
    for kind, forms in (("expr", exprs), ("stmt", stmts)):
        for n, form in enumerate(forms):
            for s in [None] + list(range(slots(form))):
                inners = [None] if s is None else exprs
                for m, inner in enumerate(inners):
                    if inner is not None:
                        if tier == "quick" and (m + n + 5 * s) % 12:
                            continue
                        if "'" in inner and "f'" in form:
                            continue
                        if "with" in form and s < 2:
                            continue  # not a context manager: the error is V06's
                    text = fill(form, 0, None if inner is None else (s, inner))
                    wraps = [False, True] if inner is None else [bool((m + n) % 2)]
                    for w in wraps:
                        if kind == "expr":
                            src = f"log([{text}])" if not w else \
                                f"def F():\n return {text}\nlog([F()])"
                        elif w and not text.startswith("RET "):
                            src = "def F(k=k):\n" + ind(text) + "\nF()"
                        else:
                            src = program(text)
                        yield (f"{kind}/{form!r}/{s}/{inner!r}/{int(w)}",
                               {"src": "k = 'kk'\n" + src})


def one(runner, bits, fault):
    """Run with the given truth pattern and fault; what happened and how many events."""
    box = {}

    def extra(log):
        u = Universe(log, bits, fault)
        box["u"] = u
        return {"t": u.t}

    obs = runner(extra)
    return [obs["log"], obs["end"]], box["u"].n_ev, box["u"].n_bool


def run(cfg, payload):
    src = payload["src"]
    ref_code = compile(src, "prog", "exec")
    code = compile_for(src, cfg)
    if "spy" in payload:
        def extra(log):
            def tell(*what):
                log(["op"] + list(what))
            return {"S": spy(tell, object, payload["spy"]), "E": spy(tell, ValueError, payload["spy"])}
        want, got = native_run(ref_code, extra=extra), vm_run_code(code, cfg, extra)
        return [want["log"], want["end"]], [got["log"], got["end"]]
    wants = []
    patterns = [(1,)]
    done = set()
    n = 0
    while patterns:
        bits = patterns.pop(0)
        if bits in done:
            continue
        done.add(bits)
        fault, events = None, None
        while True:
            want, ev, nb = one(lambda ex: native_run(ref_code, extra=ex), bits, fault)
            got, _, _ = one(lambda ex: vm_run_code(code, cfg, ex), bits, fault)
            n += 1
            if want != got:
                return {"bits": bits, "fault": fault, "obs": want}, \
                    {"bits": bits, "fault": fault, "obs": got}
            wants.append(want)
            if fault is None:
                events = ev
                fault = 0
                if nb and len(done) == 1:
                    patterns += [(0,), (1, 0), (0, 1)]
            else:
                fault += 1
            if fault >= events:
                break
    payload["_n"] = n
    return wants, wants


def stats(payload, want):
    return {"executions": payload.pop("_n", 1)}


def nontrivial(want):
    return bool(want)
