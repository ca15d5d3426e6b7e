"""Classes: creation, metaclasses, inheritance, attribute access, methods, super."""

from itertools import permutations, product

from gen import ind
from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "one program per element of: inheritance graphs of up to 4 classes x which classes define a "
    "cooperative method x form of super; histories of attribute operations on an instance, its "
    "class and its base; descriptor kinds x where a name is bound x access; class-creation hooks; "
    "method kinds x ways to call. Distinct: different observation or configuration."
)
BOUNDS = (
    "all graphs in which each class has up to 2 ordered bases among the earlier ones (4 classes), "
    "x all subsets of classes that define the method (quick: 4-class graphs x subsets in a 1/6 "
    "rotation); attribute histories of length <= 4 over 9 operations (quick: length 4 in a 1/7 "
    "rotation); 9 metaclass shapes x 5 class bodies; 10 descriptor kinds x 4 places"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference",
    "old-style classes of 2.x are not used",
]


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1 if tier == "quick" else 3


def extra(log):
    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    class NativeBase(object):
        tag = "native"

        def __init__(self, *a):
            self.a = a

        def m(self, *a):
            return ("native m", type(self).__name__, a)

        @classmethod
        def cm(cls, x):
            return ("native cm", cls.__name__, x)

        @staticmethod
        def sm(x):
            return ("native sm", x)

        @property
        def p(self):
            return ("native p", self.m(1))

    def template(o):
        """Native code that calls methods back."""
        return [o.m(5), o.cm(6), o.sm(7), o.p]

    return {"probe": probe, "NativeBase": NativeBase, "template": template}


# ------------------------------------------------------------------ inheritance


def lattices(n):
    choices = []
    for i in range(n):
        c = [()] + [(j,) for j in range(i)] + list(permutations(range(i), 2))
        choices.append(c)
    return product(*choices)


def lattice_src(bases, defs, style):
    out = []
    for i, bs in enumerate(bases):
        names = ", ".join(f"C{j}" for j in bs) or "object"
        body = f"k{i} = {i}"
        if i in defs:
            sup = f"super(C{i}, self)" if style == 2 else "super()"
            body += (f"\ndef m(self, *a):\n try: r = {sup}.m(*a)\n except AttributeError: r = ()\n"
                     f" return ({i},) + r\nx = {i}")
        out.append(f"try:\n class C{i}({names}):\n{ind(body, 2)}\n log([c.__name__ for c in C{i}.__mro__])\n"
                   f"except TypeError:\n log('conflict')\n class C{i}(object): pass")
    n = len(bases) - 1
    out.append(f"for c in ({', '.join('C%d' % i for i in range(len(bases)))},):\n"
               " probe(lambda: c().m())\n probe(lambda: c().x)\n"
               f" log([issubclass(c, d) for d in (C0, C{n})])\n log(isinstance(c(), C0))")
    return "\n".join(out)


# ------------------------------------------------------------------- attributes

A_OPS = {
    "i": "def op(): o.x = 'i'",
    "c": "def op(): C.x = 'c'",
    "b": "def op(): B.x = lambda self: ('b', self is o)",
    "p": "def op(): C.x = property(lambda self: ('p', self is o))",
    "d": "def op(): del o.x",
    "D": "def op(): del C.x",
    "g": "def op(): return o.x",
    "G": "def op(): return C.x if isinstance(C.x, str) else 'other'",
    "k": "def op(): return o.x()",
}


def attr_history(h):
    return ("class B(object):\n def x(self): return 'B.x'\nclass C(B): pass\no = C()\n"
            + "\n".join(A_OPS[c] + "\nprobe(op)" for c in h)
            + "\nprobe(lambda: o.x if isinstance(o.x, (str, tuple)) else o.x())\nlog(sorted(o.__dict__))\n"
              "log('x' in C.__dict__)")


DESC = {
    "plain": "x = 'plain'",
    "func": "def x(self): return ('func', self is o)",
    "prop": "@property\ndef x(self):\n log('get')\n return 'prop'",
    "propset": "def _g(self):\n log('g')\n return self.v\ndef _s(self, v):\n log(('s', v))\n self.v = v\n"
               "def _d(self):\n log('d')\n del self.v\nx = property(_g, _s, _d)",
    "static": "@staticmethod\ndef x(*a): return ('static', len(a))",
    "class": "@classmethod\ndef x(cls, *a): return ('class', cls.__name__, len(a))",
    "nondata": "class N(object):\n def __get__(self, o, t):\n  log(('get', o is None, t.__name__))\n  return 'nondata'\nx = N()",
    "data": "class D(object):\n def __get__(self, o, t):\n  log(('get', o is None, t.__name__))\n  return 'data'\n"
            " def __set__(self, o, v): log(('set', v))\n def __delete__(self, o): log('delete')\nx = D()",
    "setonly": "class D(object):\n def __set__(self, o, v): log(('set', v))\nx = D()",
    "badget": "class D(object):\n def __get__(self, o, t): raise KeyError('g')\n def __set__(self, o, v): raise ValueError('s')\nx = D()",
    "lambda": "x = lambda self: ('lambda', self is o)",
    "native": "x = len",
    "callable": "class K(object):\n def __call__(self, *a): return ('call', len(a))\nx = K()",
    "none": "pass",
}
ACCESS = ["o.x", "C.x", "o.x()", "C.x()", "C.x(o)", "getattr(o, 'x')", "setattr(o, 'x', 5)",
          "delattr(o, 'x')", "hasattr(o, 'x')", "getattr(o, 'x', 'dflt')"]
STMTS = ["o.x = 7", "C.x = 8", "del o.x", "o.x += 'z'"]
HOOKS = {
    "getattr": "def __getattr__(self, n):\n log(('ga', n))\n if n == 'miss': return 'found'\n raise AttributeError(n)",
    "getattribute": "def __getattribute__(self, n):\n if n != '__class__' and n != '__dict__': log(('gab', n))\n return object.__getattribute__(self, n)",
    "setattr": "def __setattr__(self, n, v):\n log(('sa', n))\n object.__setattr__(self, n, v)",
    "delattr": "def __delattr__(self, n):\n log(('da', n))\n object.__delattr__(self, n)",
    "slots": "__slots__ = ('y', 'miss2')",
}


def descriptor_family():
    for d, src in DESC.items():
        for place in ("own", "base", "shadow"):
            if place == "own":
                pre = f"class C(object):\n{ind(src)}\no = C()\n"
            else:
                pre = f"class B(object):\n{ind(src)}\nclass C(B): pass\no = C()\n"
                if place == "shadow":
                    pre += "o.__dict__['x'] = 'inst'\n"
            show = lambda e: (f"def acc():\n r = {e}\n return r if isinstance(r, (str, int, tuple, type(None))) "
                              "else (r(o) if callable(r) and type(r).__name__ not in ('N', 'D', 'K', 'property') else 'obj')\nprobe(acc)\n")
            yield f"desc/{d}/{place}/read", pre + "".join(show(e) for e in ACCESS)
            for s in STMTS:
                yield f"desc/{d}/{place}/{s}", pre + f"def st(): {s.replace('o.', 'globals()[chr(111)].')}\nprobe(st)\n" + show("o.x") + show("C.x")
    for hs in [()] + [(h,) for h in HOOKS] + list(permutations(HOOKS, 2)):
        if hs == tuple(sorted(hs)) or len(hs) < 2:
            body = "\n".join(HOOKS[h] for h in hs) or "pass"
            yield f"hook/{'-'.join(hs)}", (
                f"class C(object):\n{ind(body)}\n z = 'z'\n def m(self): return 'm'\no = C()\n"
                "def s1(): o.y = 1\ndef s2(): o.q = 2\ndef d1(): del o.y\ndef d2(): del o.nope\n"
                "probe(s1)\nprobe(lambda: o.y)\nprobe(s2)\nprobe(lambda: o.q)\nprobe(lambda: o.miss)\n"
                "probe(lambda: o.nope)\nprobe(lambda: o.z)\nprobe(lambda: o.m())\nprobe(d1)\nprobe(lambda: o.y)\nprobe(d2)\n"
                "probe(lambda: hasattr(o, 'nope'))\nprobe(lambda: getattr(o, 'nope', 3))")


# ------------------------------------------------------------------- metaclasses

METAS = {
    "plain": "class M(type):\n tag = 'M'",
    "new": "class M(type):\n def __new__(m, n, b, d{kw}):\n  log(('new', n, [x.__name__ for x in b], sorted(k for k in d if k[:2] != '__')))\n  d['added'] = 1\n  return type.__new__(m, n, b, d)\n def __init__(c, n, b, d{kw}): log(('init', n))",
    "init": "class M(type):\n def __init__(c, n, b, d{kw}):\n  log(('init', c.__name__))\n  c.extra = n.lower()\n  type.__init__(c, n, b, d)\n{newkw}",
    "call": "class M(type):\n def __call__(c, *a, **k):\n  log(('call', c.__name__, a))\n  return type.__call__(c, *a, **k)",
    "attrs": "class M(type):\n def cmeth(c): return c.__name__\n def __getattr__(c, n): return ('meta', n)\n def __len__(c): return 3\n def __iter__(c): return iter([1, 2])\n def __contains__(c, x): return x == 1",
    "func": "def M(n, b, d{kw}):\n log(('M', n, sorted(k for k in d if k[:2] != '__')))\n return type(n, b, d)",
    "other": "def M(n, b, d{kw}): return ('notclass', n)",
    "derived": "class M0(type):\n tag = 'M0'\n def __new__(m, n, b, d{kw}):\n  log(('M0.new', n))\n  return super(M0, m).__new__(m, n, b, d)\nclass M(M0):\n def __new__(m, n, b, d{kw}):\n  log(('M.new', n))\n  return super(M, m).__new__(m, n, b, d)\n def __init__(c, n, b, d{kw}): pass",
    "bad": "class M(type):\n def __new__(m, n, b, d{kw}):\n  log('bad new')\n  raise TypeError('no')",
    "badv": "class M(type):\n def __init__(c, n, b, d{kw}):\n  log('bad init')\n  raise KeyError('no')",
    "prepare": "class M(type):\n @classmethod\n def __prepare__(m, n, b{kw}):\n  log(('prepare', n, sorted(k.items())))\n  return {{'pre': 'given'}}\n def __new__(m, n, b, d{kw}):\n  log(list(x for x in d if x[:2] != '__'))\n  return type.__new__(m, n, b, d)\n def __init__(c, n, b, d{kw}): pass",
}
BODY = {
    "empty": "pass",
    "attrs": "x = 1\ny = x + 1\ndef m(self): return (self.x, self.y)",
    "flow": "l = []\nfor i in (1, 2):\n l.append(i * 2)\nif l:\n big = True\nelse:\n small = True\ndel i",
    "doc": "'the doc'\nz = 5",
    "super": "def m(self): return ('m', super(C, self).__init__())\ndef n(self): return type(self).__name__",
    "super0": "def m(self): return ('m', super().__init__())\ndef n(self): return (__class__.__name__, self.n.__name__)",
}


def meta_family(v):
    for (mn, m), (bn, b) in product(METAS.items(), BODY.items()):
        if bn == "super0" and v < (3, 1) or mn == "prepare" and v < (3, 1):
            continue
        kwf = ", **k" if v >= (3, 1) else ""
        m = m.replace("{newkw}", f" def __new__(m, n, b, d{kwf}): return type.__new__(m, n, b, d)")
        pre = m.replace("{kw}", kwf).replace("{{", "{").replace("}}", "}")
        forms = [("sub", "class C(M('B', (object,), {})):\n" if mn not in ("other",) else None)]
        if v >= (3, 1):
            forms.append(("kw", "class C(metaclass=M):\n"))
            if mn not in ("plain", "call", "attrs"):
                forms.append(("kw2", "class C(object, metaclass=M, p=1, q='z'):\n"))
        if v < (3, 0):
            forms += [("mc", "class C(object):\n"), ("mcsub", "class C(C0):\n"), ("mcglobal", "class C:\n")]
        for fn, head in forms:
            if head is None:
                continue
            if fn == "mcglobal" and mn in ("func", "other"):
                continue  # sub() would need it as well
            ref = None
            top = lambda b2, h: "def go():\n global C\n" + ind(h + ind(b2)) + "\n return type(C).__name__\nprobe(go)\n"
            mid = "class C0(object): pass\n" if fn == "mcsub" else ""
            if fn[:2] == "mc":
                glob = fn == "mcglobal"
                code = b if glob else b + "\n__metaclass__ = M" if bn != "doc" else b + ("" if glob else "\n__metaclass__ = M")
                stmt = mid + ("__metaclass__ = M\n" if glob else "") + top(code, head)
                h2 = head.replace("(object)", "(object, metaclass=M)").replace("(C0)", "(C0, metaclass=M)").replace("C:", "C(metaclass=M):")
                ref = mid + top(b, h2)
            else:
                stmt = top(b, head)
            post = (
                "probe(lambda: C.__name__)\nprobe(lambda: [C.__mro__[i].__name__ for i in range(len(C.__mro__))])\n"
                "probe(lambda: sorted(k for k in C.__dict__ if k[:2] != '__' and k[:4] != '_abc'))\nprobe(lambda: C().m())\nprobe(lambda: C().n())\n"
                "probe(lambda: C.tag)\nprobe(lambda: C.cmeth())\nprobe(lambda: C.nope)\nprobe(lambda: len(C))\n"
                "probe(lambda: list(C))\nprobe(lambda: (1 in C, 2 in C))\nprobe(lambda: C(1, 2))\nprobe(lambda: C.__doc__)\n"
                "def sub():\n class D(C): w = 1\n return (D.__name__, type(D).__name__, D.w)\nprobe(sub)")
            post = post.replace("[:2] != '__'", "[:2] != '__' and k != '__metaclass__'")
            yield f"meta/{mn}/{bn}/{fn}", pre + "\n" + stmt + post, ref and pre + "\n" + ref + post
    yield "meta/conflict", ("class M1(type): pass\nclass M2(type): pass\nA = M1('A', (object,), {})\nB = M2('B', (object,), {})\n"
                            "def f():\n class C(A, B): pass\nprobe(f)\ndef g():\n class M3(M1, M2): pass\n class D(M3('x', (object,), {}), A, B): pass\n return type(D).__name__\nprobe(g)")
    yield "meta/type3", ("C = type('C', (object,), {'a': 1, 'm': lambda self: self.a})\nlog((C.__name__, C().m(), C.a))\n"
                         "D = type('D', (C,), dict(a=2))\nlog((D().m(), D.__bases__[0] is C))\nprobe(lambda: type('E', (1,), {}))\nprobe(lambda: type('E', (C, D), {}))\nd = {'q': 1, '__name__': 'odd'}\nG = type('G', (C,), d)\nlog((sorted(d), G.__module__ == C.__module__, type('H', (), {'__module__': 'mm'}).__module__))\nprobe(lambda: type('E', (), [('a', 1)]))\nprobe(lambda: type('E', (), 5))\nlog(type(C()) is C)")
    if v >= (3, 1):
        y = {
            "custom": "class N(dict):\n def __setitem__(self, k, x):\n  if k[:2] != '__': log(('set', k))\n  dict.__setitem__(self, k, x)\n def __getitem__(self, k):\n  if k[:2] != '__': log(('get', k))\n  return dict.__getitem__(self, k)\n"
                      " def __delitem__(self, k):\n  log(('del', k))\n  dict.__delitem__(self, k)\nclass M(type):\n def __prepare__(n, b, **k): return N()\n",
            "missing": "class N(dict):\n def __missing__(self, k):\n  if k[:2] == '__' or k in ('log', 'str', 'repr', 'range'): raise KeyError(k)\n  log(('miss', k))\n  return k.upper()\nclass M(type):\n def __prepare__(n, b, **k): return N()\n",
            "raising": "class M(type):\n def __prepare__(n, b, **k): raise KeyError(n)\n",
        }
        for (k, m), (i, b) in product(y.items(), enumerate(("pass", "x = 1\ny = x", "x = 1\ndel x", "log(zz)\nzz = 2\nlog(zz)", "del q",
                                                            "for i in [1, 2]: x = i", "def f(self): return 3\nf2 = f"))):
            yield f"prepare/{k}/{i}", m + f"def go():\n class C(metaclass=M):\n{ind(b, 2)}\n return sorted(x for x in C.__dict__ if x[:2] != '__')\nprobe(go)"
    if v >= (3, 6):
        yield "mroentries", ("class X(object):\n def __init__(self, *b): self.b = b\n def __mro_entries__(self, bases):\n  log(len(bases))\n  return self.b\n"
                             "class A(object): a = 1\nclass B(object): b = 2\nclass C(X(A, B)): pass\nlog((C.a, C.b, len(C.__bases__), len(C.__orig_bases__)))\nclass D(A, X()): d = 3\nlog((D.a, len(D.__bases__)))\nclass E(X()): pass\nlog(E.__bases__[0].__name__)")
        for i, body in enumerate(("pass", "x = 1", "def m(self): return super().__init_subclass__()")):
            yield f"initsub/{i}", ("class B(object):\n def __init_subclass__(cls, **k):\n  log(('is', cls.__name__, sorted(k.items()), sorted(n for n in cls.__dict__ if n[:2] != '__')))\n"
                                   f"  super().__init_subclass__()\nclass C(B, a=1, b='2'):\n{ind(body)}\nclass D(C): pass\n"
                                   "def bad():\n class E(object, z=1): pass\nprobe(bad)")
        yield "setname", "class N(object):\n def __set_name__(self, o, n): log((o.__name__, n))\nclass C(object):\n a = N()\n b = N()\n c = a"
        yield "annotations", "class C(object):\n x: int = 1\n y: str\n def m(self): return self.x\nlog(C.__annotations__)\nlog(C().m())\nprobe(lambda: C.y)"


# ------------------------------------------------------------------- method kinds


def fixed_family(v):
    y = {}
    K = ("class B(object):\n t = 'B'\n def im(self, *a, **k): return ('im', self.t, a, sorted(k.items()))\n"
         " @classmethod\n def cm(cls, *a, **k): return ('cm', cls.__name__, a, sorted(k.items()))\n"
         " @staticmethod\n def sm(*a, **k): return ('sm', a, sorted(k.items()))\n"
         "class C(B):\n t = 'C'\no, b = C(), B()\n")
    for i, recv in enumerate(("o", "C", "b", "B", "type(o)", "super(C, o)", "C()")):
        for m in ("im", "cm", "sm"):
            for j, args in enumerate(("()", "(1)", "(1, k=2)", "(*[1, 2])", "(**{'k': 3})", "(o, 5)")):
                if recv in ("C", "B", "type(o)") and m == "im" and j != 5:
                    continue
                y[f"call/{recv}/{m}/{j}"] = (K + f"probe(lambda: {recv}.{m}{args})\nf = {recv}.{m}\nprobe(lambda: f{args})\n"
                                             f"probe(lambda: list(map({recv}.{m}, [o])))\nprobe(lambda: getattr({recv}, '{m}'){args})")
    y["bound/attrs"] = K + "m = o.im\nlog(m.__name__)\nm2 = o.im\nlog(callable(m))\nlog(B.im.__name__)\nt = o.t\no.t = 'x'\nlog(m())\n"
    y["bound/stored"] = K + "d = {'m': o.im, 'c': C.cm}\nlog((d['m'](1), d['c'](2)))\no.y = b.im\nlog(o.y(3))\nC.z = b.im\nlog(o.z(4))"
    y["monkey"] = K + "def n(self): return ('new', self.t)\nB.im = n\nlog((o.im(), b.im()))\no.im = lambda: 'inst'\nlog(o.im())\ndel o.im\nlog(o.im())\ndel B.im\nprobe(lambda: o.im())"
    y["native/base"] = ("class C(NativeBase):\n def m(self, *a): return ('vm m', self.a, NativeBase.m(self, *a))\no = C(1, 2)\nlog(template(o))\n"
                        "class D(C):\n @classmethod\n def cm(cls, x): return ('D.cm', cls.__name__, x)\n @staticmethod\n def sm(x): return ('D.sm', x)\n p = property(lambda self: 'D.p')\nlog(template(D()))\nlog(D.tag)")
    y["native/super"] = "class C(NativeBase):\n def __init__(self, x):\n  super(C, self).__init__(x, x)\n  self.y = x\n def m(self, *a): return ('C', super(C, self).m(*a))\no = C(3)\nlog((o.a, o.y, o.m(4)))\nlog(o.p)"
    y["init/args"] = "class C(object):\n def __init__(self, a, b=2, *c, **d): self.v = (a, b, c, sorted(d.items()))\nlog([C(1).v, C(1, 3).v, C(1, 3, 4, e=5).v, C(b=1, a=2).v])\nprobe(C)\nprobe(lambda: C(1, a=1))"
    y["init/return"] = "class C(object):\n def __init__(self): return 5\nprobe(C)\nclass D(object):\n def __init__(self): return None\nlog(type(D()).__name__)"
    y["init/raise"] = "class C(object):\n def __init__(self): raise KeyError(1)\nprobe(C)\nclass D(C):\n def __init__(self):\n  try: C.__init__(self)\n  except KeyError: self.ok = 1\nlog(D().ok)"
    y["new/basic"] = "class C(object):\n def __new__(cls, *a):\n  log(('new', cls.__name__, a))\n  return object.__new__(cls)\n def __init__(self, *a): log(('init', a))\nC()\nC(1)\nclass D(C): pass\nD(2)"
    y["new/other"] = "class C(object):\n def __new__(cls, x):\n  if x: return x\n  return object.__new__(cls)\n def __init__(self, x): log(('init', x))\nlog(C(5))\nlog(type(C(0)).__name__)"
    y["new/singleton"] = "class S(object):\n inst = None\n def __new__(cls):\n  if cls.inst is None: cls.inst = object.__new__(cls)\n  return cls.inst\n def __init__(self): log('init')\nlog(S() is S())"
    y["new/tuple"] = "class T(tuple):\n def __new__(cls, a, b): return tuple.__new__(cls, (a, b))\n def sum(self): return self[0] + self[1]\nt = T(1, 2)\nlog((t.sum(), t == (1, 2), len(t), isinstance(t, tuple)))\nlog(t)"
    y["new/super"] = "class I(int):\n def __new__(cls, x): return super(I, cls).__new__(cls, x * 2)\n def __add__(self, o): return ('add', int(self), o)\nlog((I(4) + 1, I(3) * 2, I(1) == 2))"
    y["special"] = ("class C(object):\n def __len__(self): return 4\n def __iter__(self): return iter('ab')\n def __contains__(self, x): return x == 'q'\n"
                    " def __getitem__(self, k): return ('gi', k)\n def __setitem__(self, k, v): log(('si', k, v))\n def __delitem__(self, k): log(('di', k))\n"
                    " def __call__(self, *a, **k): return ('call', a, sorted(k.items()))\n def __str__(self): return 'str!'\n def __repr__(self): return 'repr!'\n"
                    " def __eq__(self, o): return o == 'eq'\n def __ne__(self, o): return not self == o\n def __hash__(self): return 77\n def __nonzero__(self): return False\n __bool__ = __nonzero__\n"
                    "o = C()\nlog((len(o), list(o), 'q' in o, 'z' in o, o[3], o['k'], o(1, b=2), str(o), repr(o), o == 'eq', o == 1, o != 1, hash(o), not o))\n"
                    "o[1] = 2\ndel o[5]\nlog('%s %r' % (o, o))\nlog({o: 1}[o] if 0 else 'x')\nlog([1 for _ in o])\nx, z = o\nlog((x, z))")
    y["new/instance"] = "class C(object):\n def __new__(cls, *a): return object.__new__(cls)\no = C()\nlog(type(o.__new__(C)).__name__)\nlog(type(o.__class__.__new__(C)).__name__)\nD = type('D', (C,), {'__new__': lambda cls: object.__new__(cls)})\nlog(type(D().__new__(C)).__name__)\nclass E(D):\n def __new__(cls): return super(E, cls).__new__(cls)\nlog(type(E()).__name__)"
    y["bound/eq"] = K + "log((o.im == o.im, o.im != o.im, o.im == b.im, o.im == C().im, hash(o.im) == hash(o.im), len(set([o.im, o.im, b.im]))))\nl = [o.im]\nlog((o.im in l, l.index(o.im), l.count(b.im)))\nl.remove(o.im)\nlog(l)\nlog((C.cm == C.cm, o.sm is C.sm, {o.im: 1}[o.im]))"
    y["bound/parts"] = K + ("log((o.im.__self__ is o, o.im.__func__ is B.__dict__['im'], o.im.__func__ is b.im.__func__))\nlog((C.cm.__self__ is C, o.cm.__self__ is C))\nlog(o.im.__func__(b, 1))" if v >= (2, 6) else "log((o.im(), 1))") + "\nlog((o.im.__doc__, o.im.__name__, o.im.__module__ == C.__module__))\ndef g(self, *a): return (self, a)\ng.tag = 5\ng.__doc__ = 'gd'\nB.im = g\nlog((o.im.tag, o.im.__doc__, C().im.__name__))\nprobe(lambda: o.im.nope)\nlog(g.tag)"
    y["special/onclass"] = "class C(object): pass\no = C()\no.__len__ = lambda: 5\nprobe(lambda: len(o))\nC.__len__ = lambda self: 6\nprobe(lambda: len(o))\ndel C.__len__\nprobe(lambda: len(o))"
    y["special/iter"] = "class It(object):\n def __init__(self, n): self.n = n\n def __iter__(self): return self\n def next(self):\n  if self.n == 0: raise StopIteration\n  self.n -= 1\n  return self.n\n __next__ = next\nlog(list(It(3)))\nlog([x for x in It(2)])\na, b = It(2)\nlog((a, b))\nlog(sum(It(4)))\nlog(2 in It(4))"
    y["special/getitem-iter"] = "class S(object):\n def __getitem__(self, i):\n  log(i)\n  if i > 2: raise IndexError\n  return i * i\nlog(list(S()))\nlog([x for x in S()])\nlog(4 in S())\na, b, c = S()\nlog((a, b, c))"
    y["mangle"] = "class C(object):\n __x = 1\n def __m(self): return ('m', self.__x)\n def call(self): return self.__m()\n def set(self):\n  self.__y = 2\n  return sorted(self.__dict__)\n def loc(self):\n  __z = 3\n  return __z\n def d__(self): return self.__class__.__name__\no = C()\nlog((o.call(), o.set(), o.loc(), o._C__x, o._C__m(), o.d__()))\nprobe(lambda: o.__x)\nclass D(C):\n __x = 9\n def both(self): return (self.__x, self._C__x)\nlog((D().both(), D().call()))\nclass _E(object):\n __q = 1\nlog(sorted(k for k in _E.__dict__ if 'q' in k))"
    y["nested"] = "class A(object):\n class B(object):\n  class D(object):\n   v = 1\n  def m(self): return A.B.D.v\n x = B.D.v\n def mk(self):\n  class L(A.B): pass\n  return L\nlog((A.x, A.B().m(), A().mk().__name__, A().mk()().m()))\nlog(A().mk() is A().mk())"
    y["dict"] = "class C(object):\n a = 1\n def m(self): pass\n b = a\nlog(sorted(k for k in C.__dict__ if k[:2] != '__'))\nlog((C.__name__, C.__module__, C.__doc__, C.__bases__[0].__name__))\nC.a = 5\nlog((C.a, C.b))\no = C()\no.z = 1\nlog(o.__dict__)\no.__dict__['w'] = 2\nlog(o.w)\nlog(sorted(vars(o)))\nlog(o.__class__ is C)"
    y["doc"] = "class C(object):\n 'doc of C'\n def m(self): 'doc of m'\nlog(C.__doc__)\nlog(C.m.__doc__)\nlog(C().m.__name__)\nclass D(C): pass\nlog(D.__doc__)"
    y["body/raise"] = "def f():\n class C(object):\n  x = log('in')\n  raise KeyError(1)\nprobe(f)\nlog('C' in globals())\ndef g():\n class C(nope): pass\nprobe(g)\ndef h():\n class C(5): pass\nprobe(h)"
    y["body/order"] = "class A(t(1, object)):\n t(2)\n def f(self, x=t(3)): t(9)\n class B(t(4, object)): t(5)\n t(6)\nt(7)"
    y["body/locals"] = "x = 'g'\nclass C(object):\n log(x)\n x = 'c'\n log(x)\n del x\n log(x)\nlog(hasattr(C, 'x'))\nclass D(object):\n log(sorted(k for k in locals() if k[:2] != '__'))\n y = 1\n log(sorted(k for k in locals() if k[:2] != '__'))"
    y["body/inherit"] = "class A(object):\n v = [1]\nclass B(A):\n try: w = v\n except NameError: w = A.v + [2]\nlog(B.w)\nB.v.append(3)\nlog((A.v, B.v is A.v))"
    y["isinstance"] = "class A(object): pass\nclass B(A): pass\nlog([isinstance(x, c) for x in (A(), B(), A, 1) for c in (A, B, object, type, (int, B))])\nprobe(lambda: isinstance(1, 5))\nprobe(lambda: issubclass(A(), A))\nlog([type(x).__name__ for x in (A, A(), A().__class__)])"
    y["exc"] = "class E(Exception):\n def __init__(self, c):\n  Exception.__init__(self, 'm', c)\n  self.c = c\n def __str__(self): return 'E%s' % self.c\nclass F(E): pass\ntry: raise F(5)\nexcept E:\n import sys\n e = sys.exc_info()[1]\n log((e.c, e.args, str(e), type(e).__name__))\ntry: raise E(1)\nexcept F: log('no')\nexcept (KeyError, E): log('yes')"
    y["exc/meta"] = "class E(Exception): pass\nclass G(E, KeyError): pass\nfor t1 in (E, KeyError, LookupError, ValueError):\n try:\n  try: raise G('x')\n  except t1: log(t1.__name__)\n except Exception: log('outer')"
    y["builtin/dict"] = "class D(dict):\n def __missing__(self, k): return ('miss', k)\n def __setitem__(self, k, v):\n  log(('set', k))\n  dict.__setitem__(self, k, v)\nd = D(a=1)\nd['b'] = 2\nlog((d['a'], d['zz'], len(d), sorted(d), d.get('q')))\nd.update(c=3)\nlog(sorted(d.items()))"
    y["builtin/list"] = "class L(list):\n def append(self, x):\n  log(('app', x))\n  list.append(self, x)\n def __getitem__(self, i):\n  if isinstance(i, slice): return 'slice'\n  return list.__getitem__(self, i) * 10\nl = L([1, 2])\nl.append(3)\nlog((l[0], len(l), list(l), l + [4], 3 in l))\nlog(l[0:1] if not isinstance(l[0:1], list) else 'slice')" if v >= (3, 1) else "log(1)"
    y["builtin/str"] = "class S(str):\n def __mod__(self, x): return ('mod', x)\n def __add__(self, x): return S(str.__add__(self, x).upper())\ns = S('ab')\nlog((s % 3, s + 'cd', s.upper(), s == 'ab', len(s)))"
    y["builtin/exc"] = "class K(KeyError):\n code = 3\n def __init__(self, *a, **k):\n  KeyError.__init__(self, *a)\n  self.k = sorted(k.items())\nprobe(lambda: K(1, 2, x=3).k)\ndef f(): raise K(1, y=2)\ntry: f()\nexcept LookupError:\n import sys\n log(sys.exc_info()[1].k)"
    y["eq/hash"] = "class P(object):\n def __init__(self, x): self.x = x\n def __eq__(self, o):\n  log(('eq', self.x, o.x))\n  return self.x == o.x\n def __hash__(self): return hash(self.x)\nlog(P(1) == P(1))\nlog(P(1) != P(1))\nlog(P(1) in [P(2), P(1)])\nlog(len(set([P(1), P(1), P(2)])))\nlog([P(1), P(2)].index(P(2)))\nlog({P(1): 'a'}[P(1)])"
    y["sort"] = "class P(object):\n def __init__(self, x): self.x = x\n def __lt__(self, o): return self.x < o.x\nlog([p.x for p in sorted([P(3), P(1), P(2)])])\nlog(min(P(3), P(1)).x)\nlog(sorted([P(2), P(1)], reverse=True)[0].x)\nlog(P(1) > P(0))"
    y["context"] = "class C(object):\n def __enter__(self): return 'in'\n def __exit__(self, *a): log(a[0] is None)\nwith C() as x: log(x)" if v >= (2, 6) else "log(1)"
    y["copy"] = "import copy\nclass C(object):\n def __init__(self): self.l = [1]\n def __deepcopy__(self, m): return 'deep'\no = C()\nc = copy.copy(o)\nlog((c.l is o.l, c.l, type(c) is C))\nlog(copy.deepcopy([o]))\nclass D(object):\n def __init__(self): self.l = [[1]]\nd = copy.deepcopy(D())\nlog(d.l)"
    y["prop/inherit"] = "class A(object):\n def _get(self): return 'A'\n x = property(_get)\n y = property(lambda self: self._get())\nclass B(A):\n def _get(self): return 'B'\nlog((A().x, B().x, A().y, B().y))\nclass P(object):\n @property\n def v(self):\n  return self._v\n" + (" @v.setter\n def v(self, n):\n  log(('set', n))\n  self._v = n\n @v.deleter\n def v(self):\n  log('del')\n  del self._v\n" if v >= (2, 6) else " def sv(self, n):\n  log(('set', n))\n  self._v = n\n def dv(self):\n  log('del')\n  del self._v\n v = property(lambda self: self._v, sv, dv)\n") + "p = P()\nprobe(lambda: p.v)\np.v = 3\nlog(p.v)\np.v += 1\nlog(p.v)\ndel p.v\nprobe(lambda: p.v)"
    y["class/decorated"] = "def deco(c):\n c.tag = c.__name__ + '!'\n return c\n" + ("@deco\nclass C(object): pass\n" if v >= (2, 6) else "class C(object): pass\nC = deco(C)\n") + "log(C.tag)"
    y["recursive"] = "class N(object):\n def __init__(self, v, *k):\n  self.v = v\n  self.k = k\n def walk(self):\n  r = [self.v]\n  for c in self.k: r += c.walk()\n  return r\nlog(N(1, N(2, N(3)), N(4)).walk())"
    y["visitor"] = "class V(object):\n def visit(self, n): return getattr(self, 'v_' + n[0], self.dflt)(n)\n def v_add(self, n): return self.visit(n[1]) + self.visit(n[2])\n def v_num(self, n): return n[1]\n def dflt(self, n): raise KeyError(n[0])\nlog(V().visit(('add', ('num', 1), ('add', ('num', 2), ('num', 3)))))\nprobe(V().visit, ('mul',))"
    y["method/unbound"] = "class C(object):\n def m(self, x=1): return (type(self).__name__, x)\nf = C.m\nlog(f(C(), 5))\nclass D(C):\n def m(self, x=2): return ('D', C.m(self, x))\nlog(D().m())\nlog(C.m(D(), 7))"
    y["method/native-callback"] = "class C(object):\n def __init__(self): self.r = []\n def add(self, x):\n  self.r.append(x)\n  return -x\no = C()\nlog(list(map(o.add, [1, 2])))\nlog(sorted([3, 1], key=o.add))\nlog(o.r)"
    y["method/recursive-default"] = "class C(object):\n def m(self, n, acc=()):\n  if n == 0: return acc\n  return self.m(n - 1, acc + (n,))\nlog(C().m(4))"
    if v >= (3, 1):
        y["super0/kinds"] = ("class B(object):\n def __init__(self, *a): log(('B', a))\n def im(self): return 'B.im'\n @classmethod\n def cm(cls): return ('B.cm', cls.__name__)\n @staticmethod\n def sm(): return 'B.sm'\n @property\n def p(self): return 'B.p'\n"
                             "class C(B):\n def __init__(self, *a):\n  super().__init__(*a)\n  log('C')\n def im(self): return ('C', super().im())\n @classmethod\n def cm(cls): return ('C', super().cm())\n def s(self): return super().sm()\n @property\n def p(self): return ('C', super().p)\n"
                             "o = C(1)\nlog((o.im(), C.cm(), o.cm(), o.s(), o.p))\nclass D(C): pass\nlog((D(2).im(), D.cm(), D().p))")
        y["super0/nested"] = "class B(object):\n def m(self): return 'B'\nclass C(B):\n def m(self):\n  def inner(s): return super(C, s).m()\n  class X(B):\n   def m(self): return ('X', super().m())\n  return (inner(self), X().m(), super().m())\nlog(C().m())"
        y["super0/closureself"] = "class B(object):\n def m(self): return ('B', self.v)\nclass C(B):\n v = 3\n def m(self):\n  f = lambda: self.v\n  return (f(), super().m())\nlog(C().m())"
        y["super0/varargs"] = "class B(object):\n def m(self, *a, **k): return ('B', a, sorted(k.items()))\nclass C(B):\n def m(self, *a, **k): return super().m(*a, z=1, **k)\nlog(C().m(1, 2, q=3))"
        y["super0/fail"] = "def f(self): return super().m()\nprobe(f, 1)\nclass C(object):\n def m(): return super()\n def n(self): return super().nope\nprobe(lambda: C.m())\nprobe(lambda: C().n())"
        y["super0/gen"] = "class B(object):\n def m(self): return [1, 2]\nclass C(B):\n def m(self):\n  for x in super().m(): yield x * 2\nlog(list(C().m()))"
        y["super0/rebind"] = "class B(object):\n def m(self): return 'B'\nclass C(B):\n def m(self):\n  self = C2()\n  return super().m()\nclass C2(C):\n pass\nlog(C().m())"
        y["classcell"] = "class C(object):\n def me(self): return __class__\n def nm(self): return __class__.__name__\no = C()\nlog((o.me() is C, o.nm()))\nclass D(C): pass\nlog(D().me() is C)\nX = C\nC = None\nlog(X().me() is X)"
        y["kwargs"] = "class M(type):\n def __new__(m, n, b, d, **k): return type.__new__(m, n, b, d)\n def __init__(c, n, b, d, **k): c.k = sorted(k.items())\nclass C(metaclass=M, a=1): pass\nclass D(C, b=2): pass\nlog((C.k, D.k))\nargs, kws = (C,), {'c': 3}\nclass E(*args, **kws): pass\nlog(E.k)" if v >= (3, 5) else "log(1)"
        y["qualname"] = "class A(object):\n class B(object):\n  def m(self): pass\n def f(self):\n  class L(object): pass\n  return L\nlog((A.__qualname__, A.B.__qualname__, A().f().__qualname__))" if v >= (3, 3) else "log(1)"
    return y.items()


def cases(cfg, tier):
    v, pypy = cfg
    quick = tier == "quick"
    turn = ALL.index(v)
    for key, src in fixed_family(v):
        yield key, {"src": src}
    for key, src in descriptor_family():
        yield key, {"src": src}
    for key, src, *ref in meta_family(v):
        yield key, {"src": src, "ref": ref[0]} if ref and ref[0] else {"src": src}
    i = 0
    for n in (1, 2, 3, 4):
        for bases in lattices(n):
            for mask in range(1, 2 ** n):
                defs = [j for j in range(n) if mask >> j & 1]
                for style in (2, 0) if v >= (3, 1) else (2,):
                    i += 1
                    if n == 4 and quick and (i + turn) % (12 if v >= (3, 1) else 6):
                        continue
                    if pypy and quick and (i + turn) % 5:
                        continue
                    yield (f"mro/{'-'.join(''.join(map(str, b)) for b in bases)}/{mask}/{style}",
                           {"src": lattice_src(bases, defs, style)})
    for n in (1, 2, 3, 4):
        for j, h in enumerate(product(A_OPS, repeat=n)):
            if n == 4 and (j + turn) % (17 if quick else 3) or pypy and quick and (j + turn) % 6:
                continue
            yield f"attrs/{''.join(h)}", {"src": attr_history(h)}


def run(cfg, payload):
    return diff_program(payload["src"], cfg, extra, payload.get("ref"))
