"""Formatted string literals, the % operator and str.format on strings."""

from itertools import product

from harness import ALL, PYPY, cfgs, diff_program

LEVEL = "exploration"
RULE = (
    "one program per literal made of up to 3 pieces (text, or field of value x conversion x format "
    "specification), per value x % conversion, and per value x str.format field. Values include "
    "objects that log the formatting calls they get and that fail in one of them. Distinct: "
    "different text, failure or configuration."
)
BOUNDS = (
    "16 values x 4 conversions x 13 specifications (nested ones included) for a single field; all "
    "sequences of up to 3 pieces over 7 fields and 3 texts; 16 values x 22 % conversions; tuples "
    "and mappings on the right of %; 16 values x 20 str.format fields"
)
ASSUMPTIONS = [
    "CPython 3.12 running the same source is the reference",
    "values that format differently in different Python versions are not used",
]

PRE = (
    "class O(object):\n"
    " def __init__(self, k, bad=''):\n  self.k = k\n  self.bad = bad\n"
    " def _do(self, w, r):\n  log((self.k, w))\n  if self.bad == w: raise KeyError(w)\n  return r\n"
    " def __str__(self): return self._do('str', 's' + self.k)\n"
    " def __repr__(self): return self._do('repr', 'r' + self.k)\n"
    " def __format__(self, spec): return self._do('format', 'f' + self.k + '<' + spec + '>')\n"
    "class N(object):\n def __str__(self): return 'Ns'\n def __repr__(self): return 'Nr'\n"
    "class B(object):\n def __format__(self, spec): return 5\n def __str__(self): return 6\n def __repr__(self): return 7\n"
    "class S(str):\n def __str__(self): return 'SS'\n def __format__(self, spec): return 'SF' + spec\n"
    "class I(int):\n def __str__(self): return 'IS'\n"
    "w, p, name, d = 6, 2, 'nm', {'a': 'A', 'b': [1, 2]}\n"
)
VALUES = ["5", "-3", "2.5", "'ab'", "'\\xe9q'", "''", "None", "True", "[1, 'x']", "O('a')", "O('a', 'str')",
          "O('a', 'repr')", "O('a', 'format')", "N()", "B()", "S('v')", "I(4)", "nope", "d['a']", "d['z']",
          "(1, 2)", "len(name)", "w if p else 0", "(lambda: 3)()", "[x for x in (1, 2)]", "-w + p * 2"]
CONV = ["", "!s", "!r", "!a"]
SPEC = [None, "", ">6", "<6", "^7", "05d", ".1f", "x", "q", "{w}", ">{w}", "{w}.{p}f", "{name}", "{nope}", "{w!r:>{p}}"]


def field(v, c="", s=None):
    v = v.replace("'", '"')
    if "lambda" in v:
        v = "(" + v + ")"
    return "{" + v + c + ("" if s is None else ":" + s) + "}"


def lit(body):
    return "f'" + body.replace("\\", "") + "'" if "\\" not in body else None


def show(e):
    return f"def go():\n  return {e}\nprobe(go)"


def extra(log):
    def probe(f, *a):
        try:
            r = f(*a)
        except Exception as e:
            r = ("raised", type(e).__name__)
        log(r)

    def t(k, v=None):
        log(["t", k])
        return v

    return {"probe": probe}


FIELDS = ["{t(1, 5)}", "{t(2, 'q')!r}", "{t(3, 2.5):.1f}", "{t(4, 7):>{t(5, 4)}}", "{O('b')}", "{O('c')!s:>{w}}", "{t(6, None):d}"]
TEXTS = ["x", "{{", "}} %"]


def fstrings(v):
    for val, c, s in product(VALUES, CONV, SPEC):
        body = field(val, c, s)
        if "\\" in body:
            continue
        if s and "{nope}" in s and c:
            continue
        yield f"f/{val}/{c}/{s}", PRE + show("f'" + body + "'")
    for n in (1, 2, 3):
        for seq in product(FIELDS + TEXTS, repeat=n):
            body = "".join(seq).replace("'", '"')
            yield f"fseq/{body}", PRE + show("f'" + body + "'")
    for i, e in enumerate(["f''", "f'' f''", "'a' f'{w}' 'b'", "f'{w}' f'{p}'", "f'''{\nw}'''", "f'{w=}'", "f'{w = !s:>4}'",
                           "f'{f\"{f\'{w}\'}\"}'" if 0 else "f'{str(w)}'", "f'{d[\"b\"][1]}'", "f'{{}}'", "f'{{{w}}}'",
                           "f'{(x := 5)}{x}'", "f'{w, p}'", "f'{*d,}'", "'%s' % f'{w}%s'", "f'{w}'.join('ab')", "f'{w}' + f'{p}' * 2",
                           "(f'{w}', f'{p}')", "f'{w}' 'x' if f'' else f'{p}'", "[f'{i}-{j}' for i in (1, 2) for j in 'ab']",
                           "{f'{w}': f'{p}'}", "f'{(yield_ := 1)}'", "f'{lambda_}' if 0 else 1", "f'{w:{\"<\"}{w}}'"]):
        if "*d," in e and v >= (3, 11):
            continue
        if (":=" in e or "=" in e and "{w" in e and ("{w=" in e or "{w =" in e)) and v < (3, 8):
            continue
        yield f"fmisc/{i}", PRE + show(e)


PCT = ["%s", "%r", "%d", "%i", "%x", "%o", "%X", "%e", "%f", "%.1f", "%5d", "%-5d|", "%05d", "%+d", "%c", "%%", "%5s", "%.1s",
       "%s%s", "%(a)s", "%q", "%", "%*d", "a%sb"]
BRACES = ["{}", "{0}", "{0!r}", "{0!s:>5}", "{0:>6}", "{0:05}", "{0[0]}", "{0.k}", "{0.nope}", "{k}", "{0}{0}", "{}{}", "{0}{}", "{{{0}}}",
          "{", "}", "{0:{1}}", "{1}", "{0!z}", "{a}"]


def percent(v):
    vals = ["5", "-3", "2.5", "'ab'", "None", "[1, 'x']", "O('a')", "O('a', 'str')", "O('a', 'repr')", "N()", "(1,)", "(1, 2)", "()",
            "{'a': 3}", "{'a': O('m')}", "(4, 9)"]
    for val, f in product(vals, PCT):
        yield f"pct/{val}/{f}", PRE + show(f"'{f}' % {val}")
    for i, f in enumerate(["'%s-%s' % (t(1, 2), t(3, 4))", "'%(x)s %(y)r' % dict(x=1, y='b')", "'%s' % ((1, 2),)", "'%s %s' % ('a',)", "'a' % ()", "'a' % (1,)", "'a' % {}",
                           "'%s' % S('v')", "'%d' % I(4)", "S('%s') % 4", "t(1, '%s') % t(2, 3)"]):
        yield f"pctmisc/{i}", PRE + show(f)


def strformat(v):
    vals = ["5", "-3", "2.5", "'ab'", "None", "[1, 'x']", "O('a')", "O('a', 'format')", "O('a', 'str')", "N()", "S('v')", "'12', '>4'", "3, 4", "*[1, 2]", "**{'k': 1}", "a=3", "k=O('b')"]
    for val, f in product(vals, BRACES):
        if v < (2, 6):
            continue
        if f in ("{0:05}", "{0:>6}", "{0!s:>5}") and val in ("None", "[1, 'x']"):
            continue
        yield f"fmt/{val}/{f}", PRE + show(f"'{f}'.format({val})")
    if v >= (2, 6):
        for i, f in enumerate(["format(5, '>4')", "format(O('q'), 'sp')", "format(5)", "format('a', 'd')", "'{0}'.format", "str(O('z'))", "repr(O('z'))", "repr([O('z')])", "str((O('z'),))", "str(O('z', 'str'))",
                               "'%s' % [O('y')]", "list(map('{0}'.format, [1, 2]))", "'{a}{b}'.format(b=t(1, 2), a=t(2, 3))"]):
            if i != 4:
                yield f"fmtmisc/{i}", PRE + show(f)


def configs(tier):
    return cfgs(ALL, PYPY)


def shards(tier):
    return 1


def cases(cfg, tier):
    v, pypy = cfg
    turn = ALL.index(v)
    if v >= (3, 6):
        for key, src in fstrings(v):
            if pypy and tier == "quick" and key.startswith("fseq") and (hash_(key) + turn) % 4:
                continue
            yield key, {"src": src}
    for fam in (percent, strformat):
        for key, src in fam(v):
            yield key, {"src": src}


def hash_(s):
    return sum(map(ord, s))


def run(cfg, payload):
    return diff_program(payload["src"], cfg, extra)
