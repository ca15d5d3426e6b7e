"""Bounded spaces of statement trees, and the exhaustive exploration of their
executions: every outcome of every choice point, within a bound on deviations."""

from gen import ind
from harness import Log, base_env, compile_for, vm_run_code  # noqa: F401

import builtins
import contextlib
import io


class Chooser:
    """Replays a prefix of choices and takes 0 after it; remembers the number of
    options at each point."""

    def __init__(self, prefix):
        self.prefix, self.n, self.options = prefix, 0, []

    def __call__(self, options):
        i = len(self.options)
        self.options.append(options)
        if i < len(self.prefix):
            return self.prefix[i]
        return 0


def successors(prefix, options, max_dev, max_depth):
    """The choice sequences that deviate from this run once more, later than it did."""
    if sum(1 for c in prefix if c) >= max_dev:
        return
    for i in range(len(prefix), min(len(options), max_depth)):
        for c in range(1, options[i]):
            yield tuple(prefix) + (0,) * (i - len(prefix)) + (c,)


class E1(Exception):
    pass


class E2(Exception):
    pass


class E3(E1):
    pass


class X(BaseException):
    pass


def make_env(chooser, raising, exits=True):
    def extra(log):
        def p(k, handled=None):
            """A point that may raise."""
            c = chooser(len(raising) + 1)
            log(["p", k, c] + ([handled[0], handled[1]] if handled else []))
            if c:
                raise raising[c - 1](k)
            return k

        def c(k):
            """A condition; false by default."""
            v = chooser(2)
            log(["c", k, v])
            return bool(v)

        def n(k):
            """A condition; true by default."""
            return not c(k)

        class CM(object):
            def __init__(self, k):
                self.k = k
                log(["cm", k])

            def __enter__(self):
                v = chooser(2)
                log(["enter", self.k, v])
                if v:
                    raise E2(("enter", self.k))
                return ("entered", self.k)

            def __exit__(self, t, v, tb):
                ch = chooser(3)
                log(["exit", self.k, t and t.__name__, type(v).__name__, getattr(v, "args", None),
                     ch])
                if ch == 2:
                    raise E2(("exit", self.k))
                return [False, 7, None][ch]

        class It(object):
            """A loop of two turns; it may end early by raising."""

            def __init__(self, k):
                self.k, self.i = k, 0

            def __iter__(self):
                return self

            def __next__(self):
                self.i += 1
                if self.i > 2:
                    log(["stop", self.k])
                    raise StopIteration
                log(["next", self.k, self.i])
                return self.i

            next = __next__

        class Old(object):
            """An iterable by __getitem__."""

            def __init__(self, k):
                self.k = k

            def __getitem__(self, i):
                ch = chooser(2) if i else 0
                log(["item", self.k, i, ch])
                if ch:
                    raise KeyError(i)
                if i > 1:
                    raise IndexError(i)
                return i

        env = dict(p=p, c=c, n=n, CM=CM, It=It, Old=Old, E1=E1, E2=E2, E3=E3, X=X)
        return env
    return extra


def native_code(code, extra):
    log = Log()
    env = base_env(log, extra)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(code, env)
        end = "ok"
    except Exception as e:
        end = ["exc", type(e).__name__]
    except BaseException as e:
        end = ["base", "exc", type(e).__name__]
    return [log.items, end]


def explore(src, cfg, raising, max_dev, max_depth, max_runs, ref_src=None, prelude=None):
    """Every execution of src within the bounds, on both. Returns (want, got, runs,
    choice points, truncated)."""
    ref = compile(src if ref_src is None else ref_src, "prog", "exec")
    code = compile_for(src, cfg)
    work = [()]
    runs = points = 0
    first = None
    while work:
        prefix = work.pop(0)
        ch = Chooser(prefix)
        want = native_code(ref, make_env(ch, raising))
        ch2 = Chooser(prefix)
        r = vm_run_code(code, cfg, make_env(ch2, raising))
        got = [r["log"], r["end"]]
        runs += 1
        points += len(ch.options) - len(prefix)
        if first is None:
            first = want
        if want != got:
            return {"choices": prefix, "obs": want}, {"choices": prefix, "obs": got}, runs, points, 0
        if runs < max_runs:
            work.extend(successors(prefix, ch.options, max_dev, max_depth))
        if runs >= max_runs and work:
            return first, first, runs, points, 1
    return first, first, runs, points, 0


# ------------------------------------------------------------------ tree space


class T:
    """A statement template. text has holes <A>, <B> ...; flags per hole say what
    the context of the hole is: loop, handler, fin (in a finally clause)."""

    def __init__(self, text, holes=None, since=(2, 4), until=(9, 9)):
        self.text, self.since, self.until = text, since, until
        self.holes = holes if holes is not None else {h: "" for h in "ABCD" if f"<{h}>" in text}

    def names(self):
        return sorted(self.holes)


class Ctx:
    __slots__ = ("loop", "handler", "fin", "func", "v", "gen")

    def __init__(self, **k):
        self.loop = self.handler = self.fin = self.gen = False
        self.func = True
        self.v = (3, 8)
        for a, b in k.items():
            setattr(self, a, b)

    def but(self, **k):
        c = Ctx()
        for a in self.__slots__:
            setattr(c, a, getattr(self, a))
        for a, b in k.items():
            setattr(c, a, b)
        return c

    def enter(self, kind):
        if kind == "loop":
            return self.but(loop=True, fin=False)
        if kind == "else":  # of a loop, or plain
            return self
        if kind == "handler":
            return self.but(handler=True)
        if kind == "fin":
            return self.but(fin=True, handler=self.handler if self.v >= (3, 0) else False)
        if kind == "try":
            return self.but(handler=self.handler if self.v >= (3, 0) else False)
        return self


def allowed(leaf, ctx):
    if leaf == "break":
        return ctx.loop and not (ctx.fin and ctx.v < (3, 8) and False)
    if leaf == "continue":
        return ctx.loop and not (ctx.fin and ctx.v < (3, 8))
    if leaf.startswith("return"):
        return ctx.func
    if leaf == "raise":
        return ctx.handler or ctx.v >= (3, 0)
    if leaf.startswith("yield") or leaf.startswith("log((yield"):
        return ctx.gen
    return True


def trees(templates, leaves, depth, ctx, one_compound=True):
    """All trees of at most that depth; with one_compound at most one hole of a
    template is filled with a compound statement (the others with leaves)."""
    for leaf in leaves:
        if allowed(leaf, ctx):
            yield leaf
    if depth == 0:
        return
    for t in templates:
        if not (t.since <= ctx.v <= t.until):
            continue
        yield from fill(t, templates, leaves, depth, ctx, one_compound)


def compounds(templates, leaves, depth, ctx, one_compound):
    for t in templates:
        if t.since <= ctx.v <= t.until:
            yield from fill(t, templates, leaves, depth, ctx, one_compound)


def fill(t, templates, leaves, depth, ctx, one_compound):
    names = t.names()
    ctxs = {h: ctx.enter(t.holes[h]) for h in names}
    lv = {h: [x for x in leaves if allowed(x, ctxs[h])] for h in names}

    def rec(i, acc, used):
        if i == len(names):
            yield (t, tuple(acc))
            return
        h = names[i]
        for x in lv[h]:
            yield from rec(i + 1, acc + [x], used)
        if depth > 1 and not (used and one_compound):
            for x in compounds(templates, leaves, depth - 1, ctxs[h], one_compound):
                yield from rec(i + 1, acc + [x], True)

    yield from rec(0, [], False)


def render(tree, counter=None):
    counter = counter if counter is not None else [0]
    if isinstance(tree, str):
        text = tree
        subs = ()
        names = []
    else:
        t, subs = tree
        text, names = t.text, t.names()
    lines = []
    mine = None
    for line in text.split("\n"):
        s = line.lstrip(" ")
        pad = len(line) - len(s)
        if s[:1] == "<" and s[2:] == ">":
            body = render(subs[names.index(s[1])], counter)
            lines.append(ind(body, pad))
        else:
            if "@" in line:
                mine = mine or str(counter[0] + 1)
                line = line.replace("@", mine)
            while "#" in line:
                counter[0] += 1
                line = line.replace("#", str(counter[0]), 1)
            lines.append(line)
    return "\n".join(lines)


def shape(tree):
    if isinstance(tree, str):
        return tree
    t, subs = tree
    return t.text.replace("\n", ";") + "{" + " | ".join(shape(s) for s in subs) + "}"
