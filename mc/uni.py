"""A universal object: every operation on it is logged and gives another one,
named after the operation, so that the log of a program is the sequence of the
operations it performed and the data flow between them."""

import itertools

BINOPS = "add sub mul truediv floordiv mod pow lshift rshift and or xor matmul".split()


class Universe:
    """One run: the truth of the n-th truth test is bits[n % len(bits)]; the
    fault-th event raises ValueError (fault is None: no fault)."""

    def __init__(self, log, bits=(1,), fault=None):
        self.log, self.bits, self.fault = log, bits, fault
        self.n_bool = self.n_ev = 0
        self.last_bool = self.last_value = None
        self.U = make_class(self)

    def ev(self, *what):
        self.last_bool = None
        self.log(["ev"] + [str(w) for w in what])
        self.n_ev += 1
        if self.n_ev - 1 == self.fault:
            raise ValueError("fault")

    def t(self, k):
        self.ev("t", k)
        return self.U(f"t{k}")


def nm(x):
    if isinstance(x, slice):
        return f"{nm(x.start)}:{nm(x.stop)}:{nm(x.step)}"
    if isinstance(x, tuple):
        return "(" + ",".join(map(nm, x)) + ")"
    if isinstance(x, list):
        return "[" + ",".join(map(nm, x)) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(nm, x))) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(nm(k) + "=" + nm(v) for k, v in x.items()) + "}"
    n = getattr(type(x), "_uname", None)
    return x.__dict__["_n"] if n else repr(x) if isinstance(
        x, (int, str, float, type(None), bytes)) else "<" + type(x).__name__.lower() + ">"


def make_class(univ):
    class U(object):
        _uname = True

        def __init__(self, n):
            self.__dict__["_n"] = n

        def __getattr__(self, a):
            if a[:1] != "a" or len(a) > 3:
                raise AttributeError(a)
            univ.ev("getattr", nm(self), a)
            return U(f"{nm(self)}.{a}")

        def __setattr__(self, a, v):
            univ.ev("setattr", nm(self), a, nm(v))

        def __delattr__(self, a):
            univ.ev("delattr", nm(self), a)

        def __getitem__(self, i):
            univ.ev("getitem", nm(self), nm(i))
            return U(f"{nm(self)}[{nm(i)}]")

        def __setitem__(self, i, v):
            univ.ev("setitem", nm(self), nm(i), nm(v))

        def __delitem__(self, i):
            univ.ev("delitem", nm(self), nm(i))

        def __call__(self, *a, **k):
            k = sorted((x, nm(v)) for x, v in k.items())
            univ.ev("call", nm(self), nm(a), k)
            return U(f"{nm(self)}{nm(a)}{k}".replace(" ", ""))

        def __iter__(self):
            univ.ev("iter", nm(self))
            for i in range(2):
                yield U(f"{nm(self)}#{i}")

        def keys(self):
            univ.ev("keys", nm(self))
            n = str(abs(hash(nm(self))) % 1000) if False else nm(self)
            return ["k" + n, "l" + n]

        def __bool__(self):
            # How often one truth value is tested in a row is up to the optimizer
            # of a compiler (3.12 itself tests a twice in "a and b or c").
            if univ.last_bool is self:
                return univ.last_value
            b = univ.bits[univ.n_bool % len(univ.bits)]
            univ.n_bool += 1
            univ.ev("bool", nm(self), b)
            univ.last_bool, univ.last_value = self, bool(b)
            return bool(b)

        def __contains__(self, x):
            univ.ev("contains", nm(self), nm(x))
            b = univ.bits[univ.n_bool % len(univ.bits)]
            univ.n_bool += 1
            return bool(b)

        def __format__(self, spec):
            univ.ev("format", nm(self), spec)
            return f"F{nm(self)}|{spec}|"

        def __repr__(self):
            return f"R{nm(self)}"

        def __str__(self):
            return f"S{nm(self)}"

        def __hash__(self):
            return hash(nm(self))

        def __enter__(self):
            univ.ev("enter", nm(self))
            return U(f"{nm(self)}.enter")

        def __exit__(self, t, v, tb):
            univ.ev("exit", nm(self), t and t.__name__)
            b = univ.bits[univ.n_bool % len(univ.bits)]
            univ.n_bool += 1
            return bool(b)

        __nonzero__ = __bool__

    def binop(name):
        def op(self, o):
            univ.ev(name, nm(self), nm(o))
            return U(f"({nm(self)} {name} {nm(o)})")
        return op

    for b in BINOPS:
        setattr(U, f"__{b}__", binop(b))
        setattr(U, f"__r{b}__", binop("r" + b))
        if b != "sub":
            setattr(U, f"__i{b}__", binop("i" + b))
    for b in "lt le gt ge eq ne".split():
        setattr(U, f"__{b}__", binop(b))

    def unop(name):
        def op(self):
            univ.ev(name, nm(self))
            return U(f"({name} {nm(self)})")
        return op

    for b in "neg pos invert".split():
        setattr(U, f"__{b}__", unop(b))
    return U
