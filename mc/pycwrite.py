"""Bytecode files of every version, written from the format descriptions (independent of the loader)."""

import marshal
import struct
import types

# The magic numbers of released versions.
MAGICS = {
    ((2, 4), False): (62061,), ((2, 5), False): (62131,), ((2, 6), False): (62161,), ((2, 7), False): (62211,),
    ((3, 1), False): (3151,), ((3, 2), False): (3180,), ((3, 3), False): (3230,), ((3, 4), False): (3310,),
    ((3, 5), False): (3350, 3351), ((3, 6), False): (3379,), ((3, 7), False): (3394,), ((3, 8), False): (3413,),
    ((3, 9), False): (3425,), ((3, 10), False): (3439,), ((3, 11), False): (3495,), ((3, 12), False): (3531,),
    ((2, 7), True): (62218,), ((3, 2), True): (3187, 48), ((3, 5), True): (112,), ((3, 6), True): (192,),
    ((3, 7), True): (240,), ((3, 8), True): (256,), ((3, 9), True): (336,),
}


def header(cfg, magic, mtime=0, size=0, kind="mtime"):
    v, pypy = cfg
    out = struct.pack("<H", magic) + b"\r\n"
    if v >= (3, 7):
        if kind == "mtime":
            return out + struct.pack("<III", 0, mtime & 0xFFFFFFFF, size)
        return out + struct.pack("<IQ", {"hash": 1, "checked": 3}[kind], 0x1122334455667788)
    out += struct.pack("<I", mtime & 0xFFFFFFFF)
    if v >= (3, 3) or magic in (112, 192):
        out += struct.pack("<I", size)
    return out


class Writer:
    """marshal.dumps for the code objects of pycompile."""

    def __init__(self, version, refs):
        self.v, self.refs = version, refs
        self.out = bytearray()
        self.table = {}
        self.n = 0

    def long(self, n):
        self.out += struct.pack("<i", n)

    def start(self, code, key):
        """Write a type code; True if a reference to an equal object will do."""
        if self.refs and self.v >= (3, 4):
            if key in self.table:
                self.out += b"r"
                self.long(self.table[key])
                return True
            self.table[key] = self.n
            self.n += 1
            self.out.append(ord(code) | 0x80)
        else:
            self.out += code.encode()
        return False

    def byte_string(self, b):
        if not self.start("s", ("s", b)):
            self.long(len(b))
            self.out += b

    def string(self, s, name=False):
        if self.v < (3, 0):
            b = s.encode("latin-1")
            if name or self.refs:
                if self.refs and b in self.table:
                    self.out += b"R"
                    self.long(self.table[b])
                    return
                self.table[b] = len(self.table)
                self.out += b"t"
            else:
                self.out += b"s"
            self.long(len(b))
            self.out += b
            return
        b = s.encode("utf-8", "surrogatepass")
        ascii_ = s.isascii()
        if self.v >= (3, 4) and ascii_ and len(b) < 256 and self.refs:
            if not self.start("Z" if name else "z", ("u", s)):
                self.out.append(len(b))
                self.out += b
            return
        if not self.start(("A" if name else "a") if ascii_ and self.v >= (3, 4) else "u", ("u", s)):
            self.long(len(b))
            self.out += b

    def integer(self, n):
        if -2 ** 31 <= n < 2 ** 31:
            if not self.start("i", ("i", n)):
                self.long(n)
        else:
            if self.start("l", ("l", n)):
                return
            digits, m = [], abs(n)
            while m:
                digits.append(m & 0x7FFF)
                m >>= 15
            self.long(len(digits) if n > 0 else -len(digits))
            for d in digits:
                self.out += struct.pack("<H", d)

    def number(self, f):
        if self.v < (2, 5):
            b = repr(f).encode()
            return bytes([len(b)]) + b
        return struct.pack("<d", f)

    def obj(self, x):
        if x is None:
            self.out += b"N"
        elif x is True:
            self.out += b"T"
        elif x is False:
            self.out += b"F"
        elif x is Ellipsis:
            self.out += b"."
        elif isinstance(x, int):
            self.integer(x)
        elif isinstance(x, float):
            if not self.start("f" if self.v < (2, 5) else "g", ("g", struct.pack("<d", x))):
                self.out += self.number(x)
        elif isinstance(x, complex):
            if not self.start("x" if self.v < (2, 5) else "y", ("y", struct.pack("<dd", x.real, x.imag))):
                self.out += self.number(x.real) + self.number(x.imag)
        elif isinstance(x, str):
            self.string(x)
        elif isinstance(x, (bytes, bytearray)):
            self.byte_string(bytes(x))
        elif isinstance(x, tuple):
            key = ("(", repr(x), id(x))
            if self.v >= (3, 4) and len(x) < 256 and self.refs:
                if self.start(")", key):
                    return
                self.out.append(len(x))
            else:
                # (never with a flag: its loader puts () in the table for it)
                if self.refs and self.v >= (3, 4):
                    self.n += 0
                self.out += b"("
                self.long(len(x))
            for y in x:
                self.obj(y)
        elif isinstance(x, frozenset):
            self.out += b">"
            self.long(len(x))
            for y in sorted(x, key=repr):
                self.obj(y)
        elif hasattr(x, "co_code"):
            self.code(x)
        else:
            raise TypeError(type(x))

    def names(self, t):
        self.out += b"("
        self.long(len(t))
        for s in t:
            self.string(s, True)

    def code(self, c):
        v = self.v
        self.start("c", ("c", id(c)))
        self.long(c.co_argcount)
        if v >= (3, 8):
            self.long(getattr(c, "co_posonlyargcount", 0) or 0)
        if v >= (3, 0):
            self.long(c.co_kwonlyargcount)
        self.long(c.co_nlocals)
        self.long(c.co_stacksize)
        self.long(c.co_flags)
        self.byte_string(c.co_code if isinstance(c.co_code, bytes) else c.co_code.encode("latin-1"))
        self.obj(tuple(c.co_consts))
        self.names(c.co_names)
        self.names(c.co_varnames)
        self.names(c.co_freevars)
        self.names(c.co_cellvars)
        self.string(c.co_filename)
        self.string(c.co_name, True)
        self.long(c.co_firstlineno)
        table = c.co_linetable if v >= (3, 10) else c.co_lnotab
        self.byte_string(table if isinstance(table, bytes) else table.encode("latin-1"))


def dumps(code, cfg, refs=False):
    if isinstance(code, types.CodeType):
        return marshal.dumps(code)
    w = Writer(cfg[0], refs)
    w.obj(code)
    return bytes(w.out)
