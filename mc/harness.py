"""Exhaustive exploration of bounded spaces of executions of the real interpreter.

A property module (mc/props/NAME.py) defines a finite space of cases for each
configuration (bytecode version and implementation), and how one case is
executed on the interpreter and on the reference. `check.py` starts worker
processes, each of which enumerates the whole space of one configuration (or
one shard of it, by index: every case belongs to exactly one shard), runs every
case, and reports what it covered and every case where the interpreter and the
reference disagree.

A worker process works on one configuration only, except where a property is
about several interpreters in one process.
"""

import contextlib
import hashlib
import io
import json
import os
import re
import resource
import signal
import sys
import time
import types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XPY_REPO", "/repo")

for p in (REPO, HERE):
    if p not in sys.path:
        sys.path.insert(0, p)

V2 = [(2, 4), (2, 5), (2, 6), (2, 7)]
V3 = [(3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9), (3, 10)]
HOST = (3, 12)
ALL = V2 + V3 + [HOST]
PYPY = [(2, 7), (3, 2), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]


def cfgs(versions=ALL, pypy=()):
    return [(v, False) for v in versions] + [(v, True) for v in pypy]


def cfg_name(cfg):
    v, pypy = cfg
    return ("pypy" if pypy else "") + ".".join(map(str, v))


def cfg_parse(name):
    pypy = name.startswith("pypy")
    return tuple(map(int, name[4 if pypy else 0:].split("."))), pypy


# ---------------------------------------------------------------- observations

_SCALARS = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis), range,
            slice, type(NotImplemented), bytearray)


def canon(x, depth=0, sort_dicts=False):
    """A form of x that two interpreters can be compared on: no addresses, no
    identity, no class that only one of them has."""
    if type(x) in _SCALARS:
        return repr(x)
    if depth > 12:
        return "..."
    t = type(x)
    if t is list:
        return ["L"] + [canon(e, depth + 1) for e in x]
    if t is tuple:
        return ["T"] + [canon(e, depth + 1) for e in x]
    if t in (set, frozenset):
        return [t.__name__] + sorted((canon(e, depth + 1) for e in x), key=repr)
    if t is dict:
        return ["D"] + [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]
    if isinstance(x, BaseException):
        return ["E", t.__name__] + [canon(e, depth + 1) for e in x.args]
    if isinstance(x, type):
        return ["class", x.__name__]
    if isinstance(x, types.ModuleType):
        return ["module", x.__name__]
    if isinstance(x, types.BuiltinFunctionType):
        return ["builtin", x.__name__]
    name = t.__name__
    if name in ("function", "Function"):
        return ["function", x.__name__]
    if name in ("method", "Method"):
        return ["method", getattr(x, "__name__", "?")]
    if name in ("generator", "Generator"):
        return ["generator"]
    if isinstance(x, (int, str, float, list, tuple, dict)):
        base = next(b for b in (int, str, float, list, tuple, dict) if isinstance(x, b))
        return ["sub", name, canon(base(x), depth + 1)]
    return ["O", name]


class Log:
    """The observation channel of a program: log(x) records x as it is then."""

    def __init__(self, limit=4000):
        self.items = []
        self.limit = limit

    def __call__(self, *xs):
        if len(self.items) > self.limit:
            raise TooMuch("log limit")
        self.items.append(canon(xs[0]) if len(xs) == 1 else [canon(x) for x in xs])


class TooMuch(BaseException):
    pass


def base_env(log, extra=None):
    import builtins

    env = {"__name__": "m", "__builtins__": builtins, "log": log}

    def t(k, v=None):
        """Record that the program came past point k; the value of the point is v."""
        log(["t", k])
        return v

    env["t"] = t
    if extra:
        env.update(extra(log))
    return env


def exc_obs(e):
    return ["exc", type(e).__name__]


def native_run(src, filename="prog", extra=None, mode="exec", redirect=True):
    log = Log()
    env = base_env(log, extra)
    try:
        code = compile(src, filename, mode) if isinstance(src, str) else src
        with stdout_to(io.StringIO(), redirect) as out:
            exec(code, env)
        end = "ok"
    except Exception as e:
        end = exc_obs(e)
    except BaseException as e:
        end = ["base"] + exc_obs(e)
    return {"log": log.items, "end": end, "out": out.getvalue() if end == "ok" else ""}


@contextlib.contextmanager
def stdout_to(out, redirect=True):
    if redirect:
        with contextlib.redirect_stdout(out):
            yield out
    else:
        yield out


_vm_cls = None


# What makes the interpreter that runs a case, instead of new_vm().
VM_FACTORY = None


def new_vm(cfg, cls=None, **kw):
    from xdis.version_info import PythonImplementation

    if cls is None and VM_FACTORY is not None:
        return VM_FACTORY(cfg)
    if cls is None:
        from xpython.vm import PyVM as cls
    v, pypy = cfg
    return cls(
        v,
        PythonImplementation.PyPy if pypy else PythonImplementation.CPython,
        **kw,
    )


# EXTENDED_ARG prefixes to put on every instruction that has an operand.
FORCE_EXT = 0


def compile_for(src, cfg, filename="prog", min_ext=0):
    v, pypy = cfg
    if v >= (3, 12):
        return compile(src, filename, "exec")
    from pycompile import compile_source

    return compile_source(src, v, filename, min_ext=min_ext or FORCE_EXT, pypy=pypy)


def vm_run_code(code, cfg, extra=None, vm=None, env=None, log=None, redirect=True):
    log = log or Log()
    env = env if env is not None else base_env(log, extra)
    vm = vm or new_vm(cfg)
    out, err = io.StringIO(), io.StringIO()
    try:
        with stdout_to(out, redirect), contextlib.redirect_stderr(err):
            rc = vm.run_code(code, f_globals=env)
        if rc == 0:
            end = "ok"
        else:
            # An uncaught exception: the interpreter reports it as
            # "Type: value" after the traceback.
            end = ["exc", uncaught_type(out.getvalue() + "\n" + err.getvalue())]
    except Exception as e:
        end = ["raised"] + exc_obs(e)
    except BaseException as e:
        if isinstance(e, TooMuch):
            end = ["toomuch"]
        else:
            end = ["base"] + exc_obs(e)
    return {"log": log.items, "end": end, "out": out.getvalue() if end == "ok" else ""}


def uncaught_type(text):
    """The exception type an interpreter run reported last."""
    found = re.findall(r"^((?:\w+\.)*[A-Za-z_]\w*)(?::.*)?$", text, re.M)
    return found[-1].rpartition(".")[2] if found else "?"


def vm_run(src, cfg, extra=None, filename="prog", min_ext=0, vm=None, redirect=True):
    return vm_run_code(compile_for(src, cfg, filename, min_ext), cfg, extra, vm,
                       redirect=redirect)


def diff_program(src, cfg, extra=None, ref_src=None, min_ext=0):
    """Run one program on both; None if they agree."""
    want = native_run(src if ref_src is None else ref_src, extra=extra)
    got = vm_run(src, cfg, extra=extra, min_ext=min_ext)
    return want, got


# --------------------------------------------------------------------- worker


class Timeout(Exception):
    pass


CASE_CPU_S = 20.0
MAX_FAILURES = 25


def digest(x):
    return hashlib.blake2b(
        json.dumps(x, sort_keys=True, default=repr).encode(), digest_size=8
    ).digest()


class Worker:
    def __init__(self, prop, cfg, tier, shard, nshards, out_fd, progress):
        self.prop, self.cfg, self.tier = prop, cfg, tier
        self.shard, self.nshards = shard, nshards
        self.out_fd, self.progress = out_fd, progress
        self.res = {
            "cfg": cfg_name(cfg),
            "shard": shard,
            "cases": 0,
            "nontrivial": [],
            "failures": [],
            "samples": [],
            "counts": {},
            "truncated": False,
        }
        self.seen = set()
        self.current = None

    def count(self, name, n=1):
        self.res["counts"][name] = self.res["counts"].get(name, 0) + n

    def finish(self):
        self.res["nontrivial"] = [d.hex() for d in self.seen]
        data = json.dumps(self.res, default=repr).encode()
        while data:
            n = os.write(self.out_fd, data)
            data = data[n:]
        os.close(self.out_fd)

    def on_alarm(self, *_):
        key, payload = self.current
        self.res["failures"].append(
            {"key": key, "payload": payload, "want": "an answer",
             "got": f"no answer within {CASE_CPU_S} s of processor time"}
        )
        self.res["truncated"] = True
        self.finish()
        os._exit(0)

    def one(self, key, payload):
        """Run one case; returns a failure record or None."""
        self.current = key, payload
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            want, got = self.prop.run(self.cfg, payload)
        except Exception as e:
            import traceback

            if getattr(e, "harness", False):
                raise
            want, got = "no error", "error: " + traceback.format_exc()[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        self.last = want, got
        if want != got:
            return {"key": key, "payload": payload, "want": want, "got": got}
        return None

    def run(self):
        signal.signal(signal.SIGPROF, self.on_alarm)
        soft = 6 * 1024**3
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
        n = 0
        for i, (key, payload) in enumerate(self.prop.cases(self.cfg, self.tier)):
            if i % self.nshards != self.shard:
                continue
            if self.progress is not None:
                os.pwrite(self.progress, (key[:400] + "\n").encode().ljust(402), 0)
            f = self.one(key, payload)
            n += 1
            want, _ = self.last
            nontrivial = f is None and getattr(self.prop, "nontrivial", bool)(want)
            if nontrivial:
                self.seen.add(digest([cfg_name(self.cfg), want]))
            stats = getattr(self.prop, "stats", None)
            if stats is not None and f is None:
                for k, c in stats(payload, want).items():
                    self.count(k, c)
            if n in (1, 50, 2000) and len(self.res["samples"]) < 3:
                self.res["samples"].append(
                    {"cfg": cfg_name(self.cfg), "case": key, "payload": payload,
                     "observed": want}
                )
            if f:
                self.res["failures"].append(f)
                if len(self.res["failures"]) >= MAX_FAILURES:
                    self.res["truncated"] = True
                    break
        self.res["cases"] = n
        self.finish()
