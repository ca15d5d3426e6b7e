#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "mc"))
from props import INDEX  # noqa: E402

VM, TR, PO, EX, BI = ("xpython/vm.py", "xpython/vmtrace.py", "xpython/pyobj.py",
                      "xpython/execfile.py", "xpython/builtins.py")
BO = "xpython/byteop/"
DIFF = ("stateless exploration of the real interpreter: exhaustive enumeration of a bounded "
        "space of programs x bytecode versions, against a reference run")

P = []


def prop(id, title, statement, over, quant, tests, files, mech, observe, level="exploration",
         technique=DIFF, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                  files=files, mech=mech, observe=observe, level=level, technique=technique,
                  note=note, state=state))


TESTS = ("The tests run fixed example programs from a few versions and compare what they print; "
         "they sample a handful of ")
NOTE = ("Every element of the stated space is executed on the interpreter built from /repo, with "
        "bytecode for each supported version made by the compiler in /verif/mc/pycompile.py "
        "(validated instruction by instruction against the .pyc files real compilers made). ")

prop("V01", "Operators, comparisons and truth tests give the language's results",
     "For every operator and every pair of operand types, evaluating the operator in a bytecode "
     "program gives the value, type of exception, operand mutation and sequence of special-method "
     "calls that the language defines, in every supported bytecode version. In-place operators "
     "rebind what they return, and 2.x division follows the 2.x rules.",
     ["inputs", "programs", "configurations"],
     "All unary, binary, in-place and comparison operators x all pairs of a pool of operands "
     "(numbers, strings, containers, objects with normal, reflected, in-place, NotImplemented or "
     "raising special methods), all supported versions and PyPy variants.",
     TESTS + "operator and operand pairs, none with reflected or failing special methods.",
     [VM, BO + "byteop.py", BO + "byteop24.py", BO + "byteop25.py", BO + "byteop35.py",
      BO + "byteop39.py", BO + "byteop311.py"],
     [("binary, in-place and unary operator tables", "xpython/vm.py binary_operator, "
       "unary_operator; xpython/byteop/byteop24.py inplace_operator, COMPARE_OPERATORS")],
     ["values and exceptions a program logs"],
     note=NOTE + "Reference: the same program on the host CPython 3.12, with the 2.x rules modelled.")
prop("V02", "Operands are evaluated in order, once, and not past a failure",
     "Every composite expression and statement evaluates its parts in the order the language "
     "defines, each exactly once, skips what short-circuiting skips, and evaluates nothing after "
     "a part that raises. Moving a value about (names, arguments, containers, returns, closures) "
     "performs no operation of it: only those happen that the program asks for.",
     ["programs", "fault_sequences", "configurations"],
     "All expression and statement forms, nested to depth 2, all truth outcomes up to the bound, "
     "and an exception raised at every single event of every run; 130 statements that move an "
     "object all of whose special methods tell or raise.",
     TESTS + "nestings and never inject a failure into an operand.",
     [VM, BO + "byteop24.py", BO + "byteop36.py", BO + "byteop39.py"],
     [("operand stack discipline of each instruction", "xpython/byteop/*.py; xpython/vm.py "
       "push/pop/popn/peek, parse_byte_and_args, dispatch")],
     ["sequence of operations a program performs on a universal object"],
     level="fault_enumeration",
     technique="exhaustive single-fault enumeration over a bounded space of programs, each run on "
               "the real interpreter and on a reference",
     note=NOTE + "Every single fault position of every program in the space is executed.")
prop("V03", "Displays, subscripts, slices, unpacking and comprehensions",
     "Container displays, subscript and slice reads, writes and deletes, sequence unpacking and "
     "all kinds of comprehensions give the values, mutations and exceptions the language defines, "
     "for every shape and any iterable, however many elements there are.",
     ["programs", "inputs", "configurations"],
     "All star patterns of displays up to 4 elements, all slices over a grid of bounds x container "
     "kinds x accesses, all target patterns x iterables (too short, too long, failing, not "
     "iterable), all comprehension kinds x clause shapes x nestings.",
     TESTS + "shapes; mismatched unpacking and lazily failing iterables are not among them.",
     [BO + "byteop24.py", BO + "byteop27.py", BO + "byteop35.py", BO + "byteop39.py", VM],
     [("display, slice, unpack and comprehension opcodes", "xpython/byteop/byteop24.py "
       "BUILD_*, SLICE*, STORE_SLICE*, UNPACK_SEQUENCE, LIST_APPEND; byteop35.py BUILD_*_UNPACK; "
       "byteop39.py *_EXTEND, *_UPDATE")],
     ["values and exceptions a program logs"], note=NOTE)
exec(open(os.path.join(VERIF, "tools", "meta_more.py")).read()
     if os.path.exists(os.path.join(VERIF, "tools", "meta_more.py")) else "")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fp:
        for p in P:
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in INDEX:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python mc/check.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python mc/check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p.get("na") or "no check has been built for it yet"})
    json.dump({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": checks, "not_applicable": na,
        "notes": "Each check imports the interpreter from /repo's working tree (nothing is built "
                 "ahead); a violation can be replayed with: mc/check.py --replay FILE.",
    }, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]


main()
