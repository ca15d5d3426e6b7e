prop("V04", "Branches and loops take the path their conditions say",
     "Every nest of if, conditional expression, boolean operator, while, for, loop else, break, "
     "continue, return and assert takes exactly the path that its conditions and iterators give, "
     "in functions, modules and class bodies of every supported bytecode version.",
     ["programs", "histories", "configurations"],
     "All statement trees over 24 templates to the depth bound, and for each all outcomes of the "
     "conditions and iterations met, explored depth first.",
     TESTS + "control flow shapes, each on one path.",
     [VM, BO + "byteop24.py", BO + "byteop27.py", BO + "byteop38.py", BO + "byteop310.py"],
     [("jumps, loop blocks, break and continue", "xpython/byteop/byteop24.py JUMP_*, SETUP_LOOP, "
       "FOR_ITER, CONTINUE_LOOP, BREAK_LOOP; xpython/vm.py jump, manage_block_stack; "
       "byteop310.py jump targets")],
     ["points a program passes, and the values it logs"], level="model_checking",
     technique="explicit-state DFS over the choice points of each program of a bounded space; every "
               "execution is run on the real interpreter and on a reference",
     note=NOTE + "States are choice points with their history; every trace is an execution of the "
                 "implementation, so no separate model has to be bound to it.",
     state=[("choice history", "the outcomes of the conditions and iterators so far",
             "mc/flow.py Chooser")])
FAULT = ("exhaustive enumeration of faults (each event of each run made to raise each kind of "
         "exception, up to the bound) over a bounded space of programs, on the real interpreter "
         "and on a reference")
prop("V05", "An exception runs exactly the handlers and finally blocks it should",
     "Wherever an exception is raised in a nest of try, except, else, finally, loops and calls, "
     "the handlers, finally and else blocks that run, their order, what a bare raise and the "
     "handled exception are in each, and what leaves the nest are those of the language. A break, "
     "continue or return through finally does the same.",
     ["programs", "fault_sequences", "configurations"],
     "All nests of 30-odd try and loop templates to the depth bound, with every combination of "
     "raising points and condition outcomes up to the bound.",
     TESTS + "try statements with one exception each.",
     [VM, PO, BO + "byteop24.py", BO + "byteop32.py", BO + "byteop38.py", BO + "byteop39.py"],
     [("block stack unwinding and exception matching", "xpython/vm.py unwind_block, "
       "manage_block_stack, handle exceptions in resume_frame; xpython/byteop/*.py SETUP_EXCEPT, "
       "SETUP_FINALLY, END_FINALLY, POP_EXCEPT, RERAISE, RAISE_VARARGS, POP_FINALLY, CALL_FINALLY")],
     ["points a program passes, exceptions it sees and the one that leaves it"],
     level="fault_enumeration", technique=FAULT,
     note=NOTE + "Every raising point of every explored run is made to raise, singly and in "
                 "bounded combinations.")
prop("V06", "with statements enter, leave and suppress as the language says",
     "Each context manager entered is left exactly once, in reverse order, with the type and value "
     "of the exception that leaves its block or with None, whether the block ends, raises, "
     "returns, breaks or continues. A true result of __exit__, and only that, stops the exception.",
     ["programs", "fault_sequences", "configurations"],
     "All nests of with, try and loop templates to the depth bound, with each of enter, exit and "
     "body events raising, and each exit suppressing or not.",
     TESTS + "with statements.",
     [BO + "byteop26.py", BO + "byteop27.py", BO + "byteop32.py", BO + "byteop35.py",
      BO + "byteop38.py", BO + "byteop39.py", VM],
     [("SETUP_WITH and WITH_CLEANUP in each version", "xpython/byteop/*.py SETUP_WITH, "
       "WITH_CLEANUP, WITH_CLEANUP_START, WITH_CLEANUP_FINISH, WITH_EXCEPT_START, BEFORE_WITH")],
     ["calls that context managers get, and what leaves the statement"],
     level="fault_enumeration", technique=FAULT,
     note=NOTE + "The traceback argument of __exit__ is not compared.")
prop("V07", "Arguments are bound to parameters as the language defines",
     "For every signature and every call, the callee gets each argument in the parameter the "
     "language defines, with defaults, *args and **kw as they should be, or the call is a TypeError "
     "and the function does not run. This holds alike for functions, methods, classes and native "
     "callables, and for positional, keyword, * and ** arguments.",
     ["inputs", "programs", "configurations"],
     "All signatures (0-3 positional, defaults, star, double star, keyword-only, positional-only, "
     "tuple parameters) x all calls up to 4 positional, keyword sets, star and double star forms "
     "x 9 kinds of callable.",
     TESTS + "signatures and calls, and few that must fail.",
     [PO, "xpython/stdlib/inspect2.py", "xpython/stdlib/inspect3.py", BO + "byteop.py",
      BO + "byteop24.py", BO + "byteop35.py", BO + "byteop36.py"],
     [("call opcodes", "xpython/byteop/*.py CALL_FUNCTION*, CALL_METHOD*, BUILD_*_UNPACK_WITH_CALL, "
       "call_function"),
      ("argument binding", "xpython/stdlib/inspect2.py and inspect3.py getcallargs; "
       "xpython/pyobj.py Function.__call__, Method.__call__")],
     ["parameters a function sees, and the exception of a call that fails"], note=NOTE)
prop("V08", "Functions are made, decorated and called as defined",
     "A def or lambda evaluates decorators and defaults in order and once, at the definition; "
     "mutable defaults are shared between calls; names, docstrings, annotations and attributes are "
     "those of the source; recursion of any shape gives each activation its own variables.",
     ["programs", "histories", "configurations"],
     "All definition sites x function kinds, call histories on mutable defaults, decorator chains "
     "to length 3 over 6 decorators, attribute operations x 6 kinds of function, recursion shapes "
     "and depths.",
     TESTS + "function definitions.",
     [PO, BO + "byteop24.py", BO + "byteop32.py", BO + "byteop33.py", BO + "byteop34.py",
      BO + "byteop36.py", BO + "byteop310.py"],
     [("MAKE_FUNCTION and MAKE_CLOSURE", "xpython/byteop/*.py MAKE_FUNCTION, MAKE_CLOSURE"),
      ("the function object", "xpython/pyobj.py Function")],
     ["values a program logs"], note=NOTE)
prop("V09", "Names resolve to the scope the language assigns them",
     "For every nest of module, function, class and comprehension scopes and every use of global "
     "and nonlocal, each read, write, augmented assignment and del acts on the variable the "
     "language designates, or fails as defined when it is unbound. Closures share a variable "
     "exactly when they come from the same activation, whatever the order of calls.",
     ["programs", "histories", "configurations"],
     "All nests of 2 scopes (3 in a rotation) x declarations x operations before and after; all "
     "histories of calls to length 4 (5) on two instances of four closure shapes.",
     TESTS + "closures and globals.",
     [VM, PO, BO + "byteop24.py", BO + "byteop30.py", BO + "byteop34.py", "xpython/builtins.py"],
     [("name and cell opcodes", "xpython/byteop/*.py LOAD_NAME, LOAD_GLOBAL, LOAD_FAST, LOAD_DEREF, "
       "LOAD_CLASSDEREF, LOAD_CLOSURE, STORE_*, DELETE_*"),
      ("frames and cells", "xpython/pyobj.py Frame, Cell; xpython/vm.py make_frame")],
     ["value each operation sees, or the exception it raises"], level="model_checking",
     technique="explicit enumeration of scope nests and of histories of closure calls, each "
               "executed on the real interpreter and on the reference implementation",
     note=NOTE)
prop("V10", "Generators run as the language defines, for every history of use",
     "For every body and every interleaved history of next, send, iteration and delegation over "
     "two generators, each resumption continues where that generator stopped with its own "
     "variables, blocks and stack, yields the same value and ends in the same way.",
     ["programs", "histories", "configurations"],
     "60 generator bodies x all histories of length up to 3 over 6 operations, up to 5 over 3 "
     "(length 5 in a rotation in the quick tier).",
     TESTS + "generators, most driven by one for loop.",
     [VM, PO, BO + "byteop24.py", BO + "byteop33.py", BO + "byteop37.py"],
     [("suspending and resuming a frame", "xpython/pyobj.py Generator; xpython/vm.py resume_frame, "
       "eval_frame; YIELD_VALUE, YIELD_FROM, GET_YIELD_FROM_ITER, GET_ITER")],
     ["values and exceptions each operation gives, and the effects of the body in between"],
     level="model_checking",
     technique="explicit enumeration of operation histories over generator bodies, each executed on "
               "the real interpreter and on the reference implementation",
     note=NOTE + "throw() and close() do not exist in this interpreter and are not used.")
prop("V11", "Classes, metaclasses, attributes and super behave as defined",
     "Creating a class calls the metaclass, __prepare__ and class hooks once, in order, with the "
     "right arguments; method resolution, super, descriptors, bound, class and static methods and "
     "attribute hooks give the same results whatever the inheritance graph and the order of "
     "attribute operations.",
     ["programs", "histories", "configurations"],
     "All inheritance graphs of up to 4 classes x definers x super forms (4 in a rotation), attribute "
     "histories to length 4 over 9 operations, 14 descriptor kinds x places x accesses, metaclass "
     "shapes x bodies x ways to name the metaclass.",
     TESTS + "classes.",
     ["xpython/builtins.py", PO, BO + "byteop.py", BO + "byteop24.py", BO + "byteop34.py"],
     [("class creation", "xpython/builtins.py build_class, calculate_metaclass, "
       "bind_special_methods; xpython/byteop/byteop24.py BUILD_CLASS"),
      ("methods and super", "xpython/pyobj.py Function.__get__, Method; xpython/builtins.py "
       "builtin_super")],
     ["values and exceptions the program logs, calls that hooks get"], note=NOTE)
prop("V12", "Formatted strings, % and format give the text of the language",
     "Every f-string, % expression and str.format call evaluates its operands once and in order, "
     "applies conversions and nested specifications as defined, calls the formatting methods of "
     "its operands with the right arguments, and gives the text, or the exception, of the language.",
     ["inputs", "programs", "configurations"],
     "All single fields of 26 values x 4 conversions x 15 specifications, all sequences of up to 3 "
     "pieces, 16 values x 24 % conversions, 17 argument lists x 20 str.format fields.",
     TESTS + "formats.",
     [BO + "byteop36.py", BO + "byteop.py", BO + "byteop24.py"],
     [("FORMAT_VALUE and BUILD_STRING", "xpython/byteop/byteop36.py FORMAT_VALUE, BUILD_STRING"),
      ("BINARY_MODULO", "xpython/byteop/byteop.py BINARY_OPERATORS")],
     ["text, exception, and formatting methods called"], note=NOTE)
prop("V13", "The 2.x print statement writes what and where 2.x defines",
     "For every sequence of print statements and direct writes on files, each file gets exactly the "
     "writes of CPython 2.7: items, the spaces that softspace asks for, and newlines, in order of "
     "evaluation, with the softspace of the file kept as defined even when an item or write fails.",
     ["histories", "inputs", "configurations"],
     "All sequences of up to 3 of 16 operations on each kind of file, 4 in a rotation, and on two files.",
     TESTS + "print statements.",
     [BO + "byteop.py", BO + "byteop24.py"],
     [("PRINT_ITEM and PRINT_NEWLINE", "xpython/byteop/byteop24.py PRINT_*; xpython/byteop/byteop.py "
       "print_item, print_newline")],
     ["each write to each file, and its softspace after each statement"], level="model_checking",
     technique="explicit enumeration of statement histories, executed on the real interpreter and "
               "compared write by write with a model of the statement",
     note="The model is that of ceval.c of 2.7. A program that assigns sys.stdout is a known finding.")
prop("V14", "Size does not matter: wide operands, prefixes and far jumps",
     "A program does the same however wide its operands are encoded and however large its tables and "
     "jumps become: EXTENDED_ARG prefixes compose to one operand in every version, and names, "
     "constants, variables, cells, arguments, items and jump distances beyond one or two bytes work.",
     ["programs", "inputs", "configurations"],
     "A slice of the programs of V01 to V12, each with 1, 2 or 3 prefixes on every instruction; 27 "
     "constructs x sizes around the limits of 7, 8 and 16 bits.",
     TESTS + "programs, few of which need an EXTENDED_ARG.",
     [VM, BO + "byteop24.py", BO + "byteop36.py", BO + "byteop310.py"],
     [("decoding of instructions", "xpython/vm.py parse_byte_and_args; jump opcodes in xpython/byteop/*.py")],
     ["values a program logs"], note=NOTE + "The prefix family is metamorphic: the encoding changes, the result must not.")
TR = "xpython/vmtrace.py"
prop("V16", "Tracing changes nothing and its events tell what the program does",
     "A program run with a callback for any set of event kinds does what it does without one, and "
     "the events are a true account: each call, resumption, yield and end of each frame once and in "
     "order, each executed instruction once with its real offset, operand and line, line events exactly "
     "where execution comes to a line, and exceptions where they are raised and passed on.",
     ["programs", "histories", "configurations"],
     "A slice of the cases of every other property, run with all events; 27 programs x all 64 sets of "
     "event kinds x encodings with and without EXTENDED_ARG.",
     "test_vmtrace.py looks at the events of a handful of programs on one version.",
     [TR, VM, PO],
     [("delivery of events", "xpython/vmtrace.py PyVMTraced eval_frame, resume_frame, dispatch, callback "
       "calls"), ("line tables and instruction decoding", "xpython/vm.py make_frame linestarts, "
       "parse_byte_and_args; xpython/pyobj.py Frame.line_number, Traceback")],
     ["each event: kind, offset, opcode, operand, line, frame, stack and block heights"],
     level="model_checking",
     technique="the event history of each enumerated run is checked transition by transition by an "
               "explicit automaton (activations x own decoding of the bytecode), and each set of kinds "
               "against the projection of the complete history",
     note="The automaton decodes the bytecode itself; it shares no code with the interpreter.",
     state=[("activation stack", "frames that are running or suspended, with their last offset, line, "
             "stack and block heights", "mc/monitor.py Monitor")])
prop("V17", "Callback answers and breakpoints control the run as documented",
     "Whatever event a callback answers, and however (off, finish, step over, lines only, return, skip), "
     "the events that follow are exactly those the answer asks for in that and in the called frames, "
     "and the program does the same unless the answer ends a call or skips an instruction. A breakpoint "
     "at any instruction stops there each time it is reached, and changes nothing else.",
     ["programs", "histories", "configurations"],
     "Every event of the run of 27 programs x every answer; a breakpoint at every instruction of every "
     "function, kept, removed or hit twice.",
     "test_vmtrace.py has a few fixed answers and one breakpoint.",
     [TR, VM],
     [("answers", "xpython/vmtrace.py PyVMTraced eval_frame, handling of the callback's result, "
       "PyVMEVENT_*"), ("breakpoints", "xpython/vmtrace.py add_breakpoint, remove_breakpoint; "
       "xpython/vm.py parse_byte_and_args replay")],
     ["the events after the answer, what the program logs, its result"],
     level="model_checking",
     technique="exhaustive enumeration of one deviating answer at every event; a model of activations "
               "predicts the remaining event history, and the real run has to give exactly that",
     note="The model starts from the history with all events, which V16 checks.",
     state=[("activation stack", "frames with the kinds of events they report", "mc/props/control.py "
             "predict")])
prop("V19", "exec, eval, compile and the namespaces work on the right names",
     "Code given to exec, eval or the 2.x exec statement, as text or code object, in any place and with "
     "any choice of namespaces, reads and writes the names it should, gives the value or exception it "
     "should, and leaves other namespaces alone; globals(), locals(), vars() and dir() show the namespace "
     "of the interpreted frame that calls them.",
     ["programs", "inputs", "configurations"],
     "7 places x exec and eval x 3 kinds of source x 5 choices of namespaces x 14 to 16 snippets; 60 "
     "programs on the functions that show a namespace, 20 on the exec statement.",
     "The tests call exec and eval a few times, at module level.",
     [BO + "byteop.py", BO + "byteop24.py", BO + "byteop311.py", VM],
     [("functions that depend on the frame", "xpython/byteop/byteop.py "
       "call_function_with_args_resolved, fill_namespaces, current_locals"),
      ("the exec statement", "xpython/byteop/byteop24.py EXEC_STMT"),
      ("nested runs", "xpython/vm.py run_code, make_frame")],
     ["values, exceptions and namespaces"], note=NOTE)
prop("V20", "Running a file, module or string gives the right status and restores the host",
     "run_python_file, run_python_module, run_python_string and the xpython command run exactly the program "
     "named, which sees the right __name__, __file__, __package__, sys.argv and sys.path; the exit status is "
     "that of the way the program ended, and what cannot be run ends with its documented status. "
     "Afterwards sys.argv, sys.path, sys.modules['__main__'] and the directory of the host are as before, "
     "however the program ended and whatever it did to them.",
     ["programs", "histories", "inputs"],
     "7 forms of invocation x 36 endings x 4 argument lists, with and without a callback; changes of host "
     "state; all pairs of 27 runs in one process; 22 source texts; command lines.",
     "The tests run example programs one at a time and look only at their output.",
     ["xpython/execfile.py", "xpython/__main__.py", VM],
     [("drivers", "xpython/execfile.py run_python_file, run_python_module, run_python_string, "
       "exec_code_object"), ("command line", "xpython/__main__.py main")],
     ["exit status or exception, output, sys.argv, sys.path, sys.modules, current directory"],
     level="model_checking",
     technique="exhaustive enumeration of invocations, endings, host-state changes and sequences of them, "
               "each run through the real drivers and compared with a model of status and host state",
     state=[("host state", "sys.argv, sys.path, sys.modules['__main__'], cwd", "mc/props/driver.py invoke")])
prop("V23", "import statements bind the right names and run the right modules",
     "import, from-import, import * and relative imports, anywhere in a program and in any order, bind the "
     "names and values they should, run each module's body once and in the right order, leave the table of "
     "modules as it should be, and fail with the right exception without binding anything more.",
     ["programs", "histories", "configurations"],
     "110 statements in 9 places; all pairs of 40; relative statements in 3 kinds of package; histories of "
     "up to 3 of 13 operations on the module table.",
     "The tests import a handful of standard modules.",
     [BO + "byteop24.py", BO + "byteop25.py", BO + "byteop.py"],
     [("IMPORT_NAME, IMPORT_FROM, IMPORT_STAR", "xpython/byteop/byteop24.py"),
      ("2.5 levels", "xpython/byteop/byteop25.py IMPORT_NAME")],
     ["bound names and values, order of module bodies, exceptions, sys.modules"],
     level="model_checking", note=NOTE,
     state=[("module table", "sys.modules entries, their bodies run or failed", "mc/props/imports.py MODULES")])
prop("V25", "A bytecode file runs as what it holds, or is refused",
     "A bytecode file of any supported version and implementation, with any kind of header and encoding, runs "
     "in that version's interpreter with the effect of its source, and warns exactly if its source is newer. "
     "A file that is cut short, holds no code, or is of an unsupported version or implementation is refused "
     "with the documented exception, and nothing of it runs.",
     ["inputs", "configurations"],
     "14 programs x released magic numbers x headers x encodings; every truncation of a file; all 65536 magic "
     "numbers; bodies that are no code; ages of the source.",
     "The tests run a set of files made by each version; no damaged or foreign ones.",
     ["xpython/execfile.py", "xpython/version_info.py", BO + "__init__.py"],
     [("loading and refusal", "xpython/execfile.py run_python_file, get_supported_versions"),
      ("choice of interpreter", "xpython/byteop/__init__.py get_byteop; xpython/vm.py PyVM.__init__")],
     ["what the program logs, its status, the refusal, the warning"],
     level="model_checking",
     technique="exhaustive enumeration of file contents within the stated families, each run through "
               "run_python_file; whole files against the reference run of their source, others against refusal",
     note="Parsing of the marshalled data is done by the xdis library, whose own defects are left out except "
          "where the findings list them.",
     state=[("file", "magic number, header, body and its truncations", "mc/pycwrite.py")])
prop("V18", "Programs and interpreters in one process do not disturb each other",
     "A program does what it does alone, whichever programs ran before it on the same interpreter and however they "
     "ended, and whichever programs of the same or another version run inside it or it runs inside of. Functions "
     "and generators of a program keep working in their own version when they are called after its run, from "
     "the host or from a program of another version, also when generators of two versions take turns.",
     ["histories", "programs", "configurations"],
     "All ordered pairs (thorough: triples) of 25 programs on one interpreter, plain and traced; 25 programs in 8 "
     "places of another; 14 exported functions in 5 uses from other versions; all interleavings of two "
     "generators of different versions.",
     "Each test runs one program, in a process or on an interpreter of its own.",
     [VM, TR, BO + "__init__.py", PO],
     [("state of a run", "xpython/vm.py run_code, main_frame, push_frame, pop_frame, last_exception"),
      ("choice of opcodes", "xpython/byteop/__init__.py get_byteop"),
      ("functions that know their interpreter", "xpython/pyobj.py Function, Generator")],
     ["logs, results and exceptions of every program of a history"],
     level="model_checking",
     technique="exhaustive enumeration of histories of programs on shared and on separate real interpreters in one "
               "process, each program compared with its own run alone",
     note=NOTE,
     state=[("interpreter", "frames, handled and last exception, return value", "xpython/vm.py PyVM"),
            ("process", "opcode classes, builtin tables, modules", "xpython/byteop, xpython/builtins.py")])
prop("V24", "A program sees the builtins and the sys of its version, the host keeps its own",
     "While a program runs, it finds the builtin names of its own version and not those that only other versions "
     "have, the sys module that it imports says that version, and the functions that only older versions have (apply, cmp, coerce, execfile, reduce, unichr, ...) give "
     "the values and exceptions they gave there. Afterwards, and for programs of other versions in the same "
     "process, the builtins and the sys module of the host are as before.",
     ["inputs", "histories", "configurations"],
     "66 names in each of 22 configurations; all ordered pairs of them in one process; about 1500 calls of the "
     "functions of 2.x; about 600 questions about the version per configuration.",
     "The tests use a few old builtins in example programs.",
     ["xpython/builtins.py", BO + "byteop.py", VM, EX],
     [("sys module", "xpython/byteop/byteop.py setup_sys_module"), ("builtin tables", "xpython/builtins.py make_compatible_builtins, apply, cmp, coerce, execfile")],
     ["names found, values, exceptions, dir(builtins) of the host before and after"],
     level="model_checking",
     technique="exhaustive enumeration of versions, names, pairs of runs and calls, each run on the real "
               "interpreter and compared with a model of the version's builtins",
     state=[("builtin names", "names of the version and of the host", "mc/props/compat.py")])
prop("V21", "The log of instructions is true, and asking for it changes nothing",
     "With logging of instructions or of stacks turned on, plain or traced, a program does what it does without. "
     "Every instruction that is executed, and no other, is logged in order, with its depth of calls, line, offset, "
     "name, operand and stack as they are; for 3.12 those are the instructions that CPython itself runs.",
     ["programs", "configurations", "histories"],
     "About 10000 programs of the other properties with logging; 30 programs whose every record is checked, at two "
     "levels, plain and traced, with and without prefixes; about 2700 3.12 programs against CPython's trace.",
     "A few tests run with logging on; none looks at what is logged.",
     [VM, TR, BO + "byteop.py", BO + "byteop24.py", BO + "byteop36.py", BO + "byteop311.py"],
     [("logging", "xpython/vm.py log, format_instruction, parse_byte_and_args"),
      ("display of operands", "xpython/byteop/byteop.py stack_fmt and the fmt_ functions")],
     ["log records", "what the program logs", "CPython's opcode trace"],
     level="model_checking",
     technique="exhaustive enumeration of programs x log levels x interpreters x versions; every record checked by an "
               "automaton with its own decoding of the bytecode, and 3.12 runs against CPython's opcode trace",
     note=NOTE,
     state=[("log position", "frames, their last instruction, stacks", "mc/props/logged.py Checker")])
prop("V22", "The report of an uncaught exception names every frame, line and the exception",
     "A run that ends with an exception returns 1 and writes to sys.stderr, once, a header, for each frame from "
     "the main program to where it was raised the file, the line that was being executed, the name and the text of "
     "the line, and the type and message of the exception. That is so wherever it was raised and through whatever "
     "calls it went, and no frame or exception that was dealt with before is in it.",
     ["programs", "inputs", "configurations"],
     "43 raising statements x 19 places; 33 kinds of calls x places; chains of 2 and 3 calls; nestings of places; 34 "
     "exceptions; pairs of runs; plain and traced.",
     "The tests do not look at tracebacks.",
     [VM, TR, PO],
     [("collection", "xpython/vm.py eval_frame; xpython/pyobj.py traceback_from_frame, Traceback"),
      ("lines", "xpython/vm.py parse_byte_and_args; xpython/pyobj.py Frame.line_number"),
      ("report", "xpython/vm.py run_code; xpython/pyobj.py Traceback.print_tb")],
     ["status and standard error of the run"],
     level="model_checking",
     technique="exhaustive enumeration of ways to an uncaught exception (raising statement x places x chains of calls x "
               "versions) on the real interpreter, compared with the traceback CPython has for the same source",
     note=NOTE,
     state=[("traceback", "frames and lines so far, exception", "xpython/pyobj.py Traceback")])
