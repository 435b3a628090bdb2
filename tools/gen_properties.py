#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("M01", "Script memory never exceeds the host's limit and is counted exactly",
  """All memory a virtual machine uses on behalf of scripts is obtained through one tracked allocator, which grants a
  request only if the request plus its bookkeeping header fits into what is left below the host-configured limit, and
  which fails instead when a size, or an element count times an element size, would wrap around.
  The usage figure goes up by exactly what was obtained from the host's allocator and down by exactly that when the
  block is returned, every live block is on the machine's block list, and the peak figure is never below the usage figure.""",
  ["programs", "inputs", "configurations"],
  "every script, every saved state that is loaded, every limit and every allocation size the host or script can cause",
  """The tests run with one generous limit and sizes far below 2^32; wrap-around sizes, an allocation of exactly the
  remaining budget, and drift of the usage figure over long histories are never reached.""",
  ["src/nkmem.c", "src/nkx.c", "src/nkvm.c"],
  [("limit check, accounting and block list", "src/nkmem.c: allocation, free, array wrappers"),
   ("only the default callbacks touch the C heap", "src/nkx.c")],
  [("usage and peak figures", "bytes currently/maximally held", "struct NKVM"), ("allocation list", "all live blocks", "struct NKVM")],
  ["host malloc/free replacement calls", "memory usage getters"])

p("M02", "Out of memory inside any public call is always recovered in that call",
  """Every public API function that can run out of memory (or otherwise hit a catastrophic failure) installs its own recovery
  point before the first operation that can fail and, on every way out including the recovery path itself, puts the
  caller's recovery point back.
  A public call made on a machine that has already failed catastrophically returns without performing the operation.""",
  ["fault_sequences", "programs"],
  "every public function, every allocation inside it failing, nested public calls from host callbacks",
  """The fault-injection tests fail the N-th allocation of one program for a fixed set of N; they do not reach the
  allocations of most public functions, and a recovery point that is not restored is noticed only by a later failure.""",
  ["src/nkx.c", "src/nkfail.h", "src/nkmem.c", "src/nkvm.c", "src/nkcorout.c"],
  [("recovery macros", "src/nkfail.h"), ("public wrappers", "src/nkx.c")],
  [("recovery point pointer", "innermost recovery point", "struct NKVM")], ["public functions of src/nkx.h"])

p("M03", "A catastrophic failure inside a host callback unwinds to the host",
  """When memory runs out while a host callback (native function, external-object or subsystem callback) is running inside the
  machine, the machine does not carry on with the interrupted script, collection or save operation after the callback
  returns: the failure is passed on to the outermost public call.
  No part of the machine other than public entry points swallows a catastrophic failure.""",
  ["fault_sequences", "schedules"],
  "every callback kind, every public function the callback may call, every allocation in it failing",
  """The tests' callbacks almost never exhaust memory, and continuing on the broken state is usually silent.""",
  ["src/nkopcode.c", "src/nkgc.c", "src/nkobjs.c", "src/nksave.c", "src/nkvm.c"],
  [("re-raise after the native call", "src/nkopcode.c")], [], ["host callbacks"])

p("M04", "Deleting a machine gives every block back to the host's allocator",
  """Deleting a virtual machine, whether healthy, errored or catastrophically failed, and even if memory runs out again during deletion,
  returns every block it obtained to the same host allocator, exactly once, with the host's user pointer, and runs each
  subsystem cleanup and, unless the machine failed catastrophically, each external-object cleanup.
  Nothing the machine owns is left out of the orderly teardown.""",
  ["histories", "fault_sequences", "configurations"],
  "every machine state at the time of deletion, custom host allocators, failures during deletion",
  """Tests use the default allocator and check leaks for a few final states only; a custom allocator is never
  installed and no failure is injected into deletion.""",
  ["src/nkvm.c", "src/nkx.c", "src/nkmem.c", "src/nkerror.c"],
  [("teardown", "src/nkvm.c"), ("deletion", "src/nkx.c")], [], ["host free replacement"])

p("M05", "Working memory is released on every path, including error paths",
  """Every temporary block, text buffer, token, syntax-tree node or execution context created while compiling, executing, saving,
  loading or answering a host call is either released or handed to a longer-lived owner on every path that returns
  normally, including paths that report a compile-time or run-time error.""",
  ["programs", "inputs"],
  "every script (valid or not), every saved state (valid or not), every return path",
  """Each error path leaks only its own temporaries; tests reach few error paths and deletion asserts only at the end.""",
  ["src/nkexpr.c", "src/nkcompil.c", "src/nkopcode.c", "src/nksave.c", "src/nktoken.c", "src/nkvalue.c", "src/nkx.c", "src/nkfunc.c"],
  [("explicit release on each path", "all source files")], [], ["deletion (leak check)"])

p("M06", "Blocks are never used after they were released",
  """No block is read, written, or released again after it was released or replaced by a grown copy: owners forget the old
  block before anything else can fail or look at it, and pointers into growable storage (operand stacks, tables,
  program memory) are not used once that storage may have moved.""",
  ["programs", "fault_sequences", "histories"],
  "every script, every growth point, every allocation failing",
  """Growth happens at powers of two and frees on rare paths; a test only sees a stale pointer when growth happens
  exactly between taking and using it.""",
  ["src/nkopcode.c", "src/nkvm.c", "src/nkstack.c", "src/nkobjs.c", "src/nksave.c", "src/nkfunc.c", "src/nkcompil.c"],
  [("order of operations around growth", "opcode handlers, table code")], [], ["memory checker"])

p("V01", "Every instruction is defined and dispatch cannot leave the handler table",
  """Every instruction code has a handler, a name and a declared stack effect, unassigned codes behave as no-ops, and whatever code word is found
  in program memory (compiled, jumped into, or loaded from a saved state) selects an entry inside those tables.
  The compiler only emits defined instruction codes.""",
  ["programs", "inputs"], "every code word and instruction position, including loaded or data words executed as code",
  """Compiled test programs only contain well-formed code; data words and loaded garbage are never executed in tests.""",
  ["src/nkopcode.c", "src/nkenums.h", "src/nkvm.c", "src/nkcompil.c"],
  [("opcode tables and setup", "src/nkvm.c"), ("masked dispatch", "src/nkvm.c")], [], ["instruction dispatch"])

p("V02", "Each instruction moves the stack exactly as the compiler assumes",
  """On every successful path, executing an instruction changes the operand stack depth by exactly the amount the compiler's bookkeeping
  declares for it, so the frame offsets compiled into a function address the variables they were computed for.
  Instructions with operand-dependent effects (calls, returns, bulk pops, coroutine switches) take exactly the
  operands their calling convention states.""",
  ["programs"], "every instruction, every operand type, every successful path through its handler",
  """A missing push or pop on one operand-type path misaligns frames only in programs that combine that path with
  locals declared below it.""",
  ["src/nkopcode.c", "src/nkstack.c", "src/nkvm.c", "src/nkcompil.c"],
  [("declared stack offsets", "opcode setup table in src/nkvm.c"), ("handlers", "src/nkopcode.c")], [], ["operand stack depth"])

p("V03", "No index can reach outside the machine's tables, stacks or program memory",
  """Every position computed from script values, instruction operands, host-supplied identifiers or saved-state contents is masked
  to, or checked against, the current extent of the storage it addresses before that storage is read or written.
  The recorded extents never claim more than is allocated, also while growing or loading.""",
  ["programs", "inputs", "fault_sequences"],
  "every script, host identifier and saved state; every access to stacks, statics, instructions, object/string/function/type tables",
  """Only hostile bytecode, saved states or stale identifiers produce out-of-range positions; tests contain none, and
  sanitizers see only accesses that happen.""",
  ["src/nkstack.c", "src/nkvm.c", "src/nkopcode.c", "src/nktable.c", "src/nkobjs.c", "src/nkstring.c", "src/nkfunc.c", "src/nksave.c", "src/nkcompil.c", "src/nkx.c"],
  [("index masks and count checks at each access", "all table accesses")], [], ["memory accesses"])

p("V04", "A failed lookup is never dereferenced",
  """Looking up an object, string, function, external type, variable, field or subsystem that does not exist produces an error or a
  neutral result; the missing result is never used as if it existed.""",
  ["programs", "inputs", "histories"],
  "every lookup whose result may be missing and every use of that result",
  """Lookups fail only for stale or hostile identifiers, which tests do not create.""",
  ["src/nkopcode.c", "src/nkobjs.c", "src/nkvalue.c", "src/nkgc.c", "src/nkx.c", "src/nkvm.c", "src/nksave.c", "src/nkcompil.c", "src/nkexpr.c"],
  [("null checks after lookups", "all lookup callers")], [], ["null dereference"])

p("V05", "Script arithmetic cannot crash or trap the host",
  """No operand values make integer arithmetic, division, remainder, negation, conversion or constant folding fault: zero divisors and the overflowing
  quotient are reported or left unfolded, results that do not fit wrap or saturate, and internal size divisions never
  divide by zero.""",
  ["programs", "inputs"], "all operand values of all arithmetic instructions, at compile time and run time",
  """The operand space is 2^64 per operator; tests use a handful of values.""",
  ["src/nkopcode.c", "src/nkopt.c", "src/nkvalue.c", "src/nkmem.c", "src/nkstack.c", "src/nktoken.c"],
  [("operand guards", "src/nkopcode.c, src/nkopt.c")], [], ["arithmetic instructions"])

p("V06", "Execution always stops at an error and at the instruction budget",
  """Scripts only run through the instruction loop, which charges every instruction against the host's instruction budget at the configured checking
  interval and stops with an error when the budget is used up; once an error has been recorded no further
  instruction is executed.
  Neither a loaded state nor a host setting can turn the budget check off.""",
  ["programs", "configurations", "inputs"],
  "every script including endless loops and recursion, every interval, budget and loaded counter value",
  """Tests set one budget; interval and counter corner values (zero, wrapped, loaded) are not tried.""",
  ["src/nkvm.c", "src/nkx.c", "src/nksave.c"],
  [("countdown and budget check", "src/nkvm.c"), ("loop conditions", "src/nkvm.c, src/nkx.c")],
  [("collection countdown", "instructions until next check", "struct NKGarbageCollectionInfo"), ("remaining budget", "instructions left", "struct NKVM")],
  ["instruction budget getter"])

p("V07", "Values and host data are only interpreted as what they are",
  """The payload of a script value is used as an object, string, function or number only where its type tag has been established, and a host
  pointer attached to a script object is handed to code that expects a particular external type only after the object's external type was compared.
  A native function that declares argument counts and types is called only with arguments that match.""",
  ["programs", "inputs"], "every operand type combination for every instruction, every native call, every external type",
  """Type confusion needs a script or saved state that passes the wrong kind at one specific place.""",
  ["src/nkopcode.c", "src/nkobjs.c", "src/nkvalue.c", "src/nkx.c", "src/nkcorout.c", "src/nkfunc.c"],
  [("type tag checks", "value consumers"), ("argument checks before native calls", "src/nkopcode.c"), ("external type check", "src/nkx.c, src/nkopcode.c")],
  [], ["native function callbacks", "external data getters"])

p("V08", "Configured stack and object-size limits are enforced on every growth",
  """An operand stack never grows beyond the host's stack limit and an object never holds more fields than the host's field limit, whichever
  instruction, host call or loaded state causes the growth; exceeding a limit is reported as an error and leaves the
  structure as it was.""",
  ["programs", "configurations", "inputs"], "every growth site, every limit value, every script",
  """Tests hit one limit value through one instruction.""",
  ["src/nkstack.c", "src/nkobjs.c", "src/nksave.c", "src/nkx.c"],
  [("limit comparisons before growth", "src/nkstack.c, src/nkobjs.c")], [], ["limit setters"])

p("G01", "Garbage collection keeps everything a script or the host can still reach",
  """Before anything is reclaimed, a collection marks every value reachable from globals, every operand stack (main program and every reachable or active
  coroutine), objects the host holds handles to, object keys and values, and values reported by external mark
  callbacks.
  Reclaiming happens only after marking has finished and only at points between instructions, at host request, or at teardown.""",
  ["programs", "histories", "schedules"],
  "every heap shape and every moment a collection can start",
  """Collections run at fixed intervals in tests, so most instants and heap shapes are never collected.""",
  ["src/nkgc.c", "src/nkcorout.c", "src/nkvm.c", "src/nkobjs.c", "src/nkstring.c"],
  [("mark phase", "src/nkgc.c"), ("coroutine mark callback", "src/nkcorout.c")], [], ["collection entry points"])

p("G02", "Reclaimed objects and strings leave no trace in the machine's indexes",
  """When an object or string is reclaimed or deleted it is taken out of every index that can lead to it (table slot, string hash chain, host-handle list) before any
  other code can look it up there; its external cleanup runs exactly once before its memory is released; a freed table slot is recorded as reusable once, and only free slots are.""",
  ["histories", "programs"], "every reclamation order, hash collision pattern and handle state",
  """A stale index entry is harmless until a later insertion or lookup hits the same chain.""",
  ["src/nkobjs.c", "src/nkstring.c", "src/nktable.c", "src/nkgc.c", "src/nkshrink.c"],
  [("sweep and delete routines", "src/nkobjs.c, src/nkstring.c, src/nktable.c")], [], ["lookups after collection"])

p("G03", "Host handles protect objects and their count never wraps",
  """An object is on the machine's handle list exactly while its handle count is above zero; acquiring raises and releasing lowers the count by one, a
  release without a matching acquire is reported and changes nothing, and objects on the list survive collection.""",
  ["histories"], "every sequence of acquire, release, collect, save and load on any object",
  """Tests acquire and release in matched pairs.""",
  ["src/nkobjs.c", "src/nkx.c", "src/nkgc.c", "src/nksave.c"],
  [("acquire/release", "src/nkobjs.c")], [("external handle count", "handles held by the host", "struct NKVMObject")], ["handle API"])

p("G04", "Compacting the machine loses and confuses no reference",
  """When the machine is shrunk, every entry that moves to another slot takes all references to it along: its own index and the values in the root stack, in the
  stacks of all coroutines, in the static variables and in keys and values of all objects name the new slot afterwards, and no other value changes. Objects the host
  holds handles to, coroutine objects and pinned strings stay where they are, and no table or stack is cut below what is in use.""",
  ["histories", "programs"], "every state of the heap at which the host asks for shrinking",
  """Tests shrink after the program has ended with little alive; which holes, holders and extents meet is unbounded.""",
  ["src/nkshrink.c", "src/nktable.c"],
  [("move routines", "src/nkshrink.c")], [], ["values after nkxVmShrink"])

p("S01", "Nothing read from a saved state is trusted before it is checked",
  """While loading, every capacity, size, index, identifier, coroutine state and interval read from the stream is validated (or forced into range) before it is used as a size or index or
  stored as the extent of a structure, and a count read from it is never trusted beyond the entries that really follow; a bad value makes the load fail with the machine still safely deletable.""",
  ["inputs", "fault_sequences"], "every byte string offered as a saved state, truncated anywhere",
  """The input space is all byte strings; tests load only states the program itself saved.""",
  ["src/nksave.c"], [("range checks after each read", "src/nksave.c")], [], ["load entry point"])

p("S02", "Every failed read or write while saving or loading is noticed",
  """If the host's stream callback reports failure for any piece of the saved state, the save or load stops there and reports failure to the
  host; no partial result is reported as success.""",
  ["fault_sequences", "crash_points"], "a failure of the stream callback at every call",
  """Tests use a memory stream that never fails part-way.""",
  ["src/nksave.c", "src/nkx.c"], [("result check on each stream call and each sub-step", "src/nksave.c")], [], ["save/load result"])

p("S03", "A saved state covers the whole script-visible state, and loading mirrors saving",
  """Saving and loading process the same sequence of items with the same sizes, so a loader reads exactly what the saver wrote, and every part of the machine's
  state that scripts can observe is part of that sequence.
  Host-owned settings (limits, allocator, callbacks, user pointers) are not taken from the stream.""",
  ["programs", "histories", "inputs"], "every machine state that can be saved",
  """Round-trip tests only notice a missing part when a test program later depends on it.""",
  ["src/nksave.c"], [("one routine for both directions", "src/nksave.c")], [], ["stream contents"])

p("C01", "No source text can overflow the host's stack through nesting",
  """Every recursive path in the compiler, the constant folder, the collector and other machine code passes a depth guard or is driven by data whose depth
  such a guard has bounded, and the guard is balanced: each successful entry is left exactly once on every path.""",
  ["programs", "inputs"], "every nesting of statements, blocks, expressions, and every heap shape",
  """Overflow needs tens of thousands of nesting levels; imbalance needs many sequential statements of one kind.""",
  ["src/nkcompil.c", "src/nkexpr.c", "src/nkopt.c", "src/nkgc.c", "src/nkvm.c"],
  [("recursion counter", "src/nkcompil.c")], [("recursion count", "current nesting", "struct NKCompilerState")], ["compile errors"])

p("C02", "Scopes and jumps are closed on every path through the compiler",
  """Each scope the compiler opens is closed exactly once before the construct that opened it is reported as compiled, frame bookkeeping is restored with it, and every jump
  placeholder emitted for a condition, loop, break or function body is given its target before the construct ends.""",
  ["programs"], "every statement and function form, including early errors inside them",
  """An unpatched jump or open scope shows only for particular combinations of constructs.""",
  ["src/nkcompil.c", "src/nkexpr.c", "src/nkfunc.c"],
  [("push/pop of contexts", "src/nkcompil.c"), ("jump patching", "src/nkcompil.c")], [], ["compiled program"])

p("C03", "Every token and operator the parser accepts is handled to the end",
  """Every operator and value token the expression parser can put into a syntax tree is emitted as instructions or rejected with a compile error, an operator is never
  taken as a value without its operands, every statement form is compiled or rejected, and failure anywhere inside leaves a recorded error and makes the whole
  compilation report failure.""",
  ["programs"], "every token sequence",
  """Tests compile a sample of valid programs and a few invalid ones.""",
  ["src/nkexpr.c", "src/nkcompil.c", "src/nktoken.c", "src/nkfse.c"],
  [("emit switch", "src/nkexpr.c"), ("error recording", "src/nkcompil.c")], [], ["compile result"])

p("C04", "Text scanning never runs past the end of its input",
  """The tokenizer, directive parser, string escaping and text helpers stop at the terminator of the text they were given, whatever the text contains, and fixed-size
  text buffers are large enough for every value formatted into them.""",
  ["inputs", "programs"], "every source text, including unterminated quotes, comments, directives and escapes at the end",
  """Overreads by one byte on malformed endings are invisible without an adversarial input at the end of a mapping.""",
  ["src/nktoken.c", "src/nkcompil.c", "src/nkvalue.c", "src/nkdynstr.c", "src/nkstring.c", "src/nkerror.c", "src/nkopt.c", "src/nkcommon.h"],
  [("terminator checks", "src/nktoken.c, src/nkcompil.c"), ("buffer sizes", "format call sites")], [], ["memory accesses"])

p("C05", "Folding constants at compile time changes no result",
  """An operator applied to literals at compile time gives exactly the value its instruction would compute from the same literals: the same operation and operand order, integer wrap,
  single precision, the same conversion of the literals' texts, and a text that gives the same value back. Operands of different types, operators without such an instruction
  and expressions whose values are known only at run time are left to the instructions, errors included.""",
  ["programs", "inputs"], "every operator with every combination of literal and other operands, and every literal value",
  """Tests fold a few small numbers for which lost digits, a different conversion or another operation give the same printed result.""",
  ["src/nkopt.c", "src/nkopcode.c", "src/nkexpr.c"], [("folding routine", "src/nkopt.c"), ("arithmetic handlers", "src/nkopcode.c"), ("literal emission", "src/nkexpr.c")], [], ["value of constant expressions"])

p("H01", "A coroutine is only ever resumed in a resumable state",
  """Only a coroutine object can be resumed; a coroutine already active (itself or an ancestor) cannot be resumed again, a finished one yields nil, the
  main program cannot yield, and every switch into a coroutine records its resumer and every switch out returns to it and clears the record.""",
  ["programs", "histories", "schedules"], "every interleaving of create, resume, yield and return, across save and load",
  """Tests cover a few resume/yield orders.""",
  ["src/nkopcode.c", "src/nkcorout.c", "src/nkvm.c", "src/nksave.c"],
  [("resume checks", "src/nkopcode.c"), ("context push/pop", "src/nkvm.c")], [("coroutine state, parent link", "lifecycle", "struct NKVMExecutionContext")], ["coroutine instructions"])

p("H02", "Equal strings are one entry and equal keys meet in one bucket",
  """Creating a string returns the existing entry for the same text, the chain or bucket used to insert, find, remove and re-insert an entry is always computed from
  the same hash of the same key with the table's own mask, and a hit is accepted only after comparing the full key.""",
  ["histories", "programs", "inputs"], "every set of strings and keys, including colliding hashes, across collection and load",
  """Collisions are rare in tests, so a bucket computed differently in one place goes unnoticed.""",
  ["src/nkstring.c", "src/nkobjs.c", "src/nkvalue.c", "src/nksave.c", "src/nkvm.c"],
  [("hash computation at each index access", "src/nkstring.c, src/nkobjs.c, src/nksave.c")], [], ["string and field lookups"])

p("H03", "The error report's announced length is what the report fills",
  """The length announced for the error text is at least the number of characters the report writes, terminator included, for every list of
  recorded errors; recorded errors keep their own copies of message and file name.""",
  ["histories", "inputs"], "every list of errors, with and without file names, any line number",
  """Off-by-some lengths overflow the host's buffer by a few bytes only for particular error lists.""",
  ["src/nkx.c", "src/nkerror.c"], [("length and text loops", "src/nkx.c")], [], ["error text API"])

p("I01", "Machines share no state; only the program and the host decide results",
  """No function of the library keeps anything outside the machine it works on: the few tables shared by all machines are filled once with the same constants, no result,
  counter or scratch text is kept in or handed out from storage shared between machines or calls, and nothing depends on the numeric value of an address, the
  clock, random numbers, the environment or other hidden process state.""",
  ["histories", "programs", "schedules"], "every number of machines in one process, in any order of use, and every placement of their memory",
  """Tests run one machine per process at addresses that happen to be alike, so state shared between machines or an order that depends on addresses does not show.""",
  ["src/"], [("opcode and stack offset tables", "src/nkvm.c, src/nkexpr.c"), ("number formatting", "src/nkvalue.c"), ("hashing and table order", "src/nkstring.c, src/nkobjs.c")], [("shared tables", "storage", "nkiVmInitOpcodeTable")], ["results of two machines in one process"])

p("I02", "A script reaches the outside world only through what the host gives it",
  """Apart from the two calls a host makes for exactly that (compiling a named script file, and dumping the machine's state to a stream the host passes), no function of the
  library opens, reads or writes a file or stream, prints, starts or ends a process, or calls anything outside the library other than the host's own
  callbacks. Compiling a script file opens the named file for reading only, reads no more than its buffer holds and closes it on every path; the dump writes only to the given stream.""",
  ["programs", "inputs", "histories"], "every script, source text and saved state, valid or not",
  """A test sees the output of the programs it runs; it cannot show that no other program or malformed input makes the library print, open or exit.""",
  ["src/"], [("script file", "src/nkx.c"), ("state dump", "src/nkx.c, src/nkdbg.c")], [], ["files, streams and processes touched"])

p("R01", "A program computes the same results before and after save and load",
  """Running a script partly, saving, loading into a fresh machine and continuing produces the same output and results as running it without interruption.""",
  ["programs", "histories", "crash_points"], "every script and every interruption point",
  "Tests interrupt a few programs at fixed instruction counts.",
  ["src/nksave.c", "src/nkx.c"], [("state serialization", "src/nksave.c")], [], ["program output"])

p("R02", "Scripts compute what the language documentation says",
  """Expressions, statements, calls, objects, callable objects and coroutines evaluate to the results the language reference gives for them.""",
  ["programs", "inputs"], "every program and input value", "Tests are a sample of programs.",
  ["README.md", "src/nkopcode.c", "src/nkexpr.c", "src/nkcompil.c"], [("compiler and instruction handlers", "src/")], [], ["program output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
