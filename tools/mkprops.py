#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Every program behaves as the language semantics prescribe",
 "Compiling and running a valid program produces exactly the observable effects, in the same order, and the same result value (or panic) that the language's source-level semantics prescribe. This covers operators and their precedence, evaluation order, short-circuiting and optional chaining, variable scoping, mutation and shadowing, closures capturing variables (fresh per loop iteration), loops with break/continue, block/if/function values, tuple patterns, compound and tuple assignment, containers, string interpolation and early returns. No combination of these constructs may change the meaning of another.",
 ["programs"], "All valid programs (finite executions) over the expression, statement and declaration forms of the language, of any nesting and any combination.",
 "The eval tests run a few hundred hand-written snippets, each exercising one construct; miscompilations (SSA construction, phi placement, register allocation, copies, lowering of assignments, closures in loops) show up only for combinations of constructs.",
 ["src/compiler/ir_gen/*.cpp", "src/compiler/ir_passes/*.cpp", "src/compiler/bytecode_gen/*.cpp", "src/compiler/semantics/*.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/syntax/grammar/*.cpp", "src/vm/interpreter.cpp"],
 [("IR generation and SSA construction", "src/compiler/ir_gen/func.cpp, compile_expr.cpp, compile_stmt.cpp, compile_assign.cpp"), ("out-of-SSA, liveness, register allocation, parallel copies", "src/compiler/ir_passes/construct_cssa.cpp, liveness.cpp, src/compiler/bytecode_gen/alloc_registers.cpp, parallel_copy.cpp"), ("bytecode interpreter", "src/vm/interpreter.cpp")],
 observe=["return value and panics of exported functions", "calls to a native recording function"])

prop("C02", "Arithmetic is exact or panics, with documented promotion rules",
 "Every unary and binary arithmetic operation on integers either yields the mathematically exact 64-bit result (truncating division and remainder, integer powers) or panics on overflow, division or remainder by zero, or undefined powers; it never wraps, aborts or yields a wrong value. Operations with at least one float operand, and the functions of the standard math library, compute the IEEE-754 double result and yield a float. Operands that are not numbers cause a panic.",
 ["inputs"], "All pairs of operands (all 64-bit integers, all floats including NaN, infinities and signed zero, and non-numeric values) and all arithmetic operators and std math functions.",
 "math_test.cpp samples a handful of operand pairs per operator; the overflow borders of each operator (minimum integer, -1, power chains) are unsampled.",
 ["src/vm/math.cpp", "src/common/math.hpp", "src/common/safe_int.hpp", "src/vm/builtins/std.cpp", "src/vm/interpreter.cpp"],
 [("checked integer operations", "src/vm/math.cpp"), ("safe integer arithmetic", "src/common/math.hpp")],
 observe=["results of operators and std math functions"])

prop("C03", "Compile-time evaluation and optimisation never change behaviour",
 "An expression evaluated at compile time, or code simplified or removed by the compiler, behaves exactly as the same computation would at run time: same value, same type, same panic. Replacing a constant operand by a variable holding the same value, or discarding versus using a result, never changes whether the program panics or what it observes.",
 ["programs", "inputs"], "All operators and string interpolations over all constant operands, in all contexts (used, unused, nested, in conditions), compared with the same program whose operands are opaque to the compiler.",
 "Tests of the constant folder check individual operators on a few constants; agreement with the interpreter is never tested and needs all operand pairs.",
 ["src/compiler/ir_gen/const_eval.cpp", "src/compiler/ir_passes/dead_code_elimination.cpp", "src/compiler/ir_gen/func.cpp", "src/vm/math.cpp"],
 [("constant evaluation", "src/compiler/ir_gen/const_eval.cpp"), ("dead code elimination", "src/compiler/ir_passes/dead_code_elimination.cpp"), ("value numbering / redundant instruction reuse", "src/compiler/ir_gen/func.cpp")],
 observe=["result of the folded and the unfolded program"])

prop("C04", "Equality, ordering and hashing are mutually consistent",
 "Equality is reflexive (except NaN), symmetric, and agrees with exact mathematical equality for numbers and with byte content for strings and their slices, whichever way the value was computed. Ordering comparisons of numbers agree with mathematical order (every ordering with NaN is false), inequality is always the negation of equality, and comparing incomparable values panics. Values that compare equal are interchangeable as map keys and set members.",
 ["inputs"], "All pairs and triples of values of all types (numbers near representation borders, strings built in different ways, slices, symbols, containers).",
 "Tests compare a few literals; the laws quantify over all value pairs and over all ways to construct them.",
 ["src/vm/objects/value.cpp", "src/vm/hash.cpp", "src/vm/math.cpp", "src/vm/objects/string.cpp", "src/vm/objects/hash_table.cpp"],
 [("equality and hash", "src/vm/objects/value.cpp"), ("comparison", "src/vm/math.cpp")],
 observe=["comparison operators, map/set lookups"])

prop("C05", "Maps and sets behave like insertion-ordered dictionaries",
 "After any sequence of insertions, overwrites, removals, lookups, clears and iterations, a map or set contains exactly the keys (and latest values) a mathematical map/set would, reports the right size and membership for every key ever used, and iterates each live entry exactly once in insertion order. This holds for all key types, any hash collisions, any number of elements and across growth and compaction of the table.",
 ["histories"], "All sequences of map/set operations over all hashable keys, through both script methods and operators.",
 "The hash table tests perform a few fixed insert/remove sequences; collision chains, wrap-around, growth and repacking depend on the whole history.",
 ["src/vm/objects/hash_table.cpp", "src/vm/objects/hash_table.hpp", "src/vm/objects/set.cpp"],
 [("robin-hood index with backward-shift removal", "src/vm/objects/hash_table.cpp"), ("map/set methods", "src/vm/objects/hash_table.cpp, src/vm/objects/set.cpp")],
 observe=["lookup results, sizes, iteration order"])

prop("C06", "Arrays, tuples, buffers and records: exact contents, checked bounds",
 "After any sequence of operations, an array, tuple, buffer or record holds exactly the elements a mathematical sequence (or fixed-key record) would, with the right size, and iteration visits them in order. Every access with an index outside the bounds, a non-integer index, an out-of-range byte, a missing key or an unsupported operation panics and leaves the object unchanged; it never reads or writes out of bounds.",
 ["histories", "inputs"], "All operation sequences on arrays, tuples, buffers and records with arbitrary (also negative and huge) indices and values.",
 "Container tests use small fixed sequences and a couple of invalid indices.",
 ["src/vm/objects/array.cpp", "src/vm/objects/tuple.cpp", "src/vm/objects/buffer.cpp", "src/vm/objects/record.cpp", "src/vm/type_system.cpp"],
 [("array growth and removal", "src/vm/objects/array.cpp"), ("index checks", "src/vm/type_system.cpp"), ("record schema lookup", "src/vm/objects/record.cpp")],
 observe=["element reads, sizes, iteration, panics"])

prop("C07", "Strings are immutable byte sequences; slices and builders match them",
 "Concatenation, interpolation, string builders, slicing (with clamping of out-of-range requests), substring tests, size and byte iteration agree with the same operations on plain byte strings for every content, offset and length. A slice always equals the string made of the bytes it covers, is unaffected by later operations, and slices of slices compose. Equal strings or slices are indistinguishable to equality and hashing regardless of how they were built.",
 ["inputs", "histories"], "All byte contents (including NUL, invalid UTF-8), all offsets and lengths (also negative and huge), all ways of building a string.",
 "String tests use a few ASCII samples and offsets.",
 ["src/vm/objects/string.cpp", "src/vm/objects/string.hpp", "src/vm/type_system.cpp"],
 [("string slices", "src/vm/objects/string.cpp"), ("string builder growth", "src/vm/objects/string.cpp"), ("string interning", "src/vm/context.cpp")],
 observe=["method results, comparisons, iteration"])

prop("C08", "Garbage collection is invisible to programs and embedders",
 "When and how often garbage is collected never changes any observable result: every value reachable from running code, from module state, from suspended coroutines or from a handle held by the embedder stays alive and unchanged. Unreachable memory is reclaimed, so a program with bounded live data runs forever in bounded memory. Each native object's finaliser runs exactly once, not before the object became unreachable or the virtual machine was destroyed.",
 ["schedules", "programs", "histories"], "All programs and embedder call histories, with a collection forced at any allocation point.",
 "Unit tests collect at a few explicit points; missing roots or missing tracing show only when a collection hits a specific allocation inside a specific operation.",
 ["src/vm/heap/*.cpp", "src/vm/heap/collector.cpp", "src/vm/root_set.cpp", "src/vm/handles/*.hpp", "src/vm/objects/*.cpp"],
 [("mark phase and root tracing", "src/vm/heap/collector.cpp, src/vm/root_set.ipp"), ("sweep and finalisers", "src/vm/heap/heap.cpp, chunks.cpp"), ("scoped handles", "src/vm/handles/")],
 observe=["program traces with and without forced collections", "finaliser call counts", "AddressSanitizer"])

prop("C09", "Coroutines follow cooperative FIFO scheduling and resume exactly once",
 "Coroutines run one at a time, in the order in which they became ready, until they finish or yield; a yielded coroutine resumes only through its resume token, exactly once per yield, at the point where it yielded and with its local state intact. A token can resume only the suspension it was created for: stale or reused tokens report failure and have no effect. Completion callbacks run exactly once per completed coroutine, with its result, and launching, yielding or resuming inside callbacks and native functions keeps these rules.",
 ["schedules", "histories"], "All interleavings of launches, yields, token resumptions (valid, stale, duplicated, self), nested calls, panics and callbacks issued by scripts and by the embedder.",
 "Tests use one or two coroutines in fixed orders.",
 ["src/vm/objects/coroutine.cpp", "src/vm/interpreter.cpp", "src/vm/context.cpp", "src/api/vm.cpp", "src/api/objects.cpp"],
 [("ready queue", "src/vm/context.cpp"), ("coroutine tokens", "src/vm/objects/coroutine.cpp"), ("stack growth", "src/vm/objects/coroutine_stack.cpp")],
 observe=["event log of scripts and callbacks"])

prop("C10", "Panics unwind precisely: defers run once, handlers see the panic",
 "When a panic is raised anywhere (operators, assertions, native functions, nested calls), all deferred statements registered in the active scopes run exactly once in reverse order, including when scopes are left by return, break, continue or normal completion, and deferred code sees the values variables had at the moment of the panic. The innermost enclosing catch receives the panic with its message and execution continues normally after it. A panic raised while unwinding replaces the earlier one without losing remaining deferred statements or corrupting state.",
 ["programs"], "All programs mixing nested functions, scopes, loops, defer statements, catches, early exits and panics raised at any point, also inside deferred statements.",
 "exceptions_test.cpp covers about a dozen fixed nestings.",
 ["src/compiler/ir_gen/func.cpp", "src/compiler/ir_gen/compile_stmt.cpp", "src/compiler/ir_passes/assignment_observers.cpp", "src/compiler/bytecode_gen/func.cpp", "src/vm/interpreter.cpp", "src/vm/objects/exception.cpp"],
 [("deferred scope exits and handler blocks", "src/compiler/ir_gen/compile_stmt.cpp"), ("variable observation in handlers", "src/compiler/ir_passes/assignment_observers.cpp"), ("handler tables and unwinding", "src/vm/interpreter.cpp")],
 observe=["trace of effects, result of catch"])

prop("C11", "The compiler accepts or rejects every input cleanly",
 "For every byte sequence given as source, compilation terminates and either succeeds with a module or fails with the documented bad-source error and at least one diagnostic message; it never crashes, hangs, corrupts memory or reports an internal error. Every reported position lies inside the source text. The result (success, diagnostics, code) depends only on the input.",
 ["inputs"], "All byte sequences, in particular broken, truncated, spliced and deeply combined programs, invalid UTF-8, and any number of sources per module.",
 "Parser tests use valid snippets and a few broken ones; robustness is a claim about all inputs.",
 ["src/compiler/syntax/*.cpp", "src/compiler/syntax/grammar/*.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/semantics/*.cpp", "src/compiler/compiler.cpp", "src/api/compiler.cpp"],
 [("error recovery in the parser", "src/compiler/syntax/parser.cpp, grammar/"), ("error nodes carried through AST and semantics", "src/compiler/ast_gen/build_ast.cpp, src/compiler/semantics/"), ("position tracking", "src/compiler/source_map.cpp")],
 observe=["compiler API results and message callback", "AddressSanitizer / UBSan"])

prop("C12", "Accepted programs always load; meaning is independent of layout and names",
 "Every module the compiler produces is accepted by the loader, and compiling the same sources twice gives identical code. Changing only layout (whitespace, comments), redundant parentheses, consistent renaming of local variables, literal spelling of the same value, or the order of function declarations changes nothing a program can observe. Splitting the items of a module over several source files in any order does not change it either.",
 ["programs"], "All valid programs and all semantics-preserving rewrites of their text.",
 "Tests compile single fixed texts; no test relates two programs.",
 ["src/compiler/syntax/lexer.cpp", "src/compiler/semantics/symbol_resolution.cpp", "src/compiler/ir_gen/module.cpp", "src/compiler/bytecode_gen/module.cpp", "src/compiler/bytecode_gen/object.cpp", "src/vm/modules/verify.cpp"],
 [("module linking and ordering of members", "src/compiler/bytecode_gen/module.cpp"), ("definition sorting", "src/compiler/ir_gen/module.cpp"), ("symbol resolution", "src/compiler/semantics/symbol_resolution.cpp")],
 observe=["load result", "disassembly text", "program traces"])

prop("C13", "Malformed bytecode is rejected before it can run",
 "Loading a module whose code or tables refer outside their bounds, to members of the wrong kind, to positions that are not instruction starts, or that are truncated or use unknown opcodes fails with an error and leaves the virtual machine usable. Well-formed modules are accepted. Encoding instructions and decoding them again yields the same instructions, and the textual disassembly covers every instruction.",
 ["inputs"], "All single and multiple corruptions of well-formed modules (code bytes, operands, member references, handler tables, exports, initialisers), and all instruction sequences for the round trip.",
 "verify tests cover a dozen hand-built invalid modules out of an exponential space of operand positions.",
 ["src/vm/modules/verify.cpp", "src/vm/modules/load.cpp", "src/bytecode/reader.cpp", "src/bytecode/writer.cpp", "src/bytecode/formatting.cpp"],
 [("module verifier", "src/vm/modules/verify.cpp"), ("bytecode reader/writer", "src/bytecode/reader.cpp, writer.cpp")],
 observe=["load success/failure", "decoded instructions"])

prop("C14", "The C API never misbehaves for any argument; errors are as documented",
 "Every API function called with any handle contents, null pointers where a pointer is allowed to be missing, wrong value types, or out-of-range numbers reports the documented error code through the error out-parameter and has no other effect; valid calls report no error and do what is documented. An error already stored in the out-parameter is never overwritten and results of failed calls are neutral. The virtual machine stays usable after any failed call.",
 ["inputs", "histories"], "All API functions, all argument combinations over a pool of values of every type, in any order.",
 "API tests check each function with one or two wrong arguments.",
 ["src/api/objects.cpp", "src/api/functions.cpp", "src/api/vm.cpp", "src/api/error.cpp", "src/api/compiler.cpp", "include/tiro/*.h"],
 [("entry point wrapper translating exceptions to errors", "src/api/internal.hpp"), ("argument checks", "src/api/objects.cpp")],
 observe=["error codes, results, value kinds"])

prop("C15", "Native functions exchange arguments, results and panics faithfully",
 "A native function (synchronous, asynchronous or resumable) sees exactly the arguments the caller passed and its closure value; exactly one result or panic per call reaches the caller, unchanged and at the call site. Asynchronous functions may complete immediately or later and in any order without mixing up callers; resumable functions go through the states they selected in order, keep their locals, receive the results of the functions they invoked, and end when they reach the end state or when an invoked function panics. Argument counts below the declared minimum cause a panic.",
 ["histories", "schedules"], "All combinations of native function kinds, arities, nesting with script functions, completion orders, state sequences and results.",
 "API tests have a few fixed call shapes per kind.",
 ["src/api/functions.cpp", "src/vm/objects/native.cpp", "src/vm/interpreter.cpp", "include/tiro/functions.h"],
 [("sync/async/resumable frames", "src/vm/interpreter.cpp, src/vm/objects/native.cpp"), ("async tokens", "src/vm/objects/coroutine.cpp")],
 observe=["values received on both sides"])

prop("C16", "Modules initialise once, in dependency order; exports are exact",
 "Loading or importing a module runs the initialiser of every module it transitively depends on exactly once, dependencies first; imports refer to the one shared instance. Exactly the exported names are visible, each with the value the module initialised. Missing modules, missing members, cyclic imports and duplicate module names produce errors without breaking the virtual machine or other modules.",
 ["programs", "histories"], "All acyclic and cyclic import graphs, load orders and export sets.",
 "modules_test.cpp covers two or three modules.",
 ["src/vm/modules/registry.cpp", "src/vm/modules/load.cpp", "src/api/vm.cpp", "src/compiler/ir_gen/module.cpp"],
 [("module registry and dependency resolution", "src/vm/modules/registry.cpp")],
 observe=["initialisation trace, export lookups, load results"])

prop("C17", "Virtual machines and compilers are isolated from each other",
 "Operations on one virtual machine or compiler never influence another one: any interleaving of histories on several instances gives each instance the results it would have had alone, and destroying one in any state leaves the others intact. Using handles of one machine with another is reported as an error where the API detects it. Creating and destroying instances in any state (pending coroutines, loaded modules, live handles) releases everything they own.",
 ["histories"], "All interleavings of API histories on several virtual machines and compilers, with destruction at any point.",
 "Tests use one instance at a time, in simple lifecycles.",
 ["src/api/vm.cpp", "src/vm/context.cpp", "src/vm/heap/heap.cpp", "src/api/compiler.cpp"],
 [("all state hangs off the context object", "src/vm/context.hpp"), ("teardown order", "src/vm/context.cpp, src/vm/heap/heap.cpp")],
 observe=["traces per instance", "finaliser/cleanup counts", "leak checking"])

prop("C18", "Running out of memory is reported cleanly at any allocation",
 "When the configured heap limit or the system allocator refuses memory at any point, the operation fails with an out-of-memory error or panic and the virtual machine never exceeds its limit, crashes, leaks or corrupts existing objects. After memory becomes available again, later operations behave normally. Memory accounting never drifts.",
 ["fault_sequences", "programs"], "All programs and all points at which an allocation can fail; all limits; objects of all sizes up to the largest representable.",
 "No test injects an allocation failure beyond one or two fixed limits.",
 ["src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/heap/allocator.cpp", "src/vm/heap/memory.cpp", "src/vm/context.cpp"],
 [("heap limit and collection on failure", "src/vm/heap/heap.cpp"), ("page allocation", "src/vm/heap/")],
 observe=["error codes, results after failure, sanitizers"])

prop("C19", "Literals and positions mean exactly what the source says",
 "Every integer, float, string, symbol, escape sequence and interpolation in source denotes exactly the value its spelling describes (all bases, digit separators, escapes, Unicode), and spellings that denote no valid value are rejected with a diagnostic. Diagnostics and stack traces name the right line and column for every layout of the source.",
 ["inputs"], "All literal spellings and all source layouts (line endings, multi-byte characters, comments, nesting).",
 "Lexer tests list some literals; the spelling space is unbounded.",
 ["src/compiler/syntax/lexer.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/compiler/source_map.cpp", "src/compiler/source_range.cpp", "src/common/text/unicode.cpp"],
 [("lexer", "src/compiler/syntax/lexer.cpp"), ("literal evaluation", "src/compiler/ast_gen/build_ast.cpp"), ("line/column mapping", "src/compiler/source_map.cpp")],
 observe=["values of compiled literals", "diagnostic positions"])

prop("C20", "Rendering values as text terminates and shows exactly the value",
 "Converting any value to text or to its debug representation terminates (also for cyclic structures), reflects its type and contents exactly, and gives equal text for equal plain values. Numbers and strings survive a round trip: the text of a number reads back as the same number, and the debug representation of integers, strings, symbols and nested plain containers, compiled as source, denotes an equal value. Pretty printed and compact forms differ only in white space.",
 ["inputs"], "All values, including nested, shared and cyclic containers, all numbers and all string contents.",
 "std_lib_test.cpp lists a couple of dozen examples.",
 ["src/vm/objects/value.cpp", "src/vm/builtins/dump.cpp", "src/vm/context.cpp", "src/vm/objects/string.cpp"],
 [("debug dumper", "src/vm/builtins/dump.cpp"), ("to_string", "src/vm/objects/value.cpp")],
 observe=["std.debug_repr, std.to_string, interpolation, API to_string"])

prop("C21", "Register assignment and copy sequencing preserve all live values",
 "For every set of parallel register moves, the sequential moves emitted have the same effect, using at most one extra register, and for every control-flow graph the computed dominators, liveness and register assignment are exact enough that no two simultaneously live values share a register. Execution of generated code never reads a register that was not written on the path taken.",
 ["programs", "inputs"], "All permutations, cycles and fan-outs of moves; all reducible and irreducible control-flow graphs; all generated functions.",
 "Unit tests check a few fixed copy sets and graphs.",
 ["src/compiler/bytecode_gen/parallel_copy.cpp", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/ir_passes/liveness.cpp", "src/compiler/ir_passes/dominators.cpp", "src/compiler/ir_passes/construct_cssa.cpp", "src/compiler/ir_passes/critical_edges.cpp"],
 [("parallel copy sequentialisation", "src/compiler/bytecode_gen/parallel_copy.cpp"), ("linear scan over dominator tree", "src/compiler/bytecode_gen/alloc_registers.cpp"), ("liveness", "src/compiler/ir_passes/liveness.cpp")],
 observe=["final register state of simulated copies", "dominator/liveness sets vs brute force", "decoded bytecode data flow"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
