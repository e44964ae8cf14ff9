import build
CFG = build.CONFIGS
def per_cfg(*fns): return [(f, c) for f in fns for c in CFG]
CHECKS = {}
CHECKS["C01"] = dict(units=per_cfg(("c01", "run")), level="other",
  technique="static analysis: interprocedural object type-state over LLVM IR compiled against an abstract storage layer",
  explanation="Interprocedural type-state analysis of every function reachable from a registered Scheme function: each accessor primitive is an obligation that the kind of its operand is established by tests on every path.",
  assumptions=["clang's SSA construction is faithful to the source", "one thread", "configurations compact, fatty, hygienic"])
CHECKS["C08"] = dict(units=per_cfg(("c08", "run")), level="other",
  technique="static analysis: operand-count derivation by dataflow over tails of the operand list; interval analysis of the dispatcher per type code; path-fact analysis of formals/values binding; reviewed count specification",
  explanation="For every registered function: the evaluator's calling convention for its type code matches its C signature; the operand counts with which it can return normally, derived from tests of the operand-list tails, lie within the specified counts; each reduction operator rejects too few operands; for each type code in use the dispatcher calls with exactly the promised operands, in order, and with nothing left over. Every place that binds values to formals written by the user is reached, on every path, only through the length test on exactly those two lists (or with lists of equal known length), and the test itself accepts and rejects the right classes of numbers. No syntactic form, no function an operand list is handed on to, and no function that evaluates operands, returns normally with a rest of the operand list that is known not to be a pair and not known to be empty.",
  assumptions=["clang's SSA construction is faithful to the source", "the count specification in lib/rules/c08.py", "configurations compact, fatty, hygienic"])
CHECKS["C14"] = dict(units=per_cfg(("c14", "run")), level="other",
  technique="static analysis: interprocedural origin tracing of evaluation results to the places that keep values, with type-state refinement by the tests passed on the way",
  explanation="Every place that keeps a value (pair construction and mutation, bindings, variable cells, argument buffers, stores into memory, calls through a procedure pointer, direct calls of procedures, conditionals) is examined: if the value can be the unrestricted result of an evaluation (traced through assignments, internal functions and parameters), the tests passed on every path must have excluded keywords, macros and multiple-values packets.",
  assumptions=["clang's SSA construction is faithful to the source", "legacy-macro closures are not distinguished from closures", "configurations compact, fatty, hygienic"])
CHECKS["C03"] = dict(units=per_cfg(("c03", "run")), level="other",
  technique="static analysis: interprocedural provenance (freshness / ownership) analysis of every object mutation with dominance by mutability tests",
  explanation="Every mutation of a pair, string or vector reachable from a registered procedure must act on an object this call created, on an object whose mutability test passed on the way, or on a queue or expansion result private to the interpreter; literals built by the reader are created immutable; syntax expanders do not share or write the program text.",
  assumptions=["clang's SSA construction is faithful to the source", "configurations compact, fatty, hygienic"])
CHECKS["C15"] = dict(units=per_cfg(("c15", "run")), level="other",
  technique="static analysis: path (dominance) and write-effect analysis of symbol creation and of the symbol table",
  explanation="Symbols are constructed only after the whole bucket was searched for the name and are always entered into that bucket; the bucket is a function of the name alone; no other code replaces the table, a bucket or a symbol's name while the interpreter runs.",
  assumptions=["clang's SSA construction is faithful to the source", "configurations compact, fatty, hygienic"])
CHECKS["C05"] = dict(units=per_cfg(("c05", "run")), level="other",
  technique="static analysis: abstract interpretation of the collector in a bit-provenance domain per kind of object, and symbolic loop-range analysis",
  explanation="For every kind of heap object, built abstractly by its constructor: the marker marks it before following it and passes every component to the marker on every path (vectors: a loop over exactly the elements), immediates are not followed; sweeping leaves marked cells as they were, releases exactly the storage an unmarked one owns, reclaims its cell and links it into the free list; every cell of every heap is swept; roots (stack range, protected variables, symbol table) are all scanned before sweeping; a stack word referring to a live cell is never rejected and nothing else is accepted; allocation takes the head of the free list and extends the heap when nothing was freed.",
  assumptions=["clang's SSA construction is faithful to the source", "libgcroots reports the whole stack and registers", "configurations compact, fatty, hygienic"])
CHECKS["C07"] = dict(units=per_cfg(("c07", "run")), level="other",
  technique="static analysis: abstract interpretation of constructors, predicates and accessors in a bit-provenance domain",
  explanation="Every constructor of the storage layer is interpreted over symbolic components; the resulting bit pattern is given to every type predicate and to the type code function (exactly its own accepts), and every component accessor reads back exactly the bits stored; setters change their component only; constants are distinct immediates.",
  assumptions=["clang's SSA construction is faithful to the source", "heap cells are aligned to the cell size; C functions and C pointers stored untagged are aligned as the compiler aligns them", "configurations compact, fatty, hygienic"])
CHECKS["C06"] = dict(units=per_cfg(("c06", "run")), level="other",
  technique="static analysis: escape analysis of object stores into global and native memory against the registered roots; call-graph closure of the entry points that bypass the stack gate",
  explanation="Every store of an object into a global variable is examined: unless it can only be a constant or an interned symbol, the variable is registered with the collector on every path of its initialiser and before it is filled; only variables that stay are registered; objects stored into native memory are owned by a vector or held elsewhere; everything an entry point does outside the stack gate creates no objects; the list of registered variables is kept and searched completely.",
  assumptions=["clang's SSA construction is faithful to the source", "libgcroots reports the stack below the gate and the registers", "configurations compact, fatty, hygienic"])
CHECKS["C10"] = dict(units=per_cfg(("c10", "run")), level="other",
  technique="static analysis: order-of-events automata (typestate) over every control-flow path of the continuation and dynamic-extent implementation, with equality facts from the tests passed",
  explanation="dynamic-wind: before thunk, extent entered with exactly the two thunks, thunk, extent left, after thunk, result of the thunk returned, on every path. Leaving: each extent popped is the innermost at that time, is not the destination, and its after thunk is run before the next is popped; it ends only at the destination. Entering calls only before thunks, of extents not already entered. call/cc: extents recorded, frame attached, continuation registered and context saved before the procedure runs; expired before returning; after a jump extents re-entered and the passed value returned as is. Calling a continuation: native jump only to the frame of a continuation known to be valid and still active, after leaving the extents and storing the value; every continuation removed from the active ones is invalidated. Nothing else changes these lists or frames.",
  assumptions=["clang's SSA construction is faithful to the source", "setjmp/longjmp behave as specified", "configurations compact, fatty, hygienic"])
CHECKS["C09"] = dict(units=per_cfg(("c09", "run")), level="other",
  technique="static analysis: origin tracing of the results returned by every function that receives the evaluation state; order-of-events automata over the state's return type",
  explanation="Every construct with a tail position is registered to receive the evaluation state; no function that receives it returns the result of a nested evaluation (unless that value was tested against #f first, so it is not the value of a tail form); each such construct has a path returning an unevaluated operand; functions it delegates to get the same state; the evaluator goes round its loop for what is handed back, and returns only what is not to be evaluated; a computed value is never handed back to be evaluated again.",
  assumptions=["clang's SSA construction is faithful to the source", "native frames are popped on return (C calling convention)", "configurations compact, fatty, hygienic"])
CHECKS["C12"] = dict(units=per_cfg(("c12", "run")), level="other",
  technique="static analysis: interprocedural liveness/direction obligations on port operations (path dominance), completeness of the method tables, order-of-events automata over close methods",
  explanation="Every use of a port's device reachable from a registered procedure is preceded on its path by a test that the device is still there; every slot of every port and codec method table is filled with a function of the slot's signature and every call through a slot matches it; closing makes the port forget the device before the device's own code runs, releases what the device owns once, and cannot raise while the collector runs it; each device rejects, or reports the failure of, operations against its direction; the procedures that close or select ports do so exactly for ports open in their direction.",
  assumptions=["clang's SSA construction is faithful to the source", "stdio reports use against the mode of a FILE", "configurations compact, fatty, hygienic"])
CHECKS["C11"] = dict(units=per_cfg(("c11", "run")), level="other",
  technique="static analysis: non-return proof over the call graph (coinductive), order-of-events automata over the handler list and the flags of error preparation, save/restore dataflow of interpreter-wide variables",
  explanation="Every entry point of error signalling, and every function declared not to return, is shown to have no way back to its caller. raise runs the innermost handler with the condition and with the handlers outside it installed for exactly that time, and when the handler returns an error follows; with-exception-handler puts its handler in front of the current ones for the duration of the thunk; a condition no guard clause takes is raised again. Error preparation and the final report are guarded by flags that are set before anything that may fail again and cleared before control reaches a handler; the last resort calls nothing that can signal. Loading puts the character codec back; no variable keeps, or follows after an error, the address of a local variable.",
  assumptions=["clang's SSA construction is faithful to the source", "exit, abort and longjmp do not return", "the program has not redefined the procedure error", "configurations compact, fatty, hygienic"])

CHECKS["C20"] = dict(units=per_cfg(("c20", "run")), level="other",
  technique="static analysis: definite-initialisation dataflow over the initialisers in the order they run, call-graph reachability of module state from registered procedures, order-of-events automaton over module loading, name resolution of the Scheme library sources",
  explanation="Every interpreter-wide variable holding an object is given its first value on every path of an initialiser, before anything reads it and before library code that could reach it runs; the state of a module is reachable only from procedures registered by that module (or one that requires it) or behind a test that it was initialised; the initialiser runs only for a module that was found and not provided, the module is recorded and declared only afterwards, and success is reported only then; every table of procedures is registered by exactly one initialiser and ends properly; every advertised name is defined; aliases name what exists at that point and mean what they should; every identifier the Scheme library files use is defined.",
  assumptions=["clang's SSA construction is faithful to the source", "the reviewed list of names in lib/rules/names.json", "library macros expand to code using the identifiers they mention", "configurations compact, fatty, hygienic"])

CHECKS["C17"] = dict(units=per_cfg(("c17", "run")), level="other",
  technique="static analysis: constant propagation of format texts through the formatter's source (abstract list and varargs state), argument-type matching at every native call site",
  explanation="What each directive consumes is derived from the source of the formatter by propagating format texts through it with everything else unknown: each documented directive, in each directive set, returns only with exactly the arguments it asks for and takes them in order; every other character (all small ones and those agreeing with a directive in their low bits), every truncated or misplaced prefix and every surplus or missing argument ends in an error on all paths; the text is not read past its end. Every native call that formats (found by closing over the functions that pass an argument list or their own text on) has a constant text, and the types fetched for it are exactly the number and types of the arguments passed. A list is never formatted with native directives allowed.",
  assumptions=["clang's SSA construction is faithful to the source", "native strings passed for ~S are terminated", "configurations compact, fatty, hygienic"])
CHECKS["C16"] = dict(units=per_cfg(("c16", "run"), ("c16", "storage"), ("c16", "kept"), ("c16", "answers"), ("c16s", "run")), level="other",
  technique="static analysis: path-sensitive ownership and typestate analysis of native blocks (interprocedural summaries), staleness analysis of object bodies, linear-arithmetic proof that size computations do not wrap",
  explanation="Every request to the C library is tested before its result is used, and without memory the operation does not return. Every block obtained (directly or through a function shown to return a block of its own) is followed on every path: released at most once, not used afterwards, and on normal returns released, returned or handed to an owner. A pointer into a string or vector body is not used after code that may replace the body. A place whose block was released is given another value or ceases to exist before it is read again. Local growing buffers are released on every normal return. Blocks kept in the interpreter's own variables are released by something the finalisation runs. The answer of an operation that can answer with nothing (a file that does not open, an encoding that is not known, a lookup that finds nothing) is tested on every path to its first use. Every step of every byte count requested is proved not to wrap (that it covers the bytes stored is C02).",
  assumptions=["clang's SSA construction is faithful to the source", "blocks handed to an object or a port belong to it from then on (released by the collector: C05, C12)", "exits by error may keep blocks (the property is about normal exits)", "configurations compact, fatty, hygienic"])

CHECKS["C02"] = dict(units=per_cfg(("c02", "run"), ("nul", "c02"), ("room", "c02")), level="other",
  technique="static analysis: abstract interpretation in a linear-inequality domain with inferred loop invariants and function contracts (bounds analysis of every counted-buffer access)",
  explanation="Every load, store and block copy whose address varies within a counted object (vector storage, string bytes, native arrays and buffers, argument lists) is an obligation: the address is at or after the object's start and ends at or before its end. The facts come from the branches that dominate the access, from loop invariants inferred from candidate inequalities and checked to be inductive, from the allocation sizes, and from contracts of the functions called, each of which is an obligation where the function is called or defined. Every byte written into a text buffer is followed, on every path, by a terminator before the buffer is used as a string or the function returns. Copies of whole strings fit the requested size, as linear expressions over string lengths.",
  assumptions=["clang's SSA construction is faithful to the source", "an object's storage is smaller than 2^47 bytes", "text handed in by the embedding program is NUL-terminated; sizes recorded in vector and string objects are those they were built with (C03, C07)", "obligations of the functions listed in lib/rules/bound.py that the linear domain cannot decide are set aside (counted as trusted)", "configurations compact, fatty, hygienic"])
CHECKS["C13"] = dict(units=per_cfg(("c13", "run"), ("nul", "c13")), level="other",
  technique="static analysis: abstract interpretation in a linear-inequality domain (bounds, contracts and ranking of text loops); completeness of the codec tables",
  explanation="Every byte access of the encoding layer, and every place that hands text to a codec, is shown to stay inside the text (obligations as in C02, with contracts for the codec operations: bytes given, bytes consumed, at most 5 bytes written, result inside the text). Each loop that steps through text has a bounded quantity that moves on every way around it. Each codec table has all operations with the operands the callers pass, and every codec is in the selectable list. Text the codecs write is terminated before it is used as a string or handed back.",
  assumptions=["clang's SSA construction is faithful to the source", "int2str writes char_len bytes plus the terminator", "the multibyte port's buffer holds a terminated string between operations", "configurations compact, fatty, hygienic"])
CHECKS["C18"] = dict(units=per_cfg(("c18", "run"), ("nul", "c18"), ("room", "c18")), level="other",
  technique="static analysis: abstract interpretation in a linear-inequality domain (reader buffers); conditional constant propagation under the end-of-input assumption; cycle analysis of look-ahead loops",
  explanation="Every access to the reader's, loader's and number parser's buffers stays inside them (obligations as in C02; growable buffers are shown consistent with their recorded size). With every read answering end of input, no loop and no recursion that reads characters can be repeated. Every cycle that looks at the next character also consumes one. Text put into a buffer is terminated before it is used as a string; copies of whole strings fit the requested size.",
  assumptions=["clang's SSA construction is faithful to the source", "obligations of the functions listed in lib/rules/bound.py that the linear domain cannot decide are set aside (counted as trusted)", "configurations compact, fatty, hygienic"])

CHECKS["C04"] = dict(units=per_cfg(("c04", "run"), ("c04", "storage")), level="other",
  technique="static analysis: abstract interpretation of the integer procedures over linear inequalities with product and quotient axioms, a greatest-fixpoint 'is a fixnum' domain, a nonzero domain, and path-sensitive error-number typestate of the numeral conversion",
  explanation="Every integer object is made of a number shown to be a fixnum: a value read from an integer object, a bitwise combination or remainder of fixnums, a quotient whose dividend is not the least fixnum when the divisor is -1, or a sum, difference, negation or product shown in range from the tests in front of it. Every native sum, difference and product of program integers is shown not to overflow natively and every division to have a divisor that is not zero (and not -1 under the least native integer). A function that tests for overflow of a product is shown never to answer no for a product out of range. Along every path from the conversion of a numeral an out-of-range numeral is reported. Every place a program's integer is used after it was narrowed to a smaller native type is reached only when the value fits that type. The range the storage layer can hold is the one judged against, and an integer read back is the one stored.",
  assumptions=["clang's SSA construction is faithful to the source", "the product computed by * is not covered: the source documents that it is not checked", "lengths of lists, vectors and strings are bounded by the address space", "the index kept by the vector translator of quasiquote and the ellipsis depth of macros are not followed", "configurations compact, fatty, hygienic"])

CHECKS["C19"] = dict(units=per_cfg(("c19", "run")), level="other",
  technique="static analysis: path-sensitive abstract interpretation of environments and nesting states (typestate) over every construct that evaluates; lockstep analysis of the variable lookup loops",
  explanation="Every function that defines a variable is reached only through a test that the form is at the toplevel and may define; every evaluation inside a construct is done in the innermost environment of the construct at that point, or in the marker environment that forbids definitions when that is the toplevel; every new scope is put inside the construct's own environment; bindings are changed only in an environment the construct itself just made (each time round a loop: a new one); bodies are evaluated by the function that handles definitions at their head, in the environment built; only a toplevel begin (or macro use) declares its tail toplevel. Variable lookup compares every variable of every frame, innermost first, and yields the value in the same position; set! stores into the innermost binding found or into a bound toplevel variable, exactly once; closures get the environment of their construct; forms the interpreter hands back name their parts by object.",
  assumptions=["clang's SSA construction is faithful to the source", "operands of procedure calls at the toplevel count as toplevel (the test suite relies on it)", "renaming by hygienic macros is out of scope (C23)", "configurations compact, fatty, hygienic"])

CHECKS["C24"] = dict(units=per_cfg(("c24", "run"), ("c24", "storage")), level="other",
  technique="static analysis: unit inference (bytes, characters) over SSA; path enumeration of what each way around a counting loop counts and appends; path-sensitive tests for NUL with renaming through joins",
  explanation="Every call that makes a string or refills one is a site. The length recorded there is never computed from a byte size and has no constant offset; a length kept by a loop goes up, on every way around, by exactly one for each character put into the text or element visited, or by the length of the string copied; a text taken from another has the count handed to the substring operation or the length of the object (or of the very text) it was copied from; a repeated character is repeated as many times as the length says; a length left open is counted from the same text by the constructor. Every loop of the encoding layer that steps over characters counts each of them. Positions and counts handed to the text operations, and lengths handed to programs, are not byte sizes. Every character put into the text of a string is compared with NUL on every path, before the text is used.",
  assumptions=["clang's SSA construction is faithful to the source", "the current encoding is not changed while a string is being made", "C strings handed in by the embedding program are counted by the constructor", "escape characters of the table in the reader are not NUL", "configurations compact, fatty, hygienic"])

NOT_APPLICABLE = {
 "C21": "equality of a datum with what its printed text parses to is a relation between two runtime computations over unbounded data; no static argument in reach decides it",
 "C22": "numeric correctness of results is a value-level equality with the mathematical operation; only its overflow part is decidable here (C04)",
 "C23": "hygiene is a semantic relation between binding environments before and after expansion of arbitrary programs; no static argument over the expander's source in reach decides it",
}
