#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "No object is ever accessed as a kind of object it is not",
  "Whatever arguments a Scheme program passes to a built-in procedure or whatever operands it writes in a built-in syntax, the interpreter reads or writes a component of an object (car, cdr, string bytes, vector elements, port, closure, symbol cell, integer or character value, continuation, values packet) only after that object's kind has been established on the path taken; an object of the wrong kind ends in a Scheme error. In particular improper, empty or too-short lists and non-list operands are rejected before their missing parts are used.",
  ["inputs","programs","configurations"], "all arguments to all registered procedures, all operand lists of all registered syntaxes, in the compact, fatty and hygienic-macro builds",
  "The tests pass a handful of wrong-typed arguments to each procedure; a check that is missing on one path out of several, for one operand position of one procedure, is a wild memory access that no sampled call need reach.",
  ["src/list.c","src/vector.c","src/string.c","src/string-procedure.c","src/char.c","src/number.c","src/number-io.c","src/port.c","src/read.c","src/write.c","src/syntax.c","src/eval.c","src/env.c","src/qquote.c","src/macro.c","src/continuation.c","src/procedure.c","src/promise.c","src/error.c","src/format.c","src/load.c","src/module.c","src/deep-cadrs.c","src/legacy-macro.c","src/module-srfi1.c","src/module-srfi34.c","src/module-sscm-ext.c","src/storage-compact.h","src/storage-fatty.h"],
  [("ENSURE_<type> argument checks","src/sigschemeinternal.h"),("MUST_POP_ARG / FOR_EACH / ENSURE_NO_MORE_ARG list walkers","src/sigschemeinternal.h"),("evaluator argument loading by procedure type code","src/eval.c")],
  [("object kind","low tag bits (compact) or type word (fatty)","src/storage-compact.h, src/storage-fatty.h")],
  ["every accessor use in every registered primitive and in the evaluator"])

p("C02", "Element accesses stay inside the object they index",
  "Every read or write of a vector element, string byte or other counted buffer made on behalf of a program lies inside the storage of that object: an index, start or end argument outside the valid range ends in a Scheme error before any access, and loops that fill or copy a counted object never run past the length they allocated.",
  ["inputs","programs"], "all index, start, end, length and count arguments of the vector and string procedures and of the native buffers filled from them",
  "Tests use in-range indexes and one or two out-of-range ones; the boundary (exactly the length, negative, start greater than end) must hold for each of them at every site.",
  ["src/vector.c","src/string.c","src/string-procedure.c","src/module-srfi43.c","src/module-sscm-ext.c","src/sigscheme.c"],
  [("range tests before SCM_VECTOR_VEC(obj)[i]","src/vector.c"),("multibyte substring bounds","src/string-procedure.c")],
  [("length field","number of elements of the vector / characters of the string","src/storage-compact.h, src/storage-fatty.h")],
  ["vector-ref, vector-set!, vector-fill!, list->vector, string-ref, string-set!, substring, string-copy!"])

p("C03", "Constant objects are never modified",
  "A literal or otherwise immutable string or vector (and pair, in builds where literal lists are immutable) and a symbol's name are never modified in place by any built-in procedure: an attempt to do so ends in a Scheme error with the object unchanged. No built-in destructively changes an object owned by the caller unless changing that argument is the documented purpose of the procedure.",
  ["inputs","programs","configurations"], "all mutating procedures and all internal helpers that store into strings, vectors and pairs",
  "Mutability is tested for a few literals; a mutator that forgets the test, or an internal helper that reuses the caller's list as scratch space, is invisible unless that exact call is sampled and the literal is looked at again.",
  ["src/string.c","src/string-procedure.c","src/vector.c","src/list.c","src/module-srfi1.c","src/module-srfi43.c","src/module-sscm-ext.c","src/qquote.c","src/macro.c"],
  [("ENSURE_MUTABLE_STRING / VECTOR / CONS","src/sigschemeinternal.h")],
  [("mutable flag","object may be modified in place","src/storage-compact.h, src/storage-fatty.h")],
  ["string-set!, string-fill!, vector-set!, vector-fill!, set-car!, set-cdr!, %%string-mutable? objects"])

p("C04", "Integer arithmetic never wraps silently and never crashes",
  "Integer procedures either return a representable exact integer or signal an error: no sum, difference, absolute value, parsed numeral or length that exceeds the fixnum range is delivered wrapped around (the product computed by * is not covered: the source documents that it is not checked), and no division, quotient, remainder, modulo, gcd, lcm or expt call divides by zero or overflows in native code. Every integer object handed to a program was range-checked or computed by an operation that cannot leave the range. An integer a program supplies (a character value, a radix, a width) is never taken for another one because it does not fit the native type it is kept in.",
  ["inputs","configurations"], "all integer operands, in builds with 60-bit (compact) and 64-bit (fatty) fixnums",
  "Tests exercise a few boundary sums; the boundary operands of every operator (least fixnum, minus one, zero) in both storage layouts are not enumerated.",
  ["src/number.c","src/number-io.c","src/vector.c","src/string-procedure.c","src/module-srfi60.c","src/list.c","src/storage-compact.h","src/storage-fatty.h"],
  [("INT_OUT_OF_RANGEP style checks in + and -","src/number.c"),("zero divisor checks","src/number.c")],
  [], ["+ - * / quotient remainder modulo gcd lcm expt abs, string->number, length, srfi-60"])

p("C05", "Collection keeps every component of a live object and frees each dead one once",
  "Whenever an object is reachable, every object stored in each of its components (pair, closure, symbol value, vector element, values packet, continuation, port-held data, macro data) is treated as reachable by the garbage collector, for every kind of object. An object found unreachable has the external storage it owns (string bytes, vector body, symbol name, port, continuation data) released exactly once and its cell returned to the free list, and only then.",
  ["histories","programs","configurations"], "all heap graphs and allocation histories at the moment of a collection, both storage layouts",
  "A component missed by the marker only shows when a collection happens while that component is the only path to an object; tests run with heaps that rarely collect in that window.",
  ["src/storage-gc.c","src/storage.c","src/storage-compact.h","src/storage-fatty.h"],
  [("mark_obj / gc_mark","src/storage-gc.c"),("gc_sweep / free_cell","src/storage-gc.c")],
  [("free list","cells available for allocation","src/storage-gc.c")], ["gc, any allocation"])

p("C06", "Objects held by native state survive collection",
  "An object referenced from the interpreter's native long-lived state (global variables, tables, the symbol table, current ports, error and continuation state) is registered with the collector before or at the moment it is first stored there, so it is never reclaimed while still referenced; and native code holding objects during an allocation runs with the collector able to see its stack and registers.",
  ["histories","programs"], "every native global or heap-allocated native structure that can hold a Scheme object, for every allocation history",
  "A missing registration is only observable when a collection occurs after the last other reference dies, which no test provokes for each variable.",
  ["src/storage-gc.c","src/error.c","src/continuation.c","src/port.c","src/module.c","src/module-srfi34.c","src/procedure.c","src/symbol.c","src/syntax.c","src/write.c","src/read.c","src/macro.c","src/promise.c"],
  [("scm_gc_protect / scm_gc_protect_with_init","src/storage-gc.c"),("gc_mark_protected_var, gc_mark_symbol_hash, stack marking","src/storage-gc.c")],
  [], ["gc"])

p("C07", "Distinct kinds of object never share a representation",
  "Every object belongs to exactly one kind: the encodings of pairs, closures, strings, symbols, vectors, ports, values packets, continuations, characters, integers and each special constant are pairwise disjoint, so exactly one type test accepts any object, and a value stored into an immediate or into a component is read back unchanged for the whole documented range.",
  ["inputs","configurations"], "all object words of the storage layouts, all integers and characters in range",
  "Representation masks are compile-time arithmetic over all bit patterns; tests create a few objects of each kind.",
  ["src/storage-compact.h","src/storage-fatty.h","src/storage-common.h","src/storage.c"],
  [("tag masks and constants","src/storage-compact.h"),("type enum and cell layout","src/storage-fatty.h")],
  [], ["boolean? null? pair? char? integer? string? symbol? vector? procedure? eof-object?"])

p("C08", "Calls with the wrong number of arguments are rejected",
  "Every built-in procedure and syntax is registered with exactly the calling convention its implementation has, so it receives exactly the arguments the convention promises; a call with too few or too many arguments is rejected with an error rather than ignoring, inventing or misplacing arguments. This holds for each built-in, including those that take a variable number of arguments, called directly or through apply. Procedures the user wrote, and receive, bind their formals only after a test that the number of values fits them: equal for a fixed list, at least as many for a dotted one. A syntactic form whose operand list does not end in the empty list is rejected.",
  ["programs","inputs"], "all registered built-ins and all argument counts",
  "There are several hundred registered functions; tests call each with a few argument counts, and a table entry or an unchecked surplus argument is wrong for exactly one of them.",
  ["tools/build_func_table.rb","src/eval.c","src/procedure.c","src/error.c","src/list.c","src/number.c","src/string-procedure.c","src/port.c","src/syntax.c","src/format.c","src/module-srfi1.c","src/module-srfi6.c","src/module-srfi60.c","src/module-sscm-ext.c"],
  [("function tables generated from function names","tools/build_func_table.rb"),("call() dispatch on type code","src/eval.c"),("ENSURE_NO_MORE_ARG / ASSERT_NO_MORE_ARG","src/sigschemeinternal.h")],
  [("type code","number of required arguments, variadic, tail-recursion and syntax flags","src/scmint.h")], ["every built-in"])

p("C09", "Tail calls do not consume native stack",
  "A procedure call, conditional branch, sequence end, case clause, logical-operator end, let-style body or apply in tail position is performed without growing the native stack, so loops written as tail recursion run in constant native stack space.",
  ["programs"], "all programs whose unbounded control flow is through tail positions",
  "Tests run bounded loops; a tail position evaluated by a nested call instead of being handed back still gives the right answer until the stack is exhausted.",
  ["src/eval.c","src/syntax.c","src/procedure.c","src/continuation.c","src/module-srfi1.c","src/module-srfi2.c","src/module-srfi8.c","src/module-srfi34.c","src/legacy-macro.c"],
  [("ScmEvalState / SCM_VALTYPE_NEED_EVAL trampolines","src/eval.c"),("scm_s_body, scm_s_if, scm_s_cond_internal, ...","src/syntax.c")],
  [("eval_state->ret_type","whether the returned object is a value or an expression still to be evaluated","src/scmint.h")], ["named let, do, mutual recursion, apply in tail position"])

p("C10", "Escapes run exactly the pending dynamic-wind exits",
  "Leaving a dynamic extent by a continuation call runs the after thunks of exactly the extents being left (innermost first) before control arrives, entering runs the corresponding before thunks, and a continuation whose extent has already ended is never jumped to natively; every continuation frame is registered before control can escape through it and invalidated when its extent ends.",
  ["programs","histories"], "all nestings of call/cc, dynamic-wind and error escapes",
  "Histories of nested captures and exits are unbounded; a stale frame is undefined behaviour that only a particular sequence reveals.",
  ["src/continuation.c","src/storage.c","src/module-srfi34.c"],
  [("continuation stack push / pop / unwind","src/continuation.c"),("wind_onto_dynamic_extent / exit_dynamic_extent / enter_dynamic_extent","src/continuation.c")],
  [("dynamic extent list","active dynamic-wind entries","src/continuation.c"),("continuation stack","frames still on the native stack","src/continuation.c")], ["call/cc, dynamic-wind"])

p("C11", "Signalling an error never returns to the failing operation",
  "Once an error is signalled, control never comes back to the operation that signalled it: it goes to the nearest handler or ends the interpreter, on every path of every error entry point, including errors raised inside error handlers, error printing or the fatal-error callback. Interpreter-wide state that an operation changes temporarily is put back on the normal exit of that operation.",
  ["programs","fault_sequences"], "all error sources and all handler states",
  "Every error-checking site relies on non-return; tests reach only a few combinations of handler, nested error and callback state.",
  ["src/error.c","src/module-srfi34.c","src/continuation.c","src/load.c","src/write.c","src/sigschemeinternal.h"],
  [("SCM_NORETURN error functions","src/error.c"),("srfi-34 raise","src/module-srfi34.c")],
  [("error looping flag","fatal error in progress","src/error.c")], ["error, raise, assert failures, out of memory"])

p("C12", "Closed ports and wrong-direction ports are rejected",
  "After a port is closed, or when it is not open for the direction of the operation, every input or output operation on it ends in a Scheme error without touching the released device; closing releases the device exactly once. Every kind of port provides an implementation, or an explicit error, for every operation that can be invoked on it.",
  ["histories","inputs"], "all sequences of open, read, write, close and repeated close over all port kinds",
  "Port lifetimes are histories; tests close a port and try one or two operations.",
  ["src/port.c","src/read.c","src/write.c","src/format.c","src/load.c","src/scmport-basechar.c","src/scmport-mbchar.c","src/scmport-file.c","src/scmport-str.c","src/module-srfi6.c"],
  [("SCM_ENSURE_LIVE_PORT","src/sigschemeinternal.h"),("port operation tables","src/scmport-*.c")],
  [("port implementation pointer","NULL once closed","src/port.c")], ["read, read-char, peek-char, char-ready?, write, display, newline, write-char, close-input-port, close-output-port"])

p("C13", "Character decoding never reads past the bytes it was given",
  "Scanning, decoding or stepping through encoded text examines only bytes inside the given buffer for every byte sequence, including truncated and malformed ones, and every scan step makes progress or reports an error. Every supported encoding supplies the complete set of codec operations, and every multibyte character written or decoded fits the fixed-size character buffers provided by its callers.",
  ["inputs","configurations"], "all byte strings in all supported encodings",
  "Malformed and truncated sequences in five encodings form an unbounded input space of which tests sample well-formed text.",
  ["src/encoding.c","src/encoding.h","src/string-procedure.c","src/scmport-mbchar.c"],
  [("EXPECT_SIZE / ENTER scanning macros","src/encoding.c"),("codec vtables","src/encoding.c")],
  [], ["string-ref, string->list, read-char, string-length on malformed strings"])

p("C14", "Only ordinary values circulate in a running program",
  "Syntactic keywords, the unbound marker, internal markers and multiple-values packets are never bound to a variable, stored into a data structure or passed as a procedure argument as the result of evaluating an operand: every such result is rejected with an error at the point where a single ordinary value is required.",
  ["programs"], "all programs, all evaluation positions that keep a value (operands, definitions, assignments, let-style bindings)",
  "Every evaluation position needs its own rejection; tests try a keyword or a values packet in some of them.",
  ["src/eval.c","src/env.c","src/syntax.c","src/module-srfi2.c","src/module-srfi8.c","src/module-sscm-ext.c","src/procedure.c","src/promise.c"],
  [("SCM_CHECK_VALID_EVALED_VALUE and keyword checks","src/sigschemeinternal.h, src/eval.c")],
  [], ["define, set!, let, let*, letrec, do, procedure call operands"])

p("C15", "A name denotes one symbol for the whole run",
  "Two symbols created from equal names are the same object for as long as the interpreter runs, so symbols can be compared by identity: symbols are created only through the symbol table, table entries and symbol names are never removed or modified while the interpreter runs.",
  ["programs","histories"], "all names and all histories of reading, string->symbol and collections",
  "Identity must survive every allocation and collection history; tests compare a few symbols.",
  ["src/symbol.c","src/storage.c","src/storage-gc.c","src/string-procedure.c","src/read.c"],
  [("scm_intern","src/symbol.c")],
  [("symbol hash table","all interned symbols","src/symbol.c")], ["symbol->string, string->symbol, eq?"])

p("C16", "Native memory requests are checked, sized right and released once",
  "Every result of a native memory request is checked before use and failure ends in the out-of-memory error; the byte count requested never wraps around and covers every byte subsequently stored. A native block is released at most once and not used afterwards, and a block not yet owned by an object is released on the normal exits of the operation that obtained it, and a block the interpreter keeps for itself is released when it ends. An operation that may fail with no result (opening a file, looking up an encoding, searching a table) has its result tested before it is used.",
  ["inputs","fault_sequences"], "all sizes derived from program arguments and all allocation failures",
  "Tests never make the allocator fail and never request sizes near the limits.",
  ["src/alloc.c","src/storage-gc.c","src/storage.c","src/string.c","src/string-procedure.c","src/vector.c","src/symbol.c","src/read.c","src/load.c","src/module-srfi6.c","src/scmport-str.c","src/scmport-file.c","src/error.c"],
  [("ENSURE_ALLOCATED wrappers","src/alloc.c")],
  [], ["make-vector, make-string, string-append, read, open-input-string"])

p("C17", "Format directives consume only arguments that exist",
  "Formatting consumes exactly the arguments its directives ask for: a missing, surplus or wrong-typed argument and a truncated or unknown directive end in a Scheme error, and no native varargs list is read beyond or with a type other than what the native caller passed. Native error messages use directives that match the arguments supplied.",
  ["inputs","programs"], "all format strings and argument lists given to format (srfi-28/48 and the native formatter), and all native format call sites",
  "Format strings are unbounded; native error-format sites sit on error paths that tests do not take.",
  ["src/format.c","src/module-srfi28.c","src/module-srfi48.c","src/error.c","src/sigschemeinternal.h"],
  [("POP_FORMAT_ARG / ENSURE_NO_MORE...","src/format.c"),("scm_format native directives ~S ~A ~P ~ZD ...","src/format.c")],
  [], ["format, error, assertion and error messages"])

p("C18", "Reading hostile text never overruns the reader's buffers",
  "For every input text, tokens of any length, unterminated strings, lists or comments, bad character names and end of file at any point produce either a datum or a Scheme error: the reader's fixed-size buffers are never overrun, growable ones are extended before they are filled, the end of input is recognised in every scanning loop, and input that ends inside a datum is an error rather than a datum.",
  ["inputs"], "all byte sequences presented to read, load, string->number and string ports",
  "The input space is unbounded; tests read well-formed data and a few truncations.",
  ["src/read.c","src/alloc.c","src/number-io.c","src/load.c"],
  [("read_token / lbuf extension","src/read.c, src/alloc.c"),("EOF checks in scanning loops","src/read.c")],
  [], ["read, load, string ports"])

p("C19", "Definitions and bindings stay in their scope",
  "A definition form is accepted only at the toplevel or at the head of a body and binds in that scope only; in the parts of a syntactic form (test, value, initialiser, expression of a sequence that is no body) it is an error. (An operand of a procedure call that is itself at the toplevel counts as toplevel.) An inner binding never alters an outer variable of the same name, each closure sees the environment of its creation, and an assignment affects exactly the innermost binding in scope or is an error when there is none.",
  ["programs"], "all nestings of binding and definition forms",
  "Nesting and ordering of scopes are unbounded; tests enumerate a fixed set of placements.",
  ["src/env.c","src/syntax.c","src/eval.c","src/module-srfi2.c","src/module-srfi8.c","src/macro.c","src/module-srfi9.c","src/module-srfi34.c","src/legacy-macro.c"],
  [("SCM_DEFINABLE_TOPLEVELP / body scanning","src/syntax.c"),("scm_extend_environment, scm_lookup_environment","src/env.c")],
  [], ["define, set!, let family, lambda"])

p("C20", "Every advertised feature is registered and initialised before use",
  "Requiring or using a supported module makes all its procedures available, initialises the module's internal state before any of its procedures can run, happens at most once (not at all when a program has declared the feature provided), and every name in a module's table refers to an existing implementation; a module that was merely declared as provided never runs against uninitialised state.",
  ["histories","configurations"], "all orders of use, require, provide and finalisation",
  "Orders of module use are histories; the tests use each module once in one order.",
  ["src/module.c","src/sigscheme.c","src/module-srfi1.c","src/module-srfi34.c","src/module-srfi38.c","src/module-srfi48.c","src/module-sscm-ext.c","src/module-srfi55.c","src/module-srfi9.c"],
  [("module info table and scm_require_module","src/module.c")],
  [("provided-feature list","names of loaded modules","src/module.c")], ["use, require, require-extension, provide"])

p("C21", "Data written out reads back as an equal datum",
  "Writing any datum made of numbers, characters, strings, symbols, lists and vectors and reading the text back yields an equal datum; shared or circular structure written with the shared-structure writer reads back isomorphic.",
  ["inputs"], "all data", "The set of data is unbounded and tests write and read a few dozen.",
  ["src/write.c","src/read.c"], [("write_internal / read dispatch","src/write.c, src/read.c")], [], ["write, write/ss, read"])

p("C22", "Numeric results are mathematically correct",
  "Each integer procedure returns the mathematically correct result of its operation whenever that result is representable, including sign conventions of quotient, remainder and modulo, and number printing and parsing agree in every radix.",
  ["inputs"], "all representable operands and radixes", "Operands are unbounded; tests sample values.",
  ["src/number.c","src/number-io.c"], [("arithmetic procedures","src/number.c")], [], ["+ - * / quotient remainder modulo number->string string->number"])

p("C23", "Macro expansion is hygienic",
  "In builds with hygienic macros, identifiers inserted by a macro refer to the bindings visible at its definition and identifiers supplied by the user to those visible at its use, for every nesting of macros and bindings.",
  ["programs","configurations"], "all macro definitions and uses", "Macro programs are unbounded; tests sample a few captures.",
  ["src/macro.c"], [("renaming with far symbols","src/macro.c")], [], ["let-syntax, letrec-syntax, define-syntax, syntax-rules"])

p("C24", "String lengths and positions count characters",
  "The recorded length of every string a program is given is the number of characters of its text under the encoding it was made in: each operation that makes or refills a string counts each character it puts there exactly once, byte sizes and character counts are never exchanged, and a position or count handed to the text operations is one in characters. In builds whose strings cannot hold one, no NUL character gets into the text of a string: the operation ends in a Scheme error instead.",
  ["inputs","configurations"], "all strings in all encodings, from every operation that makes or refills strings",
  "The texts are unbounded; a count that is off only for multibyte characters, escapes or empty parts passes the tests, which use a few sample strings.",
  ["src/string.c","src/string-procedure.c","src/encoding.c","src/read.c","src/module-srfi6.c","src/module-sscm-ext.c","src/storage.c"],
  [("length recorded by the string constructors","src/storage.c"),("scm_mb_strlen / scm_mb_substring","src/encoding.c"),("read_string","src/read.c")],
  [("a string's recorded length","number of characters of its text","src/storage-compact.h, src/storage-fatty.h")], ["string-length, string-ref, substring, string-append, make-string, list->string, string-fill!, read, get-output-string"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
