#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if obs: d["anchors"]["observe_at"] = obs
    assert len(title) <= 80, title
    P.append(d)

G = "cc_bindings_from_rs/generate_bindings/"

p("E01", "Every Rust value crossing into C++ is dropped exactly once",
  "For every sequence of C++ operations on objects of a bound Rust type (construct, copy, move, assign, self-assign, swap, pass by value, return by value, wrap in tuples, arrays, Option or Result, end of lifetime), each Rust value is dropped exactly once, never while still reachable and never twice. A moved-from C++ object owns only what its type's documented moved-from state says it owns, and using it again afterwards stays well defined.",
  ["histories", "programs"], "all sequences of lifecycle operations over several objects, for every combination of Copy/Clone/Default/Drop a Rust type can have",
  "The end-to-end C++ tests of the generated bindings exercise one fixed sequence per type; the stable tests here only compare generated text against expected token patterns, and run none of it.",
  [G+"generate_struct_and_union.rs", G+"generate_function.rs", G+"generate_function_thunk.rs", "support/internal/slot.h", "support/internal/memswap.h", "support/internal/move_assign.h"],
  [("special member functions of generated classes", G+"generate_struct_and_union.rs"), ("by-value parameters and results through uninitialised storage", "support/internal/slot.h"), ("thunks that read arguments out of C++ memory", G+"generate_function_thunk.rs")],
  ["a Rust crate with instrumented Drop, called through its generated header"])

p("E02", "C++ special members follow the Rust type's traits",
  "A generated C++ class is default constructible, copyable, movable and destructible exactly when the Rust type's traits and the documented rules allow it, and each available member has the Rust meaning: default construction equals Default, copy construction equals Clone, copy assignment clones into the target, moving out leaves the documented state. Trivial members are offered only where bytes may be copied.",
  ["programs", "inputs"], "all combinations of Copy, Clone, Default, Drop, needs-drop fields, generic field types, structs, tuple structs, enums and unions",
  "Tests pin a few named example types by expected text; the combinations form a decision table that is sampled, and nothing executes the result.",
  [G+"generate_struct_and_union.rs", G+"database/adt_core_bindings.rs", "docs/rust/movable_types.md"],
  [("decision of copy and move style", G+"generate_struct_and_union.rs"), ("MemSwap-based moves", "support/internal/memswap.h")])

p("E03", "Arguments and results cross the language boundary unchanged",
  "When C++ calls a bound Rust function, every argument arrives in Rust with exactly the value and position given in C++, and the result (or the target of each reference) is exactly what Rust produced, for every supported type and nesting and every bit pattern of the values. No call has an effect the Rust function does not have.",
  ["inputs", "programs"], "all signatures over the supported types (integers, floats, bool, char, C integers, references, pointers, slices, strings, arrays, tuples, function pointers, structs, Option, Result) up to the bound, and boundary values of each",
  "Tests call a handful of fixed signatures; the stable ones only match the text of the thunk.",
  [G+"generate_function.rs", G+"generate_function_thunk.rs", G+"format_type.rs", "common/crubit_abi_type.rs"],
  [("argument conversion", G+"generate_function_thunk.rs"), ("C++ side of the call", G+"generate_function.rs"), ("type mapping", G+"format_type.rs")])

p("E04", "Generated classes have the Rust layout and the right field accesses",
  "A generated C++ class has the same size, alignment and field offsets as the Rust type, every public field is readable and writable from C++ with the value Rust sees, and the bytes of hidden or unsupported fields survive whatever C++ does with the object.",
  ["programs", "inputs"], "all structs, tuple structs, unions and repr variants over the field types, visibilities and orders up to the bound",
  "Rust chooses field order and padding freely; tests fix a few structs and compare text.",
  [G+"generate_struct_and_union.rs"],
  [("opaque blobs, field offsets and padding", G+"generate_struct_and_union.rs"), ("layout assertions in generated code", G+"generate_struct_and_union.rs")])

p("E05", "Overlapping mutable references from C++ are refused exactly when they overlap",
  "A call that passes references from C++ is refused with the documented fatal error if a mutable reference it passes overlaps any other reference of the same call, and goes through otherwise. Adjacent, empty and shared-only references are never refused. (Shared references to types with interior mutability are exempt, as documented.)",
  ["inputs", "programs"], "all placements and extents of up to four references of mixed mutability, including slices, strings, zero-sized targets and methods on self",
  "The stable tests check a few address lists; every relative placement of several spans is not reachable by examples.",
  ["support/internal/check_no_mutable_aliasing.cc", "support/internal/check_no_mutable_aliasing.h", G+"generate_function.rs"],
  [("overlap search", "support/internal/check_no_mutable_aliasing.cc"), ("which parameters are checked", G+"generate_function.rs")])

p("E06", "Enum-like values agree with Rust in every state",
  "For bound enums, Option and Result, the variant C++ observes, constructs or assigns is the variant Rust observes, and the payload it reads is the payload Rust stored, for every layout the compiler may choose (separate tag, niche in pointer, bool, char or enum). Every construct, assign, move and destroy sequence keeps the two views equal and drops each payload exactly once.",
  ["histories", "inputs"], "all operation sequences on two or more Option/Result/enum objects over payloads with and without niches and with and without drop",
  "Tests execute fixed sequences on a few payload types; niche layouts are chosen by the compiler and vary with the payload.",
  ["support/rs_std/option.h", "support/rs_std/result.h", G+"generate_template_specialization.rs", G+"generate_struct_and_union.rs"],
  [("Option members", "support/rs_std/option.h"), ("Result members", "support/rs_std/result.h"), ("tag read and write in generated specialisations", G+"generate_template_specialization.rs")])

p("E07", "Constants have the value they have in Rust",
  "Every public constant of a supported type (integers, booleans, floating-point numbers, strings) and every enumerator of a C++ enumeration is available to C++ as a compile-time constant of the corresponding type whose representation is byte for byte the one it has in Rust, whatever the value and wherever the constant is declared. A constant that cannot be expressed is left out of the bindings; the header compiles either way.",
  ["inputs"], "boundary values of every integer width, all combinations of boundary exponents and mantissas, all short strings over the characters that literals treat specially, in every place a constant can be declared; random crates of constants with values from the whole range",
  "Tests check a dozen constants with ordinary values.",
  [G+"lib.rs", G+"generate_struct_and_union.rs"],
  [("value of a constant", G+"lib.rs"), ("C++ literals", G+"generate_struct_and_union.rs")])

p("E08", "Generated code is accepted by both compilers for any supported crate",
  "For every crate of supported items, whatever their order, nesting and mutual references, the generated C++ header compiles on its own and the generated Rust file compiles against the crate: every C++ name is declared before it is used and complete where completeness is needed.",
  ["programs"], "all dependency shapes between structs, fields, functions, methods, aliases, constants, modules, re-exports and template instantiations up to the bound",
  "The tests check fragments of output for single items; compilability of a whole header depends on the combination and order of all items.",
  [G+"lib.rs", "cc_bindings_from_rs/toposort.rs", G+"database/code_snippet.rs"],
  [("ordering of definitions", G+"lib.rs"), ("topological sort", "cc_bindings_from_rs/toposort.rs"), ("prerequisites of a snippet", G+"database/code_snippet.rs")])

p("E09", "Every public item is bound or its absence is explained, in isolation",
  "Each public item of a crate either has a C++ binding under its Rust path or a diagnostic naming the item and the reason; an item that cannot be bound never removes or alters the bindings of items that do not depend on it. Private items never surface, and an item that must be bound but is not is a reported error.",
  ["programs", "configurations"], "all mixtures of supported and unsupported public and private items, their dependencies, modules, re-exports and feature settings up to the bound",
  "Tests show single unsupported items; non-interference between items needs all mixtures.",
  [G+"lib.rs", "cc_bindings_from_rs/lib.rs", "common/error_report.rs", G+"generate_function.rs"],
  [("per-item error handling", G+"lib.rs"), ("error reporting", "common/error_report.rs")])

p("E10", "Bindings are a function of the crate, not of order, history or environment",
  "Generating bindings twice for the same inputs gives byte-identical outputs, and adding an unrelated item to a crate leaves the binding of every other item unchanged.",
  ["programs", "histories", "configurations"], "all supported crates up to the bound; repeated runs with fresh hash seeds; additions of unrelated items",
  "A single run cannot show nondeterminism, and tests assert fragments.",
  [G+"lib.rs", "cc_bindings_from_rs/toposort.rs", "common/memoized.rs"],
  [("source-ordered output", G+"lib.rs"), ("tie-breaking", "cc_bindings_from_rs/toposort.rs")])

p("E11", "C++ operators on bound types mean the Rust trait they come from",
  "Comparison and conversion operations that C++ offers on a bound Rust type exist only when the Rust type implements the corresponding trait, take the operands in the same order and roles, and return what the Rust implementation returns.",
  ["programs", "inputs"], "all subsets of the mapped traits and operand types, receiver kinds (value, shared, mutable) and values of the operands",
  "Tests compare a few operators' text; operand order and role mistakes are only visible by executing asymmetric implementations.",
  [G+"lib.rs", G+"generate_function.rs", G+"generate_struct_and_union.rs"],
  [("trait-to-operator mapping", G+"generate_struct_and_union.rs")])

p("E13", "A Rust panic never unwinds into C++",
  "When Rust code called from C++ through generated bindings panics, the process terminates at the boundary: no exception or unwinding reaches the C++ caller and no later C++ code observes a half-finished call.",
  ["fault_sequences", "programs"], "a panic in every kind of call: functions, methods, constructors, clone, default, drop, comparison, conversion",
  "No stable test executes the generated code at all, let alone a panic at each call kind.",
  [G+"generate_function_thunk.rs", G+"lib.rs"],
  [("C ABI of thunks", G+"generate_function_thunk.rs")])

p("S01", "In-place construction runs each constructor and destructor exactly once",
  "Values built in place (by constructor expressions, their combinators, struct initialisers, slots and assignments) are constructed exactly once at their final address, and after a failure or a panic at any step everything already constructed is dropped exactly once, and nothing else is. A value that was never constructed is never dropped.",
  ["fault_sequences", "histories"], "all constructor expressions up to the bound with an error or panic at every possible step, and all sequences of operations on a slot",
  "Tests check the success path and a few single failures; the failure points of nested expressions multiply.",
  ["support/ctor.rs", "support/ctor_proc_macros.rs"],
  [("construction and drop guards", "support/ctor.rs"), ("ctor! and recursively pinned projections", "support/ctor_proc_macros.rs")])

p("S02", "C++ ownership wrappers never lose, leak or double-destroy a value",
  "For every sequence of operations on the movable wrapper and the uninitialised-storage slot used by generated code, each contained value is constructed once and destroyed once, assignments transfer exactly one value, and the emptiness a caller can query is the truth. Self-assignment and moves between an object and itself are harmless.",
  ["histories", "fault_sequences"], "all operation sequences over up to three wrappers, for values with and without trivial destructors",
  "Tests run one sequence per operation; pairs and triples of operations on aliased objects are not covered.",
  ["support/movable.h", "support/internal/slot.h", "support/internal/memswap.h", "support/internal/move_assign.h"],
  [("movable wrapper", "support/movable.h"), ("slot", "support/internal/slot.h")])

p("S03", "Bridged values survive the trip through the shared byte encoding",
  "For every composition of bridged types (integers, options, tuples, pairs, slices, boxed and transmuted values), what one language encodes is what the other decodes, encoder and decoder agree on the size and every offset, and ownership passes with the bytes exactly once.",
  ["inputs", "programs"], "all type compositions up to depth 3 and boundary values, encoded by either language and decoded by the other",
  "Each language's tests check itself with a few types; agreement between the two implementations is tested by neither.",
  ["support/bridge.h", "support/crubit_bridge_rust/src/lib.rs", "common/crubit_abi_type.rs"],
  [("C++ codec", "support/bridge.h"), ("Rust codec", "support/crubit_bridge_rust/src/lib.rs")])

p("S04", "C++ string, char and slice types admit exactly the valid Rust values",
  "Every way to build a Rust string slice, char or slice view from C++ accepts a value exactly when Rust would, and refuses every other value without touching memory outside it; comparison, ordering, encoding, iteration and conversion operations agree with the Rust operation on the same data.",
  ["inputs"], "all byte strings up to the bound over bytes of every UTF-8 class, all code points at the boundaries, all slices and subranges",
  "Tests list examples of malformed sequences; UTF-8 validity is a state machine over all inputs.",
  ["support/rs_std/internal/is_utf8.h", "support/rs_std/str_ref.h", "support/rs_std/char.h", "support/rs_std/slice_ref.h"],
  [("UTF-8 validation", "support/rs_std/internal/is_utf8.h"), ("char validity", "support/rs_std/char.h")])

p("S05", "Lossy text formatting depends on the bytes, not on how they are chunked",
  "Text written through the lossy formatter equals the lossy UTF-8 conversion of the concatenation of everything written, however it is split into writes, under any width, precision, fill or error of the sink; errors of the sink are reported and never lose or repeat bytes.",
  ["inputs", "fault_sequences", "histories"], "all byte strings up to the bound, all ways of splitting them into writes, all formatting parameters, and a sink failing at any write",
  "Tests pin fixed inputs and splits; the incremental decoder has state across writes.",
  ["support/rs_std/lossy_formatter.rs", "support/rs_std/lossy_formatter_for_bindings.rs", "support/cc_std_impl/lossy_utf8.rs"],
  [("incremental decoding", "support/rs_std/lossy_formatter.rs")])

p("S07", "Cross-language callables own their state exactly once",
  "A C++ callable handed to Rust or a Rust callable handed to C++ is invoked with the arguments given and returns what it returned, and its captured state is destroyed exactly once whatever sequence of moves, assignments, invocations and drops it goes through, including moved-from and empty callables.",
  ["histories"], "all sequences of construct, move, assign, invoke and destroy over two callables of both storage kinds and both origins",
  "Tests invoke a callable once or twice; ownership after moves and assignments is a property of histories.",
  ["support/rs_std/dyn_callable.h", "support/rs_std/dyn_callable.rs"],
  [("storage manager", "support/rs_std/dyn_callable.h")])

p("S08", "Futures exposed to C++ poll, wake and drop correctly under any schedule",
  "A Rust future handed to C++ is polled only with a live waker, its result is delivered exactly once with its value intact, every wake reaches the current waiter, and future, result and wakers are each dropped exactly once under every interleaving of polls, wakes, clones, cancellation and completion.",
  ["schedules", "histories"], "all interleavings of poll, wake, waker clone/drop and future drop up to the bound",
  "Tests run a few ready and pending futures to completion.",
  ["support/rs_std/dyn_erased_future.h", "support/rs_std/dyn_erased_future.rs", "support/rs_std/erased_future.rs", "support/rs_std/dyn_future.rs", "support/rs_std/waker.cc", "support/rs_std/cpp_waker.cc"],
  [("type-erased future", "support/rs_std/erased_future.rs"), ("wakers", "support/rs_std/waker.cc")])

p("C01", "Memoised queries behave like pure functions computed once",
  "Each memoised query returns the value a fresh evaluation would give, is evaluated at most once per database and argument when its dependencies are acyclic, and treats a dependency cycle as declared (a fixed answer or a panic naming the cycle) without ever remembering an answer that was computed while a cycle was still open. Databases never see each other's results.",
  ["histories", "programs"], "all query dependency graphs with cycles up to the bound, all sequences of top-level queries, several databases",
  "Tests use fixed two- or three-node graphs with one query each.",
  ["common/memoized.rs"],
  [("cycle detection and unwinding", "common/memoized.rs")])

p("C02", "The error report counts every error exactly once",
  "Every error reported while an item is being processed is recorded exactly once, in order, under that item, with its format string and full text and every error of a combined list separately; every item entered appears with its names and categories, nested scopes restore the outer item, and misuse of scopes is refused. The serialised report reads back unchanged, and a disabled report records nothing.",
  ["histories", "inputs"], "all sequences of reported errors, with nested and formatted contexts, up to the bound",
  "Tests report two or three errors each.",
  ["common/error_report.rs", "common/arc_anyhow.rs"],
  [("aggregation", "common/error_report.rs")])

p("C03", "Topological sorting is complete, correct, stable and explains failures",
  "For every dependency graph and preferred order, the result lists each node exactly once as either ordered or failed: ordered nodes come after all their dependencies and as early as the preferred order allows, and failed nodes are exactly those on or depending on a cycle.",
  ["inputs"], "all directed graphs with up to four nodes (five in the thorough tier) and all preferred orders; random larger graphs",
  "Tests check seven small graphs.",
  ["cc_bindings_from_rs/toposort.rs"],
  [("priority-driven topological sort", "cc_bindings_from_rs/toposort.rs")])

p("C05", "Printing tokens preserves the program they denote",
  "Printing a token sequence as source text and reading that text back as Rust yields the same tokens with the same grouping (adjacent punctuation other than colons may be joined), line breaks, comments and literal text appear exactly where and as requested, and printing what was read back does not change it. The source positions recorded for captured identifiers point at exactly those identifiers in the printed text.",
  ["inputs"], "all token sequences up to the bound over the token classes that interact (identifiers, literals, joint and spaced punctuation, lifetimes, groups, layout markers)",
  "Tests print a couple of dozen fixed token sequences.",
  ["common/token_stream_printer.rs", "common/code_gen_utils.rs"],
  [("spacing decisions", "common/token_stream_printer.rs")])

p("C06", "Error context and shared errors keep every message in order",
  "An error that is wrapped, cloned, converted or collected keeps its whole chain of messages in order, and collecting several errors reports every one of them in order and none twice.",
  ["histories"], "all sequences of create, wrap, clone, convert and combine operations up to the bound",
  "Tests wrap an error once or twice.",
  ["common/arc_anyhow.rs", "common/errors.rs"],
  [("shared error", "common/arc_anyhow.rs"), ("error collection", "common/errors.rs")])

p("N01", "Merging nullability evidence is independent of order and grouping",
  "Merging evidence for a program symbol gives the same counts, contexts and conclusions whatever the order and grouping in which partial results are combined, and a conclusion is flagged as conflicting exactly when contradictory hard evidence was seen.",
  ["histories", "inputs"], "all multisets of evidence kinds up to the bound, all merge trees over them",
  "Tests merge fixed lists of evidence; associativity and commutativity quantify over all trees.",
  ["nullability/inference/merge.cc"],
  [("partial merge", "nullability/inference/merge.cc")])

p("L01", "Lifetime constraints and lattice operations satisfy their laws",
  "Lifetime constraint sets and points-to maps form a lattice: joining is commutative, associative, idempotent and monotone, and applying constraints to a function's lifetimes merges exactly the lifetimes the constraints require; substituting is stable, and lifetime names and lifetimes are one to one.",
  ["inputs", "histories"], "all constraint sets over up to four lifetimes, all points-to maps over few objects, all operation sequences up to the bound",
  "Tests check a few joins by example.",
  ["lifetime_analysis/lifetime_constraints.cc", "lifetime_analysis/points_to_map.cc", "lifetime_analysis/lifetime_lattice.cc", "lifetime_annotations/lifetime_substitutions.cc"],
  [("constraint closure", "lifetime_analysis/lifetime_constraints.cc"), ("points-to join", "lifetime_analysis/points_to_map.cc")])

p("L02", "Inferred lifetimes cover every execution of the function",
  "The lifetimes inferred for a C++ function are sound and no stricter than its flow requires: whenever some execution can return or store a pointer to an object, the inferred lifetimes make that object's lifetime equal to, static with respect to, or longer than the destination's; nothing local escapes without being reported.",
  ["programs", "inputs"], "all bodies of functions over pointers, pointers to pointers, statics, branches and loops up to the bound",
  "Tests analyse fixed functions and compare the printed lifetimes; soundness quantifies over all programs and all their executions.",
  ["lifetime_analysis/lifetime_analysis.cc", "lifetime_analysis/analyze.cc", "lifetime_analysis/object_repository.cc", "lifetime_analysis/lifetime_constraints.cc", "lifetime_analysis/points_to_map.cc"],
  [("transfer functions", "lifetime_analysis/lifetime_analysis.cc"), ("constraints to lifetimes", "lifetime_analysis/analyze.cc")])

p("R01", "Rust bindings for C++ preserve layout, ownership and behaviour",
  "For every supported C++ record, function and template instantiation, the generated Rust item has the same layout, runs the same constructors, destructors and functions with the same arguments, and is offered only when the C++ semantics permit it.",
  ["programs", "inputs"], "all descriptions of C++ headers (records, functions, namespaces, enums, aliases) up to the bound",
  "The Rust-side generator's tests cannot be built here at all; upstream they compare text.",
  ["rs_bindings_from_cc/generate_bindings/lib.rs", "rs_bindings_from_cc/ir.rs"],
  [("generator from the intermediate representation", "rs_bindings_from_cc/generate_bindings/lib.rs")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
