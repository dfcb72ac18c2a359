#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so anchors and statements stay reviewable)."""
import json, os
S = "sources/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Int arithmetic is exact or fails cleanly, along any history",
  "Every history of Int construction, parsing, copying, moving, comparison, predicates, printing, +, -, *, /, % (and their assignment forms, ++ and --) gives exactly the mathematical integer results for operands of any size and sign, including when an operand is the object itself; division truncates toward zero and a == (a/b)*b + a%b with the remainder taking the sign of a. An operation whose memory allocation fails throws and leaves every Int involved with its previous value, so that the same operation succeeds exactly when repeated.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of Int operations over operands of any digit count and sign (aliased operands included) and every allocation of every operation as a failure point",
  "tests check a handful of literals, never an aliased or failing operation, so most carries, borrows and length combinations and every failure path are unreached",
  ["int.hpp"],
  [("operator+= / operator-= / operator*= / operator/= / operator%=", "int.hpp"), ("trim, abs_inc, abs_dec, abs_cmp", "int.hpp"), ("copy and move assignment", "int.hpp")],
  [("sign_", "-1, 0 or 1; 0 exactly when there are no digits", "int.hpp"), ("chunks_", "little-endian decimal digits without leading zeros", "int.hpp")],
  ["printed text, comparisons and digits() after every operation", "operand values after a failed operation"])

p("C02", "Int derived functions are exact, terminate, and never disturb operands",
  "sqrt, pow (with and without modulus), log, gcd, lcm, factorial, is_prime, next_prime and to_integer return the exact mathematical result for every in-range operand and terminate for every operand. If an allocation fails part-way they throw, their operands keep their values, and repeating the call gives the exact result.",
  ["inputs", "histories", "fault_sequences"],
  "all operand values (small and large, around squares, powers and chunk boundaries) and all allocation failure points inside the multi-step algorithms",
  "tests sample a few values; convergence for every operand and behaviour when the algorithm is interrupted cannot be sampled by literals",
  ["int.hpp", "utility.hpp"],
  [("Int::sqrt Newton iteration", "int.hpp"), ("Int::pow fast power", "int.hpp"), ("Int::log, gcd, lcm, factorial, is_prime, next_prime, to_integer", "int.hpp"), ("internal::gcd", "utility.hpp")],
  None, ["returned value compared with an independent big-integer reference", "steps executed per call"])

p("C03", "Int::random yields a well-formed, unbiased integer for any entropy",
  "For any sequence of words delivered by the entropy device, Int::random(n) returns a non-negative integer with exactly n decimal digits and no leading zero (0 for n = 0), Int::random() returns one with 0 to 4300 digits, n < -1 is rejected, digits are spread uniformly, and every call draws fresh entropy. If the device or an allocation fails, the call throws without leaking and later calls still work.",
  ["inputs", "histories", "fault_sequences"],
  "all entropy streams (constant, pathological, repeating, failing), digit counts and allocation failure points",
  "tests use the real device, so the rare digit patterns (leading zero redraw, empty result), device failure and distribution are never controlled",
  ["int.hpp"], [("Int::random", "int.hpp"), ("std::random_device -> std::mt19937 -> uniform_int_distribution", "int.hpp")],
  None, ["digits(), printed text, arithmetic on the result", "number of device reads per call"])

p("C04", "Str is immutable and every operation is exact or fails cleanly",
  "Every Str operation (find, contains, count, starts/ends_with, slice, rotate, reverse, lower, upper, erase, replace, strip, +, *, split, join, format, to_integer, comparison, indexing, copy and move assignment) returns exactly the text its documentation defines for any byte content, length and arguments, and never changes its operands. If an allocation fails inside an operation it throws rather than returning a truncated result, operands keep their content, and repeating it gives the exact result.",
  ["histories", "inputs", "fault_sequences"],
  "all strings (empty, short, long, embedded zero and high bytes, overlapping patterns), all arguments, every allocation failure point",
  "tests use short ASCII literals and never a failing allocation; silent truncation and operand damage appear only with faults, aliasing or particular bytes",
  ["str.hpp", "int.hpp", "list.hpp", "utility.hpp"],
  [("const std::string member modified only by assignment and extraction", "str.hpp"), ("find/count/replace/split scan loops", "str.hpp"), ("format_helper over ostringstream", "str.hpp")],
  [("str_", "the character sequence", "str.hpp")], ["returned values against a naive reference", "operand content and size after each call"])

p("C05", "List behaves as a sequence; failed single-element edits have no effect",
  "Over any history of edits (insert, remove, +=, -=, *=, /=, >>=, <<=, reverse, uniquify, sort, erase, map, filter, extend, clear, assignment, element writes through []) and queries (find, index, contains, count, slice, +, -, *, /, comparison), also with arguments that refer to the list's own elements, a List holds exactly the elements a plain sequence would, in the same order. When an allocation or an element copy fails, insert/remove/append leave the list unchanged, multi-element appends leave at most an unaltered prefix of the new elements after the untouched old ones, operations producing new lists leave their operands unchanged, and the list stays usable (for element types whose moves cannot fail).",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences and arguments, element types that throw or allocate, each allocation and element-copy failure point",
  "tests run short fixed scripts on int and never make an element or allocation fail, so aliasing and failure recovery are unreached",
  ["list.hpp", "utility.hpp"], [("mutators over std::vector", "list.hpp"), ("check_bounds / check_empty / check_full", "utility.hpp")],
  [("vector_", "the sequence", "list.hpp")], ["full content after every operation, compared with a reference sequence"])

p("C06", "Deque behaves as a double-ended sequence; failed pushes and pops are undone",
  "Over any history of pushes and pops at both ends, rotations, reversal, extension at either end, indexing, clear, assignment and comparison, a Deque holds exactly the elements and order of a reference double-ended sequence, for any size and across internal block boundaries. When an allocation or element copy fails, push and pop at either end leave the deque unchanged, other operations leave it valid with only elements it had or was given, and later operations work (for element types whose moves cannot fail).",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences, sizes crossing storage blocks, allocation and element-copy failure points",
  "tests exercise a few elements of int without failures; block growth, wrap and recovery are never reached",
  ["deque.hpp", "utility.hpp"], [("mutators over std::deque", "deque.hpp"), ("check_bounds / check_empty / check_full", "utility.hpp")],
  [("deque_", "the sequence", "deque.hpp")], ["full content after every operation, compared with a reference deque"])

p("C07", "Set stays a sorted set of distinct elements; failed operations lose nothing",
  "Over any history of add, remove, pop, union, intersection, difference, symmetric difference (and assignment forms, operands possibly the same set), extend, clear, subset and equality tests and queries, a Set contains exactly the mathematically expected elements, without duplicates, iterated in ascending order. When an allocation, element copy or element comparison fails, add, remove, pop and the assignment forms leave the set with its previous elements, and no operand of any operation is changed.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences and operand overlaps, element types that throw on copy or compare, each failure point",
  "tests use a few fixed int sets and never let an operation fail midway",
  ["set.hpp", "utility.hpp"], [("wrappers over std::set and set algorithms", "set.hpp"), ("pop via node extraction", "set.hpp")],
  [("set_", "ordered distinct elements", "set.hpp")], ["iteration order, size, membership after every operation"])

p("C08", "Dict stays an exact key-value map; failed operations lose nothing",
  "Over any history of add, remove, pop, get, [] reads and writes, extend, clear, keys/values/items, min/max, find, contains and comparison, a Dict maps exactly the expected keys to the expected values, add never replaces an existing value, and iteration is in ascending key order. When an allocation, copy or key comparison fails, add, remove and pop leave the dictionary with its previous entries, and no query changes it.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences, key and value types that throw on copy or compare, each failure point",
  "tests use a few fixed entries and never let an operation fail midway",
  ["dict.hpp", "set.hpp", "utility.hpp"], [("wrappers over std::map", "dict.hpp"), ("pop via node extraction", "dict.hpp")],
  [("map_", "ordered key-value pairs", "dict.hpp")], ["iteration, size, lookups after every operation"])

p("C09", "Elements and memory are conserved across every container history",
  "Across any history of operations on List, Deque, Set, Dict, Tuple, Str and Int, with or without failing allocations, copies, comparisons and callbacks, every element constructed is destroyed exactly once, no operation reads a destroyed or never-constructed element, and once all objects are gone no memory obtained by them remains allocated.",
  ["histories", "fault_sequences"],
  "all operation sequences mixed over all container types with all failure points",
  "tests never count element lifetimes nor interrupt operations, where leaks and double destruction hide",
  ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "str.hpp", "int.hpp"],
  [("ownership by standard containers, moves out of popped elements", "deque.hpp"), ("node extraction", "set.hpp"), ("Tuple recursive storage", "tuple.hpp")],
  None, ["element construction/destruction ledger", "allocation ledger at the end of each history"])

p("C10", "Rejected requests throw std::runtime_error and have no effect",
  "At any point of any history, an out-of-range index or slice, a zero slice step, a pop/min/max/front/back on an empty container, a missing dictionary key, a negative repeat count, an empty separator, an invalid literal or base, a division or modulus by zero, a zero denominator and a mathematically undefined Int or Complex operation throw std::runtime_error, change no object, and leave the object fully usable.",
  ["histories", "inputs", "fault_sequences"],
  "all rejected requests at all states reached by histories with injected failures before and during them",
  "tests try each rejection once on a fresh fixed object and do not re-verify the whole state or later use",
  ["utility.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp", "fraction.hpp", "complex.hpp"],
  [("check_bounds, check_empty, check_full, check_zero", "utility.hpp"), ("literal and domain checks", "int.hpp")],
  None, ["exception type", "object state before and after"])

p("C11", "User callbacks run in order, exactly once, and may fail safely",
  "List map calls its action exactly once per element in list order, filter calls its predicate exactly once per element in order and keeps exactly the accepted elements in order, and sort orders by the given comparator keeping equal elements in their original relative order, also when no scratch memory can be obtained (it may then fail, but does not give another order). If a callback throws, the exception reaches the caller, filter and map call nothing further, and the list stays valid: sort and map keep the number of elements, filter keeps no more than before.",
  ["histories", "inputs", "fault_sequences"],
  "all list contents, predicates, comparators, callback failure points and scratch-allocation failures",
  "tests use pure callbacks on short lists; call order and count, callback failure and the no-scratch sort path are unobserved",
  ["list.hpp"], [("map, filter, sort", "list.hpp")], None, ["callback call log", "list content after success or failure"])

p("C12", "Extraction terminates for every input, end-of-file and error point",
  "Extracting an Int, Fraction, Complex or Str from a stream returns or throws after work bounded by the input available, whatever the bytes and wherever the stream ends or starts failing, including an empty or all-blank stream.",
  ["inputs", "fault_sequences", "histories"],
  "all byte streams, all positions of end-of-file, read error and chunk boundary",
  "tests feed complete well-formed literals from memory streams only",
  ["fraction.hpp", "complex.hpp", "int.hpp", "str.hpp"], [("operator>> whitespace loops and peeks", "fraction.hpp"), ("operator>>", "complex.hpp")],
  None, ["stream operations and steps consumed per extraction"])

p("C13", "Extraction yields exactly the token's value or reports failure",
  "For any stream content and any way its bytes are delivered in chunks, an extraction that succeeds yields exactly the value written in the next token (for Str, the next line) and consumes exactly that token, so consecutive extractions read consecutive tokens; input that is not a valid literal, or that ends or fails inside it, is reported by an exception or a failed stream and never accepted as some other value.",
  ["inputs", "fault_sequences", "histories"],
  "all byte streams, chunkings and read-fault positions, and sequences of mixed extractions from one stream",
  "tests parse a few literals from complete in-memory buffers; malformed, truncated and interrupted tokens are not sampled",
  ["fraction.hpp", "complex.hpp", "int.hpp", "str.hpp"], [("operator>> of each class", "fraction.hpp"), ("operator>>", "complex.hpp"), ("operator>> via string token", "int.hpp"), ("operator>> via getline", "str.hpp")],
  None, ["extracted value, stream state and position against a reference parser"])

p("C14", "A failed extraction leaves the destination as it was",
  "When extracting an Int, Fraction or Complex fails for any reason (bad literal, end of input, stream error, arithmetic range, allocation failure), the destination object keeps its previous value and every later extraction into it from a good stream works.",
  ["inputs", "fault_sequences", "histories"],
  "all destinations, malformed or interrupted inputs and allocation failure points",
  "tests only check that an exception is thrown for a few literals, never the destination",
  ["fraction.hpp", "complex.hpp", "int.hpp"], [("assignment as the last step of operator>>", "fraction.hpp"), ("operator>>", "complex.hpp"), ("operator>>", "int.hpp")],
  None, ["destination value before and after"])

p("C15", "Interrupted output is a reported prefix and never alters the object",
  "Printing any object to a stream whose device accepts only some of the bytes produces a prefix of the object's exact text and leaves the stream in a failed state or raises its exception; it never changes the object, and printing the object again to a healthy stream gives the complete text.",
  ["fault_sequences", "histories", "inputs"],
  "all objects of all nine types (nested included), all byte positions and kinds of write failure",
  "tests print to memory streams that cannot fail",
  ["utility.hpp", "int.hpp", "str.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp"],
  [("internal::print", "utility.hpp"), ("operator<< of each class", "int.hpp")], None, ["bytes accepted by the device, stream state, object content"])

p("C16", "Stream formatting state survives library input and output",
  "Inserting or extracting any library object leaves the stream's format flags, precision, fill character, locale and exception mask exactly as they were, whether the operation succeeds or fails.",
  ["histories", "fault_sequences", "configurations"],
  "all stream configurations, objects, and success or failure of the operation",
  "tests only compare the produced text of fresh streams",
  ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "utility.hpp", "tuple.hpp"], [("operator<<", "int.hpp"), ("operator>>", "fraction.hpp")],
  None, ["flags(), precision(), fill(), getloc(), exceptions() before and after", "other values printed afterwards"])

p("C17", "Values written and flushed are read back exactly after a crash",
  "A journal of Int, Fraction, Complex and Str-line records written with the library's output operators, one per line, and acknowledged after a successful flush and sync is read back value-exactly with the input operators after a restart at any crash point; a damaged or torn unacknowledged tail yields either the value its surviving bytes spell or a reported error, never a hang, and an unacknowledged write error is reported to the writer.",
  ["crash_points", "fault_sequences", "histories"],
  "all record sequences, write/flush faults, crash points and surviving subsets of unsynced sectors",
  "tests never take values through storage, nor crash or tear a write",
  ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp"], [("operator<< / operator>> round trip", "int.hpp"), ("operator<< / operator>>", "fraction.hpp"), ("operator>>", "complex.hpp"), ("operator>> line reader", "str.hpp")],
  None, ["records recovered after restart against acknowledged history"])

p("C18", "Concurrent const use of a shared object is race-free and consistent",
  "Any number of threads performing const operations (queries, comparisons, arithmetic producing new values, printing, slicing, hashing, iteration, copying) on the same Int, Fraction, Complex, Str, List, Deque, Set, Dict or Tuple objects never race with each other, and each obtains exactly the results it would obtain alone.",
  ["schedules", "histories", "programs"],
  "all interleavings of const operations of several threads over shared objects",
  "all tests are single-threaded",
  ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp", "utility.hpp"],
  [("const members without hidden mutable or static state", "int.hpp"), ("const access delegating through const_cast", "list.hpp")],
  None, ["memory accesses of all threads checked for happens-before", "results per thread"])

p("C19", "Independent objects in different threads never interfere",
  "Threads working on distinct objects, including copies made from a common original beforehand and calls of static functions such as Int::random, never race and obtain exactly the results of running alone, under every interleaving.",
  ["schedules", "histories", "programs"],
  "all interleavings of threads mutating their own objects",
  "all tests are single-threaded, so hidden shared state (caches, statics, shared buffers) cannot show",
  ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp", "utility.hpp"],
  [("no shared mutable state between objects", "int.hpp"), ("Int::random local engine", "int.hpp")], None,
  ["memory accesses of all threads checked for happens-before", "results per thread"])

p("C20", "Growth beyond available memory or maximum size is refused, not corrupted",
  "When an operation that grows an object (repetition, concatenation, extension, insertion, Int growth) would exceed the available memory or the maximum container size, it throws and the object keeps its previous content; otherwise its result has exactly the requested size and content, with no wrapped size or index.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all repeat counts and sizes including products beyond the int range, and all memory limits",
  "tests never approach a limit",
  ["list.hpp", "str.hpp", "utility.hpp", "int.hpp", "deque.hpp"], [("check_full", "utility.hpp"), ("operator*", "list.hpp"), ("operator*", "str.hpp")],
  None, ["size and content after the call under a simulated heap limit"])

p("C21", "Copies are independent; moves, swaps and self-assignment are safe",
  "For every type, a copy equals its source and later changes to either never show in the other; a moved-from Int, Str, List, Deque, Set or Dict is empty (an Int, Fraction or Complex is zero) and fully reusable; assigning an object to itself by copy keeps its value; swapping exchanges values. An assignment or copy that fails for lack of memory leaves the source unchanged and the destination in a valid, destructible and assignable state (for Int and Str: unchanged).",
  ["histories", "fault_sequences"],
  "all interleaved histories of copies, moves, swaps, assignments and mutations over several objects with failing allocations",
  "tests check one copy and one move per class without later mutation, reuse or failure",
  ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp"],
  [("copy and move constructors and assignments", "int.hpp"), ("move through const_cast", "str.hpp"), ("moves", "fraction.hpp"), ("moves", "complex.hpp")],
  None, ["values of all objects after every operation"])

p("C22", "Bulk loading from a single-pass or failing source is exact",
  "Building or extending a List, Deque, Set or Dict from any iterator range, including a single-pass source read from a stream, takes each source position exactly once in order and adds exactly those elements in order (first occurrence wins for duplicate keys), leaving the source unchanged. If the source, an allocation or an element copy fails part-way, the failure reaches the caller, existing elements are kept (in order, for List and Deque appends), anything added is elements the source delivered, and the container remains usable (for element types whose moves cannot fail).",
  ["histories", "fault_sequences", "inputs"],
  "all source lengths and contents, iterator categories, and failure positions of source, allocator and element copies",
  "tests extend from small in-memory ranges that cannot fail",
  ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp"], [("range constructors", "list.hpp"), ("extend / extend_back / extend_front", "deque.hpp"), ("extend", "set.hpp"), ("extend", "dict.hpp")],
  None, ["source reads log", "container content after success and failure"])

p("C23", "Fraction values stay exact and in lowest terms along any history",
  "Along any history of Fraction construction, copying, arithmetic (assignment forms, ++, --, gcd and lcm included, operands possibly the object itself), rejected requests and interrupted input or output, every Fraction has a positive denominator coprime with its numerator and equals exactly the rational number the history defines, as long as the intermediate products and sums fit in int; a failed or rejected operation changes no Fraction.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of Fraction operations with values whose products fit in int, aliased operands, every rejected request, every position of a read, write or allocation failure",
  "tests sample a few pairs on fresh objects; sign and simplification slips that only show after several operations or after a failure are unreached",
  ["fraction.hpp", "utility.hpp"], [("constructor normalisation", "fraction.hpp"), ("arithmetic, gcd, lcm", "fraction.hpp"), ("internal::gcd", "utility.hpp")],
  [("numerator_, denominator_", "lowest terms, denominator positive", "fraction.hpp")], ["numerator, denominator and printed text of every object after every operation"])

p("C24", "Complex values follow complex arithmetic along any history",
  "Along any history of Complex construction, copying, moves, +, -, *, / and their assignment forms, pow, negation, conjugate, abs, arg and comparison (operands possibly the object itself), rejected requests (division by zero, undefined powers), and interrupted input or output, every Complex holds the result complex arithmetic gives for the operands' current values within floating-point accuracy (for operands of ordinary magnitude), copies, negation, conjugation, extraction and construction are exact, operands are never changed, equal values compare equal and distinct values unequal, printing gives both parts in the stream's precision, and a failed or rejected operation changes no Complex.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of Complex operations on operands of ordinary magnitude, aliased operands, every rejected request, every position of a read, write or allocation failure",
  "tests sample a few pairs on fresh objects; the assignment forms, aliased operands and values after a failed operation are unreached",
  ["complex.hpp"], [("operator*, operator/, pow", "complex.hpp"), ("assignment forms", "complex.hpp"), ("operator>>", "complex.hpp"), ("operator==", "complex.hpp")],
  [("real_, imag_", "changed only by a successful operation on this object", "complex.hpp")], ["real and imaginary part of every object after every operation", "printed text"])

p("C25", "Equal objects hash equally, whatever history produced them",
  "Int, Str, Fraction and Complex objects that hold equal values compare equal and have equal hashes, whichever sequence of operations (arithmetic, slicing, moves, extraction, failed and repeated operations) produced each of them, so they are found again as keys of unordered containers.",
  ["histories", "fault_sequences", "inputs"],
  "all pairs of values reached by different histories, with failing allocations inside those histories and inside the hashing containers",
  "tests hash a few freshly built values; representations that depend on how a value was reached (leading zeros, spare capacity, moved-from state) are never compared",
  ["int.hpp", "str.hpp", "fraction.hpp", "complex.hpp"], [("std::hash specialisations", "int.hpp"), ("operator==", "int.hpp"), ("operator==", "fraction.hpp")],
  None, ["==, std::hash and unordered lookups over all pairs of live objects"])
p("C26", "Comparison operators agree with one total order, whatever history produced the operands",
  "For Int, Str, Fraction, List and Deque, the six comparison operators and <=> of any two objects agree with the mathematical (Int, Fraction) or lexicographic (Str, List, Deque) order of the values they hold, whichever histories produced them, so sorting and ordered containers of them are in order; a comparison that fails changes neither operand.",
  ["histories", "fault_sequences", "inputs"],
  "all pairs of values reached by different histories, with failing allocations, copies and element comparisons inside them",
  "tests compare a few literals; length, sign and magnitude combinations and values reached through other operations are unreached",
  ["int.hpp", "str.hpp", "fraction.hpp", "list.hpp", "deque.hpp"], [("operator<=>", "int.hpp"), ("operator<=>", "fraction.hpp"), ("operator<=>", "list.hpp")],
  None, ["all comparison operators over all pairs of live objects", "sorted lists and sets of them"])

p("C29", "A Tuple keeps exactly the values it was built from",
  "Along any history of construction (constructor or make_tuple), copying, assignment (self included), moves, swaps, get, rest, size, comparison, printing and use as a container element, a Tuple of any element types (containers, nested and empty tuples included) holds exactly the values it was built from, in order. Two tuples are equal exactly when they have the same length, the same element types and equal values, and != always says the opposite. When an allocation or an element's copy or comparison fails inside such an operation, the failure reaches the caller, a failed construction leaves nothing behind, the sources and all other tuples are unchanged, and an assigned tuple stays destructible and assignable.",
  ["histories", "fault_sequences", "inputs"],
  "all histories over tuples of all element type lists, every position of a failing allocation, element copy or comparison",
  "tests build a few tuples of fundamental types, on which nothing can fail, and never copy, assign, move or nest them in other containers",
  ["tuple.hpp", "utility.hpp"], [("constructor", "tuple.hpp"), ("operator== / operator!=", "tuple.hpp"), ("get, rest, size", "tuple.hpp"), ("internal::print, operator<<", "tuple.hpp")],
  None, ["get<I>, rest, size, ==, != and printed text of every tuple after every operation", "number of live elements after a failed construction"])

# ---- listed, but not decidable by this family ----
p("C27", "Str::to_decimal evaluates every decimal literal accurately",
  "to_decimal returns the value of any decimal or scientific literal, infinity or NaN spelling within floating-point accuracy and rejects everything else.",
  ["inputs"], "all strings", "tests sample a few literals", ["str.hpp"], [("to_decimal state machine", "str.hpp")])
p("C28", "Tuple structure and comparison are decided at compile time",
  "Tuple get, size, rest and comparison across different element types are well-defined constant expressions.",
  ["programs"], "all element type lists", "tests instantiate a few", ["tuple.hpp"], [("Tuple recursive template", "tuple.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
