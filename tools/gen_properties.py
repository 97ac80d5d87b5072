#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
I = "inc/ptl/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [I + f for f in files],
                     "mechanism": [{"name": n, "where": I + w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    print(json.dumps(d))

STR_STATE = [("dealloc", "null: inline characters; else the function that releases the buffer", "string.hpp: string::storage_t"),
             ("sso / heap union", "inline size+characters, or pointer+capacity+size", "string.hpp: string::storage_t")]
VEC_STATE = [("dealloc, ptr, cap, siz", "owned buffer, its capacity and the number of constructed elements", "vector.hpp: vector::storage_t")]

P("C01", "String operations have the effect of the abstract character sequence",
  "After any sequence of valid operations on a string (construction and assignment from every kind of source, literals, append, operator+ and +=, insert, erase, replace, resize, push_back/pop_back, clear, substr, reserve, shrink_to_fit), its size, its characters and every value, reference or position the operations return are exactly those of the same operations on an abstract sequence of characters. This holds for every length around the inline and heap capacity limits, for arbitrary characters including NUL and negative ones, and for source ranges or views that overlap the string itself. Output to a stream writes exactly the string's characters, formatted as the stream demands.",
  ["inputs", "histories"], "every reachable (length, capacity, storage mode) of a string x every operation, overload, position, count and (self-overlapping) source range",
  "Tests run a handful of literal examples; in-place versus reallocating paths, self-overlap and lengths at the capacity limits are combinations no example list reaches.",
  ["string.hpp"], [("rotate-in-place or single allocation", "string.hpp: append/assign/insert/replace"), ("*_no_aliasing helpers", "string.hpp: append_no_aliasing .. replace_no_aliasing")], STR_STATE, ["size()", "data()", "return values"])

P("C02", "A string stays terminated, in bounds and releases every buffer exactly once",
  "After every operation a string is NUL-terminated at c_str()[size()], reports a capacity not below its size, and keeps its characters in memory that it owns and that is large enough for the capacity it reports plus the terminator. No operation reads or writes outside that memory or the given source, and each buffer a string obtains is released exactly once by the end of its life, whatever assignments, moves, swaps, growth and shrinking happened in between.",
  ["inputs", "histories"], "all operation sequences (bounded) from every reachable storage shape, one and two strings",
  "No test runs with memory checking, and each looks at c_str() only for two literals; leaks, double releases and off-by-one capacity only show on particular shape/operation pairs.",
  ["string.hpp"], [("SSO/heap storage with dealloc pointer", "string.hpp: storage_t"), ("set_size writes the terminator", "string.hpp: storage_t::set_size")], STR_STATE, ["c_str()", "capacity()", "allocator calls"])

P("C03", "Reserved string capacity is honoured and moves transfer the buffer",
  "After reserve(n) a string's capacity is at least n, and as long as the resulting length fits the capacity, appending, inserting, resizing, pushing, erasing, popping and clearing (from sources other than single-pass ranges) neither allocate nor relocate the characters nor change the capacity. shrink_to_fit never changes the content and never raises the capacity; moving or swapping strings never allocates, and a long string's characters stay at the same address in their new owner.",
  ["inputs", "histories"], "all reachable shapes x all operations whose result fits the capacity; all pairs of shapes for move and swap",
  "Tests check one capacity value in one shrink test; none checks addresses or allocations.",
  ["string.hpp"], [("reserve/resize only reallocate when needed", "string.hpp: reserve, resize, append, insert"), ("move_heap, swap", "string.hpp: storage_t")], STR_STATE, ["data()", "capacity()", "allocator calls"])

P("C04", "A failing string operation leaves the string unchanged",
  "If memory allocation fails or a source iterator throws in the middle of any string operation, the exception reaches the caller and every string involved still has its previous content, length, termination and usability, with nothing leaked. Operations declared not to throw never terminate the program because of such a failure.",
  ["fault_sequences", "inputs"], "every fallible event (allocation, source dereference/increment/comparison) of every operation from every reachable shape",
  "No test injects an allocation failure or a throwing iterator.",
  ["string.hpp"], [("build new storage aside, then move it in", "string.hpp: reserve, append, insert, replace"), ("temporaries for single-pass sources", "string.hpp")], STR_STATE, ["exceptions", "data()", "allocator calls"])

P("C05", "Vector operations have the effect of the abstract element sequence",
  "After any sequence of valid operations on a vector (construction, assignment, push_back/emplace_back/emplace/insert, erase, pop_back, resize, reserve, shrink_to_fit, clear), its size, its elements and every value, reference or position returned are exactly those of the same operations on an abstract sequence. This holds for every size and capacity combination, every position and count including empty ranges, trivial and non-trivial element types, and arguments that refer to the vector's own elements or are part of them.",
  ["inputs", "histories"], "every reachable (size, capacity) x every operation, overload, position, count and self-referring argument x element types",
  "Tests use int literals only, and never own-element arguments, empty ranges or non-trivial element types.",
  ["vector.hpp"], [("construct behind the end then rotate, or build new storage", "vector.hpp: assign_impl, insert_impl, resize_impl"), ("erase", "vector.hpp: erase")], VEC_STATE, ["size()", "data()", "return values"])

P("C06", "Vector elements live exactly once and every buffer is released exactly once",
  "At every moment a vector holds exactly size() live elements: each element is constructed once, destroyed once, never used before construction or after destruction, and all elements and the buffer are gone when the vector dies. This holds after any history of growth, insertion, erasure, assignment, moves and swaps, and no operation touches memory outside the buffer.",
  ["inputs", "histories"], "all operation sequences (bounded) from every reachable shape, with element lifetimes tracked by address",
  "Tests only store int, whose construction and destruction are invisible.",
  ["vector.hpp"], [("uninitialized_* / destroy_n pairing", "vector.hpp: storage_t, assign_impl, insert_impl, resize_impl, pop_back, clear")], VEC_STATE, ["element constructors/destructors", "allocator calls"])

P("C07", "Vector capacity, address stability, alignment and amortised growth",
  "capacity() never falls below size(), after reserve(n) it is at least n, and while the resulting size fits the capacity inserting and appending (from sources other than single-pass ranges), resizing and erasing neither allocate nor relocate the elements before the affected position; moving and swapping vectors keep every element at its address and never allocate. Elements are always suitably aligned for their type. Appending n elements one at a time allocates only O(log n) times.",
  ["inputs", "histories"], "all reachable shapes x all operations; all pairs of shapes for move and swap; element alignments up to 64; append runs of every length up to a bound",
  "No test looks at capacity(), addresses, alignment or the number of allocations.",
  ["vector.hpp"], [("capacity checks in *_impl", "vector.hpp: insert_impl, resize_impl, reserve"), ("geometric growth", "vector.hpp: insert_impl"), ("storage_t allocation", "vector.hpp: storage_t")], VEC_STATE, ["capacity()", "data()", "allocator calls"])

P("C08", "A failing vector operation leaves the vector unchanged",
  "If memory allocation, an element's construction or copy, or a source iterator throws in the middle of any vector operation, the exception reaches the caller, every vector involved keeps its previous elements and size, and no element or buffer is leaked or destroyed twice. Operations declared not to throw never terminate the program because of such a failure.",
  ["fault_sequences", "inputs"], "every fallible event of every operation from every reachable shape",
  "No test injects an allocation failure or uses an element that can throw.",
  ["vector.hpp"], [("construct new elements before touching old ones", "vector.hpp: assign_impl, insert_impl, resize_impl"), ("temporaries", "vector.hpp: insert/assign for input iterators")], VEC_STATE, ["exceptions", "elements", "allocator calls"])

P("C09", "Vector relocation moves elements and never copies them",
  "Growing, reserving, shrinking, erasing, inserting or emplacing rvalues, moving and swapping vectors relocate existing elements by moving only: no element copy is made, so they work and cannot fail for element types whose copying throws. Operations that take elements by reference or from a range copy exactly the given elements and no others.",
  ["inputs", "histories"], "all reachable shapes x all operations, with element copies counted",
  "Tests never use a copy-sensitive element type with vector.",
  ["vector.hpp"], [("uninitialized_move / rotate / move", "vector.hpp: insert_impl, resize_impl, reserve, shrink_to_fit, erase")], VEC_STATE, ["element copy constructor/assignment"])

P("C10", "Impossible sizes are rejected without damage",
  "A request for more characters or elements than max_size() allows, through any constructor, reserve, resize, assign, append, insert or replace overload that takes a count, and from any current size, throws std::length_error (or std::bad_alloc) and leaves the object unchanged. Size computations never wrap around.",
  ["inputs", "histories"], "all reachable shapes x all count-taking overloads x counts around max_size(), half the range and the top of the range",
  "No test passes a huge count.",
  ["string.hpp", "vector.hpp"], [("length checks", "string.hpp: reserve; vector.hpp: storage_t")], None, ["exceptions", "size()", "data()"])

P("C11", "Bitset operations equal the mathematics of fixed-width bit vectors",
  "For every width, including zero and widths that do not fill their last byte, construction from an integer, set, reset, flip, test, subscript, all, any, none, count, the bitwise operators, shifts by any amount, equality and swap give exactly the results of the same operations on an abstract vector of that many bits. Bits beyond the width never become observable through any of them.",
  ["inputs", "histories"], "widths 0..72; all values for small widths, all pairs for binary operators, structured values for larger; all shift distances incl. huge",
  "Tests use widths 1, 3, 4, 5 and 10 with single values; byte boundaries, width 0, large shifts and wide sets are never reached.",
  ["bitset.hpp"], [("byte storage with trailing-bit mask", "bitset.hpp: internal_bitset, clear_trailing_bits"), ("operators", "bitset.hpp: bitset")], [("values", "bits, least significant first, 8 per byte", "bitset.hpp: bitset")], ["test()", "count()", "comparison"])

P("C12", "A bitset element reference behaves as the bit it designates",
  "Reading, assigning, flipping, negating, copying and swapping the references returned by a non-const bitset subscript or at() act on exactly the designated bit and no other, as if it were a bool object, including references to different bits, the same bit, and bits of different bitsets.",
  ["inputs", "histories"], "all values x all index pairs x one or two bitsets, widths up to 9 exhaustively and byte-crossing widths",
  "The tests only ever subscript const bitsets, so no test uses a reference at all.",
  ["bitset.hpp"], [("bitset::reference", "bitset.hpp: class reference")], None, ["bitset contents", "reference conversion"])

P("C13", "Bitset text output and input follow the stream protocol of std::bitset",
  "Writing a bitset yields its digits most significant first, formatted as the stream demands like those of a std::bitset, and reading one consumes and stores exactly what reading a std::bitset of the same width consumes and stores, leaving the same stream state (good, eof, fail) and the same unread input, for every input text, width, whitespace mode and prior value. Writing then reading restores the value.",
  ["inputs", "histories"], "all input texts over a small alphabet up to a length x widths x stream modes x prior state; all values for the round trip",
  "Tests read only full-width well-formed input.",
  ["bitset.hpp"], [("operator<< and operator>>", "bitset.hpp")], None, ["stream state", "remaining input", "value"])

P("C14", "An optional is empty or holds exactly the last value given to it",
  "After any sequence of construction, assignment (value, optional, nullopt), emplace, reset, swap and move, an optional reports a value exactly when it should, gives access to exactly that value through every accessor and value_or, and compares with optionals, values and nullopt as an empty value ordered before all others, also if the source of an assignment is part of the value being replaced. value() on an empty optional throws std::bad_optional_access and nothing else does.",
  ["inputs", "histories"], "all operation sequences over one and two optionals to closure, for trivial, non-trivial and owning value types",
  "Tests cover a few transitions with int and float and six comparisons of two optionals.",
  ["optional.hpp"], [("union + initialized flag", "optional.hpp")], [("initialized", "whether a value is held", "optional.hpp: optional")], ["has_value()", "value()", "comparisons"])

P("C15", "An optional constructs and destroys its value exactly once, even on failure",
  "Over any history of an optional the value it holds is constructed once and destroyed once, an empty optional holds no live value, and moving or swapping never copies. If constructing or copying a value throws, the exception reaches the caller and the optional remains in a consistent state: still empty if it was empty, still holding a live value if it held one (unchanged when the failure happened while constructing).",
  ["histories", "fault_sequences"], "all operation sequences to closure x every fallible event of each operation",
  "Tests never use a value type with observable lifetime or failing copies.",
  ["optional.hpp"], [("placement new, flag set after construction", "optional.hpp: operator=, emplace, swap, reset")], [("initialized", "whether a value is held", "optional.hpp: optional")], ["constructor/destructor calls", "exceptions"])

P("C16", "A variant holds exactly the last alternative stored into it",
  "After any sequence of construction, assignment, emplace by type or index, swap, copy and move, a variant holds exactly one alternative, the one last stored, with the value last stored; holds, get, get_if and the comparisons report exactly that, and get of any other alternative throws std::bad_variant_access. Equality and ordering compare the position of the alternative first and the values second. This also holds if the source of an assignment is part of the value being replaced.",
  ["inputs", "histories"], "all operation sequences over one and two variants to closure, for 1, 2, 4 and many alternatives of trivial, non-trivial and owning types",
  "Tests use two or four alternatives and one value each; most (from, to) transitions are never taken.",
  ["variant.hpp"], [("recursive union + index byte, dispatch tables", "variant.hpp: internal_variant, variant")], [("type", "index of the alternative held", "variant.hpp: variant")], ["holds()", "get()", "get_if()", "comparisons"])

P("C17", "A variant never loses its value: failing operations leave the old alternative",
  "Over any history each stored alternative is constructed once and destroyed once with its own type. If constructing or copying the new value throws during assignment, emplace or construction, the exception reaches the caller and the variant still holds its previous alternative and value; moving and swapping never throw and never copy.",
  ["histories", "fault_sequences"], "all operation sequences to closure x every fallible event of each operation",
  "No test has an alternative with throwing copies or observable lifetime.",
  ["variant.hpp"], [("construct aside, then nothrow move", "variant.hpp: operator=, emplace")], [("type", "index of the alternative held", "variant.hpp: variant")], ["constructor/destructor calls", "exceptions"])

P("C18", "Visitation calls exactly the matching visitor, once, with the right object",
  "Visiting a variant or variant_ref invokes the visitor exactly once, with the very object currently held or referenced, with the constness and value category of the visited expression, chooses the overload C++ would choose among the given visitors, and returns the visitor's result (by value or reference) or lets its exception through unchanged.",
  ["inputs", "histories"], "all alternatives x lvalue/const/rvalue/const rvalue x one or several visitors x value/reference/void results x throwing visitors",
  "Tests visit two arithmetic alternatives and never check identity, reference results, exceptions or more alternatives.",
  ["variant.hpp", "variant_ref.hpp"], [("dispatch table", "variant.hpp: internal_variant::visit; variant_ref.hpp: internal_variant_ref::visit")], None, ["visitor invocation"])

P("C19", "An array is a fixed-size sequence with value semantics",
  "For every size including zero, construction (values from lvalues or rvalues, the rest value-initialised), copy, assignment, subscript, at, front, back, get, structured bindings, fill, swap, comparison and iteration act on exactly the elements of an abstract fixed-size sequence.",
  ["inputs", "histories"], "sizes 0..5, all contents over a small value set, all operations and operation pairs to closure, trivial and non-trivial element types",
  "Tests use three fixed int arrays.",
  ["array.hpp"], [("element storage", "array.hpp: internal_array, array")], None, ["element values"])

P("C20", "A tuple is a product of its members",
  "Construction, copy, assignment, swap, element access in every value category, structured bindings and comparison of a tuple act member by member; the comparisons are equality of all members and lexicographic order from the first member on.",
  ["inputs", "histories"], "0..4 members of mixed types, all member values over a small set, all pairs for comparison, assignment and swap",
  "Tests compare four pairs of one tuple type.",
  ["tuple.hpp"], [("recursive storage", "tuple.hpp: internal_tuple::storage_t")], None, ["get<>()", "comparisons"])

P("C21", "A string_ref denotes exactly the referenced characters",
  "A string_ref built from any supported source (pointer, pointer and length, string view, literal, string) denotes exactly those characters, embedded NULs included, without copying them; substr, remove_prefix and remove_suffix select the exact sub-range, and access, iteration, comparison, hashing, output and conversion to string_view agree with the denoted characters for any chain of such operations.",
  ["inputs", "histories"], "all texts over a small alphabet with NUL up to a length x all operation chains (closure over all windows); all pairs for comparison",
  "Tests use two literals, and the literal operator only with NUL-free text.",
  ["string_ref.hpp"], [("pointer pair", "string_ref.hpp")], [("first, last", "the denoted range", "string_ref.hpp: string_ref")], ["data()", "size()", "comparisons"])

P("C22", "An array_ref denotes exactly the referenced elements",
  "An array_ref built from a pointer pair, pointer and count, built-in array or contiguous container denotes exactly those elements in place; first, last and subrange select the exact sub-range for any chain of calls; reads and writes through it reach the original elements, and it can only be built from sources whose elements it can address correctly.",
  ["inputs", "histories"], "all source kinds and lengths up to a bound x all chains of sub-range operations (closure over all windows) x const and mutable element types",
  "Tests check one chain step on one array.",
  ["array_ref.hpp"], [("pointer pair", "array_ref.hpp"), ("range compatibility trait", "array_ref.hpp: is_compatible_range")], [("first_, last_", "the denoted range", "array_ref.hpp: array_ref")], ["data()", "size()", "element access"])

P("C23", "An optional_ref refers to nothing or to exactly the given object",
  "An optional_ref built from or assigned nothing, nullopt, an object of its type, a pointer or an optional-like object is empty exactly when the source is empty and otherwise refers to the source's very object; rebinding never touches the old or new referent, writes go to the referent, and value() throws std::bad_optional_access exactly when empty.",
  ["inputs", "histories"], "all sources x const and mutable x all rebinding sequences to closure",
  "Tests compare values, never identities, and rebind once.",
  ["optional_ref.hpp"], [("pointer", "optional_ref.hpp"), ("compatibility trait", "optional_ref.hpp: is_compatible_optional")], None, ["operator*", "operator->", "value()"])

P("C24", "A variant_ref refers to exactly the given object under exactly one alternative",
  "A variant_ref refers to the very object it was last bound to and reports the alternative matching that object's type and constness (the mutable alternative when the object is mutable and one exists, else the const one); holds, get_if and get agree with that and get of another alternative throws std::bad_variant_access. Copying and rebinding change only what is referred to and never the referenced objects.",
  ["inputs", "histories"], "all alternatives x const/mutable objects x all rebinding and copy sequences to closure",
  "Tests rebind among three ints and doubles.",
  ["variant_ref.hpp"], [("pointer + index", "variant_ref.hpp")], [("type", "index of the alternative", "variant_ref.hpp: variant_ref")], ["holds()", "get_if()", "get()"])

P("C25", "Calling a function_ref is calling the referenced function",
  "Calling a function_ref calls the referenced function or function object itself (not a copy) exactly once with exactly the given arguments (same objects for references, rvalues moved, not copied), through the const overload when the signature is const, and returns exactly its result (same object for reference results) or lets its exception through. Copies and reassignments refer to the same target as their source, also after the source is gone.",
  ["inputs", "histories"], "all signature kinds (const, noexcept, void, reference results, by-value/reference/rvalue parameters) x all target kinds x all rebinding sequences to closure",
  "Tests call nullary int functions only.",
  ["function_ref.hpp"], [("type-erased pointer + dispatch function", "function_ref.hpp: storage_t, invoker"), ("invoke_r", "function_ref.hpp")], [("storage, dispatch", "the target", "function_ref.hpp: function_ref")], ["target invocation"])

P("C26", "The binary representation of every type is the published, frozen one",
  "In every reachable state the bytes of each object (string, vector, array, bitset, optional, variant, tuple and the reference types) are exactly those prescribed by the frozen layout: field order, offsets, sizes, packing, flag and index encodings, bit order, inline string format, zeroed unused bits. Conversely an object whose bytes were produced by another module according to that layout is interpreted correctly by every operation.",
  ["inputs", "histories", "programs"], "all reachable states of each type, decoded by an independent byte-level reader; all encodable small states produced by an independent writer, then operated on",
  "Tests check a few sizeof values; none looks at a byte.",
  ["string.hpp", "vector.hpp", "array.hpp", "bitset.hpp", "optional.hpp", "variant.hpp", "tuple.hpp", "string_ref.hpp", "array_ref.hpp", "optional_ref.hpp", "variant_ref.hpp", "function_ref.hpp"],
  [("fixed field order, #pragma pack(1), dealloc pointer", "string.hpp: storage_t; vector.hpp: storage_t; optional.hpp; variant.hpp; tuple.hpp")], None, ["object bytes"])

P("C27", "Objects can cross modules: compatible builds interoperate and memory goes home",
  "When strings, vectors, optionals, variants, bitsets and reference types are passed by reference between separately built modules (different compilers, optimisation levels, and the pinned release of the library versus the current one), any interleaving of operations by the modules has the same result as one module doing all of them. Each buffer is released exactly once and always through the module that allocated it.",
  ["histories", "programs", "configurations"], "all operation sequences up to a depth x all assignments of operations to modules x module pairs (g++/clang++, optimised/unoptimised, pinned/current)",
  "The test binary is a single module.",
  ["string.hpp", "vector.hpp", "optional.hpp", "variant.hpp", "bitset.hpp", "function_ref.hpp", "variant_ref.hpp"],
  [("per-object dealloc function pointer", "string.hpp: storage_t; vector.hpp: storage_t")], [("dealloc", "release function of the allocating module", "string.hpp, vector.hpp: storage_t")], ["module allocators", "object contents"])

P("C28", "Comparisons form a consistent total order and equal values hash alike",
  "For strings, vectors, arrays, optionals, variants, tuples, bitsets (equality only) and string_refs the six comparison operators agree with the lexicographic (or empty-first, alternative-first) order of the abstract values: exactly one of <, ==, > holds, the others follow from them, the order is transitive, and mixed comparisons (with views, values, nullopt) agree with it. Equal values have equal hashes, independently of how they were produced.",
  ["inputs", "histories"], "all pairs (and triples) over exhaustive small value sets, each value reached through several histories and storage shapes",
  "Tests check a few pairs and no hash.",
  ["string.hpp", "vector.hpp", "array.hpp", "optional.hpp", "variant.hpp", "tuple.hpp", "bitset.hpp", "string_ref.hpp"],
  [("comparison operators", "all headers"), ("std::hash", "string.hpp, string_ref.hpp, bitset.hpp")], None, ["operators", "std::hash"])

P("C29", "Iterators obey the random-access laws over exactly the container's elements",
  "For every container and reference range of every size, begin/end and their const and reverse variants delimit exactly the elements in order, iterator arithmetic, differences, comparisons (also between iterator and const_iterator), subscripts, increments and decrements are consistent with element positions, and writing through a mutable iterator changes exactly that element.",
  ["inputs"], "all sizes up to a bound x all position pairs and offsets x all iterator kinds of all range types",
  "Tests use iterators only incidentally.",
  ["string.hpp", "vector.hpp", "array.hpp", "string_ref.hpp", "array_ref.hpp"], [("contiguous_iterator", "string.hpp, vector.hpp, array.hpp, array_ref.hpp; string_ref.hpp: iterator")], None, ["iterator results"])

P("C30", "Checked access throws exactly on invalid access and has no side effect",
  "at() of string, vector, array, bitset, string_ref and array_ref, and bitset test/set/reset/flip by index, throw std::out_of_range exactly when the index is not below the size and otherwise access exactly that element; the checked accessors of optional, optional_ref, variant and variant_ref throw their access exception exactly when the value is absent. A throwing access changes nothing.",
  ["inputs"], "all sizes up to a bound x all indices around the size and at the top of the index range x all const/non-const variants",
  "Tests exercise out-of-range access for optionals only.",
  ["string.hpp", "vector.hpp", "array.hpp", "bitset.hpp", "string_ref.hpp", "array_ref.hpp", "optional.hpp", "optional_ref.hpp", "variant.hpp", "variant_ref.hpp"], [("index checks", "all headers: at, test, set, reset, flip, value, get")], None, ["exceptions"])

P("C31", "Const operations never write, so concurrent readers are safe",
  "No operation on a const object (observers, element access, iteration, comparison, copying from it, hashing, output, visiting, calling) writes to the object or to memory it owns. Hence any number of threads may read the same object concurrently in any interleaving without synchronisation.",
  ["inputs", "schedules"], "all reachable states x all const operations, with object and buffer memory write-protected; all interleavings of two readers follow since no read step writes",
  "Tests are single-threaded and cannot see a write that is undone or hidden.",
  ["string.hpp", "vector.hpp", "array.hpp", "bitset.hpp", "optional.hpp", "variant.hpp", "tuple.hpp", "string_ref.hpp", "array_ref.hpp", "optional_ref.hpp", "variant_ref.hpp", "function_ref.hpp"], [("const member functions without mutable state", "all headers")], None, ["memory writes"])

P("C32", "Source ranges are read completely, in order, and single-pass ranges only once",
  "Every string and vector operation that takes a range uses exactly the elements of the range in order, for single-pass, forward, bidirectional and random-access sources alike; a single-pass source has each element read before advancing, is advanced exactly once per element, and is never read at or past its end.",
  ["inputs"], "all range-taking operations x all iterator categories x all range lengths and positions up to a bound x all reachable shapes",
  "Tests wrap multi-pass iterators in an input tag, which cannot detect a second pass.",
  ["string.hpp", "vector.hpp"], [("input-iterator overloads buffer the source", "string.hpp, vector.hpp: InputIterator overloads"), ("forward overloads measure first", "string.hpp, vector.hpp: ForwardIterator overloads")], None, ["iterator operations"])

P("C33", "Copy, move and swap transfer values exactly; self-operations are harmless",
  "For every owning type and every pair of states, a copy equals its source and is independent of it, a move gives the target the source's old value and leaves the source valid and reusable, swap exchanges the two values exactly, and assigning, moving or swapping an object with itself leaves its value unchanged (self-move: valid). Copying or moving a part of an object (a nested vector, optional or variant) onto the whole object works, too.",
  ["inputs", "histories"], "all pairs of reachable states of string, vector, array, bitset, optional, variant and tuple x copy/move construction and assignment, member and free swap, self versions, followed by further use",
  "Tests swap and move a handful of fixed states and never perform self-operations.",
  ["string.hpp", "vector.hpp", "array.hpp", "bitset.hpp", "optional.hpp", "variant.hpp", "tuple.hpp"], [("copy/move/swap members", "all owning headers")], None, ["values after the operation"])

P("C34", "Distinct objects are independent, so threads may use different ones concurrently",
  "An operation on one object neither reads nor writes any other object, memory owned by another object, or writable state shared between objects (apart from one-time set-up), except for an object it was given as argument, which it only reads unless it is a move or swap. Equal objects behave equally whatever happened to others in between. Hence threads working on distinct objects need no synchronisation, in any interleaving.",
  ["histories", "schedules"], "all operation histories of two objects of each type up to a bound, each operation with everything belonging to the other object inaccessible and static data write-protected; all interleavings of two threads follow since their steps commute",
  "Tests are single-threaded and use one object at a time; sharing between objects gives right answers there.",
  ["string.hpp", "vector.hpp", "array.hpp", "bitset.hpp", "optional.hpp", "variant.hpp", "tuple.hpp", "string_ref.hpp", "array_ref.hpp", "optional_ref.hpp", "variant_ref.hpp", "function_ref.hpp"], [("no static or shared state; unique ownership of buffers", "all headers")], None, ["memory accesses"])

P("C35", "Constant evaluation agrees with run-time evaluation and is free of undefined behaviour",
  "string_ref, array_ref, array and optional_ref (C++17 and C++20) and bitset (C++20) can be used in constant expressions through all of their constexpr operations (those resting on standard algorithms from C++20 on), and every history of operations yields there exactly what it yields at run time. In particular none of these operations relies on undefined behaviour such as reading past the end or comparing unrelated pointers.",
  ["histories", "configurations"], "all operation histories up to a bound x the constant evaluators of g++ and clang in C++17 and C++20 x run time",
  "The tests evaluate at run time, where undefined behaviour and code that differs between constant evaluation and run time go unnoticed.",
  ["array.hpp", "bitset.hpp", "array_ref.hpp", "string_ref.hpp", "optional_ref.hpp"], [("constexpr members", "array.hpp, bitset.hpp, array_ref.hpp, string_ref.hpp, optional_ref.hpp")], None, ["results of constant expressions", "results at run time"])

P("C36", "Valid uses compile and misuse is rejected, for every combination of types",
  "A use of the types compiles exactly when it is meaningful. array_ref, optional_ref and variant_ref bind only to objects they can address as their element type without dropping constness, and never bind a mutable element to a temporary; variant and variant_ref accept exactly their alternatives, tagged or not; function_ref accepts exactly the targets that can be called with its signature, including its const and noexcept. Nothing reached through a constant owning object can be modified, while constant references give mutable access to mutable elements. Types not intended to mix (unrelated bitsets, numbers as strings, optionals of unrelated types) do not, and copyability follows the contents.",
  ["programs", "configurations"], "all pairs of target and source types from representative lists (every combination of constness, value category, derivation, pointer and unrelated type) x g++ and clang++",
  "A test that compiles cannot show that another program does not; each test samples one valid use.",
  ["function_ref.hpp", "variant_ref.hpp", "optional_ref.hpp", "array_ref.hpp", "variant.hpp", "optional.hpp", "bitset.hpp", "string.hpp", "string_ref.hpp", "vector.hpp", "array.hpp", "tuple.hpp"], [("enable_if constraints, deleted overloads, const overloads", "all headers")], None, ["overload resolution"])

P("D01", "Every header can be included alone and in any order",
  "Each public header compiles when included first, last, alone or together with any other header, and means the same in every order.",
  ["programs", "configurations"], "all include orders", "The tests include Catch2 first, which hides missing includes.",
  ["function_ref.hpp", "tuple.hpp", "variant.hpp", "variant_ref.hpp", "vector.hpp"], [("#include lists", "all headers")], None, None)
P("D04", "The representation is the same on every platform and compiler",
  "The layout is identical for every conforming compiler and, per pointer width, on every platform, including 32-bit and MSVC builds.",
  ["configurations"], "all platforms", "One platform is tested.",
  ["string.hpp", "vector.hpp", "optional.hpp", "variant.hpp", "bitset.hpp"], [("pragma pack, fixed-width fields", "all headers")], None, None)
