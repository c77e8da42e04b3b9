#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
H = "include/cest/"
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [H + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": H + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": H + w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A vector behaves as a sequence under every history of operations",
  "After any history of constructions, push_back, pop_back, range erase, resize, reserve, clear, copies, moves, swaps and element writes, a vector holds exactly the elements, in order, that the same history leaves in a mathematical sequence. Its size, emptiness, front, back, indexing, data, forward and reverse iteration and equality all report that sequence, and range erase returns the position after the erased range. Swapping two vectors leaves positions of and references to their elements valid. at() returns the element for every index below the size and throws out_of_range for every other index.",
  ["histories", "inputs"], "Every operation history, every size, every erase range and every index.",
  "The tests run a dozen fixed histories of at most 6 elements; a wrong growth, shift or bound for another size or order of operations is not reached.",
  ["vector.hpp"],
  [("reserve moves the elements to a new block", "vector.hpp reserve"), ("push_back grows by doubling", "vector.hpp push_back"), ("erase shifts the tail left", "vector.hpp erase")],
  ["size/empty/front/back/operator[]/at/data/iterators/operator== after every operation"],
  [("m_size", "number of live elements", "vector.hpp"), ("m_capacity", "slots allocated", "vector.hpp")])

p("C02", "Vector capacity is honoured and growth is amortised",
  "A vector's capacity is never below its size nor below any amount reserved since the vector last exchanged storage with another one, and removing elements or clearing never changes it; reserving no more than the current capacity changes nothing. As long as the resulting size does not exceed the capacity, appending, resizing and removing never move an element in memory, so pointers and iterators before the point of change keep denoting the same elements. Appending n elements one at a time relocates the contents a number of times logarithmic in n.",
  ["histories", "inputs"], "Every operation history and every requested capacity.",
  "The tests check the capacity of three fixed histories and never the address of an element.",
  ["vector.hpp"],
  [("reserve reallocates only when asked for more than the capacity", "vector.hpp reserve"), ("doubling in push_back", "vector.hpp push_back")],
  ["capacity() and element addresses before and after every operation"])

p("C03", "A deque behaves as a double-ended sequence under every history",
  "After any history of pushes and pops at both ends, clears, copies and assignments, at any size and at any position relative to the deque's internal storage blocks (including after it has been emptied from either end), a deque holds exactly the elements, in order, of the same history on a mathematical sequence. Size, emptiness, front, back and indexing all report that sequence. Pushing or popping at an end never moves the other elements, so references to them stay valid. Popping an empty deque has no effect.",
  ["histories", "inputs"], "Every push/pop history, every size, every placement of the ends in the storage blocks.",
  "The tests hold at most 5 elements, in the middle of one block of 1024: no history reaches a block boundary.",
  ["deque.hpp", "vector.hpp"],
  [("push_front_helper/push_back_helper advance an end to the neighbouring block", "deque.hpp"), ("pop_front/pop_back retreat", "deque.hpp"), ("operator[] finds block and offset", "deque.hpp")],
  ["size/empty/front/back/operator[] and element addresses after every operation"],
  [("m_front, m_front_chunk, m_back, m_back_chunk", "the two ends: block and offset", "deque.hpp")],
  "CEST_VERIF_CHUNK_SIZE makes the block size small, so that a short history crosses several blocks")

p("C04", "Deque iterators visit exactly the elements, in both directions",
  "In every reachable state of a deque, iterating from begin to end visits exactly the elements in index order and terminates, and stepping back from end visits them in reverse order. Incrementing and decrementing are inverse, post-increment and post-decrement return the previous position, the difference of two iterators equals the difference of their indices, iterators order as their indices do, and moving one by any distance within the deque reaches the position at that distance, for mutable and constant iterators alike, wherever the elements lie in the deque's storage blocks. Popping at an end leaves iterators to the other elements valid.",
  ["histories", "inputs"], "Every reachable placement of the elements in blocks, every pair of positions.",
  "The tests iterate over at most 5 elements of one block and take one difference.",
  ["deque.hpp"],
  [("iter/const_iter step to the neighbouring block", "deque.hpp iter::operator++, operator--"), ("operator- of iterators", "deque.hpp"), ("end()", "deque.hpp")],
  ["every iterator position, both directions, every pairwise difference"], (), "CEST_VERIF_CHUNK_SIZE")

p("C05", "A list behaves as a sequence with stable positions",
  "After any history of insertions, emplacements and erasures at any position, pushes and pops at both ends, clears, copies and assignments, a list holds exactly the elements, in order, of the same history on a mathematical sequence, as seen by size, front, back and by iterating in both directions. Insertion and emplacement return the position of the new element and erasure the position after the removed one. Iterators and references to all other elements keep denoting the same elements.",
  ["histories"], "Every operation history, every position.",
  "The tests run four fixed histories and never iterate backwards over the whole list.",
  ["list.hpp"],
  [("insert/emplace link a node before the position", "list.hpp"), ("erase unlinks", "list.hpp m_unhook")],
  ["size/front/back/forward and backward iteration, retained iterators, after every operation"])

p("C06", "A forward_list behaves as a sequence with stable positions",
  "After any history of insertions and erasures after any position (including before the first element), range erasures, pushes and pops at the front, clears, copies, assignments and swaps, a forward_list holds exactly the elements, in order, of the same history on a mathematical sequence, as seen by emptiness, front and iteration. Insertion returns the position of the new element and erasure the position after the last removed one. Iterators and references to all other elements keep denoting the same elements.",
  ["histories"], "Every operation history, every position and range.",
  "The tests run six fixed histories with at most 4 elements and erase only whole lists or single elements.",
  ["forward_list.hpp"],
  [("insert_after links a node", "forward_list.hpp"), ("erase_after unlinks one node or a range", "forward_list.hpp")],
  ["empty/front/iteration, retained iterators, after every operation"])

p("C07", "A set is a sorted collection of distinct keys for every history",
  "After any sequence of insertions (with or without a hint), clears, copies and assignments, a set holds exactly the distinct keys inserted, under its own comparator: an insertion reports whether the key was new and the position of the equivalent key, and never disturbs an existing key. Finding a key, directly or through a comparable stand-in type, yields its position exactly when it is present. Iterating from begin or from any key visits the remaining keys in strictly ascending comparator order and ends at end. Stepping back from end or from any key visits the preceding keys in the opposite order. Positions of existing keys stay valid under insertion.",
  ["histories", "inputs"], "Every insertion order of every key set, every lookup key, every comparator that is a strict weak order.",
  "The tests insert three orders of ten keys; there are n! orders, and rebalancing takes a different path in each.",
  ["set.hpp", "swap.hpp"],
  [("insert descends, links and rebalances on the way up", "set.hpp insert"), ("rotations keep parent links", "set.hpp rotate_left/right"), ("operator++ climbs through parent links", "set.hpp const_tree_iter")],
  ["insert results, size, find of every key, iteration from every key, after every operation"],
  [("m_begin", "smallest node", "set.hpp")])

p("C08", "A map associates each key with its first value for every history",
  "After any sequence of insertions, writes through iterators, clears, copies and assignments, a map holds exactly one entry per distinct key under its own comparator; an insertion for a key already present reports so, yields the position of the existing entry and does not change its value. Finding a key yields its entry exactly when present, with the value last written. Iterating from begin or from any entry visits the remaining entries in strictly ascending key order, whatever equality the key type defines, and ends at end. Stepping back from end or from any entry visits the preceding entries in the opposite order. Positions of existing entries stay valid under insertion.",
  ["histories", "inputs"], "Every insertion order, every lookup key, every comparator and key equality.",
  "The tests insert at most three keys, in ascending order, and iterate over none.",
  ["map.hpp", "swap.hpp"],
  [("insert descends, links and rebalances on the way up", "map.hpp insert"), ("operator++ climbs through parent links", "map.hpp tree_iter, const_tree_iter")],
  ["insert results, size, find of every key, iteration from every entry, after every operation"])

p("C09", "Sets and maps stay balanced for every insertion order",
  "For every order in which n keys are inserted, each lookup and each insertion in a set or map calls the comparator a number of times logarithmic in n (at most about 4 log2(n+1)), never linear.",
  ["histories", "inputs"], "Every insertion order of n keys, every n.",
  "No test counts comparisons; an unbalanced tree gives the same answers.",
  ["set.hpp", "map.hpp"],
  [("red-black rebalancing in insert", "set.hpp insert, map.hpp insert")],
  ["comparator calls per find and per insert"])

p("C10", "A string holds exactly the characters its history gives it",
  "After any history of constructions, appends, assignments, push_back, pop_back, clear, reserve, copies and character writes, a string holds exactly the characters, embedded null characters included, that the same history leaves in a mathematical sequence, as seen by size, length, indexing, front, back and iteration. The character after the last one is always the null character, and capacity is never below the size. This holds for every character type the library names and for construction from a stream range of any length, including an empty one.",
  ["histories", "inputs"], "Every operation history, every text including embedded nulls, every length.",
  "The tests use a handful of short texts without embedded nulls (but one) and never fill a string to its capacity.",
  ["string.hpp"],
  [("append/push_back/reserve grow the buffer", "string.hpp"), ("operator= reuses or replaces the buffer", "string.hpp"), ("constructor from an input range", "string.hpp")],
  ["size/length/operator[]/front/back/c_str/data/iterators/capacity after every operation"],
  [("m_capacity", "characters available besides the terminator", "string.hpp")])

p("C11", "String search and comparison agree with their definition",
  "For all strings, patterns and start positions, find returns the least position not below the start at which the character, C string, counted sequence or string occurs, and npos when there is none. compare is negative, zero or positive as the string is lexicographically below, equal to or above the other by unsigned character value (or as the string's own character traits say), with a proper prefix below the longer text. All equality, inequality and less-than operators between strings and C strings agree with compare.",
  ["inputs"], "Every pair of texts (embedded nulls included) and every start position.",
  "The tests search one text for four patterns from position 0 and compare five pairs.",
  ["string.hpp"],
  [("find overloads", "string.hpp find"), ("compare overloads", "string.hpp compare")],
  ["results of find, compare and the relational operators"])

p("C12", "A queue is first-in first-out over either container",
  "For any history of pushes, pops and copies, over a deque or a list, at any length, a queue's front is the earliest element not yet popped, its back the latest one pushed, its size the number of pushes minus pops, and elements leave in exactly the order they entered. A queue built from a container starts with that container's elements in order.",
  ["histories"], "Every push/pop history, both containers, every length.",
  "The tests push two elements.",
  ["queue.hpp", "deque.hpp", "list.hpp"],
  [("push/pop/front/back delegate to the container", "queue.hpp")],
  ["front/back/size/empty after every operation"], (), "CEST_VERIF_CHUNK_SIZE")

p("C13", "Copies are equal and independent, whatever either side held before",
  "For every container (vector, deque, list, forward_list, set, map, string, queue), a copy-constructed or copy-assigned object holds the same elements as its source at that moment, whatever the target held before, and the source is unchanged. Any later change to one, including its destruction, leaves the other unchanged. Moving or swapping hands the source's elements to the target in the same way, and leaves the source usable.",
  ["histories", "inputs"], "Every pair of source and target states, every later operation on either.",
  "The tests copy one or two small containers each and compare a single element or size.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp"],
  [("copy constructors and assignment operators", "vector.hpp and the other containers")],
  ["full contents of both objects after the copy and after each later operation on either"])

p("C14", "Operations whose argument is the object itself or its own element are safe",
  "For every container and string, an operation given the object itself (self-assignment, self-append, self-comparison, self-move or swap with itself) or a reference to one of its own elements or characters (inserting or appending own element, assigning a string from its own tail) has the same effect as if given an independent copy, also when it makes the storage grow. No such call reads storage that has been released.",
  ["histories", "inputs"], "Every state, size and capacity relation; every own element or tail as the argument.",
  "The only such call in the tests is one string self-append.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("order of copying the argument and releasing the storage", "vector.hpp push_back, string.hpp push_back, operator=, append"), ("copy assignment", "list.hpp, set.hpp, map.hpp, deque.hpp operator=")],
  ["contents after each self-referential call; memory errors"])

p("C15", "Every element and block is released exactly once",
  "For every history of operations on any container, each element is constructed exactly once in storage before it is used and destroyed exactly once, never after its storage is released, and each block obtained from the allocator is returned exactly once, with the size it was requested with, to an equal allocator. When all containers of the history are destroyed no element and no block remains. After clear, the elements are destroyed at once.",
  ["histories"], "Every operation history on each container.",
  "The tests' constant expressions check this for their fixed histories only; a leak or double release in another history passes.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp"],
  [("destructors and clear", "all containers"), ("std::destroy_n over the removed part", "vector.hpp erase, resize, operator=")],
  ["ledger of constructions/destructions by address and of allocations by block"])

p("C16", "A failing element operation or allocation leaves containers intact",
  "If constructing, copying, assigning or comparing an element, or an allocation, fails with an exception at any point of any container operation, the exception reaches the caller, no element or block leaks or is released twice, and the container remains valid and usable. Inserting one element (push, insert, emplace, insert_after) and reserving or growing storage have no effect if they fail, whenever the element's move cannot fail or it is copied. A copy construction that fails leaves nothing behind.",
  ["fault_sequences", "histories"], "Every fault point of every operation of every history.",
  "No test injects a failure.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("construct before commit", "vector.hpp push_back, reserve; deque.hpp push helpers"), ("release of the new node when construction fails", "list.hpp, forward_list.hpp, set.hpp, map.hpp insert")],
  ["contents and ledger after each injected failure, and after further use"])

p("C17", "A unique_ptr deletes its object exactly once, when ownership ends",
  "At every point of any history of creation, move construction (also to a base), move assignment, release and reset, each object is owned by at most one unique_ptr, and it is deleted exactly once: at the moment its owner is destroyed, reset or assigned over, and never after being released. A moved-from or released unique_ptr is empty. get, dereference, the truth value and the comparisons always reflect the pointer currently owned.",
  ["histories"], "Every history over several pointers.",
  "The tests run one history; none checks when or how often a deletion happens.",
  ["memory.hpp"],
  [("move assignment, reset, release, destructor", "memory.hpp unique_ptr")],
  ["deletion log, get() of every pointer after every operation"])

p("C18", "A shared_ptr's object lives exactly as long as its last owner",
  "At every point of any history of creation (plain, with a deleter, array, null), copying, aliasing, assignment (also to itself and from or to empty pointers) and destruction of shared_ptrs, use_count equals the number of live owners of that group and is 0 for an empty pointer. The deleter runs exactly once, with the original pointer, at the moment the last owner goes, and never earlier. get, dereference, indexing and the comparisons reflect the stored pointer, and get_deleter finds the deleter exactly when asked for its type. If creating a shared_ptr fails, the object is deleted at once.",
  ["histories"], "Every history over several pointers, objects and deleters.",
  "The tests copy once and alias once, never assign, and never copy an empty pointer.",
  ["shared_ptr.hpp"],
  [("count in the shared control block", "shared_ptr.hpp shared_ptr_base"), ("type-erased deleter", "shared_ptr.hpp ctrl_derived")],
  ["use_count and get of every pointer, deleter log, after every operation"])

p("C19", "A function object calls its stored target faithfully",
  "Calling a function object calls the target it was built from, once, with exactly the arguments given (values, references and move-only values alike), returns its result, and lets its exceptions through; state kept by the target persists between calls, and a target may itself call or copy the function object it is in. Building one from a callable leaves that callable unchanged, and moving a function object, by construction or assignment, transfers the target. Assigning a function object to itself changes nothing, and if copying a target fails, assigning has no effect. The stored target is destroyed exactly once, when the last function object holding it goes.",
  ["histories", "inputs"], "Every history of construction, calls, moves and assignments over targets of every kind.",
  "The tests call two function objects once each.",
  ["functional.hpp", "memory.hpp"],
  [("type erasure through a virtual call operator", "functional.hpp impl_f"), ("ownership by unique_ptr", "functional.hpp function")],
  ["call log (target, arguments), results, target lifetimes"])

p("C20", "String streams deliver their text and state flags as specified",
  "For any text (embedded nulls and high characters included) and any history of single-character reads, block reads, un-reads, sentries (which skip white space unless told not to), text replacements, clears and flag settings, an input string stream or string stream delivers the same characters, the same gcount and the same good/eof/fail/bad flags after every step as the C++ standard library's stream does. No read goes outside the text, and a failed read leaves the caller's buffer beyond the delivered characters unchanged. A stream that is moved from, assigned to by moving, or swapped hands over its text, the position in it and its flags, and the new stream depends on the old one no more. State flags, open modes and format flags combine as sets.",
  ["histories", "inputs"], "Every history of operations, every text and block length.",
  "The tests run three fixed histories over two texts.",
  ["sstream.hpp", "istream.hpp", "streambuf.hpp", "basic_ios.hpp", "ios_base.hpp"],
  [("get/unget/read and the sentry", "istream.hpp"), ("get area bookkeeping", "streambuf.hpp"), ("state flags and exceptions mask", "basic_ios.hpp")],
  ["characters, gcount, rdstate after every operation, against std::istringstream"])

p("C30", "Streams over a user's own buffer class behave as the standard ones",
  "For any buffer class derived from the library's stream buffer (holding the whole text at hand, chunks of any length, or nothing; stepping back or not; with or without block reads of its own), whose functions may throw at any call, and any history of reads, un-reads, direct calls on the buffer, clears, flag and exception-mask settings, an input stream over it delivers the same characters, counts, flags and exceptions, and consumes as much of the source, as the C++ standard library's stream over the same class. Flushing an output stream synchronises its buffer once and reports a failing or throwing buffer. A copy of a buffer, or one it is assigned to, stands where that one stood and goes on alone. A stream without a buffer is bad, and says so.",
  ["histories", "inputs", "faults"], "Every buffer class of the kinds named, every call at which it throws, every history.",
  "No test derives from the stream buffer; every one reads from a string held whole.",
  ["istream.hpp", "streambuf.hpp", "basic_ios.hpp", "ostream.hpp"],
  [("underflow, uflow, pbackfail, xsgetn, sync are virtual", "streambuf.hpp"), ("exceptions of the buffer set bad and pass by the mask", "istream.hpp get, unget, read; basic_ios.hpp _M_setstate"), ("flush", "ostream.hpp flush")],
  ["characters, gcount, rdstate, exceptions and source position after every operation, against std::istream"])

p("C21", "An in-memory file reads back exactly the buffer it was opened on",
  "For every buffer content (embedded nulls included) and length, and every sequence of block lengths, successive freads on a file from fmemopen deliver the buffer's bytes in order, each returning the number of bytes delivered, which is short only at the end and 0 ever after; the destination beyond the delivered bytes is untouched. fclose returns 0 and releases everything.",
  ["histories", "inputs"], "Every buffer, every sequence of read lengths.",
  "The test reads one 6-byte buffer once.",
  ["cstdio.hpp", "sstream.hpp", "istream.hpp"],
  [("fmemopen wraps a string stream", "cstdio.hpp"), ("fread is read and gcount", "cstdio.hpp")],
  ["returned counts and bytes, memory balance, against the C library"])

p("C22", "Run-time output reaches the right stream, complete and in order",
  "At run time, for every sequence of insertions of characters, C strings, strings, integers of every width, pointers (also those of a unique_ptr or shared_ptr) and line ends into the library's cout, cerr and clog, with decimal, hexadecimal and octal switches, and of printf and fprintf calls, each standard stream receives exactly the text the same sequence of standard library calls produces, in order, and nothing reaches another stream; a stream of the program's own, of characters of any type, accepts insertions too, and none of them reaches a standard stream. printf and fprintf return the number of characters written.",
  ["histories", "inputs"], "Every sequence of insertions over the three streams.",
  "The tests print, but nothing checks what is printed.",
  ["ostream.hpp", "runtime_ostream.hpp", "string.hpp", "cstdio.hpp", "iostream.hpp", "ios_base.hpp"],
  [("runtime_ostream selects the standard stream by address", "runtime_ostream.hpp")],
  ["bytes received by std::cout, std::cerr, std::clog and stdout"])

p("C23", "Compile-time evaluation gives the run-time result",
  "Any program over the library's containers, strings, smart pointers, function objects, string streams, in-memory files, complex numbers and mathematical functions that uses only what the library declares constexpr and is well-defined at run time is also accepted by the compiler as a constant expression, without undefined behaviour or unreleased storage, and yields the same value there as at run time.",
  ["programs", "histories"], "Every operation history on each component, evaluated in both worlds.",
  "The tests evaluate one fixed history per test function in both worlds.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp", "sstream.hpp", "cstdio.hpp", "complex.hpp", "cmath.hpp", "cctype.hpp"],
  [("constexpr throughout; is_constant_evaluated branches", "all headers")],
  ["the value of each history as a constant and as a run-time call; compiler diagnostics"])

p("C24", "N-ary swap rotates its arguments and loses nothing",
  "For any number of arguments, the n-ary swap moves each argument's value into the one before it and the first one's value into the last, and the reverse swap does the opposite, so that one undoes the other. Every value survives exactly once, for copyable and move-only types alike, also when fewer than three arguments are given; an exception thrown by a move reaches the caller.",
  ["inputs"], "Every number of arguments and every assignment of values.",
  "No test calls it directly; the tree rotations use six arguments only.",
  ["swap.hpp"],
  [("fold of assignments", "swap.hpp swap, swapr")],
  ["values of all arguments after the call"])

p("C25", "Complex arithmetic follows the algebra of complex numbers",
  "For all complex operands and real operands on either side, the sum, difference, product, quotient, compound assignments (also with itself as operand), negation, conjugate, norm, equality, part accessors, assignments and conversions equal those defined by complex algebra, exactly so wherever the result is exactly representable, for float, double and long double. Non-negative integral powers and reciprocals are exact where representable. The magnitude is within 1% of the true one over the range of double; phase, polar construction, powers, exp, log, log10, sqrt, sin, cos, tan, sinh, cosh and tanh are within 1% (or 0.01) of the true values for operands of magnitude up to about ten, away from poles and branch cuts.",
  ["inputs"], "Every pair of operands, every operator and operand kind.",
  "The tests try one operand and two operators.",
  ["complex.hpp"],
  [("operators by grammar-school formulas", "complex.hpp"), ("operators with a scalar on either side", "complex.hpp")],
  ["results over a grid of Gaussian integers and dyadic rationals"])

p("C26", "Mathematical functions stay within tolerance over their domain",
  "abs, floor, ceil and integral powers are exact (powers up to rounding) wherever the true result is representable; sqrt, exp, log, sin, cos, sinh, cosh, atan and atan2 return, for every argument in their ordinary range (magnitudes up to about ten thousand for roots and logarithms, a few tens for the rest, zero included), a value within 0.1% of the true one (for log, sin and cos, within 0.1% or 0.002), so in the right quadrant and with the right sign. Every such call terminates.",
  ["inputs"], "Every argument in the range.",
  "The tests evaluate atan(1) and sqrt(25).",
  ["cmath.hpp", "bits/abs.hpp"],
  [("Newton iteration, triple-angle recursion, truncated series with range reduction", "cmath.hpp")],
  ["results on an exhaustive grid against the C library"])

p("C27", "Character classification is right for every integer argument",
  "isalnum is non-zero exactly for the 62 ASCII letters and digits and isupper exactly for the 26 ASCII capitals, for every integer argument, including negative values and end-of-file.",
  ["inputs"], "Every int.",
  "The tests cover the 256 char values for isalnum and three for isupper.",
  ["cctype.hpp"],
  [("lookup in an alphabet", "cctype.hpp")],
  ["result for each integer"])

p("C28", "Standard algorithms over the library's containers give standard results",
  "For every contents, a standard algorithm (searching, counting, comparing, copying, transforming, accumulating, merging, set operations, rotating, reversing, partitioning, sorting where the iterator allows) applied to the library's containers through their iterators, or through back, front and plain inserters into them, gives the result and leaves the contents it gives with the standard library's containers. Iterators satisfy the operations of the category they claim: equality, pre- and post-increment and decrement, dereference and member access, with conversion from mutable to constant.",
  ["inputs", "programs"], "Every contents up to a size, every algorithm, every container.",
  "The tests apply six algorithms to one array of five elements.",
  ["algorithm.hpp", "numeric.hpp", "iterator.hpp", "vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp"],
  [("iterator classes", "deque.hpp, list.hpp, forward_list.hpp, set.hpp, map.hpp")],
  ["algorithm results and final contents, against the standard containers"])

p("C29", "Every header can be included alone, in any order and in several units",
  "Each public header compiles when it is the only one included, in any order with the others, and may be included in several translation units of one program that then links; the constants the library's classes define (npos, the stream flags, states and modes) are objects that may be passed by reference.",
  ["programs", "configurations"], "Every set and order of headers and every number of translation units.",
  "The tests are one translation unit that includes the headers in one order.",
  ["iostream.hpp", "pair.hpp", "limits.hpp", "queue.hpp"],
  [("include directives; global stream objects", "iostream.hpp")],
  ["compiler and linker diagnostics"])

p("C31", "Iterators behave as positions under every sequence of operations",
  "Over any unchanged container, an iterator is a position: copying, assigning (also from itself or to a default-constructed one), swapping, stepping in every form (++i, i++, --i, i--, repeatedly on the result), jumping, indexing and reversing move it as an integer would move; the result of a prefix step or assignment is the iterator itself; it always denotes that position's element, the same object each time; equality, order and distance are those of the positions. Mutable and constant iterators have the operations and the categories that generic code (standard algorithms, std::ranges and its views) requires of the container: random access for vector, deque and string, bidirectional for list, set and map, forward for forward_list; constant ones and those of sets give no write access.",
  ["programs", "inputs"], "Every sequence of iterator operations over every number of iterator variables, every container, length and arrangement.",
  "The tests step iterators forward once through short containers.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "iterator.hpp"],
  [("iterator classes", "deque.hpp, list.hpp, forward_list.hpp, set.hpp, map.hpp")],
  ["element denoted, comparisons and distances after every operation", "results of range algorithms"])

p("C32", "Containers hold the library's own types as elements",
  "vector, deque, list and forward_list may hold, and map may hold as values, any copyable type of the library: string, any container, map, shared_ptr (vector also unique_ptr); set may hold strings. Copying, moving, assigning, swapping, growing, erasing and clearing the outer object, and assigning, swapping or growing one element in place, leave exactly the nested contents the same history leaves in a sequence of sequences: copies are deep (except what a shared_ptr shares), no other element changes, and all storage is released once.",
  ["programs", "inputs"], "Every history over the outer and the inner objects, every pair of kinds.",
  "The tests nest one or two kinds of container, in single short programs.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "memory.hpp", "shared_ptr.hpp"],
  [("element construction, copying and release", "vector.hpp, deque.hpp, list.hpp, forward_list.hpp, set.hpp, map.hpp")],
  ["nested contents after every operation", "heap blocks at the end"])

p("C33", "Rvalues are moved, and elements that cannot be copied are welcome",
  "For every history of operations on a sequence container or queue: an element given as an rvalue is moved into place and never copied, one given as an lvalue is copied once and left as it was, and an operation that only relocates elements (a vector growing, reserving or being resized, moving or swapping a vector or forward list, building a queue on an rvalue container that can move) copies none when moving an element cannot fail. So element types that can be moved but not copied work in vectors, deques, lists, forward lists and queues, and with the standard algorithms over them. Building, moving and calling function objects with rvalues, and make_unique, likewise copy nothing. Removing elements from the middle of a vector is not covered: erase assigns copies.",
  ["histories"], "Every history, every element type, every position and capacity.",
  "The tests do not count copies and put no move-only type in any container.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "queue.hpp", "functional.hpp", "memory.hpp"],
  [("push_back(T&&), reallocate", "vector.hpp"), ("push_back(T&&), push_front(T&&)", "deque.hpp"), ("insert(T&&), emplace", "list.hpp"), ("insert_after(T&&), push_front(T&&)", "forward_list.hpp"), ("push(T&&)", "queue.hpp"), ("constructors and calls of function", "functional.hpp"), ("make_unique", "memory.hpp")],
  ["the number of copies each call makes; values and moved-from arguments after it"], (), "CEST_VERIF_CHUNK_SIZE")

p("C34", "Different objects never interfere, and reading is not writing",
  "Operations on one object never read or write the state of another one (save elements explicitly shared): two histories over different containers, strings, smart pointers, function objects, string streams, in-memory files or numbers have the same results, however they are interleaved, in two threads or because an element, comparator, allocator or call target called in the middle of one operation itself uses the library. Constant operations on an object, such as finding, iterating, comparing and copying from it, write nothing, so several threads may read one object at once. (Sharing one shared_ptr group, or the global streams, between threads is not covered.)",
  ["schedules", "histories"], "Every interleaving of every two histories.",
  "The tests run in one thread, and no element of theirs calls back.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "string.hpp", "queue.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp", "sstream.hpp", "complex.hpp", "cmath.hpp", "swap.hpp"],
  [("no state outside the objects; const members that do not write", "all of include/cest")],
  ["memory accesses of the two threads; the values each history sees"])

p("C35", "Work and storage stay in proportion to what is asked",
  "No call costs more than its kind allows, whatever came before it. Adding to or removing from a deque, list, forward list, set, map or queue touches only the element concerned and takes at most a block or so; appending to a vector or string is constant in the long run, and constant and without allocation within the capacity; removing from a vector touches only what follows; clearing, copying and resizing are linear; swapping and moving containers or owners, copying a shared_ptr, calling a function object, finding, iterating and reading take no block and copy no element. And storage does not creep: however long an object is used, what a container, string, stream, in-memory file, owner or function holds on to stays within a constant factor of the most it has contained, and nothing outlives it.",
  ["histories"], "Every history, however long; every size.",
  "The tests count no element operations or allocations, and run short programs once.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "string.hpp", "sstream.hpp", "cstdio.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp"],
  [("push_back_helper, push_front_helper", "deque.hpp"), ("reallocate, push_back, swap", "vector.hpp"), ("insert, emplace, erase", "list.hpp, forward_list.hpp, set.hpp, map.hpp"), ("push_back, reserve, assign", "string.hpp"), ("str", "sstream.hpp"), ("operator(), clone", "functional.hpp")],
  ["element operations and allocations of each call; live heap bytes"], (), "CEST_VERIF_CHUNK_SIZE")

p("C36", "Results never rest on memory nobody wrote or on undefined arithmetic",
  "For every history of calls on containers, strings, streams, in-memory files, smart pointers, function objects and numbers, at run time: no decision, result or exposed value of the library depends on memory that was never written (members a constructor left out, storage without an element, slots past the end, blocks just allocated), whatever such memory happens to contain; and no call computes something the language leaves undefined: overflow of signed integers, conversion of a number outside the target type, arithmetic on or access through null, misaligned or out-of-bounds pointers to arrays of known size, shifts out of range, null arguments where none are allowed, a missing return. This includes histories with failing elements and allocations, moved-from and default-constructed objects and objects used after a failure.",
  ["histories", "inputs"], "Every history, whatever memory contains beforehand.",
  "The tests at run time see whatever memory happens to contain, usually zeros; at compile time they evaluate single short programs.",
  ["vector.hpp", "deque.hpp", "list.hpp", "forward_list.hpp", "set.hpp", "map.hpp", "queue.hpp", "string.hpp", "sstream.hpp", "streambuf.hpp", "istream.hpp", "cstdio.hpp", "memory.hpp", "shared_ptr.hpp", "functional.hpp", "complex.hpp", "cmath.hpp", "swap.hpp"],
  [("constructors and their member initialisers; allocate followed by construct_at; arithmetic on sizes, positions and exponents", "all of include/cest")],
  ["every branch, address and argument computed from memory (MemorySanitizer's shadow); every checked operation (UndefinedBehaviorSanitizer)"], (), "CEST_VERIF_CHUNK_SIZE")

P.sort(key=lambda x: x["id"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
