"""The text of MANIFEST.json: what each check assures, and what it trusts."""
TECHNIQUE = 'stateless model checking of the real code: exhaustive enumeration of bounded operation histories against a reference model'
SAMEAS = ' Trusted: the reference model or standard library used as oracle, clang, AddressSanitizer, the explorer in harness/mc.hpp. Nothing is said beyond the stated alphabet and depth.'
N = {
 'C01': ('Every history of the vector alphabet (constructors, push_back, pop_back, erase, resize, reserve, clear, copy, move, swap, writes) up to the depth, over int, instrumented and move-only elements; every observer after every step against a std::vector<int> model, under AddressSanitizer.', None),
 'C02': ('Every history of push, resize, reserve, pop, erase and clear up to the depth, plus all uniform appends up to thousands of elements: capacity, retained addresses, and relocation counts checked after every step.', None),
 'C03': ('Every history of the deque alphabet up to the depth from every offset and length relative to the chunks, with chunk sizes 2, 3, 4, 5 (hook) and the real 1024; retained references and all observers after every step.', None),
 'C04': ('Every reachable placement of the elements in chunks (sizes 2 to 5 and 1024): both iterator kinds walked in both directions, every pairwise difference and comparison, every jump.', None),
 'C05': ('Every history of the list alphabet at every position up to the depth; retained iterators and references checked after every step.', None),
 'C06': ('Every history of the forward_list alphabet at every position and range up to the depth; retained iterators and references checked after every step.', None),
 'C07': ('Every insertion order of up to 9 keys (10 in thorough), every sequence with repeats, long patterned orders, and every mixed history up to the depth, under six comparators and key types; insert results, every find, and iteration both ways from every key after every step.', None),
 'C08': ('As C07 for map, with values, writes through iterators, and keys whose operator== is unrelated to their order or missing.', None),
 'C09': ('Every insertion order of up to 9 keys and every patterned order of long ones; comparator calls of every find and insert counted against 4 and 8 log2(n+1) (+ a constant).', None),
 'C10': ('Every history of the string alphabet up to the depth over texts with embedded nulls and high characters, lengths around every capacity, five character types, custom allocator and streams of every small length; all observers after every step.', None),
 'C11': ('Every pair of texts up to a length over an alphabet with the null and a high character, every start position and count, all overloads and operators, default and custom traits; oracle: a direct definition.', None),
 'C12': ('Every push/pop/copy history up to the depth over deque (chunk sizes 2 to 4 and 1024) and list, plus long patterned histories through many chunks.', None),
 'C13': ('For every container: every pair of small contents for source and target, every way to copy, move or swap, and every later change to either side; the other side compared after each.', None),
 'C14': ('For every container: every reachable small content and capacity, every operation given the object itself or one of its own elements, compared with the same on an independent copy, under AddressSanitizer.', None),
 'C15': ('Every history up to the depth over instrumented elements and allocators: each construction, destruction, allocation and release is entered in a ledger that rejects any double, missing, mismatched or foreign one.', None),
 'C16': ('Every history up to the depth in which every single point where an element operation or allocation can fail is made to fail in turn (all failure points, bounded number of failures per history); ledger, validity and unchanged contents checked after each.', 'exhaustive fault injection at every failure point of every bounded history of the real code'),
 'C17': ('Every history of creation, move, assignment, release, reset and destruction over several unique_ptr variables up to the depth, against an ownership model; deletions observed at every step. Objects, arrays and custom deleters.', None),
 'C18': ('Every history of creation, copy, alias, assignment and destruction over several shared_ptr variables up to the depth, against an ownership-group model; counts, deleters and destruction checked at every step, creation failures injected.', None),
 'C19': ('Every history of building, moving, copying, assigning, calling and destroying function objects over several variables and targets up to the depth, against a model of the stored target; arguments of all value categories; every point at which a copy or allocation can fail.', None),
 'C20': ('Every short text and every history of stream calls (moving the stream elsewhere included) up to the depth, step by step against std::istringstream / std::stringstream as the reference model.', None),
 'C21': ('Every small buffer and every sequence of block lengths, plus long patterned ones, against the buffer itself; guard bytes around the destination, releases ledgered.', None),
 'C22': ('Every sequence of insertions, base switches, printf and fprintf calls up to the depth, over sinks in place of the three streams and of stdout and stderr, against the same sequence of standard library calls.', None),
 'C23': ('The same bounded set of histories of each component enumerated exhaustively twice: inside the compiler\'s constant evaluator, which rejects undefined behaviour and leaks, and at run time; every result compared.', 'exhaustive enumeration of bounded histories inside the constant evaluator, replayed against run-time execution'),
 'C24': ('Every number of arguments from 0 to 8, every sequence of rotations up to the depth, several value types including move-only and tracked ones, against an index permutation model.', None),
 'C25': ('Every pair of operands from a grid, every operator and function, three precisions, chains of compound operations up to the depth; oracle: exact integer arithmetic, std::complex.', None),
 'C26': ('Every argument of fine grids over the stated ranges and every neighbour of the points where an algorithm changes branch (integers, powers of two and ten, quarter turns, zero, infinities), against the C library; a call that does not return is caught by a watchdog.', None),
 'C27': ('Every int in the blocks of 2^16 whose high bytes are near a value a narrowing or sign mistake would confuse with a character, and every int made of a character byte in a filled word (quick); all 2^32 int values (thorough); oracle: the definition.', None),
 'C28': ('Every small contents, every algorithm of the alphabet, and every relative position, over each container\'s iterators of both kinds, against the same algorithm over the standard container.', None),
 'C29': ('Every ordered pair of headers included first and second in a unit, every header alone, and every header in two units that are linked together and run; each unit uses every constant of the header by reference.', 'exhaustive enumeration of bounded inclusion sequences'),
 'C30': ('Every history up to the depth over every buffer class of the alphabet (whole text, chunks of 1 to 3, unbuffered, own block reads; stepping back or not; throwing at each single call), step by step against std::istream over the same class; every block length against every chunk and text length.', None),
 'C31': ('Every sequence of iterator operations up to the depth over two iterator variables of every container and both kinds, from every length and (for deque and trees) arrangement, against two integers; the claimed categories and the standard range algorithms and views at every length.', None),
 'C32': ('Every history up to the depth over two outer containers of every kind whose elements are strings, containers of every kind, maps, shared and unique pointers: adding, removing, assigning, moving, swapping and growing elements and whole containers, against a sequence of sequences; heap ledger at the end, AddressSanitizer throughout.', None),
 'C33': ('Every history up to the depth of rvalue and lvalue insertions (own elements included), relocations, moves, swaps, removals and sorts on every sequence container and queue, of building, moving, assigning and calling functions, and of owners; over an element type that counts its copies and one that has none: copies made by every call, values and moved-from arguments compared.', None),
 'C34': ('Every pair of histories up to the depth of two threads over objects of their own, and every pair of constant operations on one shared object, run without synchronisation under a happens-before monitor: without a conflicting access all interleavings of the pair are equivalent, so one execution decides them. Separately, every pair of operations as coroutines, switched at every call-out (element, allocator, comparator, target), all schedules up to 2 switches (3 in thorough), compared with each running alone.', 'stateless exploration of all pairs of bounded histories under a happens-before race monitor, and of all schedules up to a preemption bound at call-out granularity, on the real code'),
 'C35': ('Every program of up to 4 (queues 6) calls over each class, from several starting sizes up to 600, repeated hundreds to thousands of times: element operations and blocks of every call counted against its own limit, the whole against an amortised account, and the live bytes against the most ever contained.', None),
 'C36': ('The histories of C01 to C07, C10 to C14, C16 to C21, C24 to C26, C30 and C33, a step shorter (a step longer in thorough), each executed with a shadow of all memory that says what was ever written (MemorySanitizer) and a check at every operation that can be undefined (UndefinedBehaviorSanitizer); the streams are compared with the library itself, since the standard library is not instrumented.', 'exhaustive enumeration of histories (stateless model checking) of the real code, every execution monitored by a shadow-memory and an undefined-behaviour monitor'),
}
NOT_APPLICABLE = {}
def note(i): return N[i][0] + SAMEAS
def technique(i): return N[i][1] or TECHNIQUE
