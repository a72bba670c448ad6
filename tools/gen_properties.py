#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

V="src/Vector.c"; S="src/String.c"; F="src/Format.c"; L="src/List.c"; B="src/Bitset.c"; A="src/ArgParse.c"

p("C01","A vector always equals the sequence its operation history describes",
  "After any sequence of push, insert, range insert, emplace, set, swap, delete, range delete, pop, clear, resize, reserve, shrink-to-fit and duplicate operations, with any element size, growth/shrink configuration and backing store (allocator or fixed buffer), the size and every element of a vector equal those of the mathematical sequence obtained by applying the same operations. Elements survive every internal move or reallocation bit for bit, and the mutable/const access functions and the iteration macros expose exactly the elements 0..size-1 (access at or beyond the size is refused). A duplicate has the same contents as its source and afterwards changes independently of it.",
  ["histories","inputs","configurations"],
  "every finite operation history, every element size >= 1, growth factor 1..255, shrink threshold 0..255, initial capacity, dynamic and fixed-buffer vectors",
  "tests/Vector.cpp runs a few fixed histories on 8-byte elements with default factors; shifting, growth and shrinking interact with position, element size and capacity in ways only long mixed histories reach.",
  [V,"include/Zycore/Vector.h"],
  [("element shifting","src/Vector.c: ZyanVectorShiftLeft/ZyanVectorShiftRight"),("insertion/deletion/resizing","src/Vector.c: exported functions")],
  [("size/data","number of elements and their storage","include/Zycore/Vector.h: ZyanVector")],
  ["public vector API after every operation"])

p("C02","Capacity follows the growth/shrink contract and pointers stay valid within it",
  "For vectors, strings and bitsets the reported capacity is never smaller than the size, never below one element, and always equals the number of elements in the memory block actually owned. An operation reallocates only when it must: appending or inserting within the capacity (including a reserved one) never moves the data; outgrowing it makes the capacity the needed size times the growth factor; removing elements shrinks it to max(1, size times growth factor) exactly when a non-zero shrink threshold times the new size is below the capacity; shrink-to-fit makes it max(1, size). (For strings the element count includes the terminator, for bitsets the elements are bytes; a formatted or multi-part number append may reserve more than it finally needs.) A fixed buffer keeps its capacity and address for ever, is never written outside its bounds, and an operation that does not fit is refused as insufficient buffer size.",
  ["histories","configurations"],
  "every operation history and growth/shrink configuration, dynamic and fixed-buffer containers",
  "The tests check the formula along one push and one pop sequence; they never relate the reported capacity to the block the allocator handed out, nor check reserve, insert, resize and string paths.",
  [V,S,B,"include/Zycore/Vector.h","include/Zycore/String.h"],
  [("growth/shrink macros","src/Vector.c: ZYCORE_VECTOR_SHOULD_GROW/SHOULD_SHRINK/GROW"),("reallocation","src/Vector.c: ZyanVectorReallocate"),("terminator accounting","src/String.c: ZyanStringReserve/ZyanStringInitEx")],
  [("capacity","number of elements that fit without reallocation","include/Zycore/Vector.h")],
  ["capacity/size queries, element addresses, allocator call log"])

p("C03","Every stored element is constructed at most once and destroyed exactly once",
  "In vectors and lists with an element destructor, each element that leaves the container (overwritten by a set operation, deleted, popped, removed, cleared, cut off by a resize, or still stored when the container is destroyed) is passed to the destructor exactly once, at the address where it is stored and while its contents are still intact. Elements that stay are never passed to the destructor, and an operation that is refused destroys nothing. An emplace operation runs the constructor exactly once on the new slot, and an element whose constructor fails is neither stored nor destroyed.",
  ["histories","fault_sequences"],
  "every operation history on vectors and lists with destructors/constructors, including failing constructors",
  "The tests use one destructor that only checks a value range; double or missing destruction depends on position, range and the operation mix.",
  [V,L],
  [("destructor loops","src/Vector.c: ZyanVectorSet/DeleteRange/PopBack/ResizeEx/Destroy"),("node removal","src/List.c: ZyanListPop*/Remove*/ResizeEx/Destroy"),("emplace","src/Vector.c: ZyanVectorEmplaceEx, src/List.c: ZyanListEmplace*")],
  (), ["destructor/constructor callbacks"])

p("C04","Memory is obtained and released exactly once via the container's allocator",
  "Every memory block a vector, string, list, bitset or argument-parser result obtains comes from the allocator it was configured with and is returned to that same allocator exactly once, described by the element size and count of its most recent (re)allocation. When all containers have been destroyed no block is outstanding, including after failed operations, and no block is ever touched after it was returned. Containers on fixed buffers never allocate, reallocate or free memory.",
  ["histories","configurations"],
  "every history of creating, using, duplicating, concatenating and destroying containers, any number of distinct allocators",
  "Tests use the default allocator without leak or pairing checks and never pass two allocators or log what is passed to them.",
  [V,S,L,B,A,"src/Allocator.c"],
  [("vector (re)allocation","src/Vector.c: ZyanVectorInitEx/Reallocate/Destroy"),("list nodes","src/List.c: ZyanListAllocateNode/DeallocateNode/Destroy/ResizeEx"),("parser failure path","src/ArgParse.c: failure label")],
  (), ["allocator callbacks, malloc/free interposition"])

p("C05","A failed operation leaves the container unchanged and reports the failure",
  "If an allocator request fails at any point of any vector, string, list, bitset or argument-parsing operation, or a fixed buffer is too small, or an element constructor fails, the operation reports that very failure and contents, size and capacity of every involved container are as before (an initializer or parser leaves nothing allocated; an append of several parts and an emplace whose constructor fails may keep a larger capacity). Afterwards the container remains fully usable: repeating the operation once memory is available gives the normal result. Operations that only remove elements never fail because memory could not be shrunk.",
  ["fault_sequences","histories","inputs"],
  "every operation on every reachable state, with the allocator failing at each of its requests, once or persistently, and every fixed-buffer fill level",
  "No existing test makes an allocator fail or checks the container after an error.",
  [V,S,L,B,F,A],
  [("commit after success","src/Vector.c: ZyanVectorReallocate"),("roll back","src/Format.c: append functions, src/List.c: ZyanListResizeEx"),("best-effort shrink","src/Vector.c: DeleteRange/PopBack/ResizeEx")],
  (), ["return status and public state after an injected fault"])

p("C06","Vector searches report the first match or the correct insertion point",
  "Linear search over a whole vector or an index window reports the first element in the window that the equality callback accepts, or reports 'not found' with index -1. Binary search over a sorted window reports whether an equal element exists and the index of the first element not smaller than the key (the leftmost match, or the position where the key would have to be inserted), using only logarithmically many comparisons. Both pass every examined element of the window as the first and the key as the second callback argument, examine nothing outside the window, and change nothing.",
  ["inputs"],
  "every vector content (with duplicates), window, key and comparison callback consistent with the order",
  "The tests search a handful of values in one vector; duplicates at window edges, empty windows and asymmetric callbacks are not reached.",
  [V],
  [("linear search","src/Vector.c: ZyanVectorFindEx"),("binary search","src/Vector.c: ZyanVectorBinarySearchEx")],
  (), ["status, found index and callback arguments"])

p("C07","A string always equals its model and is always zero-terminated",
  "After any sequence of append, insert, delete, truncate, clear, resize, set-character, reserve, shrink and case operations the characters of a string equal the reference byte sequence (embedded zero bytes and bytes above 127 included), the size query returns its length, and the byte right behind the last character is zero, even immediately after a refused operation. Inserting at the end appends; positions behind the end, and ranges that exceed the source or destination, are refused without effect. Bytes exposed by growing a string with a resize are unspecified, all others are preserved.",
  ["histories","inputs","configurations"],
  "every operation history over arbitrary byte contents, dynamic and fixed-buffer strings, any growth/shrink configuration",
  "tests/String.cpp covers only construction, duplication, concatenation and views; the mutation functions run on a couple of literals in total.",
  [S,V],
  [("terminator maintenance","src/String.c: ZYCORE_STRING_NULLTERMINATE users"),("range checks","src/String.c: Insert/Append/Delete functions")],
  (), ["data/size/character queries after every operation"])

p("C08","Substring search finds exactly the first/last occurrence inside the window",
  "Forward search reports the lowest and backward search the highest start index at which the needle occurs completely inside the searched window (forward: count characters starting at the index; backward: the count characters in front of the index), and 'not found' with index -1 otherwise; the case-insensitive variants do the same with ASCII letters folded and no other characters identified. An empty needle or window is reported as not found, windows exceeding the haystack are refused. Only characters of the two views are ever read: neither needs to be zero-terminated.",
  ["inputs"],
  "all haystacks, needles (any bytes) and windows, zero-terminated strings and non-terminated views",
  "Existing tests never call the search functions; correctness depends on partial matches, window borders and termination of views.",
  [S],
  [("forward search","src/String.c: ZyanStringLPosEx/LPosIEx"),("backward search","src/String.c: ZyanStringRPosEx/RPosIEx")],
  (), ["status and index against a reference search; sanitizer red zones behind the views"])

p("C09","Comparison is a consistent lexicographic order; case changes touch only letters",
  "Comparing two strings reports 'equal' with result 0 exactly if they have the same characters, otherwise a negative or positive result decided by the first differing character, a proper prefix being smaller (how characters below 0x80 order against those above is left open); the relation is antisymmetric and transitive. The case-insensitive comparison equals the comparison of both strings converted to lower case. Case conversion of a string or window changes exactly the ASCII letters of the other case inside the window to their counterparts and nothing else, and refuses windows exceeding the string.",
  ["inputs"],
  "all pairs and triples of byte strings (all 256 byte values), all windows, non-terminated views",
  "No existing test compares or converts strings.",
  [S],
  [("comparison","src/String.c: ZyanStringCompare/CompareI"),("case conversion","src/String.c: ZyanStringToLowerCaseEx/ToUpperCaseEx")],
  (), ["comparison results, string contents"])

p("C10","Views, duplicates and concatenations denote exactly the requested characters",
  "A view over a buffer, a zero-terminated text, a string or a sub-range of another view denotes exactly the requested characters: size, data and character queries agree with them, nothing is copied, and it can serve as source of every operation that takes a view whether or not a terminator follows. A duplicate or concatenation (dynamic or in a fixed buffer) contains exactly the source characters in order, is zero-terminated, has at least the requested capacity and does not share storage with its sources. Sub-ranges exceeding the source, and fixed buffers without room for the text and its terminator, are refused.",
  ["inputs","configurations"],
  "all source texts (any bytes), index/count pairs, capacities; nested views; fixed and dynamic destinations",
  "The tests use one or two literals per function and always zero-terminated sources.",
  [S,"include/Zycore/String.h"],
  [("views","src/String.c: ZyanStringViewInside*"),("copies","src/String.c: ZyanStringDuplicate*/ZyanStringConcat*")],
  (), ["view/string queries"])

p("C11","Number formatting yields the exact digits, sign, prefix and padding",
  "Appending an unsigned or signed 64-bit number in decimal or hexadecimal (upper or lower case) adds exactly: '-' for negative values or '+' when a sign is forced, then the optional prefix, then the canonical digits of the absolute value left-padded with '0' to the padding length, with no other character, for every value and every padding from 0 to 255. The existing text in front stays untouched, the result is zero-terminated, and it does not depend on how much free capacity the string happened to have.",
  ["inputs","configurations"],
  "all 64-bit values, paddings 0..255, flags, prefixes, string fill levels and capacities; 64-bit and 32-bit code paths",
  "No existing test formats a number; digit-count, padding and capacity boundaries interact.",
  [F,"include/Zycore/Format.h"],
  [("decimal","src/Format.c: ZyanStringAppendDecU32/U64"),("hexadecimal","src/Format.c: ZyanStringAppendHexU32/U64"),("absolute value","include/Zycore/Format.h: ZyanAbsI64")],
  (), ["string contents after the append"])

p("C12","Formatted append equals printf output for every capacity situation",
  "Appending formatted text adds exactly what the C library's formatting produces for the same format and arguments, whether the result fits the current capacity, fills it exactly or requires growth. The previous text is kept, and size and terminator match the result. If the text cannot be produced or stored, the string is unchanged and an error is returned.",
  ["inputs","configurations","fault_sequences"],
  "all format/argument combinations, all fill levels around the capacity limit, fixed and growing strings, failing growth",
  "No existing test calls it; the retry path only runs when the first attempt did not fit.",
  [F],
  [("two-pass formatting","src/Format.c: ZyanStringAppendFormat")],
  (), ["string contents against vsnprintf"])

p("C13","A list always equals its deque model with consistent links in both directions",
  "After any sequence of push/emplace/pop at either end, node and node-range removal, value update, resize and clear, walking a list forwards yields exactly the model sequence, walking it backwards yields its reverse, and the size query agrees; head and tail are absent exactly if the list is empty. Nodes and their values stay at the same address until removed. A list in a fixed buffer never writes outside it, holds as many elements as nodes fit, and reuses the space of removed elements before reporting insufficient space.",
  ["histories","configurations"],
  "every operation history, element sizes, dynamic and fixed-buffer lists of any capacity",
  "There is no test for the list at all.",
  [L,"include/Zycore/List.h"],
  [("node linking","src/List.c: ZyanListPush*/Pop*/Remove*/ResizeEx"),("slot recycling","src/List.c: ZyanListAllocateNode/DeallocateNode")],
  [("first_unused","free list of a fixed-buffer list","include/Zycore/List.h")],
  ["node walk in both directions after every operation"])

p("C14","A bitset always equals its bit-array model, whatever its size modulo 8",
  "After any sequence of set, reset, assign, toggle, set/reset all, flip, push, pop, clear, and/or/xor (with a source at least as long) operations every bit of a bitset equals that of the reference bit array, and the single-bit, first-bit and last-bit tests, the population count and the all/any/none queries report exactly what the array implies, independently of unused bits in the last byte; a shorter source combines the bits it has and leaves the bytes behind its last one alone. The size in bits is what the history implies and the storage always covers it (size in bytes = bits rounded up). Bit positions at or beyond the size are refused, as are pops from an empty bitset.",
  ["histories","inputs"],
  "every operation history, every size (in particular not multiples of 8), dynamic and fixed-buffer bitsets",
  "There is no test for the bitset at all.",
  [B,"include/Zycore/Bitset.h"],
  [("storage size","src/Bitset.c: ZYAN_BITSET_BITS_TO_BYTES"),("queries","src/Bitset.c: ZyanBitsetCount/All/Any/None")],
  [("size","number of bits","include/Zycore/Bitset.h")],
  ["bit tests and queries after every operation"])

p("C15","Argument parsing yields exactly the arguments the command line denotes",
  "For every definition table and argument vector that is accepted, the result lists in command-line order one entry per named argument or flag and per unnamed argument: '--name' tokens match the definition of that exact name, each letter of a single-dash group matches its own definition until one that takes a value consumes the rest of the token or the next token, a lone '-' and everything behind '--' is unnamed. Boolean arguments carry no value and all others carry exactly the value text, and entries refer to the caller's definition and argument texts without copying. Acceptance requires the number of unnamed arguments to be within the configured limits and all required arguments to be present.",
  ["inputs","configurations"],
  "all definition tables and argument vectors, including hostile tokens, empty tokens and repeated arguments",
  "tests/ArgParse.cpp checks about a dozen fixed command lines.",
  [A,"include/Zycore/ArgParse.h"],
  [("token loop","src/ArgParse.c: ZyanArgParseEx")],
  (), ["result vector against an independent reference parser"])

p("C16","Argument parsing errors are classified, attributed and leave nothing behind",
  "A malformed definition table or contradictory limits are refused as invalid argument; an unknown argument, a missing value, too many or too few unnamed arguments and a missing required argument are each reported with their own status, for the first offending token in command-line order. The error text refers to the offending token (or the missing argument's name) inside the caller's data, and success clears it. After any error, including an allocation failure at any point, the result needs no cleanup and no memory stays allocated.",
  ["inputs","fault_sequences"],
  "all definition tables and argument vectors that are rejected, allocation failure at every request",
  "The tests look at three error cases and never at ownership of the result.",
  [A],
  [("failure label","src/ArgParse.c: ZyanArgParseEx"),("definition check","src/ArgParse.c: ZyanArgParseEx")],
  (), ["status, error token, allocator balance"])

p("C17","Atomic operations are linearizable and order surrounding memory accesses",
  "Concurrent compare-exchange, increment and decrement operations on a 32-bit, 64-bit or pointer-sized atomic behave as if executed one at a time in an order consistent with real time: compare-exchange returns the previous value and stores the new one only if that equals the comparand, increment and decrement return the new value, wrapping at the type's range, with the full width taking part. No update is lost, and plain data published before an atomic operation is visible to a thread that observes the operation's result.",
  ["schedules","inputs"],
  "all interleavings of any number of threads, all operand values",
  "There is no test for atomics; lost updates and missing ordering only show under contention.",
  ["include/Zycore/Atomic.h","include/Zycore/Internal/AtomicGNU.h"],
  [("atomic builtins","include/Zycore/Internal/AtomicGNU.h")],
  (), ["recorded call/return histories, thread sanitizer"])

p("C18","Critical sections exclude each other, nest per thread and report misuse",
  "At any moment at most one thread is inside a critical section, and everything done inside is visible to the next thread that enters. The owner can enter again any number of times and the section becomes free only after as many leaves; try-enter succeeds exactly if the section is free or owned by the caller and never blocks. Leaving a section one does not own is refused as an invalid operation, deleting an occupied one as an invalid argument, and resource exhaustion reported by the platform is mapped to the documented failure class instead of being reported as success.",
  ["schedules","fault_sequences"],
  "all interleavings of enter/try-enter/leave by any number of threads with any nesting depth, platform primitives failing",
  "There is no test for synchronization.",
  ["src/API/Synchronization.c","include/Zycore/API/Synchronization.h"],
  [("recursive mutex","src/API/Synchronization.c")],
  (), ["recorded enter/leave history, shadow owner, thread sanitizer"])

p("C19","Thread-local slots are private per thread; thread identities are unique",
  "A thread-local slot reads as null in every thread that has not written it and otherwise returns the last value that same thread stored, independently of all other slots and threads. When a thread ends, the slot's destructor is called once in that thread with the thread's non-null value and is not called for null values or freed slots; exhaustion of slots is reported and slots can be reused after being freed. Threads that run at the same time have different thread ids, an id is constant during a thread's life, and the current-thread handle denotes the calling thread.",
  ["schedules","histories"],
  "all interleavings of slot allocation, writes, reads, frees and thread exits over any number of threads and slots",
  "There is no test for threads.",
  ["src/API/Thread.c","include/Zycore/API/Thread.h"],
  [("TLS keys","src/API/Thread.c: ZyanThreadTls*"),("identity","src/API/Thread.c: ZyanThreadGetCurrentThread*")],
  (), ["per-thread shadow of slot values, destructor callback log"])

p("C20","The no-libc fallbacks behave exactly like the C library functions they replace",
  "When the library is built without a C library, each of its replacement memory and string functions (search, compare, copy, move, fill, length, concatenation, span, tokenizer and transformation functions) gives the result the C standard prescribes for every input: same return value (comparisons: same sign), same bytes written and nothing written outside them. None reads beyond the bytes the standard permits to be examined, and moving works for every overlap.",
  ["inputs"],
  "all byte contents, lengths, offsets, overlaps and bounds (including 0 and bounds larger than the text)",
  "No test builds the no-libc configuration.",
  ["include/Zycore/LibC.h"],
  [("fallback implementations","include/Zycore/LibC.h")],
  (), ["results against glibc; sanitizer red zones"])

p("C21","System wrappers have exactly the documented effect and report failures",
  "Changing page protection makes precisely the pages of the range readable, writable and executable as requested and leaves neighbouring pages and contents alone; releasing memory unmaps precisely the range; flushing the instruction cache succeeds on mapped page-aligned ranges and changes nothing. Page size and allocation granularity are those of the system. Requests the system rejects are reported as failures instead of success, and the terminal queries tell terminals, other files and closed or unsuitable streams apart. The colour sequences select exactly the foreground or background colour they are named after, the reset sequence both defaults.",
  ["inputs","configurations","fault_sequences"],
  "all sub-ranges of mapped regions, all protections, invalid ranges, stream kinds (terminal, pipe, file, closed)",
  "There is no test for these wrappers.",
  ["src/API/Memory.c","src/API/Process.c","src/API/Terminal.c","include/Zycore/API/Terminal.h"],
  [("system calls","src/API/Memory.c, src/API/Process.c, src/API/Terminal.c")],
  (), ["page map of the process, memory probes, return status"])

p("C22","Invalid arguments are rejected without side effects or memory errors",
  "Each exported container, string, formatting and parsing function called with a missing object or source, a zero element size, capacity or growth factor, or an index or range that does not lie within the object (including values close to the maximum whose sum wraps around) returns a failure (or null for pointer-returning getters) and neither changes any object nor accesses memory out of bounds. The failure is 'invalid argument' for missing or contradictory arguments and 'out of range' for positions and ranges. Requests for more memory than exists fail as lack of memory or buffer space instead of being truncated.",
  ["inputs"],
  "all functions, every pointer argument that is checked set to null, all boundary and wrap-around values of index/count/size/capacity",
  "Tests pass null to a few constructors and never use wrap-around values.",
  [V,S,L,B,F,A,"src/Allocator.c"],
  [("argument checks","all exported functions"),("overflow-safe range checks","src/Vector.c, src/String.c")],
  (), ["status codes, unchanged state, sanitizers"])

p("C23","Comparators, status codes and arithmetic helpers obey their definitions",
  "The predefined and the generated comparison functions (whole values or a field) report equality exactly for equal values and a sign equal to that of the mathematical comparison of the unsigned values. Status values built from error flag, module and code give these parts back, are classified as success or failure by the flag alone, have pairwise different values for the predefined ones, and the check construct returns early exactly on failures with that value, evaluating its argument once. Minimum, maximum, absolute value (of values whose negation is representable), power-of-two, alignment, bit-length (32-bit values) and version helpers compute their documented functions, and the version query agrees with the version macros.",
  ["inputs"],
  "all operand values (exhaustive for 8-bit, boundary and random for wider types), all module/code combinations",
  "No test covers these helpers except through incidental use.",
  ["include/Zycore/Comparison.h","include/Zycore/Status.h","include/Zycore/Defines.h","include/Zycore/Zycore.h","src/Zycore.c"],
  [("comparison macros","include/Zycore/Comparison.h"),("status macros","include/Zycore/Status.h"),("arithmetic macros","include/Zycore/Defines.h")],
  (), ["values computed by the macros/functions"])

p("C24","Observable behaviour is the same in every build configuration",
  "The same program of vector, string, number formatting, list, bitset, search and argument-parsing operations yields the same statuses, sizes, capacities and contents regardless of compiler (gcc, clang), optimization level, debug or release assertions, 32-bit or 64-bit target, and whether the C library or the built-in replacements are used. No configuration relies on undefined behaviour to get there.",
  ["programs","configurations"],
  "all operation programs over the supported build configurations available here (gcc/clang, -O0..-O3, NDEBUG on/off, libc/no-libc, x86-64/i386)",
  "The suite is built in one configuration (gcc Debug, libc).",
  [V,S,F,L,B,A,"include/Zycore/LibC.h","include/Zycore/Types.h","include/Zycore/Defines.h"],
  [("configuration switches","include/Zycore/Defines.h, include/Zycore/Types.h, include/Zycore/LibC.h"),("32-bit number paths","src/Format.c: ZyanStringAppendDecU32/HexU32")],
  (), ["trace digests of identical programs per configuration"])

p("C25","The default allocator provides exclusive, sufficient, content-preserving memory",
  "A block obtained from the default allocator has at least element size times count usable bytes, is suitably aligned and overlaps no other live block; reallocating keeps the contents up to the smaller of both sizes and leaves the old block valid when it fails; releasing makes the memory reusable without leaking. A request whose byte count does not fit the address space or memory fails as lack of memory and leaves the caller's pointer to its old block alone. Initializing a custom allocator stores exactly the given callbacks and refuses missing ones.",
  ["histories","inputs","fault_sequences"],
  "all histories of allocate/reallocate/deallocate with any sizes, including products that wrap around and failing system allocation",
  "No test calls the allocator interface directly.",
  ["src/Allocator.c","include/Zycore/Allocator.h"],
  [("default allocator","src/Allocator.c")],
  (), ["block contents and addresses, malloc fault injection, sanitizers"])

p("C26","Distinct objects can be used from different threads without interference",
  "Threads that operate on their own vectors, strings, lists, bitsets and parser results (sharing at most the default allocator), and threads that only read or search the same object, obtain exactly the results of a sequential execution. No data race exists in the library for such programs: it has no hidden shared mutable state.",
  ["schedules","programs"],
  "all interleavings of threads working on disjoint objects or reading shared ones, in the C-library configuration",
  "Tests are single-threaded.",
  [V,S,F,L,B,A,"src/Allocator.c"],
  [("no mutable globals","src/*.c: only constant static data")],
  (), ["per-thread results against the sequential model, thread sanitizer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
