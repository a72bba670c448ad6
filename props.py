"""What each check builds and runs: variants of the harness (sanitizer, configuration), case counts, coverage rule."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))


SWEEP_TO = 4397


def V(name, src, quick, thorough, **kw):
    src = src if isinstance(src, list) else [src]
    return dict(name=name, src=["vh_main.cpp"] + src, quick=quick, thorough=thorough, **kw)


PROPS = {}


def prop(pid, level="exploration", m32=0, m32_of=0, large=None, huge=None, sweep=0, sweep_of=(0,), **kw):
    PROPS[pid] = dict(level=level, **kw)
    if large:    # the same monitors on containers and texts whose sizes cross 2^8, 2^15, 2^16 and 2^17
        v = dict(kw["variants"][0])
        v.update(name="large", quick=large[0], thorough=large[1], flags=v.get("flags", []) + ["-DVH_LARGE"])
        kw["variants"] = PROPS[pid]["variants"] = kw["variants"] + [v]
    for i in sweep_of if sweep else ():    # every value up to SWEEP_TO as size, index, count, element size (`sweep`: kinds of containers the cases alternate between)
        v = dict(kw["variants"][i])
        v.update(name="sweep" + ("-" + v["name"] if i else ""), quick=SWEEP_TO * sweep, thorough=SWEEP_TO * sweep * 4, flags=v.get("flags", []) + ["-DVH_LARGE", "-DVH_SWEEP"])
        kw["variants"] = PROPS[pid]["variants"] = kw["variants"] + [v]
    if sweep:
        kw["must_observe"] = PROPS[pid]["must_observe"] = kw["must_observe"] + ["swept values"]
    if huge:     # containers beyond 4 GiB / 2^32 elements in lazily backed memory
        v = V("huge", "props/huge.cpp", huge[0], huge[1], san="none", opt="-O2", flags=["-DHUGE_SET=%d" % int(pid[1:])], shards=4)
        kw["variants"] = PROPS[pid]["variants"] = kw["variants"] + [v]
        PROPS[pid]["must_observe"] = kw["must_observe"] + ["cases beyond 4 GiB"]
    if m32:      # one variant again as a 32-bit program (a fraction of the cases)
        v = dict(kw["variants"][m32_of])
        v.update(name="m32", arch="m32", quick=int(v["quick"] * m32), thorough=int(v["thorough"] * m32))
        PROPS[pid]["variants"] = kw["variants"] + [v]
    if kw.get("variants"):      # see Surroundings in vh_main.cpp
        PROPS[pid]["must_observe"] = PROPS[pid]["must_observe"] + ["cases with another environment", "cases in another locale"]


prop("C01", sweep=1, m32=0.5, huge=(4000, 60000), large=(128, 4000),
     variants=[V("asan", ["props/c01.cpp", "iter.c"], 80000, 1500000)],
     rule="A case is one random operation history (10-300 operations) on one vector configuration; the model is compared "
          "after every operation. Non-trivial: more than 5 operations. Distinct by hash of the whole traced history.",
     must_observe=["blocks at odd addresses", "blocks handed out again", "containers with the default allocator", "round counts", "operations", "duplicates", "dynamic histories", "fixed-buffer histories", "iteration macro runs", "iterations with control flow", "operations with wide elements"])
prop("C07", sweep=4, m32=0.5, huge=(4000, 60000), large=(1200, 20000),
     variants=[V("asan", "props/c07.cpp", 200000, 3000000)],
     rule="A case is one random operation history (8-250 operations) on one string configuration (dynamic or fixed buffer); "
          "content, size and terminator are compared with the byte model after every operation. Non-trivial: more than 5 operations.",
     must_observe=["blocks at odd addresses", "blocks handed out again", "containers with the default allocator", "string copies", "round counts", "operations", "dynamic histories", "fixed-buffer histories"])
prop("C13", sweep=1, m32=0.5, large=(128, 4000),
     variants=[V("asan", "props/c13.cpp", 200000, 4000000, lib_flags=["-fno-sanitize=alignment"])],
     rule="A case is one random operation history (8-250 operations) on one list (dynamic or fixed buffer, element sizes 1-40); "
          "after every operation the list is walked in both directions and compared with the deque model including node "
          "addresses. Non-trivial: more than 5 operations.",
     assumptions=["fixed buffers whose node stride is not a multiple of the pointer alignment are exercised without the alignment sanitizer"],
     must_observe=["blocks handed out again", "containers with the default allocator", "operations", "two-way walks", "dynamic histories", "fixed-buffer histories"])
prop("C14", sweep=1, m32=0.5, huge=(1, 24), large=(128, 4000),
     variants=[V("asan", "props/c14.cpp", 250000, 3000000)],
     rule="A case is one random operation history (8-250 operations) on one bitset; every bit and every query is compared with "
          "the bit array after every operation, with arbitrary contents in the unused bits. Non-trivial: more than 5 operations.",
     must_observe=["blocks at odd addresses", "blocks handed out again", "containers with the default allocator", "operations", "whole-bitset comparisons", "dynamic histories", "fixed-buffer histories", "self operations", "operations with a shorter source", "refused byte operations"])
HIST = "Non-trivial: more than 5 operations. Distinct by hash of the whole traced history."
LISTAL = ["fixed-list buffers whose node stride is not a multiple of the pointer alignment are exercised without the alignment sanitizer"]
prop("C02", sweep=3, m32=0.5, huge=(4000, 60000), large=(192, 4000),
     variants=[V("asan", ["props/c02.cpp", "iter.c"], 150000, 3000000)],
     rule="A case is one random operation history on a vector, string (incl. number/format appends) or bitset; capacity, address, "
          "owned block and allocator calls are judged after every operation. " + HIST,
     must_observe=["blocks at odd addresses", "blocks handed out again", "containers with the default allocator", "duplicates", "string copies", "vector operations", "string operations", "bitset operations", "growths", "shrinks", "operations within capacity",
                   "reserved ranges filled", "dynamic histories", "fixed-buffer histories", "number appends"])
prop("C03", sweep=2, m32=0.5, large=(128, 3000),
     variants=[V("asan", ["props/c03.cpp", "iter.c"], 150000, 3000000, lib_flags=["-fno-sanitize=alignment"])],
     rule="A case is one random operation history on a vector or list with an element destructor; every destructor and constructor call "
          "is judged against the set of elements that leave. " + HIST, assumptions=LISTAL,
     must_observe=["constructors with another success status", "blocks handed out again", "library use inside of callbacks", "duplicates", "vector operations", "list operations", "destructor calls judged", "constructor calls judged", "constructor failures injected"])
prop("C04", sweep=4, m32=0.5, huge=(4000, 60000), large=(96, 2000),
     variants=[V("asan", ["props/c04.cpp", "iter.c"], 150000, 3000000, lib_flags=["-fno-sanitize=alignment"])],
     rule="A case is one random operation history on a vector, string, list, bitset or a series of parsed command lines with recording "
          "allocators (a third with injected failures); all blocks must be back at the end. " + HIST, assumptions=LISTAL,
     must_observe=["blocks at odd addresses", "blocks handed out again", "library use inside of callbacks", "vector operations", "string operations", "list operations", "bitset operations", "accepted command lines",
                   "refused command lines", "duplicates", "fixed-buffer operations watched", "blocks obtained"])
prop("C05", sweep=4, m32=0.5, large=(64, 1500),
     variants=[V("asan", ["props/c05.cpp", "iter.c"], 150000, 3000000, lib_flags=["-fno-sanitize=alignment"])],
     rule="A case is one random operation history in which every allocator request of every operation fails once (alone or with all "
          "following ones) before the operation is repeated without fault. " + HIST, assumptions=LISTAL,
     must_observe=["blocks at odd addresses", "constructors with another success status", "allocators with another success status", "blocks handed out again", "library use inside of callbacks", "vector operations", "string operations", "list operations", "bitset operations", "allocator failures injected",
                   "states verified after an injected failure", "failed duplicates", "failed parses"])
prop("C06", sweep=3, m32=0.5, huge=(4000, 60000),
     variants=[V("asan", ["props/c06.cpp"], 80000, 2000000)],
     rule="The first 1093 cases are all sequences over three values up to length 6 (every window, seven keys); the others are random "
          "vectors up to 3000 elements with a sorted window. Each search result is compared with a reference scan and every callback "
          "invocation is judged. Non-trivial: at least one element. Distinct by hash of contents, window and keys.",
     exhaustive="all sequences over 3 values up to length 6, all windows, keys below/between/equal/above",
     must_observe=["elements changed between searches", "library use inside of callbacks", "linear searches", "binary searches", "callback invocations judged", "refused windows", "exhaustive sequences", "large vectors", "wide elements"])
prop("C08", sweep=4, m32=0.5, huge=(4000, 60000),
     variants=[V("asan", "props/c08.cpp", 200000, 3000000)],
     rule="The first 449 cases are all haystacks over {a,A,b} up to length 5 and over {@,`,Z,z} up to length 3 with all needles up to "
          "length 3 (2), all windows and all eight functions; the others are random haystacks up to 400 characters with derived needles, "
          "windows and sub-views in exact-size memory. Non-trivial: haystack not empty. Distinct by hash of haystack and needles.",
     exhaustive="haystacks over {a,A,b} up to length 5 x needles up to 3, over {@,`,Z,z} up to 3 x 2, every window",
     must_observe=["blocks at odd addresses", "searches in shared memory", "found", "not found", "found only with case folded", "refused windows", "sub-view searches", "exhaustive haystacks", "large haystacks"])
prop("C09", sweep=4, m32=0.5, huge=(4000, 60000),
     variants=[V("asan", "props/c09.cpp", 300000, 5000000)],
     rule="The first 73 cases compare all strings over 8 characters up to length 2 pairwise, the next 256 every pair of character codes "
          "and convert every code; the others are random triples with related texts (antisymmetry, transitivity, lower-case equivalence) "
          "and case conversions on random windows. Non-trivial: some text. Distinct by hash of the texts.",
     exhaustive="all pairs of strings over {a,A,b,[,{,0,0x80,0xE1} up to length 2; all pairs of character codes",
     assumptions=["the order of a character below 0x80 against one above is not judged (signedness of char is not documented)"],
     must_observe=["blocks at odd addresses", "comparisons in shared memory", "comparisons", "equal pairs", "triples", "conversions", "refused conversions", "exhaustive rows", "exhaustive characters", "large texts"])
prop("C10", sweep=1, m32=0.5, huge=(4000, 60000),
     variants=[V("asan", ["props/c10.cpp", "views.c"], 200000, 3000000)],
     rule="A case creates four views (buffer, text, string, literal), derives nested sub-views and uses each as source of copies, "
          "insertions, comparisons and searches; every character, pointer and capacity is compared with the model. Distinct by hash of "
          "texts and requests.",
     must_observe=["blocks at odd addresses", "concatenations of overlapping views", "views checked", "sub-views", "refused sub-views", "copies checked", "refused small buffers", "views as insert source", "large texts"])
F32 = ["-include", os.path.join(HERE, "harness", "force32.h")]
prop("C11", sweep=1, sweep_of=(0, 1), m32=0.5,
     variants=[V("asan", "props/c11.cpp", 12000, 1000000), V("asan32path", "props/c11.cpp", 12000, 600000, lib_flags=F32)],
     rule="The first cases take each of several hundred boundary values through all 256 paddings of 11 function/flag combinations; the "
          "others draw random values. Every append runs in buffers that fit exactly, leave room or are too small, and in growing strings. "
          "Second variant: the library's 32-bit code paths. Distinct by hash of value, flags and preceding text.",
     exhaustive="boundary values (0-130, powers of ten and two +-1, both signs) x 256 paddings x 11 flag combinations",
     must_observe=["blocks at odd addresses", "texts compared", "refused appends", "values with all paddings"])
prop("C12", sweep=1, m32=0.5,
     variants=[V("asan", "props/c12.cpp", 150000, 1500000)],
     rule="A case performs eight formatted appends with random format, arguments, preceding text and capacity situation (exact fit, room, "
          "too small, growth, failing allocator); text, size and terminator are compared with snprintf. Distinct by hash of formats, "
          "lengths and situations.",
     must_observe=["blocks at odd addresses", "formats in a reused buffer", "zero characters formatted", "texts compared", "needed growth", "filled exactly", "fitted", "refused for lack of space", "failed for lack of memory", "unproducible texts", "large arguments"])
prop("C15", sweep=1, m32=0.5,
     variants=[V("asan", "props/c15.cpp", 100000, 3000000)],
     rule="The first 11111 cases are all token lists up to length 4 over ten tokens with six definition tables and four limits; the others "
          "are ten random command lines each, repaired towards acceptance. Accepted results are compared entry by entry (definition, value "
          "pointer and length) with an independent reference parser. Distinct by hash of tables, limits and tokens.",
     exhaustive="token lists up to length 4 over {-a,-b,-v,-ab,-av,-vx,--long,--val,--,x} x 6 tables x 4 limits",
     assumptions=["definition tables do not contain the same name twice (not specified)"],
     must_observe=["accepted command lines", "entries compared", "exhaustive token lists", "large command lines", "large tables", "families of similar names"])
prop("C16", sweep=1, m32=0.5,
     variants=[V("asan", "props/c16.cpp", 80000, 2500000)],
     rule="Same generators without repair; refused command lines are judged for status, error text (pointer identity) and left-over "
          "memory, and every allocator request of a parse fails in turn. Distinct by hash of tables, limits and tokens.",
     exhaustive="token lists up to length 4 over {-a,-b,-v,-ab,-av,-vx,--long,--val,--,x} x 6 tables x 4 limits",
     assumptions=["definition tables do not contain the same name twice (not specified)"],
     must_observe=["refused tables or limits", "unknown arguments", "missing values", "too many unnamed", "too few unnamed", "missing required",
                   "allocation failures", "allocation failures while growing", "exhaustive token lists", "large command lines", "large tables", "families of similar names"])
prop("C17", m32=0.5, m32_of=1,
     variants=[V("tsan", "props/c17.cpp", 6000, 200000, san="tsan", shards=2),
               V("clangO2", "props/c17.cpp", 15000, 600000, san="none", opt="-O2", hopt="-O2", shards=2),
               V("gccO2", "props/c17.cpp", 15000, 600000, san="none", opt="-O2", hopt="-O2", cc="gcc", cxx="g++", shards=2)],
     rule="A case is either a sequential operation series compared with a model, 20-60 concurrent rounds of 2-4 threads whose recorded "
          "call/return history must have a linearization, a counting run whose handed-out values must each occur once, or a hand-over of "
          "plain data (lock, turn counters) under the thread sanitizer. Distinct by hash of configuration and observed interleaving.",
     assumptions=["x86-64 hardware: missing fences are visible to the thread sanitizer, not to the processor"],
     must_observe=["sequential operations", "sequential CAS refused", "concurrent histories", "histories with interleaved threads",
                   "conservation runs", "contended counters", "publication runs", "hand-overs of plain data"])
C18W = ["-Wl,--wrap=" + f for f in ("pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_destroy",
                                    "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock")]
prop("C18", m32=0.5, m32_of=0,
     variants=[V("asan", "props/c18.cpp", 10000, 300000, shards=2),
               V("tsan", "props/c18.cpp", 8000, 200000, san="tsan", shards=2, flags=["-DVH_TSAN"]),
               V("native", "props/c18.cpp", 20000, 600000, san="none", opt="-O2", shards=2),
               V("long", "props/c18.cpp", 8, 32, san="none", opt="-O2", flags=["-DVH_LONG"]),
               V("faults", "props/c18.cpp", 192, 1920, flags=["-DVH_FAULTS"], ldflags=C18W)],
     rule="A case is a script of enter/try/leave/delete commands issued one at a time to up to four threads (owner and depth known), a "
          "stress run whose ownership intervals and refusals are judged from the recorded history, an owner that stays inside for seconds "
          "while others wait, are interrupted by signals and try, up to 70000 sections at once, or one injected platform failure. "
          "Distinct by hash of script and outcomes.",
     must_observe=["script steps", "nested entries", "blocked entries", "successful try-enters", "refused try-enters", "refused leaves",
                   "refused deletions", "stress runs", "ownership intervals judged", "hand-overs between threads",
                   "refused try-enters under contention", "refused try-enters timed", "platform failures injected", "long waits", "signals sent to waiting threads",
                   "try-enters during a long wait", "sections used at once"])
C19W = ["-Wl,--wrap=" + f for f in ("pthread_key_create", "pthread_key_delete", "pthread_setspecific")]
prop("C19", m32=0.5, m32_of=0,
     variants=[V("asan", "props/c19.cpp", 1000, 40000, shards=4),
               V("tsan", "props/c19.cpp", 1000, 30000, san="tsan", shards=4, flags=["-DVH_TSAN"]),
               V("native", "props/c19.cpp", 3000, 100000, san="none", opt="-O2", shards=4),
               V("crowd", "props/c19.cpp", 6, 21, san="none", opt="-O2", shards=1, flags=["-DVH_CROWD"]),
               V("faults", "props/c19.cpp", 60, 300, flags=["-DVH_FAULTS"], ldflags=C19W)],
     rule="A case is a script of slot and identity commands issued to 1-7 threads that come and go, a free-running concurrent run, an "
          "exhaustion of all slots, thousands of short-lived threads besides hundreds that live on, a set of threads on stacks whose addresses differ in one bit, or one injected platform failure.",
     must_observe=["values stored", "values read", "reads of unwritten slots", "slots freed", "thread exits", "destructor calls judged",
                   "identities compared", "one-bit identity pairs", "exhaustions", "short-lived threads", "concurrent runs", "platform failures injected"])
C20 = ["props/c20.cpp", "nolibc.c"]
prop("C20", sweep=1, m32=0.5, m32_of=0,
     variants=[V("asan", C20, 150000, 2000000, no_lib=True, harness_san=True),
               V("gcc-asan-O2", C20, 100000, 1000000, no_lib=True, harness_san=True, cc="gcc", cxx="g++", hopt="-O2"),
               V("uchar-O3", C20, 200000, 1000000, no_lib=True, san="none", hopt="-O3", flags=["-funsigned-char"]),
               V("huge", C20, 22, 88, no_lib=True, san="none", hopt="-O2", flags=["-DVH_HUGE"])],
     rule="The first 85 cases run every function on all pairs of texts over {a,b,0x80,0xFF} up to length 3 with bounds 0-5 and unlimited, the "
          "next 13 all moves in blocks up to 12 bytes; the others use random bytes (related pairs, embedded zero bytes, all bounds). Results "
          "and all written blocks are compared with the C library or the standard's definition. Distinct by hash of the operands.",
     exhaustive="texts over {a,b,0x80,0xFF} up to length 3, all pairs; all (source, destination, count) moves in up to 12 bytes",
     must_observe=["results compared", "overlapping moves", "tokenizer calls", "exhaustive texts", "exhaustive move sizes", "longer operands", "operands beyond 4 GiB"])
C21W = ["-Wl,--wrap=" + f for f in ("mprotect", "munmap", "msync", "sysconf", "getpagesize", "getauxval")]
prop("C21",
     variants=[V("native", "props/c21.cpp", 16000, 150000, san="none", ldflags=C21W)],
     rule="The first 1372 cases bind the three standard streams of a child to all combinations of terminal, pipe, file, null device, socket, "
          "directory and closed (with four stale errno values); the others run 5-25 protect/release/flush requests on a scratch mapping and "
          "compare every page with the kernel's page map, contents and probed accesses, also with injected system call failures; some cases use "
          "ranges beyond 4 GiB of reserved address space, others redirect the streams of one process between up to 24 queries.",
     exhaustive="7^3 stream combinations x 4 stale errno values",
     assumptions=["page size 4096 (x86-64 Linux)", "flushing an address that is not page aligned is not judged"],
     must_observe=["protections", "releases", "flushes", "refused requests", "pages compared with the page map", "bytes probed",
                   "platform failures injected", "page sizes queried", "stream queries", "streams: pipe", "streams: closed stream", "queries of redirected streams", "requests beyond 4 GiB", "colour sequences interpreted"])
prop("C22", m32=0.5, large=(4000, 60000),
     variants=[V("asan", "props/c22.cpp", 20000, 1500000, lib_flags=["-fno-sanitize=alignment"])],
     rule="A case builds one vector, string, list and bitset each on an allocator and in a fixed buffer with random contents and sends two "
          "families of calls that must be refused (missing pointers, zero sizes, indexes and ranges outside the object including values whose "
          "sum or product wraps around, more memory than exists). Distinct by hash of objects and calls.",
     assumptions=LISTAL + ["output pointers and callbacks the functions do not check are always given"],
     must_observe=["refused calls", "large objects", "vector sweeps", "string sweeps", "list sweeps", "bitset sweeps", "parser sweeps"])
C23 = ["props/c23.cpp", "macros_c.c", "macros_cpp.cpp", "macros_nl.c"]
prop("C23", m32=0.5,
     variants=[V("ubsan", C23, 60000, 400000, harness_san=True),
               V("gccO2", C23, 250000, 1000000, san="none", opt="-O2", hopt="-O2", cc="gcc", cxx="g++"),
               V("clangO3", C23, 250000, 1000000, san="none", opt="-O3", hopt="-O3")],
     rule="The first 256 cases cover all pairs of 8-bit values, all modules and all outcomes of three checks in a row; the others take pairs of "
          "boundary, related and random 64-bit values through every comparator and helper of every width, as C, C++ and C without libc. "
          "Expected values come from 128-bit arithmetic. Distinct by hash of the operands.",
     exhaustive="all pairs of 8-bit operands, all module numbers, all outcomes of three checks, all predefined status values",
     assumptions=["the macro's absolute value of the smallest int/64-bit integer and aligning up beyond the type's range are not judged",
                  "alignment helpers are used with operands of one width", "bits-to-represent is judged for up to 32 bits"],
     must_observe=["comparisons", "comparisons of equal values", "arithmetic helpers", "macros applied to expressions", "status values",
                   "check constructs", "early returns", "constant tables", "version values", "exhaustive rows",
                   "absolute values", "absolute values of the smallest number"])


def c24(ctx):
    import conf_check
    return conf_check.run(ctx, ctx["m32"](ctx["tmp"]))


prop("C24", custom=c24,
     rule="A case is one program of 8-60 operations (vectors, strings, numbers, lists, bitsets, command lines, C-library helpers, with "
          "refused calls and failing allocations); every status, size, capacity and content byte it observes enters a digest that must agree "
          "in all configurations, whose fresh memory contains different junk. Evaluations: programs x configurations. Distinct by digest.",
     assumptions=["configurations available here: gcc 13 and clang 18 on x86-64 and i386 (no MSVC, no big-endian target)"],
     must_observe=["observations compared", "configurations", "vector operations", "string operations", "number appends",
                   "list operations", "bitset operations", "parsed command lines", "C-library helper rounds"])
C25W = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign", "free")]
prop("C25", m32=0.5,
     variants=[V("asan", "props/c25.cpp", 4000, 200000, ldflags=C25W),
               V("native", "props/c25.cpp", 6000, 200000, san="none", opt="-O2", hopt="-O2", ldflags=C25W, flags=["-DVH_HUGE"])],
     rule="A case is a history of 10-120 allocate/reallocate/release requests on up to 40 blocks (every block filled with its own pattern and "
          "verified before, after and between requests; impossible products; system memory ending), a history on containers created "
          "without an allocator, or a series of allocator initializations. Distinct by hash of the traced history.",
     assumptions=["at least the natural alignment of the element size, up to max_align_t, counts as suitably aligned"],
     must_observe=["allocations", "reallocations", "reallocations that moved", "releases", "allocations without memory", "reallocations without memory",
                   "impossible allocations refused", "impossible reallocations refused", "default containers", "default containers without memory",
                   "initializations", "refused initializations", "blocks checked for overlap", "requests beyond 4 GiB"])
C26F = ["-DCONF_TLS", "-w"]
prop("C26", m32=0.5, m32_of=1,
     variants=[V("tsan", ["props/c26.cpp", "conf_prog.c"], 5000, 100000, san="tsan", shards=2, flags=C26F),
               V("native", ["props/c26.cpp", "conf_prog.c"], 20000, 400000, san="none", opt="-O2", hopt="-O2", shards=2, flags=C26F),
               V("asan", ["props/c26.cpp", "conf_prog.c"], 6000, 100000, shards=2, flags=C26F)],
     rule="A case runs 2-4 threads at once, each with 1-6 random programs on its own objects (default allocator underneath) and, in a third "
          "of the cases, 10-40 reading operations on shared objects; all observations of each thread are then compared with the same work "
          "done alone. The first variant runs under the thread sanitizer. Distinct by hash of the configuration.",
     assumptions=["scheduling is left to the operating system; races are judged by the happens-before detector, not by their effect"],
     must_observe=["concurrent cases", "cases with shared objects", "cases whose threads all ran at the same time", "operations on shared objects",
                   "vector operations", "string operations", "number appends", "list operations", "bitset operations", "parsed command lines",
                   "observations compared"])
