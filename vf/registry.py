"""What each check runs.  q / t: number of cases in the quick / thorough tier."""

def run(h, v, q, t=None, **kw):
    d = dict(h=h, v=v, q=q, t=t)
    d.update(kw)
    return d

# How often the quick tier goes through its runs, with new cases each time.
ROUNDS = dict(C01=20, C02=30, C03=20, C04=4, C05=20, C06=20, C07=20, C08=15, C09=20, C10=12, C11=3, C12=3, C13=4,
              C14=12, C15=15, C16=15, C17=20, C18=6, C19=15, C20=30, C21=5, C22=8, C23=20, C24=15, C25=15, C26=25,
              C27=30, C28=15, C29=2, C30=2, C31=4, C32=10, C33=2, C34=4, C35=3, C36=15, C37=10)

CHECKS = {}
NOT_APPLICABLE = {}

# Other ways to build the library that its users have: unoptimised, without
# assertions, with fewer compiler extensions.
OTHERS = ("O0", "rel", "port")

def check(pid, runs, technique, rule, note, **kw):
    for r in [r for r in runs if r["v"] == "plain"]:
        for v in OTHERS:
            d = dict(r)
            d.update(v=v, q=max(1, r["q"] // 12), t=None)
            d.pop("fuzz", None)
            runs.append(d)
    for r in runs:
        if r["t"] is None:
            r["t"] = r["q"] * max(40, 20 * ROUNDS.get(pid, 1))
    CHECKS[pid] = dict(runs=runs, technique=technique, rule=rule, note=note, **kw)

TRUST = ("Exploration: held on every execution observed, no claim beyond. Trusts the harness's own "
         "reference model, gcc/clang and their sanitizer runtimes, and libc/kernel. ")

check("C01",
      [run("C01_hash_table", "asan", 1600, fuzz=True), run("C01_hash_table", "msan", 400), run("C01_hash_table", "plain", 2000)],
      technique="runtime monitor: ordered-map model compared after every operation, under ASan+UBSan and MSan",
      rule="A case is one table (struct keys with hostile hash functions, string keys or pointer keys; random initial "
           "size) and a random history of 1-2500 put/get_or_create/delete/delete_entry/map/clear/ensure_size/lookup "
           "calls over 2-600 keys. Non-trivial: the history inserted, overwrote and deleted entries; distinct: "
           "different sequence of operations and outcomes.",
      note=TRUST + "Key objects passed to the table stay alive and hash/equals are consistent.",
      required=["insertions", "overwrites", "deletions", "map deletions", "map aborts", "ensure_size", "clears",
                "full iterations compared", "lookups of absent keys",
                "tables of string keys with a long part in common"],
      fuzz=60)

check("C02",
      [run("C02_hash_table_own", "asan", 8000), run("C02_hash_table_own", "plain", 12000)],
      technique="runtime monitor: ownership ledger on every free callback + allocator monitor, under ASan+UBSan",
      rule="A case is one table with a random combination of free_key/free_value/user-data callbacks and a random "
           "history of up to 200 calls; every key, value and the user data carry a lifecycle state the monitor checks "
           "on each callback and after each call. Non-trivial: at least one callback registered and one entry deleted.",
      note=TRUST + "NULL values count as values.",
      required=["entries deleted", "entries deleted by map", "entries cleared", "entries freed with the table", "overwrites",
                "user data released", "user data replaced", "values that are their key", "values that are their key, owned twice",
                "tables with one callback for keys and values", "NULL keys"])

check("C03",
      [run("C03_array", "asan", 6000), run("C03_array", "msan", 2000), run("C03_array", "plain", 6000)],
      technique="runtime monitor: sequence model + per-slot lifecycle tokens on element callbacks, under ASan+UBSan and MSan",
      rule="A case is a random history (up to 300 calls) on raw arrays of 9 element sizes, on arrays with any subset of "
           "the init/done/reuse/remove callbacks (each slot carries a token whose state machine is checked), or on "
           "pointer or string arrays. Non-trivial: slots were reused after removals (callbacks) or any history (others).",
      note=TRUST + "remove_range is called with ranges inside the array.",
      required=["missing pointers", "missing strings removed", "removals", "copies", "removals with callbacks", "copies with callbacks", "failed copies",
                "pointers removed", "string array copies"])

check("C04",
      [run("C04_buffer", "asan", 6000), run("C04_buffer", "msan", 2000), run("C04_buffer", "plain", 6000)],
      technique="runtime monitor: byte-string model compared after every operation, under ASan+UBSan and MSan",
      rule="A case is a random history of up to 120 mutator calls on three buffers (stack and heap), with lengths drawn "
           "around powers of two and around the free room of the buffer, ending in release or hand-over to a managed "
           "buffer or slice. Non-trivial: more than 5 operations; distinct: sequence of operations and allocated sizes.",
      note=TRUST + "The source of a copy is never the destination buffer itself (undocumented aliasing).",
      required=["printf needing more room", "printf calls", "equality checks", "handed to managed buffers", "handed to slices",
                "printf calls the C library rejected", "formatted texts with NULs"])

check("C05",
      [run("C05_pretty", "asan", 30000, fuzz=True), run("C05_pretty", "msan", 10000), run("C05_pretty", "plain", 40000)],
      technique="runtime monitor: the output is parsed back by an independent decoder, under ASan+UBSan and MSan",
      rule="A case is one byte string (random, printable, text with whitespace and odd bytes, few symbols; up to 1200 "
           "bytes, lengths biased to line boundaries), an indentation 0-39 and existing buffer contents; all four renderings "
           "are produced and decoded. Non-trivial: non-empty string; distinct: different bytes and indentation.",
      note=TRUST + "The escapes are read with \\x taking exactly two digits, as the library documents ('\\xXX').",
      required=["binary as hex dump", "binary as multi-line", "binary as raw text"], fuzz=60)

check("C06",
      [run("C06_slice", "asan", 12000), run("C06_slice", "msan", 3000), run("C06_slice", "plain", 8000)],
      technique="runtime monitor: every slice compared with a byte-range model, hostile offsets and lengths, under ASan+UBSan and MSan",
      rule="A case creates 1-4 sources of the six kinds (managed copied/wrapped, buffer, static, copy-once, an implementation written by the application whose methods may fail) and makes up "
           "to 120 copy/light copy/re-slice/advance/equal/finish requests; offsets and lengths are valid, off by one, "
           "near SIZE_MAX or chosen so that their sum wraps into range. Non-trivial: >3 valid and >1 invalid requests.",
      note=TRUST + "No slice method except finish is called on an empty slice (documented); _fast forms only with valid ranges.",
      required=["out-of-range requests refused", "copies", "light copies", "re-slices", "advances", "equality checks", "finishes",
                "copy-once copies outliving their source", "slices of the application's own kind", "failing slice methods"])

check("C07",
      [run("C07_managed", "asan", 3000, cflags=("-DVH_MON=1",)), run("C07_managed", "tsan", 800), run("C07_managed", "plain", 6000)],
      technique="ThreadSanitizer + runtime monitor: reference ledger, poisoned frees, under TSan/ASan and at full speed",
      rule="A case shares 1-4 managed buffers among 1-8 threads that ref, unref, slice, copy and finish them (up to 2000 "
           "operations each, started together); every holder reads the bytes. Non-trivial: more than 10 operations.",
      note=TRUST + "Interleavings are those the scheduler produced on 8 cores; TSan adds a happens-before check to each.",
      required=["reference operations", "multi-threaded histories", "single-threaded histories", "copy-once copies", "copied buffers"])

STREAM_WRAP = ("read", "write", "open", "fwrite")
check("C08",
      [run("C08_streams", "asan", 6000, wrap=STREAM_WRAP), run("C08_streams", "msan", 2000, wrap=STREAM_WRAP),
       run("C08_streams", "plain", 6000, wrap=STREAM_WRAP)],
      technique="runtime monitor: byte-accounting consumer and file contents, with injected short transfers, EINTR and I/O errors, under ASan+UBSan and MSan",
      rule="A case streams 0-30000 bytes (lengths biased to multiples of 4096) through a producer (descriptor, FILE, path) "
           "into a recording or buffer consumer that may fail at any chunk, or through a consumer (descriptor, FILE, path "
           "with various flags) in random chunks; reads and writes are split, interrupted and failed at random. "
           "Non-trivial: more than one chunk.",
      note=TRUST + "Interruptions end after 20 in a row; FILE streams are glibc's over fopencookie; injected errors persist.",
      required=["cases with many open descriptors", "cases without standard descriptors", "interruptions injected", "I/O errors injected", "short transfers injected", "complete streams", "consumer failures",
                "read errors", "write errors", "complete writes", "open errors"])

check("C09",
      [run("C09_dllist", "asan", 8000), run("C09_dllist", "msan", 2000), run("C09_dllist", "plain", 10000)],
      technique="runtime monitor: sequence model walked both ways after every operation, under ASan+UBSan and MSan",
      rule="A case is a random history of up to 400 insertions, removals, whole-list moves and visits (also with removal or "
           "move of the visited element) on four lists of individually allocated elements. Non-trivial: more than 5 "
           "operations; distinct: sequence of operations.",
      note=TRUST + "A list is not moved into itself, and only the visited element is removed during a visit.",
      required=["added at head", "added at tail", "added before", "added after", "removed", "whole lists moved",
                "empty lists moved", "visits", "maps", "foreach loops", "elements removed while visited"])

check("C10",
      [run("C10_ring", "asan", 10000), run("C10_ring", "msan", 3000), run("C10_ring", "plain", 20000)],
      technique="runtime monitor: bounded queue model, under ASan+UBSan and MSan",
      rule="A case is one ring buffer (capacity 0-5000) and a random history of adds, pops and peeks whose bias drifts so "
           "that it fills, empties and wraps around. Non-trivial: capacity above 0 and more than 5 operations.",
      note=TRUST + "Elements are non-NULL.",
      required=["adds", "adds refused", "pops", "pops of an empty buffer", "peeks", "wrap-arounds", "NULL elements"])

check("C11",
      [run("C11_bitset", "asan", 6000), run("C11_bitset", "msan", 2000), run("C11_bitset", "plain", 10000)],
      technique="runtime monitor: bit-array model, neighbours and full contents compared, under ASan+UBSan and MSan",
      rule="A case is one bit set (every size 0-299 in turn, others up to 100000) and a random history of single-bit updates "
           "with values of several types, runs and clears. Non-trivial: more than one bit.",
      note=TRUST + "Indices are in range.",
      required=["bit updates", "clears", "expressions as arguments"])

GC_RULE = ("A case is one history (up to 300 steps) per thread (1-4 threads) that allocates objects of four classes, adds and "
           "removes references between them and from the program, builds rings, chains, trees with parent links, diamonds, "
           "random graphs and floods of more than 1024 candidates, collects mid-way, then drops everything and shuts the "
           "collector down. Non-trivial: more than 10 objects and 5 finalisations. ")
check("C12",
      [run("C12_gc_live", "asan", 1500, cflags=("-DVH_MON=1",)), run("C12_gc_live", "msan", 300, cflags=("-DVH_MON=1",)),
       run("C12_gc_live", "tsan", 200), run("C12_gc_live", "plain", 3000, cflags=("-DVH_MON=1",))],
      technique="runtime monitor: independent reachability model consulted at every finalisation, contents of live objects, under ASan+UBSan, MSan and TSan",
      rule=GC_RULE,
      note=TRUST + "Recurse callbacks report exactly the references held; finalisers do not call the collector; chains are at most some thousand long (the collector recurses).",
      required=["objects", "finalisations", "live objects inspected", "floods of candidates", "shut-downs", "multi-threaded histories", "objects with hundreds of references"])
check("C13",
      [run("C13_gc_final", "asan", 1500, cflags=("-DVH_MON=1",)), run("C13_gc_final", "plain", 3000, cflags=("-DVH_MON=1",))],
      technique="runtime monitor: finalisation ledger against a reference-count and reachability model + allocator monitor, under ASan+UBSan",
      rule=GC_RULE,
      note=TRUST + "Immediate finalisation is demanded of objects that never lost one of several references; others may wait for the next collection (docs: the collector frees it).",
      required=["objects", "finalisations", "floods of candidates", "immediate finalisations due", "shut-downs", "objects with hundreds of references"])

check("C14",
      [run("C14_mempool", "asan", 5000), run("C14_mempool", "msan", 1000), run("C14_mempool", "plain", 8000)],
      technique="runtime monitor: patterned objects, overlap and alignment checks, lifecycle ledger, under ASan+UBSan and MSan",
      rule="A case is one pool (element size 0-1500, block sizes from just large enough up) and a history of up to 2000 "
           "allocations and frees; each object is filled completely. Non-trivial: more than 3 allocations.",
      note=TRUST + "A block has room for at least one object with its header; all objects are freed before the pool (documented). "
           "Suitable alignment is the largest power of two dividing the element size, at most 16.",
      required=["objects allocated", "objects reused", "slots initialised", "slots finalised", "user data released"])

ALLOC_WRAP = ("malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "posix_memalign", "aligned_alloc")
check("C15",
      [run("C15_alloc_full", "asan", 2500, wrap=ALLOC_WRAP), run("C15_alloc_min", "asan", 2500, wrap=ALLOC_WRAP),
       run("C15_alloc_full", "plain", 3000, wrap=ALLOC_WRAP), run("C15_alloc_min", "plain", 3000, wrap=ALLOC_WRAP)],
      technique="runtime monitor: block ledger behind an application allocator, interception of the C allocator, release log of exiting children, under ASan+UBSan",
      rule="A case uses 1-12 library components (17 kinds) with random contents under a full or a two-method application "
           "allocator, then drives the default methods, string duplicates and the debugging allocator with and without "
           "failing allocations and with sizes that nobody can serve; one in 30 observes a child's release order at exit. Non-trivial: more than 10 allocator calls.",
      note=TRUST + "xcalloc with an overflowing product may fail or abort (asserted by the library).",
      required=["calls of the application's allocator", "default-method allocations", "recoverable failures", "aborts on failure", "impossible sizes", "impossible sizes in a child",
                "exits observed"] + ["toured " + x for x in (
                    "arrays", "string arrays", "buffers", "hash tables", "slices", "pools", "rings and bit sets", "paths", "path lists",
                    "environments", "subprocess objects", "collected objects", "files", "strings", "file consumers", "errors", "threads")])

check("C16",
      [run("C16_errors", "asan", 3000), run("C16_errors", "msan", 800), run("C16_errors", "tsan", 400), run("C16_errors", "plain", 4000)],
      technique="ThreadSanitizer + runtime monitor: per-thread model of code, flag and message after every call, also under ASan+UBSan and MSan",
      rule="A case runs 1-8 threads at once, each making up to 150 set/prefix/clear calls of every form (texts up to 8000 "
           "characters with % signs, also built from the current message) or calls through one of the 20 checking macros. "
           "Non-trivial: more than 5 operations.",
      note=TRUST + "The message is not read before a first error nor after a clear.",
      required=["error operations", "checking macros", "multi-threaded histories", "single-threaded histories"])

check("C17",
      [run("C17_threads", "asan", 1500, cflags=("-DVH_MON=1",), wrap=("pthread_create",)), run("C17_threads", "tsan", 400, wrap=("pthread_create",)),
       run("C17_threads", "plain", 3000, wrap=("pthread_create",))],
      technique="ThreadSanitizer + runtime monitor: per-thread ledger of runs, ids, outcomes and releases, with injected creation failures, under TSan/ASan and at full speed",
      rule="A case creates up to 40 threads from 1-6 concurrent creators (also from inside threads), which succeed, fail with "
           "errors of up to 6000 characters, fail silently or are never started, and joins them in random order from random "
           "threads. Non-trivial: more than one thread joined.",
      note=TRUST + "Ids are collected over the whole process. Interleavings are those the scheduler produced.",
      required=["successful threads", "failed threads", "threads failed without an error", "never started threads", "nested creations", "failed starts", "foreign threads"])

check("C18",
      [run("C18_conc", "asan", 800), run("C18_conc", "tsan", 800), run("C18_conc", "plain", 3000), run("C18_tlskey", "asan", 800), run("C18_tlskey", "tsan", 200)],
      technique="ThreadSanitizer + offline checking of recorded histories (single path through all atomic updates), execution counts of raced barriers, under TSan/ASan and at full speed",
      rule="A case races 1-8 threads for 24 once-barriers in a fresh process (with delays, recursion and nesting), or records "
           "up to 3200 atomic adds/subtracts/compare-and-swaps on one variable of one of 4 types and checks the history "
           "off line, or runs threads with thread-local variables (both implementations). Non-trivial: several threads.",
      note=TRUST + "Interleavings are those the scheduler produced on 8 cores.",
      parallel=3,
      required=["barriers executed", "barrier passes", "barrier re-entries", "atomic updates", "failed compare-and-swaps", "threads with thread-local variables"])

check("C19",
      [run("C19_cleanup", "asan", 2500), run("C19_cleanup", "plain", 4000)],
      technique="runtime monitor: log of registrations and calls of exiting child processes replayed against a priority queue, under ASan+UBSan",
      rule="A case is one child process that registers up to 40 of 24 functions with random priorities (whole int range, ties), "
           "some of which register more and set errors when called, and exits. Non-trivial: more than one call.",
      note=TRUST + "Functions are registered by one thread at a time. When several are pending the next one has to be of the lowest priority.",
      required=["cleanups called", "registered during exit", "processes exited", "registered after the others had run", "processes with errors in cleanups"])

check("C20",
      [run("C20_native", "asan", 600), run("C20_portable", "asan", 600), run("C20_mode", "asan", 300),
       run("C20_native", "plain", 1500), run("C20_portable", "plain", 1500), run("C20_mode", "plain", 600), run("C20_portable", "msan", 100)],
      technique="runtime monitor: compiler's 128-bit arithmetic as oracle on random and boundary operands, three configurations, under UBSan",
      rule="A case is 400 operand pairs, biased to powers of two, equal halves, carries and borrows, near-equal and complementary "
           "values; every operation and every piece is compared. All cases are non-trivial; distinct: different operands.",
      note=TRUST + "Shift amounts are below 128.",
      required=["native operand pairs", "portable operand pairs", "mode attribute operand pairs"])

check("C21",
      [run("C21_u128_print", "asan", 2000), run("C21_u128_print", "fbasan", 1000), run("C21_u128_print", "msan", 200), run("C21_u128_print", "plain", 3000), run("C21_u128_print", "fb", 1500)],
      technique="runtime monitor: independent radix conversion, guard bytes and exactly sized buffers, under ASan+UBSan and MSan, both builds",
      rule="A case is 60 values (powers of 2 and 10 and their neighbours, all magnitudes) in three renderings. All cases are "
           "non-trivial; distinct: different values.",
      note=TRUST,
      required=["values printed"])

check("C22",
      [run("C22_hash", "asan", 4000, sources=("c22_uids1.c", "c22_uids2.c"), tools=("cork-hash",)), run("C22_hash", "plain", 8000, sources=("c22_uids1.c", "c22_uids2.c"), tools=("cork-hash",))],
      technique="runtime monitor: independent MurmurHash3 and published vectors, re-hashing at other alignments in exactly sized blocks, identifier ledger, output of the hash tool, under ASan+UBSan",
      rule="A case is one string (0-70000 bytes, every length up to 69 in turn; one in 128 of up to 8 MiB) and random seeds, hashed by all three functions "
           "at several alignments, with single bytes, length and seed changed, plus a variable of one of 7 types; one case "
           "in 16 runs the tool. Non-trivial: a non-empty string.",
      note=TRUST + "Strings are shorter than 4 GiB; that a changed byte changes the fast hash is demanded of one out of several changes only.",
      required=["strings hashed", "strings with a partial last block", "unaligned strings", "tool runs", "usage errors", "identifier pairs", "strings of up to 8 MiB"])

check("C23",
      [run("C23_order", "asan", 400), run("C23_order_fb", "asan", 100), run("C23_order", "plain", 2000), run("C23_order_fb", "plain", 500)],
      technique="runtime monitor: byte sequences in memory compared with arithmetically built ones, exhaustive for 16 bits, under UBSan",
      rule="A case converts 200 random pairs of values (biased to patterns) of 16, 32, 64 and 128 bits by every macro and 20 "
           "kinds of argument expression; the first 16 cases also go through all 65536 16-bit values.",
      note=TRUST + "Arguments have no side effects; a big-endian host is not available.",
      required=["16-bit values (of 65536)", "native values and expressions converted", "portable values and expressions converted"])

check("C24",
      [run("C24_ip_parse", "asan", 8000, fuzz=True), run("C24_ip_parse", "msan", 3000), run("C24_ip_parse", "plain", 12000)],
      technique="runtime monitor: parser written from the grammar and inet_pton as oracles, exactly sized strings and destinations, under ASan+UBSan and MSan",
      rule="A case is 20 strings: generated addresses of both kinds (leading zeroes, wrong counts, several '::', embedded quads), "
           "edited ones, random strings over small alphabets and strings of up to 20000 characters, each given to the three "
           "parsers. Non-trivial: an address among them.",
      note=TRUST + "An embedded dotted quad whose first number has more than four digits (leading zeroes) may be accepted or not.",
      required=["IPv4 accepted", "IPv4 rejected", "IPv6 accepted", "IPv6 rejected", "IPv6 with embedded quad", "generic accepted", "generic rejected"],
      fuzz=60)

check("C25",
      [run("C25_ip_print", "asan", 1500), run("C25_ip_print", "msan", 300), run("C25_ip_print", "plain", 3000)],
      technique="runtime monitor: canonical form, bit-by-bit network test and round trip checked in exactly sized buffers, under ASan+UBSan and MSan",
      rule="A case is 40 pairs of addresses (random, patterns of zero groups - all 256 in the first cases -, networks, single bits, "
           "mapped ones), compared, copied, printed, re-read and tested against every prefix up to 2 beyond the range.",
      note=TRUST,
      required=["addresses", "networks", "not networks", "addresses with an embedded quad"])

CLOCK_WRAP = ("gettimeofday", "clock_gettime", "time")
check("C26",
      [run("C26_time", "asan", 800, wrap=CLOCK_WRAP), run("C26_time", "plain", 2000, wrap=CLOCK_WRAP)],
      technique="runtime monitor: exact 128-bit arithmetic as oracle, substituted clock, under UBSan",
      rule="A case builds 100 timestamps from random and boundary seconds and fractions in four units and reads them in all, "
           "compares neighbours, and reads the current time 10 times from the real or a substituted clock.",
      note=TRUST + "The real clock is not set back during a call.",
      required=["timestamps", "millisecond values (of 1000)", "runs of microsecond values", "current times", "current times of a substituted clock"])

check("C27",
      [run("C27_time_format", "asan", 4000, fuzz=True), run("C27_time_format", "msan", 1000), run("C27_time_format", "plain", 6000)],
      technique="runtime monitor: independent calendar and fraction arithmetic, exactly sized format strings, under ASan+UBSan and MSan",
      rule="A case is 12 format strings of up to 60 pieces (specifiers, widths including wrapping ones, unknown specifiers, text, "
           "trailing %) for boundary and random times in one of 8 time zones. Non-trivial: more than one piece.",
      note=TRUST + "A width on a specifier other than %f is not documented and not judged. Zones with daylight saving use the C library's rules.",
      required=["formatted in UTC", "formatted in local time", "fractions", "formats rejected"],
      fuzz=45)

check("C28",
      [run("C28_paths", "asan", 1200), run("C28_paths", "msan", 400), run("C28_paths", "plain", 2000)],
      technique="runtime monitor: string models of five path objects, of path lists and of the XDG rules compared after every operation, under ASan+UBSan and MSan",
      rule="A case runs up to 60 path operations on five paths (strings of 0-6000 characters, many slashes, NULL) from a random "
           "current directory (the root, deep, with odd names, removed), builds 3 path lists and looks up the standard paths under "
           "3 random environments. All cases are non-trivial.",
      note=TRUST + "The XDG variables hold absolute paths; a current directory longer than PATH_MAX is not tried.",
      required=["path operations", "paths appended to themselves", "absolute paths", "relative paths", "missing current directory",
                "path lists", "empty lists", "standard paths", "undefined standard paths", "standard path lists"])

FILE_WRAP = ("mkdir", "unlink", "rmdir", "readdir", "opendir")
check("C29",
      [run("C29_files", "asan", 800, wrap=FILE_WRAP), run("C29_files", "plain", 3000, wrap=FILE_WRAP), run("C29_files", "msan", 300, wrap=FILE_WRAP)],
      technique="runtime monitor: snapshots of the whole tree before and after every call, a twin tree changed by a reference implementation, "
                "injected races, interruptions and I/O errors, under ASan+UBSan and MSan",
      rule="A case is a random tree of up to 60 entries (directories of various modes, files, links inside, outside, to themselves and "
           "to nothing, fifos, odd names) and up to 30 operations on random paths, as an unprivileged user; one case in ten also makes "
           "directories from up to 5 threads. Non-trivial: more than two operations.",
      note=TRUST + "Removed paths do not end in '/', '.' or '..'; what a query says of a dangling link, and whether a link is reported as "
           "a link or as what it points to, is not judged; nobody else changes the tree except in the injected races.",
      required=["cases with many open descriptors", "cases without standard descriptors", "directories made", "directories made with parents", "existing directories accepted", "mkdirs refused",
                "trees removed", "directories removed", "files removed", "symbolic links removed", "missing files accepted",
                "missing files refused", "directories not removed", "directories iterated", "iterations stopped",
                "directories that cannot be read", "searches", "searches that meet what cannot be examined", "files found", "queries of existing files", "queries of missing files",
                "queries that fail", "concurrent mkdirs"])

WALK_WRAP = ("readdir", "opendir", "stat")
check("C30",
      [run("C30_walk", "asan", 800, wrap=WALK_WRAP), run("C30_walk", "plain", 3000, wrap=WALK_WRAP), run("C30_walk", "msan", 300, wrap=WALK_WRAP)],
      technique="runtime monitor: every callback checked against an independent traversal and a nesting automaton, injected read errors, "
                "few descriptors, under ASan+UBSan and MSan",
      rule="A case is a random tree (up to 60 entries plus up to 50 levels of directories; links to files and directories, dangling ones, "
           "unreadable directories, fifos, odd names) and up to 5 walks from random roots, stopping at a random call with a random "
           "result, skipping directories, removing what is visited, or walking inside a walk. Non-trivial: more than four entries.",
      note=TRUST + "Links that would make a directory its own descendant are removed; a link that leads to itself may be skipped or be an error.",
      required=["files that vanish during the walk", "cases with many open descriptors", "cases without standard descriptors", "complete walks", "files walked", "directories walked", "directories skipped", "entries below skipped directories",
                "walks stopped by a callback", "walks of unreadable directories", "roots that cannot be read", "read errors injected",
                "walks without enough descriptors", "trees destroyed by their walk", "walks of the root directory"])

check("C31",
      [run("C31_env", "asan", 3000), run("C31_env", "plain", 8000), run("C31_env", "msan", 1000)],
      technique="runtime monitor: map models of three environment objects and of the process's environment compared completely after every operation, under ASan+UBSan and MSan",
      rule="A case is up to 120 operations (add, formatted add, adding a looked-up value, remove, clone, replace, free, changes from "
           "outside) on three environments and the process, with 24 names and values of 0-100000 bytes. Non-trivial: more than four operations.",
      note=TRUST + "Names are non-empty and contain no '=' where they reach the process; no name occurs twice in the process's environment.",
      required=["adds", "overwrites", "formatted adds", "adds of the environment's own value", "removals", "removals of absent names",
                "environments created", "environments cloned", "replacements", "clones of empty environments"])

check("C32",
      [run("C32_exec", "asan", 400, helpers=("c32_child",)), run("C32_exec", "plain", 1500, helpers=("c32_child",)), run("C32_exec", "msan", 200, helpers=("c32_child",))],
      technique="runtime monitor: the executed program reports its arguments, environment and directory through a pipe; accessors compared before and after failed runs; under ASan+UBSan and MSan",
      rule="A case builds a specification by one of the three constructors (up to 60 parameters of 0-20000 arbitrary bytes), perhaps with an "
           "environment and a directory, and runs it in a forked process; one in three first fails in one of seven ways, and half of those "
           "are put right and run again. Non-trivial: more than one parameter.",
      note=TRUST + "Programs are named by an absolute path or found by the same PATH in both environments; of a program without any argument only the environment and directory are judged.",
      required=["cases with many open descriptors", "cases without standard descriptors", "programs run", "arguments compared", "programs with an environment of their own", "programs with the caller's environment",
                "programs in a directory of their own", "programs found by PATH", "programs without arguments", "failed runs", "runs after a failed run"])

SUB_WRAP = ("fork", "pipe", "fcntl", "read", "write", "waitpid", "kill")
check("C33",
      [run("C33_output", "asan", 1200, wrap=SUB_WRAP, helpers=("c33_child",)), run("C33_output", "plain", 5000, wrap=SUB_WRAP, helpers=("c33_child",)), run("C33_output", "msan", 500, wrap=SUB_WRAP, helpers=("c33_child",))],
      technique="runtime monitor: scripted subprocesses with computed output, consumers that check every byte as it arrives, injected short transfers and interruptions, under ASan+UBSan and MSan",
      rule="A case is 1-6 subprocesses (programs or functions; in a group or not) that print up to megabytes on both streams in random pieces, read and "
           "verify or echo their input, close streams, pause, and exit or die of a signal, driven by waiting, draining or both, perhaps twice; in one case "
           "of six consumers fail. Non-trivial: something is printed or more than one subprocess.",
      note=TRUST + "Run functions leave no data in stdio buffers; a message a failing function leaves as error may be printed on its stderr.",
      required=["cases with many open descriptors", "cases without standard descriptors", "groups", "runs without a group", "programs", "functions", "streams complete", "streams larger than a pipe", "inherited streams",
                "exit codes compared", "exit codes after a failure", "subprocesses killed by a signal", "bytes written to stdin", "consumers that failed", "subprocesses run again",
                "short transfers injected", "interruptions injected"])

check("C34",
      [run("C34_control", "asan", 1200, wrap=SUB_WRAP, helpers=("c33_child",)), run("C34_control", "plain", 5000, wrap=SUB_WRAP, helpers=("c33_child",)), run("C34_control", "msan", 500, wrap=SUB_WRAP, helpers=("c33_child",))],
      technique="runtime monitor: subprocesses held at gates so that their state is known, a record of every forked process, descriptor and memory accounting, watchdog, under ASan+UBSan and MSan",
      rule="A case is 0-5 subprocesses (programs or functions; in a group or not) that print, close streams, leave descendants behind, wait at a gate, block on "
           "a full pipe or exit at once; after drains in the known state they are released and waited for or drained, aborted (all or some), or fail in a "
           "consumer or a read; or they are never started, or started with too few descriptors or processes. Non-trivial: any subprocess.",
      note=TRUST + "Subprocesses do not ignore SIGTERM and are not stopped; SIGCHLD is not ignored; a case hangs if it exceeds 40 s, again when it runs alone.",
      required=["cases with many open descriptors", "cases without standard descriptors", "objects never started", "starts without descriptors", "starts without processes", "starts that failed half-way", "starts after a failed one",
                "subprocesses waited for while others run", "drains", "drains of subprocesses that do nothing", "streams that ended early", "writes to a closed stdin",
                "waits", "groups of more than 33", "crowds aborted", "descendants left running", "aborts", "aborts of some", "aborts with a member that is gone", "consumers that failed", "finished objects left alone", "interruptions injected"])

check("C35",
      [run("C35_cli", "asan", 1000), run("C35_cli", "plain", 5000), run("C35_cli", "msan", 400)],
      technique="runtime monitor: a model of the command tree predicts every callback with its arguments, the exit status and the help text; each line runs in a process of its own, under ASan+UBSan and MSan",
      rule="A case is a random tree of up to 40 commands (depth up to 5, names that are prefixes of one another, with or without descriptions, "
           "parsers and help) and 6 command lines: paths with options, help requests, unknown and missing commands. Non-trivial: more than one argument.",
      note=TRUST + "Names are unique within a set and not \"help\"; parsers consume at least the command's name; one command line per process; the layout of help texts beyond usage line, list and full text is not judged.",
      required=["commands run", "callbacks compared", "unknown commands", "missing commands", "explicit messages", "help asked for", "bad options",
                "help shown by commands", "lists of subcommands", "full help texts"])

check("C36",
      [run("C36_cost", "steps", 1100, wrap=["memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp"])],
      technique="runtime monitor: deterministic work counter (control-flow edges, bytes moved, allocator calls and bytes, key comparisons) over the instrumented library, compared with a bound per operation at sizes from 64 to 200000",
      rule="A case fills one kind of container (hash tables three times in eleven; lists, arrays, buffers, ring buffers and bit sets, memory pools, "
           "slices, the garbage collector, environments, path lists and errors) with a random number of elements from 64 to 49151 (buffers up to 200000 bytes), in a "
           "random way, and measures each kind of operation on it. Non-trivial: every case.",
      note=TRUST + "Work is counted, not timed, so the verdict does not depend on the machine; bounds are several times what the current code needs and far below what an operation that visits the whole container would cost.",
      required=["hash tables", "tables filled without growing", "lists", "arrays", "buffers", "ring buffers and bit sets", "memory pools",
                "managed buffers", "garbage collectors", "environments and path lists"])

check("C37",
      [run("C37_base", "asan", 400), run("C37_base", "msan", 200), run("C37_base", "plain", 1200)],
      technique="runtime monitor: version numbers against their parts' order, start-up and shut-down functions counted in child processes, outcome and output of aborting children, under ASan+UBSan and MSan",
      rule="A case compares 50 pairs of versions whose parts are given by values and 6 kinds of expression, 20 sets of expressions "
           "(64-bit values, pointers, side effects) and structure fields, and, one time in eight each, a process that exits and one that aborts.",
      note=TRUST + "Parts are in the range the encoding can hold (minor and patch below 1000).",
      required=["versions", "expressions", "exits", "aborts"])
