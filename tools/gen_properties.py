#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids/titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
S = "src/libcork/"; H = "include/libcork/"

prop("C01", "A hash table behaves as a map iterated in insertion order",
 "After any sequence of put, get-or-create, delete, delete-entry, map-delete, clear and ensure-size calls (with or without caller-supplied hashes), every lookup, every reported size and every is_new/old/deleted output agrees with a map that keeps exactly one entry per key as judged by the registered comparator. "
 "Mapping and iterating visit every live entry exactly once, in the order the entries were added (overwriting an entry keeps its place, deleting and re-adding moves it to the end), stop when the mapper asks to abort and remove exactly the entries the mapper asks to delete.",
 ["histories", "inputs"], "All operation histories over string, pointer and custom-hash tables of any initial size, including colliding hashes and repeated growth.",
 "tests/test-hash-table.c checks a handful of fixed histories with well spread keys; growth, collisions, deletion during mapping and order after mixed histories are unbounded.",
 [S+"ds/hash-table.c", H+"ds/hash-table.h"],
 [("bins + insertion_order lists kept in step", S+"ds/hash-table.c"), ("rehash on density", S+"ds/hash-table.c cork_hash_table_ensure_size")],
 ["return values and out parameters of cork_hash_table_*", "cork_hash_table_map / iterator output"])

prop("C02", "Hash tables free what they own exactly once, at the documented moment",
 "If free callbacks are registered, every key and value in the table is passed to its callback exactly once, by the time the call that deletes the entry, clears the table or frees the table returns, and never for an entry that is still in the table; without callbacks nothing of the caller's is freed. "
 "The registered user data is what every hash and comparison callback receives, and it is released exactly once, when the table is freed, after the last callback that uses it. Freeing the table returns all the memory it obtained.",
 ["histories"], "All operation histories with every combination of registered callbacks.",
 "The tests register free callbacks only for plain strings and cannot see a double free, a leak or a late free on a history they do not run.",
 [S+"ds/hash-table.c"], [("cork_hash_table_free_entry", S+"ds/hash-table.c"), ("cork_hash_table_free", S+"ds/hash-table.c")],
 ["free/hash/equals callbacks", "allocator calls"])

prop("C03", "Resizable arrays keep their elements and run element callbacks in pairs",
 "After any sequence of append, remove, remove-range, clear, ensure-size and copy calls an array holds exactly the elements of the corresponding sequence, in order, in contiguous storage. "
 "Each storage slot is initialised once before its first use (later uses get the reuse callback instead), remove runs exactly once for each element that leaves the array and never for an element still in it, and finalising the array runs done exactly once for every initialised element and releases the callback data once. "
 "Pointer and string arrays free each element they own exactly once, and a string array copy is independent of its source.",
 ["histories", "inputs"], "All operation histories, element sizes and combinations of init/done/reuse/remove callbacks.",
 "tests/test-array.c exercises a few fixed histories with counting callbacks; slot reuse after removals, copies onto used arrays and reallocation points are history dependent.",
 [S+"ds/array.c", H+"ds/array.h"], [("initialized_count / size bookkeeping", S+"ds/array.c"), ("swap before remove", S+"ds/array.c cork_raw_array_remove_range")],
 ["array contents", "init/done/reuse/remove/copy callbacks", "allocator calls"])

prop("C04", "Byte buffers hold exactly the bytes written, always NUL-terminated",
 "After any sequence of set, append, copy, string, literal, printf, truncate, clear and ensure-size calls a buffer's contents and size equal those of the corresponding byte string, a buffer that has been given content is followed by a NUL byte that is not counted in its size, and formatted content is byte for byte what the C library's formatter produces, whatever its length. "
 "Comparing two buffers reports equality exactly when their contents are the same, and handing a buffer over to a managed buffer or a slice preserves the contents and transfers ownership without leak or double free.",
 ["inputs", "histories"], "All histories of buffer operations with arbitrary binary content (including embedded NULs and sizes around every reallocation boundary).",
 "tests/test-buffer.c samples a few short strings; reallocation boundaries, the two-pass formatter and binary content are unbounded.",
 [S+"ds/buffer.c", H+"ds/buffer.h"], [("cork_buffer_ensure_size_int", S+"ds/buffer.c"), ("vsnprintf retry", S+"ds/buffer.c cork_buffer_append_vprintf")],
 ["buf/size fields", "cork_buffer_equal", "allocator calls"])

prop("C05", "Pretty-printed bytes are faithful, single-line or indented as promised",
 "The C string rendering of any byte string is a double-quoted literal on one line, consisting of printable characters only, from which the original bytes can be recovered by interpreting its escapes; printable characters stand for themselves (quotes and backslashes escaped) and the letter escapes are used where there is one. "
 "The hex dump shows every byte exactly once, in order, sixteen to a line with its printable character, and the multi-line form reproduces the text, both prefixing every line but the first with exactly the requested indentation and neither adding a newline after the last line; the binary form picks hex dump for any non-printable content, multi-line for text with newlines and the raw text otherwise.",
 ["inputs"], "All byte strings of all lengths and all indentations.",
 "The tests check a few literals; the guarantee is for all byte values, lengths modulo 16 and newline positions.",
 [S+"ds/buffer.c"], [("cork_buffer_append_c_string / hex_dump / multiline / binary", S+"ds/buffer.c")],
 ["buffer contents after the call"])

prop("C06", "Slices never reach outside their source and always show the right bytes",
 "For every slice and managed buffer, every copy, light copy or re-slice with an offset and length either succeeds with exactly the requested bytes, if offset plus length lies within the source, or fails with an error; the arithmetic never wraps, so no request however large yields a slice outside the source. "
 "Slice equality compares contents, a failed request leaves a slice that can safely be finished, and all built-in slice sources (managed buffer, resizable buffer, static, copy-once) behave the same way; an implementation written by the application is asked exactly once, and only for ranges inside its slice, and its failures are passed on.",
 ["inputs", "histories"], "All nestings of slice operations over all sources, with offsets and lengths over the whole size_t range.",
 "The tests try a few in-range and slightly out-of-range offsets; wrap-around values and deep nestings are not sampled.",
 [S+"ds/slice.c", S+"ds/managed-buffer.c", H+"ds/slice.h"], [("bounds checks before iface calls", S+"ds/slice.c"), ("cork_managed_buffer_slice", S+"ds/managed-buffer.c")],
 ["slice buf/size", "return codes", "sanitizer reports when the bytes are read"])

prop("C07", "A managed buffer is freed exactly once, when its last reference goes",
 "For every history of references, slices, copies and releases, made by one thread or by many threads at once, a managed buffer's free callback runs exactly once, with the original pointer and size, when the last reference or slice is released, and never while a reference or slice is live. "
 "A copy-once slice's copies stay valid after the original and its memory are gone.",
 ["histories", "schedules"], "All histories and thread interleavings of ref/unref/slice/copy/finish.",
 "The tests are single threaded and use a fixed number of references.",
 [S+"ds/managed-buffer.c", S+"ds/slice.c", H+"threads/atomics.h"], [("atomic ref_count", S+"ds/managed-buffer.c"), ("cork_int_atomic_sub", H+"threads/atomics.h")],
 ["free callback", "data race and memory error reports"])

prop("C08", "Streams deliver every byte exactly once, in order, or report the error",
 "Whatever way the operating system splits reads and writes, and however often they are interrupted by signals, a file or descriptor producer hands its consumer every byte of the input exactly once and in order, marks exactly the first chunk as first, and signals end of stream exactly once after the last byte; a descriptor or file consumer writes every byte it is given exactly once and in order. "
 "A real read, write, open or consumer error is reported to the caller (as may be an interruption inside a FILE), a failing consumer is not called again, and descriptors opened on the caller's behalf are closed in every case while the caller's own are left open.",
 ["inputs", "fault_sequences"], "All contents, chunkings, and sequences of short transfers, EINTR and hard errors.",
 "The tests read one small regular file, where no partial transfer, interruption or error ever happens.",
 [S+"ds/file-stream.c", S+"ds/stream.c", S+"ds/buffer.c"], [("EINTR / partial write loops", S+"ds/file-stream.c"), ("first-chunk flag", S+"ds/file-stream.c cork_consume_fd")],
 ["consumer callbacks", "bytes in files and pipes", "open descriptors"])

prop("C09", "Intrusive lists stay well formed and keep their elements in order",
 "After any sequence of head, tail, before, after, whole-list-move and remove operations, walking a doubly-linked list forwards gives exactly the elements of the corresponding sequence, walking it backwards gives the reverse, and size, emptiness, head and tail agree. "
 "Visiting and the foreach forms see each element exactly once even if the current element is removed meanwhile, stop at and return the first non-zero visitor result, and moving all elements of a list to another empties the source.",
 ["histories"], "All histories over several lists, including empty ones and moves.",
 "tests/test-dllist.c uses one or two short histories.",
 [H+"ds/dllist.h", S+"ds/dllist.c"], [("circular list with sentinel", H+"ds/dllist.h")], ["list traversal", "visitor calls"])

prop("C10", "Ring buffers are bounded FIFO queues",
 "For every capacity and every history of adds, pops and peeks a ring buffer returns elements in exactly the order they were added, refuses an add precisely when it holds capacity elements (leaving its contents unchanged) and returns NULL precisely when it is empty; its full and empty predicates agree with that, across any number of wrap-arounds.",
 ["histories", "inputs"], "All capacities and add/pop/peek histories.",
 "The test runs one short history on one capacity.",
 [S+"ds/ring-buffer.c", H+"ds/ring-buffer.h"], [("read/write index wrap", S+"ds/ring-buffer.c")], ["return values", "predicates"])

prop("C11", "Bit sets read back exactly the bits that were set",
 "For every size, a new or initialised bit set has all bits off, and after any sequence of single-bit updates and clears every bit in range reads back the value last given to it, independently of all other bits; no operation on an in-range bit touches memory outside the set.",
 ["histories", "inputs"], "All sizes (including those that are not multiples of 8) and update histories.",
 "The test sets a few bits in a few sizes.",
 [S+"ds/bitset.c", H+"ds/bitset.h"], [("byte/bit index macros", H+"ds/bitset.h"), ("byte count rounding", S+"ds/bitset.c")], ["cork_bitset_get", "sanitizer reports"])

prop("C12", "The garbage collector never frees an object that is still referenced",
 "For every object graph and every history of allocations, reference increments and decrements, no object is finalised or has its memory released while a reference from the program, directly or through other live objects, still exists, however many collections happen and however many candidate cycles are pending. "
 "The collector itself never touches released memory, and a live object's contents are unaffected by collections.",
 ["histories", "programs"], "All object graphs (trees, DAGs, overlapping and nested cycles, self references) and reference histories of any length, including more than the collector's candidate capacity.",
 "tests/test-gc.c builds a dozen objects; overlapping garbage cycles and overflow of the candidate set never occur there.",
 [S+"core/gc.c", H+"core/gc.h"], [("trial deletion: mark_gray / scan / collect_white", S+"core/gc.c"), ("candidate roots", S+"core/gc.c cork_gc_possible_root")],
 ["free callbacks", "allocator calls", "use-after-free reports"])

prop("C13", "Unreachable objects are all finalised exactly once, cycles included",
 "An object that never lost one of several references is finalised before the call that drops its last reference returns, together with everything only it kept alive under the same condition; every other unreachable object, garbage cycles included however they overlap, is finalised at the latest when the thread's collector is shut down. "
 "At that point every object dropped by the program has been finalised exactly once with its own finaliser and all collector memory has been returned, also when the candidate set overflowed on the way; and while a program keeps dropping small garbage cycles the number of dead objects awaiting collection stays bounded without any shut-down.",
 ["histories", "programs"], "All object graphs and reference histories after which the program has dropped all of its references.",
 "The existing tests free small fixed graphs and do not count finalisations.",
 [S+"core/gc.c"], [("cork_gc_release / decref_step", S+"core/gc.c"), ("collect_cycles", S+"core/gc.c")],
 ["free callbacks", "allocator balance"])

prop("C14", "Memory pools hand out distinct usable objects and run lifecycle hooks once",
 "For every object size, block size and allocation history, objects that are allocated at the same time never overlap each other, are suitably aligned, keep their contents until freed, and can be used in full. "
 "The init callback runs exactly once per object slot before it is first handed out, the done callback exactly once per slot when the pool is freed and not before, the registered user data is passed to both and released once, and freeing the pool returns all of its memory.",
 ["histories", "inputs"], "All element sizes, block sizes that fit at least one object, and allocate/free histories.",
 "The test uses one element type and the default block size.",
 [S+"core/mempool.c", H+"core/mempool.h"], [("block carving and free list", S+"core/mempool.c")],
 ["object addresses and contents", "callbacks", "allocator calls"])

prop("C15", "Every byte goes through the chosen allocator and is freed with its true size",
 "Once an application installs an allocator, every allocation and release made by the library goes through it, each block is released exactly once, with exactly the size it was obtained with, and every library object releases all of its blocks when it is freed. "
 "Allocators that provide only the two mandatory methods get correct default versions of the others (zeroed calloc, content-preserving realloc, abort on failure for the guaranteed forms, NULL with the old block intact for the recoverable ones), no allocator returns a block for a size too large to be served, string duplicates contain exactly the requested bytes plus a NUL, and what the library keeps for itself (error states of threads, cleanup entries) as well as the allocators and their user data, these in reverse order of creation, are released at exit. A library that aliases cork_current_allocator gets every allocation of its own from the allocator it names.",
 ["histories", "configurations", "fault_sequences"], "All custom allocators (any subset of methods), failing allocations at any point, and all library objects.",
 "No existing test installs an allocator or makes one fail.",
 [S+"core/allocator.c", H+"core/allocator.h"], [("default method implementations", S+"core/allocator.c"), ("size prefix of strings", S+"core/allocator.c")],
 ["allocator method calls"])

prop("C16", "Each thread's error state holds exactly the last error it reported",
 "Error code, occurrence flag and message always reflect the last error set (or cleared) by the same thread, whatever other threads do, with the message equal to the formatted text whatever its length, and prefixing puts the formatted prefix in front of the current message and changes nothing else. "
 "System errors carry the errno value and its standard description, and the checking macros return or jump exactly when the checked call failed, retry interrupted POSIX calls, and preserve the error.",
 ["histories", "inputs", "schedules"], "All histories of set/prefix/clear/query calls by any number of threads, with arbitrary text.",
 "The tests set one or two errors in one thread.",
 [S+"core/error.c", H+"helpers/errors.h", H+"helpers/posix.h"], [("per-thread double buffered message", S+"core/error.c"), ("cork_tls", H+"threads/basics.h")],
 ["cork_error_*() results"])

prop("C17", "Threads run once, have unique ids, and joining returns their outcome",
 "A started thread runs its body exactly once with its user data, join returns only after the body has finished, succeeds if the body succeeded, and otherwise fails with the error code that the body set and a message that ends with the body's; the user data is released exactly once after the body has finished (or when a never-started thread is freed). "
 "Every thread in the process, libcork-made or not, sees a single stable non-zero id different from every other thread's, and the current-thread and name accessors return the right thread inside and NULL outside libcork threads; once start has returned, a thread also carries its name, cut to what the platform holds, for tools that look at the process.",
 ["schedules", "histories"], "All interleavings of any number of concurrently created, failing and joined threads.",
 "The tests start a few threads one after another.",
 [S+"pthreads/thread.c", H+"threads/basics.h"], [("error hand-over in join", S+"pthreads/thread.c"), ("atomic id counter", S+"pthreads/thread.c")],
 ["run/free callbacks", "cork_thread_* results", "data race reports"])

prop("C18", "Once-barriers, atomics and thread-local storage keep their promises",
 "For every interleaving, a once-barrier executes its statement exactly once and no caller passes it before that execution has completed (a recursive one lets the executing thread re-enter), and each atomic add, subtract or compare-and-swap on int, unsigned, size_t and pointers takes effect indivisibly and returns the value its name promises. "
 "Thread-local variables start out zeroed in every thread and are never affected by another thread.",
 ["schedules"], "All interleavings of any number of threads on shared barriers, counters and thread-local variables.",
 "The tests run the macros single threaded or with a couple of threads.",
 [H+"threads/atomics.h", H+"threads/basics.h"], [("__sync builtins", H+"threads/atomics.h"), ("cork_once barrier", H+"threads/basics.h")],
 ["returned values forming a history", "data race reports"])

prop("C19", "Exit cleanups all run exactly once, lowest priority first",
 "When the process exits normally, every registered cleanup function is called exactly as many times as it was registered, in non-decreasing order of priority, with no memory errors; this includes functions registered by a cleanup function while exit is under way.",
 ["histories"], "All sets of priorities, registration orders, duplicates, and registrations made during exit.",
 "The test registers a couple of functions in one fixed order.",
 [S+"posix/process.c"], [("priority-sorted list run from atexit", S+"posix/process.c")], ["order of callback execution in a child process"])

prop("C20", "128-bit integers add, subtract, compare and split exactly modulo 2^128",
 "For all pairs of values, in the native and in the portable build, addition and subtraction are exact modulo 2 to the power 128, the six comparisons agree with the numerical order, shifts by 0 to 127 bits are exact, and so are building a value from 32 or 64-bit pieces and reading back its 8, 16, 32 or 64-bit pieces in big-endian order.",
 ["inputs", "configurations"], "All 128-bit operands in every build configuration.",
 "The fixed test table samples a tiny part of 2^256 operand pairs.",
 [H+"core/u128.h"], [("native __int128 and carry-propagating fallback", H+"core/u128.h")], ["returned values"])

prop("C21", "128-bit integers print exactly, within the documented buffer size",
 "For every value, the decimal, hexadecimal and zero-padded hexadecimal renderings are the exact canonical representation (no leading zeroes except in the padded form, which is always 32 digits), NUL-terminated, lie inside the caller's buffer of the documented size, and never touch memory outside it.",
 ["inputs", "configurations"], "All 128-bit values in the native and portable builds.",
 "The fixed table samples a few hundred values and does not observe the buffer's surroundings.",
 [S+"core/u128.c", H+"core/u128.h"], [("two-digit table rendering", S+"core/u128.c")], ["returned strings", "guard bytes"])

prop("C22", "Hash values are stable MurmurHash3, depending only on seed and bytes",
 "The stable hash of any byte string with any seed is the published MurmurHash3 32-bit value and so never changes between runs, builds or library versions; the fast and big hashes depend on every byte of the string, its length and the seed and on nothing else (never on alignment or on bytes outside the string) within a process, and variable hashes equal the hash of the variable's bytes. "
 "Big hashes compare equal exactly when all their bits are, unique identifiers are pairwise distinct with consistent equality, hash and name, and the command-line hash tool prints the same value as the library.",
 ["inputs", "configurations"], "All byte strings, lengths, alignments and seeds.",
 "The tests hash a few strings at one alignment.",
 [H+"core/hash.h", S+"core/hash.c", S+"core/id.c", "src/cork-hash/cork-hash.c"], [("inline MurmurHash3", H+"core/hash.h")], ["returned values", "memory error reports"])

prop("C23", "Byte-order conversions reorder bytes exactly and are involutions",
 "For all 16, 32, 64 and 128-bit values and whatever expression they are written as, swapping reverses the bytes, conversion between host and big-endian produces the big-endian byte sequence in memory, conversion between host and little-endian the little-endian one, the in-place forms store what the value forms return, and converting back and forth returns the original value.",
 ["inputs"], "All 16-bit values exhaustively, all 32 and 64-bit values, and arguments that are expressions of any integer type.",
 "The test checks one constant per macro.",
 [H+"core/byte-order.h"], [("CORK_SWAP_* and endianness selection", H+"core/byte-order.h")], ["macro results in memory"])

prop("C24", "IP address parsing accepts exactly well-formed addresses, with their value",
 "A string is accepted as an IPv4 address exactly if it is four dot-separated decimal numbers of 0 to 255 (leading zeroes allowed), as an IPv6 address exactly if it is a well-formed colon-hexadecimal address with at most one '::' standing for at least one group and optionally an embedded dotted quad at the end, and as a generic address exactly if it is one of the two; the parsed bytes are the address's network-order bytes. "
 "Every other string, however long, is rejected with the address parse error and leaves the destination unchanged, without reading outside the string.",
 ["inputs"], "All strings.",
 "The tests list about forty strings.",
 [S+"core/ip-address.c"], [("cork_ipv4_parse / cork_ipv6_init state machines", S+"core/ip-address.c")], ["return codes, address bytes, error code"])

prop("C25", "IP addresses print canonically and round-trip; CIDR checks are exact",
 "Every address prints within the documented length as its canonical text (dotted quad without leading zeroes; lower-case IPv6 with its longest run of zero groups compressed), and parsing that text gives the same address back. "
 "Equality, copying and the generic forms preserve version and bytes, and an address is a valid network for a prefix exactly if the prefix is within the version's range and all bits beyond it are zero.",
 ["inputs"], "All IPv4 and IPv6 addresses and all prefixes.",
 "The tests print about twenty addresses and check three prefixes per family.",
 [S+"core/ip-address.c", H+"core/net-addresses.h"], [("cork_ipv6_to_raw_string", S+"core/ip-address.c"), ("cork_ipv6_is_valid_network", S+"core/ip-address.c")], ["printed strings, predicates"])

prop("C26", "Timestamps convert between seconds and fractions without drift",
 "For every second count and in-range fraction, building a timestamp from milli-, micro-, nano- or 2^-32-second units keeps the seconds exactly and the fraction to within its resolution, reading the fraction back in the same unit returns the value it was built from, and reading it in any unit gives a value in range that is the nearest such value to within a tenth of a unit. "
 "Timestamps order like the instants they represent, and the current time is never earlier than the system clock read before the call nor later than the one read after it.",
 ["inputs"], "All 32-bit second counts and all in-range fractions of each unit.",
 "The tests convert one half-second fraction per unit.",
 [H+"core/timestamp.h", S+"core/timestamp.c"], [("fixed-point conversion macros", S+"core/timestamp.c / "+H+"core/timestamp.h")], ["returned values"])

prop("C27", "Timestamp formatting follows its specifiers or reports a format error",
 "For every timestamp and every format string made of the documented specifiers and plain text, formatting appends exactly the corresponding text (calendar fields per UTC or the local time zone, fractional seconds rounded like that and zero-padded to the requested width of 1 to 9 digits) to what the buffer already holds and succeeds. "
 "A format string with an unknown specifier, a trailing percent sign, or a fraction whose width is missing or not in 1 to 9 (however long the number) is rejected with an error, without reading past its end.",
 ["inputs"], "All timestamps, format strings and time zones.",
 "The tests format a handful of instants with a handful of formats in one time zone.",
 [S+"core/timestamp.c"], [("append_fractional / format loop", S+"core/timestamp.c")], ["buffer contents, return codes"])

prop("C28", "Path algebra is exact: join, split, absolutise, lists and standard paths",
 "For all path strings, joining puts exactly one separator between the parts when needed (an absolute or empty second part follows the documented rule), base name and directory name are the parts after and before the last slash, making a path absolute leaves absolute paths alone and prefixes relative ones with the current directory, and clones are independent. "
 "A path list splits a colon-separated string into its elements in order, returns them by index and prints them back separated by colons, and the home, configuration, data, cache and runtime paths are those the XDG base directory rules give for the current environment (whose entries are absolute paths).",
 ["inputs", "configurations"], "All path strings, path lists, and settings of HOME and the XDG variables.",
 "The tests list a few joins and environments.",
 [S+"posix/files.c", H+"os/files.h"], [("cork_path_* and cork_path_list_*", S+"posix/files.c")], ["returned strings"])

prop("C29", "File operations change exactly the named files, and report what they did",
 "Creating a directory succeeds or fails, creates missing parents and treats existing directories as its flags say, and leaves every other file untouched; removing a file or directory deletes exactly the named entry and, only if recursive, what is inside that directory, never following a symbolic link to content outside it. "
 "Existence and type queries, directory iteration (every entry exactly once, stopping at the first non-zero result) and searching a path list for a file (in the list's order, an entry that cannot be examined being an error) agree with the file system (queries follow symbolic links), and every failure is reported with an error.",
 ["histories", "inputs"], "All directory trees (including symbolic links, empty and nested directories, unusual names and trailing or doubled separators) and operation sequences.",
 "The tests create and delete one small fixed tree.",
 [S+"posix/files.c", H+"os/files.h"], [("cork_file_mkdir_recursive / cork_file_remove_recursive", S+"posix/files.c"), ("cork_file_iterate_directory", S+"posix/files.c")],
 ["file system before and after, return codes, callbacks"])

prop("C30", "A directory walk visits every entry once, properly nested",
 "Walking a directory reports every regular file and every subdirectory below it exactly once with its correct full, relative and base names, brackets the contents of each entered subdirectory between one enter and one leave call, does not descend into a skipped subdirectory, and stops and returns the callback's result as soon as a callback returns a failure. Links to directories and files count as what they point to; dangling links do not end the walk. "
 "A missing or unreadable directory is reported as an error, and no descriptor or memory is left behind however the walk ends.",
 ["inputs", "fault_sequences"], "All directory trees, skip decisions and abort points.",
 "The test walks one fixed tree to the end.",
 [S+"posix/directory-walker.c"], [("recursive readdir walk", S+"posix/directory-walker.c")], ["callback sequence, return code, open descriptors"])

prop("C31", "Environments are independent maps that reach the process exactly as built",
 "After any history of adds, formatted adds, overwrites and removals an environment object maps exactly the names that are present to their last values, is independent of the strings passed in, of other environments and of the process it was cloned from, and removing an absent name does nothing. "
 "The same calls without an environment object act on the process's own environment, cloning copies it completely, and replacing it makes the process's variables exactly those of the object.",
 ["histories", "inputs"], "All histories over environment objects and the process environment, with arbitrary names and values.",
 "The tests add a few variables.",
 [S+"posix/env.c"], [("hash table of variables", S+"posix/env.c")], ["cork_env_get, getenv, environ"])

prop("C32", "An executed program gets exactly the arguments, environment and directory set",
 "A program run from an execution specification receives exactly the parameters that were given, in order and unmodified, runs in the given working directory (or the caller's), and sees exactly the given environment (or the caller's), and the specification's accessors return the same. "
 "If the program cannot be started or the directory cannot be entered, the call returns with an error.",
 ["inputs", "configurations"], "All parameter lists, environments and working directories.",
 "The tests run echo and a couple of fixed commands.",
 [S+"posix/exec.c"], [("cork_exec_run", S+"posix/exec.c")], ["argv, environ and cwd seen by the child"])

prop("C33", "Every byte a subprocess prints reaches its consumer; exit codes are exact",
 "For any amount and interleaving of output on standard output and standard error by any number of concurrently running subprocesses, waiting for them (or draining until finished) delivers each stream's bytes completely, in order and only to its own consumer, followed by one end-of-stream, and reports each subprocess's own exit code, which for a function is its result; bytes written to a subprocess's standard input arrive completely and in order followed by end-of-file once it is closed. "
 "A subprocess that is killed by a signal is never reported as having exited successfully, and an error from a consumer is returned to the caller.",
 ["schedules", "inputs", "fault_sequences"], "All output volumes and timings (including far more than a pipe holds), group sizes, exit codes and consumer failures.",
 "The tests print a few words from one or two processes.",
 [S+"posix/subprocess.c"], [("read pipes and drain loop", S+"posix/subprocess.c")], ["consumer callbacks, exit codes"])

prop("C34", "Subprocess control never hangs and leaves no processes or descriptors behind",
 "Whatever its subprocesses do with their output streams (fill one without using the other, close them early, exit while grandchildren keep running silently with closed streams, or never write), waiting returns once they have exited, draining returns without waiting for output that is not there, and abort terminates every running member. "
 "A failed start, read or consumer terminates every member and is reported. Once they have exited or been terminated and what they left in the pipes has been drained, the objects report finished, and waiting, draining or aborting again does nothing; the children have been reaped as soon as wait or abort returns, and freeing the objects leaves no descriptor, process or memory behind and releases the user data exactly once and the caller's consumers not at all.",
 ["schedules", "fault_sequences", "histories"], "All orders of output, closing, exiting, draining, waiting and aborting.",
 "The tests only wait for short-lived well-behaved children.",
 [S+"posix/subprocess.c"], [("non-blocking drain", S+"posix/subprocess.c"), ("abort and reap", S+"posix/subprocess.c")], ["system state before/after, return values, free callbacks"])

prop("C35", "Command lines are dispatched to the right subcommand with the right arguments",
 "For every tree of commands and every command line, the leaf command named by the line is run, exactly once, with exactly the arguments left after each level's option parser has consumed its own, or else help is shown: asking for help of a command (via help, --help or -h) prints that command's help and succeeds, and a missing or unknown subcommand prints an error with the enclosing set's usage and fails. "
 "Help for a set lists each of its subcommands in order with its description, and usage lines show the full command path.",
 ["inputs", "programs"], "All command trees, option parsers and command lines.",
 "The cram tests run a fixed set of command lines of the test program.",
 [S+"cli/commands.c", H+"cli/commands.h"], [("cork_command_set_run / leaf run", S+"cli/commands.c"), ("breadcrumbs", S+"cli/commands.c")], ["run callback arguments, printed text, exit status"])

prop("C36", "The cost of container operations does not grow with their contents",
 "Whatever a container holds, adding, finding, overwriting and deleting in a hash table whose hashes are well spread takes a bounded number of key comparisons and steps on average, and a table made or told to hold n entries takes n without being resized again. "
 "Adding to arrays and buffers piece by piece takes a number of reallocations logarithmic in the final size and memory proportional to it, none once room was ensured, and none when emptied and refilled; list insertion, removal and splicing, ring buffer, bit set and memory pool operations, and taking, slicing, copying and releasing managed slices take a constant number of steps (a pool reuses returned objects before allocating, and a copy-once slice copies its content at most once); iterating, printing, hashing and parsing take time linear in what they visit.",
 ["histories", "inputs"], "All fill levels, histories of additions and removals, and API variants.",
 "The tests use containers of a few elements and look at results only; an operation that degrades with size gives the right answers.",
 [S+"ds/hash-table.c", S+"ds/array.c", S+"ds/buffer.c", S+"ds/slice.c", S+"core/mempool.c", H+"ds/dllist.h"],
 [("density and rehash", S+"ds/hash-table.c"), ("doubling in ensure_size", S+"ds/array.c and "+S+"ds/buffer.c"), ("free list", S+"core/mempool.c"), ("promotion to a managed buffer", S+"ds/slice.c cork_copy_once_slice__copy")],
 ["control-flow edges taken, bytes moved, allocator calls, comparer calls"])

prop("C37", "Versions, aborts, start-up functions and expression helpers mean what they say",
 "A version number made from any expressions for major, minor and patch is major * 1000000 + minor * 1000 + patch, so that versions compare like their parts, also in the preprocessor, and libcork's own number, parts and strings agree. "
 "cork_abort and its relatives end the process by SIGABRT after printing the formatted message and the place (cork_abort_if_null returns any other pointer unchanged); every initializer has run exactly once before main and every finalizer runs exactly once at exit; CORK_LIKELY and CORK_UNLIKELY evaluate their expression once and have its truth value, whatever its type; and cork_container_of finds the structure of any of its fields.",
 ["inputs"], "All version parts, messages, expressions and fields.",
 "The tests use none of these directly except through the library's own code.",
 [H+"core/api.h", H+"core/attributes.h", H+"core/error.h", H+"core/types.h", S+"core/version.c"],
 [("CORK_MAKE_VERSION", H+"core/api.h"), ("cork_abort_if_null_", H+"core/error.h"), ("CORK_INITIALIZER", H+"core/attributes.h")],
 ["macro results", "exit status and output of child processes", "order of versions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
