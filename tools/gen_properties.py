#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code because JSONL is unreadable to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ threads
prop("T01", "Thread-safe refcounts destroy the object exactly once, at the last release",
 "For every interleaving of threads that retain and release a thread-safe reference-counted object (plain or virtual flavour, directly or through owning handles), the object is destroyed exactly once, by the release that drops the last reference, and never while a reference is held. The non-virtual flavour tells the releasing thread whether the object survived its release. Everything a thread did to the object before dropping its reference happens before the destructor, so there is no data race between users and destruction.",
 "schedules histories", "all interleavings of up to 3 threads doing retain/release/handle copies over one or two objects, up to a preemption bound",
 "The only test drops references on one thread; the virtual flavour is never instantiated, and no test runs two threads over one count.",
 ["amtl/am-refcounting-threadsafe.h", "amtl/am-refcounting.h"],
 [("atomic increment / fetch_sub compared with the last reference", "RefcountedThreadsafe::AddRef/Release, VirtualRefcountedThreadsafe::AddRef/Release")],
 [("refcount_", "number of outstanding references", "am-refcounting-threadsafe.h")], ["destructor runs", "Release() result"])
prop("T02", "An atomic reference cell is a linearizable register of strong references",
 "Concurrent reads and replacements of an atomic reference cell appear to take effect one at a time: every read returns null or the live object most recently stored, together with one reference owned by the caller. No interleaving loses or duplicates a reference, destroys an object the cell or a reader still owns, or deadlocks, and a replaced object is released exactly once (so it dies then if nobody else holds it). Data written to an object before it was stored is visible to every thread that reads it out.",
 "schedules histories", "all interleavings of up to 3 threads with up to 2 reads/replacements each (new object, shared object, null, same object), up to a preemption bound, with and without address reuse",
 "Tests use the cell from a single thread only; lock/unlock windows and publication ordering need specific interleavings.",
 ["amtl/am-refcounting-threadsafe.h"],
 [("tag-bit spin lock around read+AddRef and swap", "AtomicRef::lock/unlock/get/operator=")],
 [("thing_", "current object, low bit = locked", "am-refcounting-threadsafe.h")], ["get() results", "destructor runs"])
prop("T03", "Thread-local variables isolate threads, even when first used concurrently",
 "Reading a thread-local variable yields exactly the last value the same thread stored in that variable, or the default value if that thread never stored one, for every interleaving of threads including concurrent first use; negative integers, pointers and zero round-trip. Distinct variables never share storage, every system slot obtained is given back when the variable is destroyed, and if no slot can be obtained explicit allocation reports failure while reads keep yielding the default. In single-threaded builds the variable behaves as one ordinary variable.",
 "schedules histories fault_sequences configurations", "all interleavings of 2-3 threads storing/reading one or two variables from the very first use, up to a preemption bound; slot-allocation failure at every point; threaded and single-threaded builds",
 "The test initialises the variable on the main thread before starting one other thread, so the first-use race, slot clean-up and slot exhaustion are never exercised.",
 ["amtl/am-threadlocal.h"],
 [("lazy slot allocation", "ThreadLocal::allocate"), ("per-thread slot access", "ThreadLocal::internalGet/internalSet")],
 [("allocated_ / key_", "whether a system slot exists, and which", "am-threadlocal.h")], ["get()/set()/operators"])
prop("T04", "The mutex excludes, and its ownership assertion tells the truth",
 "For every interleaving of threads locking, try-locking and unlocking, at most one thread is inside the critical section, a try-lock succeeds exactly when the mutex is free, no lock is lost or deadlocks, and what one owner wrote is visible to the next. In debug builds the ownership assertion passes for the thread that holds the mutex, whichever of the mutex's own operations (or a guard over it) acquired it, and fails for any other thread or when the mutex is free; in release builds it never fires.",
 "schedules configurations", "all interleavings of up to 3 threads over lock/try_lock/unlock/guard sequences, up to a preemption bound; debug and release builds",
 "No test includes the mutex header at all.",
 ["amtl/am-mutex.h"], [("owner recorded after acquiring, cleared before releasing", "Mutex::lock/unlock/AssertCurrentThreadOwns")],
 [("owner_", "id of the owning thread, debug builds", "am-mutex.h")], ["AssertCurrentThreadOwns()", "critical-section overlap"])
prop("T05", "A started thread runs its function exactly once with copies of its inputs",
 "Starting a named thread runs the given callable exactly once on a new thread, with the argument values (and callable state) it had when the thread was started, whatever the caller does to its own copies or to the name buffer afterwards. The thread already carries the requested name (when the system accepts it) before the callable begins, and joining returns only after the callable has finished, with its effects visible. Nothing is leaked or destroyed twice.",
 "schedules inputs", "all interleavings of a caller that mutates/frees name and arguments with 1-2 started threads; name lengths 0..20; callables with 0-3 arguments",
 "The one test joins immediately, passes a literal name and a by-value int, and never inspects the name.",
 ["amtl/am-thread.h"], [("decayed copies bound into the new thread; name set first", "NewThread / SetThreadName")], [], ["callable invocations", "thread name"])

# ------------------------------------------------------------------ ownership / value types
prop("R01", "Owning handles keep an object alive exactly as long as something owns it",
 "Through any history of creating, copying, moving, converting, assigning, adopting, taking and dropping owning handles (plain and virtual reference counting), an object lives exactly while at least one handle or explicit reference owns it, and is destroyed exactly once when the last one goes. This includes self-assignment, self-move, assigning a handle's own raw pointer, assigning from a handle stored inside the object being released, and destructors that look at or reassign the very handle whose assignment released them (it already holds its new value). Handles report null/non-null, equality and the raw pointer according to what they hold, and a moved-from, taken-from or forgotten handle is null.",
 "histories", "all operation sequences up to the depth bound over 2-3 handles, 2 objects, a base/derived pair and one handle nested inside an object",
 "Tests cover a few straight-line copies; no aliasing, no self-assignment, no nested ownership, no virtual flavour.",
 ["amtl/am-refcounting.h", "amtl/am-raii.h"],
 [("balanced AddRef/Release in every constructor and assignment", "RefPtr, AlreadyRefed, AdoptRef"), ("delete at zero", "Refcounted::Release, VirtualRefcounted::Release")],
 [("refcount_", "owning references", "am-refcounting.h")], ["destructor runs", "handle accessors"])
prop("R02", "Function wrappers are independent values that call exactly what was stored",
 "After any history of constructing, copying, moving, assigning (including self-assignment, self-move, assigning null, and assigning a wrapper or callable that the replaced callable owns) function wrappers, each wrapper is empty or calls a private copy of the callable it was last given, with arguments and result passed through unchanged; copies are independent, a copy of an empty wrapper is empty, and a moved-from wrapper is empty. Every stored callable is destroyed exactly once, and nothing is leaked. Callables of up to three machine words given to a wrapper are stored without heap allocation, as are copies of a wrapper made by assignment or from a const wrapper that stores its callable that way, and neither moving a wrapper nor giving it a temporary callable copies the callable.",
 "histories inputs", "all operation sequences up to the depth bound over 3 wrappers and callables of several sizes (stateless, inline, heap, stateful, throwing nothing)",
 "Tests use single assignments; no self-assignment, empty copies, non-const copies, or chained histories.",
 ["amtl/am-function.h"],
 [("clone/move through a virtual holder, inline buffer or heap", "Function::assign/move/destroy")],
 [("impl_ / buffer_", "active holder and inline storage", "am-function.h")], ["operator()", "bool", "usingInlineStorage", "callable lifetimes"])
prop("R03", "Optional values hold exactly what was last stored and destroy it exactly once",
 "Through any history of constructing, initialising, copying, moving and assigning optional values (including self-assignment and assigning empty; assigning an optional to itself, by copy or by move, keeps the value), each is empty or holds exactly the value last stored; a source that was moved from becomes empty. Every contained value is constructed and destroyed exactly once, at an address suitably aligned for its type, and accessors reach the stored value.",
 "histories", "all operation sequences up to the depth bound over 3 optionals, for trivially-copyable, move-only, over-aligned and lifetime-tracked types",
 "There is no test for optional values; the argument parser only stores ints, bools and strings in them.",
 ["amtl/am-maybe.h", "amtl/am-storagebuffer.h"],
 [("placement construction and explicit destruction guarded by a flag", "Maybe::init/copyFrom/moveFrom/~Maybe")],
 [("initialized_", "whether a value lives in the buffer", "am-maybe.h")], ["isValid()", "get()", "value lifetimes"])
prop("R04", "Fixed arrays have value semantics and survive allocation failure",
 "A fixed array constructed with a length holds that many default-constructed elements; copies are equal and independent, and moving transfers the contents and leaves the source empty, through any history of copy and move construction and assignment including self-assignment (by copy or by move, which keeps the contents) and length changes. Every element is constructed and destroyed exactly once, and all memory is returned to the allocator. If the allocator fails, the failure is reported by the initialisation query and the array can still be destroyed or assigned safely; a length whose byte size is not representable is reported as overflow.",
 "histories fault_sequences", "all operation sequences up to the depth bound over 3 arrays of lengths 0..3, and every allocation failure point in each of them",
 "No test includes this header; the allocation-failure path exists only for custom policies.",
 ["amtl/am-fixedarray.h", "amtl/am-allocator-policies.h"],
 [("allocate/destruct/deallocate in every special member", "FixedArray")],
 [("size_ / data_", "element count and storage", "am-fixedarray.h")], ["elements", "initialize()", "allocator calls"])
prop("R05", "Scope helpers restore, unlink and fire exactly once at scope exit",
 "A scope guard invokes its callable exactly once when its scope ends unless cancelled, however often it is moved or nested and whether the callable is an rvalue or an lvalue, copyable or move-only; a cancelled guard never fires. A save-and-set helper restores the exact previous value at scope exit, and stack-linked objects form a LIFO chain whose head is always the innermost live object. Return-and-void yields the old value and leaves the default.",
 "histories", "all nestings of guards/savers/links up to the depth bound, with every cancel/move/early-return choice",
 "Tests cover one cancel and one nested invoke; moves, savers and linked chains are untested.",
 ["amtl/am-raii.h"], [("destructor actions and cancel-on-move", "ScopeGuard, SaveAndSet, StackLinked, ReturnAndVoid")], [], ["callback count", "restored values"])

# ------------------------------------------------------------------ hash containers
prop("H01", "Hash maps and sets agree with an abstract dictionary after every history",
 "After any sequence of insertions, lookups, removals, clears, moves and requested resizes (checkDensity), a hash table, map or set finds exactly the keys that were inserted and not removed, with the values they were given, never holds a key twice, and reports their number. This holds for every hash function (including constant, colliding, and extreme hash values) and through every growth and shrink, for any mixture of lookup key types that hash alike. A lookup result for insertion stays usable for exactly the add that follows it, and refers to the added entry afterwards.",
 "histories inputs", "all operation sequences up to a depth bound over small colliding key universes, all reachable table states of a small universe, and parameterised bulk histories crossing several growth and shrink thresholds",
 "Tests insert at most two keys into a table of sixteen slots: no growth, shrink, wrap-around, collision chain or reserved hash is ever reached.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
 [("linear probing with tombstones", "HashTable::lookup/lookupForAdd"), ("rehash on growth/shrink", "HashTable::changeCapacity"), ("reserved hash values remapped", "HashTable::computeHash")],
 [("capacity_/nelements_/ndeleted_/table_", "slots, live count, tombstones", "am-hashtable.h")], ["find/findForAdd/add/remove/removeIfExists/clear/has/elements"])
prop("H02", "Hash containers construct and destroy every stored element exactly once",
 "Every key and value stored in a hash container is constructed exactly once and destroyed exactly once, by the removal, clear or destruction that drops it, immediately at that call. Resizing relocates elements without copying them, lookups neither copy nor disturb elements, moving a container relocates nothing, and move-only elements are supported. All memory obtained from the allocator goes back to the same allocator.",
 "histories", "all operation sequences up to the depth bound, plus bulk histories across resizes, with lifetime-tracked and move-only elements",
 "Tests store std::string and int and never look at lifetimes; leaks and double destruction are invisible to them.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
 [("entry construct/destruct by liveness", "HashTableEntry::construct/destruct/setRemoved/setFree")], [], ["element constructor/destructor counts", "allocator calls"])
prop("H03", "Iterating a hash container visits each entry exactly once, even when erasing",
 "An iteration over a hash container visits every entry present exactly once and nothing else, whatever insertions, removals, clears, growths and moves preceded it, and mutating a value through the iterator is seen by later lookups. Erasing the current entry during iteration removes exactly that entry and does not disturb the rest of the traversal; erasing any subset leaves exactly the complement.",
 "histories", "all operation prefixes up to the depth bound followed by an iteration erasing every possible subset",
 "Tests iterate over one-entry maps and never erase through the iterator.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h"],
 [("skip non-live slots from begin and after each step", "HashTable::iterator")], [], ["iterator visits", "contents after erase"])
prop("H04", "Hash containers survive any allocation failure and report it",
 "If the allocator policy refuses memory at any point, initialisation, insertion or a requested resize (checkDensity) returns failure, the failure leaves every existing entry, the count and later lookups exactly as they were, the container can be used and destroyed normally, and a later insertion succeeds once memory is available. Requests beyond the representable size are reported to the policy as overflow rather than attempted. All memory goes through the policy object the container was given, which its accessor exposes, and the default policy terminates the process on failure.",
 "fault_sequences histories", "every subset of up to 2 failing allocations in every operation history up to the depth bound and in bulk histories; oversize capacities",
 "Tests use only the infallible default policy.",
 ["amtl/am-hashtable.h", "amtl/am-hashmap.h", "amtl/am-hashset.h", "amtl/am-allocator-policies.h"],
 [("table created before the old one is touched", "HashTable::changeCapacity/createTable/init"), ("abort on failure", "SystemAllocatorPolicy")], [], ["return values", "policy callbacks", "contents after failure"])
prop("H05", "Hash tables stay bounded: never overfull, never below their initial size",
 "Whatever mixture of insertions and removals is applied, a hash table never fills up: lookups and insertions of absent keys always terminate, at least a sixth of the slots hold no live entry, and the memory in use never falls below that of the initial capacity. Endless churn (insert and remove of ever-new keys) at a bounded population keeps memory bounded: never more than twice the initial capacity or eight slots per entry of the peak population, whichever is larger. After a grown table is cleared, inserting new entries shrinks it back under that bound for the new population, within as many insertions as it had doublings; asking a cleared table to check its density as many times brings it back without an insertion.",
 "histories", "all reachable states of a small universe, and churn histories for every population 0..N over several initial capacities and hash functions",
 "No test removes enough entries to build up tombstones, nor grows or shrinks a table.",
 ["amtl/am-hashtable.h"],
 [("tombstones count toward the load", "HashTable::overloaded/underloaded/checkDensity"), ("shrink floor", "HashTable::shrink")], [("minCapacity_", "capacity requested at initialisation", "am-hashtable.h")], ["estimateMemoryUse()", "termination"])
prop("H06", "Hash helpers are pure functions of content, however it is fed",
 "Feeding a character sequence to the streaming hasher in any split into pieces or single characters gives the same hash as hashing it in one call, and both depend only on the bytes given. The integer, pointer and combining helpers are pure functions of their arguments that match their published reference algorithms bit for bit (two's complement, characters and 32-bit integers sign-extended), and pointers hash as their integer value.",
 "inputs", "all byte strings up to a bound over an alphabet with extreme bytes, all splits; all pairs of bit-pattern integers",
 "Tests hash three short literals through one function.",
 ["amtl/am-hashtable.h"], [("Jenkins one-at-a-time / sdbm / Wang mixers", "CharacterStreamHasher, HashCharSequence, FastHashCharSequence, HashInt32/64, HashPointer, HashCombine")], [], ["hash values"])

# ------------------------------------------------------------------ other containers
prop("C01", "Inline lists are exact sequences in both directions and know their members",
 "After any history of appends, removals, erasures during forward or reverse iteration, self-removal of nodes and moves of nodes between lists, each list enumerates exactly its members in insertion order forwards and in the opposite order backwards, and reports its emptiness and length accordingly. A node reports being in a list exactly while it is a member of one, and after leaving it, or after its list is destroyed, it can be appended again; this holds in debug and release builds. Erasing returns the iterator to the element that followed in the iteration direction, and destroying a list never touches the nodes' ownership.",
 "histories configurations", "all operation sequences up to the depth bound over 4 nodes and 2 lists; debug and release builds",
 "One forward traversal with three removals is tested; reverse iteration, length, membership queries and self-removal are not.",
 ["amtl/am-inlinelist.h"], [("sentinel-headed circular links", "InlineList::append/remove/erase, InlineListNode::removeFromParentList")],
 [("next_/prev_/length_", "links and cached size", "am-inlinelist.h")], ["iteration", "isInList()", "length()"])
prop("C02", "Priority queues always pop a highest-priority element and conserve contents",
 "For every sequence of additions, in-place constructions, pops, peeks and moves, under any strict weak ordering (including many ties), peek and pop give an element that no remaining element outranks, and the multiset of elements popped plus remaining equals the multiset added. Elements are moved rather than copied when popped or rearranged, move-only elements work, and each is destroyed exactly once.",
 "histories", "all add/pop sequences up to the depth bound, and all permutations and multisets of priorities up to a size bound fully drained",
 "One six-element sequence with default ordering is tested; right-child-only, tie and interleaved pop/add shapes are not.",
 ["amtl/am-priority-queue.h"], [("binary heap sift up/down", "PriorityQueue::propagateUp/propagateDown")], [("impl_", "heap array", "am-priority-queue.h")], ["peek()/pop() order"])
prop("C03", "Vector and deque helpers edit sequences exactly as specified",
 "Removing at, inserting at, emplacing at, popping from either end, conditionally erasing, and move-extending produce exactly the sequence a naive list model predicts, for every position including both ends, every predicate, empty and non-empty operands, and items aliasing the container. Untouched elements keep their relative order, a move-extended source is left empty, popped and transferred elements are moved rather than copied, and each element is destroyed exactly once.",
 "histories inputs", "all operation sequences up to the depth bound over small vectors/deques, all predicate subsets, with lifetime-tracked and move-only elements",
 "Tests use a handful of literal positions; move-extension is not tested at all.",
 ["amtl/am-vector.h", "amtl/am-deque.h"], [("thin wrappers over std containers", "MoveExtend, PopBack, PopFront, RemoveAt, InsertAt, EmplaceAt, EraseIf")], [], ["sequence contents", "element lifetimes"])

# ------------------------------------------------------------------ strings
prop("S01", "Bounded string functions never overrun, always terminate, and return the length",
 "For every source, buffer size and prior content, bounded copy, counted copy, append and print write only inside the given buffer, leave it NUL-terminated holding the longest prefix of the full result that fits (counted copy: at most the given count of characters, stopping at the end of the source; append: the existing terminated content is kept, even where it already exceeds the size, and the result starts with it), and return the resulting string length. A zero-sized buffer is left untouched, and a formatting failure never reports characters that were not produced. Bytes of the buffer beyond the terminator of an appended or copied string are not modified.",
 "inputs fault_sequences", "all strings up to a length bound x all buffer sizes x all counts x all prior contents; all print lengths up to several thousand; formatting errors",
 "Tests check six hand-picked calls; exact-fit, one-short, size 0/1 and count 0 boundaries are mostly unvisited.",
 ["amtl/am-string.h"], [("countdown copy loops; vsnprintf with clamping", "SafeStrcpy, SafeStrcpyN, SafeStrcat, SafeSprintf, SafeVsprintf")], [], ["buffer bytes", "return values"])
prop("S02", "Allocating formatters return the complete formatted text",
 "For every format and arguments, the allocating print functions return exactly the text the C library would produce, in full whatever its length (up to the INT_MAX characters a print function can count, including empty results and embedded NUL characters in the string-returning form), NUL-terminated in the raw-buffer form, with nothing leaked. A formatting error yields a null buffer or an empty string, and the variadic and argument-list forms agree. The format macros for sizes and 64-bit integers print every value of their type in full.",
 "inputs fault_sequences", "all output lengths 0..several thousand and the longest, INT_MAX, over a set of formats, all combinations of conversions up to a bound; formatting errors",
 "Tests format one 40-character string.",
 ["amtl/am-string.h"], [("measure then print with a copied argument list", "detail::SprintfArgsImpl, Sprintf, SprintfArgs, StringPrintf, StringPrintfVa")], [], ["returned text"])
prop("S03", "Splitting and joining are exact inverses",
 "Splitting a NUL-free string by a non-empty separator yields the pieces between its leftmost non-overlapping occurrences in order (an empty string yields no pieces; leading, trailing and adjacent separators yield empty pieces), so no piece contains the separator found by that scan and joining the pieces with the same separator restores any string. Joining concatenates the pieces, of any content including embedded NULs, with the separator between consecutive pieces only. Both overloads of split agree.",
 "inputs", "all strings up to a length bound over a small alphabet x all separators up to length 3, all piece lists up to a bound, and texts of more than 4 GiB",
 "A handful of literals with one-character separators; overlapping and multi-character separators are not tested.",
 ["amtl/am-string.h"], [("strstr scan; exact-size join buffer", "Split, Join")], [], ["piece lists", "joined strings"])
prop("S04", "Prefix, suffix and case helpers match their definitions on every string",
 "The prefix and suffix tests are true exactly when the first string begins or ends with the second (the empty string is a prefix and suffix of everything), for every pair of strings and every overload. Upper- and lower-casing map exactly the ASCII letters in the C locale and preserve every other byte and the length; caseless comparison is zero exactly for strings equal up to ASCII case and is otherwise ordered consistently and antisymmetrically.",
 "inputs", "all pairs of strings up to a length bound over a small alphabet, all 255 non-NUL bytes at each position, and texts of more than 4 GiB",
 "Tests check eight literal pairs.",
 ["amtl/am-string.h"], [("strncmp/substr comparisons; per-byte case mapping", "StartsWith, EndsWith, Uppercase, Lowercase, StrCaseCmp")], [], ["results"])
prop("S05", "Path and error-text formatting obey the buffer and normalise separators",
 "Formatting a path gives exactly the bounded-print result with every foreign separator replaced by the native one and nothing else changed, within the given buffer, NUL-terminated, returning its length. Formatting a system error code or the current error writes a NUL-terminated, possibly truncated prefix of the system's message for that code into the given buffer, never beyond it, and nothing when the size is zero.",
 "inputs", "all paths up to a length bound over an alphabet with both separators x all buffer sizes; all error codes -300..1200 x all buffer sizes up to the message length",
 "One path literal in a large buffer; error formatting is not tested.",
 ["amtl/os/am-path.h", "amtl/os/am-system-errors.h"], [("print then in-place replacement over the returned length", "path::Format/FormatVa"), ("strerror_r variants", "FormatSystemErrorCode/FormatSystemError")], [], ["buffer bytes", "return values"])

# ------------------------------------------------------------------ numeric
prop("N01", "Overflow detectors never call an overflowing operation safe",
 "The checked add and multiply functions succeed exactly when the mathematical result fits, and then store it; on failure the output is not modified. The predicate detectors answer safe exactly when the addition or multiplication of the two unsigned values does not overflow their type, for 32-bit, 64-bit and pointer-sized operands.",
 "inputs", "all pairs from exhaustive families of bit patterns (every power of two and its neighbours, every run of ones, small values, near-maximum values), and all pairs of 8-bit and 16-bit values where the template allows it",
 "Two literal calls of one detector are tested; the checked functions and all add detectors are untested.",
 ["amtl/am-arithmetic.h", "amtl/am-bits.h"], [("wrap-around comparisons and divisions", "TryUint64Multiply, TryUint32Add, TryUint64Add, IsUintAddSafe, IsUintMultiplySafe and wrappers")], [], ["results"])
prop("N02", "Bit scans, alignment and pointer tagging match their definitions",
 "For every non-zero value the bit scans return the index of the most or least significant set bit and the binary logarithm its floor, for values of every width up to the machine word; power-of-two tests are exact. Aligning rounds up to the nearest multiple for every count and power-of-two alignment that does not overflow, alignment tests and aligned bases agree with it, and setting, reading and clearing pointer tag bits round-trips without disturbing the address. Casting to an untyped pointer keeps the value, and zeroing an object clears exactly its bytes. The unit constants are the powers of 1024 they name, and the alignment promised of dynamic memory is one it has and that any object may need.",
 "inputs", "all 32-bit values for the 32-bit scans, exhaustive bit-pattern families for 64-bit, all counts up to a bound x all alignments",
 "A dozen literals; nothing above 32 bits for the logarithm, and no alignment helper, is tested.",
 ["amtl/am-bits.h", "amtl/am-utility.h"], [("compiler bit-scan builtins; mask arithmetic", "Log2, FindLeftmostBit32/64, FindRightmostBit, IsPowerOfTwo, Align, IsAligned, AlignedBase, Set/Get/ClearPointerBits")], [], ["results"])
prop("N03", "Flag sets and enum operators obey set algebra on every bit pattern",
 "For every pair of flag sets over any underlying integer type, union/addition, intersection, difference, symmetric difference, their compound assignments, equality and emptiness tests agree with the same set operations on the bits, and mixing flag sets with plain enumerators gives the same results. The generated enum operators (or, and, xor, complement, not, and compound forms) and comparators equal the underlying integer operations and return to the enum type; compound forms return and modify their left operand. All of this holds with and without the documented option KE_ALLOW_STD_CXX.",
 "inputs", "all 256x256 pairs for 8-bit signed and unsigned enums, exhaustive bit-pattern families for 16/32/64-bit enums",
 "One four-flag sequence is tested; generated enum operators are only used to build constants.",
 ["amtl/am-flags.h", "amtl/am-enum.h"], [("bitwise operations on the underlying type", "Flags, KE_DEFINE_ENUM_OPERATORS, KE_DEFINE_ENUM_COMPARATORS")], [], ["results"])
prop("N04", "Float classification and modulo are right for every class of value",
 "For both float and double, the infinity test is true exactly for the two infinities and the not-a-number test exactly for NaNs, for every bit pattern. Modulo gives the C library remainder: sign of the dividend, finite modulo infinity is the dividend unchanged, zero keeps its sign, and infinite dividends or zero divisors give NaN.",
 "inputs", "all 2^32 float patterns (thorough) or all exponents x mantissa shapes x signs (quick), the same family for double, all pairs of a class-complete value set for modulo",
 "No test includes this header.",
 ["amtl/am-float.h"], [("exponent-mask test on the bit image", "IsInfinite, float_bits"), ("isnan/fmod", "IsNaN, FloatModulo")], [], ["results"])
prop("N05", "Time conversions preserve the represented instant",
 "Converting a system time structure to a duration or to a time point of a clock represents exactly seconds plus nanoseconds since the epoch (to the clock's resolution), for negative, zero and large values and at compile time as well as run time; epoch values convert to time points with that many ticks. Formatting a broken-down time gives exactly the C library's text for that format in full, in both overloads.",
 "inputs", "all combinations of boundary seconds x boundary nanoseconds x several clocks; all single strftime conversions and pairs of them x a set of broken-down times",
 "One value is converted; formatting and epoch conversion are untested.",
 ["amtl/am-time.h"], [("chrono arithmetic; put_time", "TimespecToDuration, TimespecToTimePoint, EpochValueToTimePoint, FormatTime")], [], ["results"])

prop("N06", "Compatibility math symbols compute what the C library computes",
 "The compatibility symbols that replace the finite-math entry points of old C libraries (logarithm, power, arc sine, arc cosine and two-argument arc tangent, in double and single precision) return for every argument exactly what the ordinary C library function of the same precision returns, including for infinities, NaNs and arguments outside the function's domain, and a program that brings its own definition of one of them keeps it.",
 "inputs", "every exponent x mantissa shape x sign, and all pairs of a class-complete value set for the two-argument functions",
 "Nothing in the test suite links this file.",
 ["compat/stdcxx.cpp"], [("weak forwarding definitions", "__pow_finite ... __asinf_finite")], [], ["results"])

# ------------------------------------------------------------------ OS
prop("O01", "A shared library stays loaded exactly as long as it is referenced",
 "Opening a library that loads with all its symbols resolved returns an owned handle, one that fails returns null and, if a buffer is given, a NUL-terminated possibly truncated copy of the loader's message inside it. The library is unloaded exactly once, when the last reference goes, and never before; a failed open unloads nothing and leaks nothing. Symbol lookup returns what the loader returns for that symbol of that library, null if absent; opening a library does not make its symbols visible to the rest of the program or to other libraries.",
 "histories fault_sequences inputs", "all histories of open/copy/drop/lookup over two libraries with every loader outcome, all error-buffer sizes",
 "One successful open of libc; failures, error text and unloading are never checked.",
 ["amtl/os/am-shared-library.h", "amtl/am-refcounting.h"], [("refcounted handle closing in its destructor", "SharedLib::Open/~SharedLib/lookup")], [("lib_", "loader handle", "am-shared-library.h")], ["loader calls", "error buffer"])
prop("O02", "File-system queries report what is really there",
 "Existence, is-file and is-directory queries answer according to what the path resolves to at that moment (following symbolic links; dangling links and unreadable or missing components count as absent; special files are neither files nor directories). Creating a directory succeeds exactly when the system creates it, applies the requested permission bits subject to the process mask, creates only that directory, and leaves existing entries alone.",
 "histories inputs", "all kinds of directory entry x all path spellings, and all create/remove histories up to the depth bound, in a scratch directory",
 "No test includes this header.",
 ["amtl/os/am-fsutil-posix.h", "amtl/os/am-fsutil.h"], [("stat mode tests; mkdir", "PathExists, IsFile, IsDirectory, CreateDirectory")], [], ["results", "directory contents"])

prop("G01", "Release assertions and linkage macros keep their word in every build",
 "A release assertion evaluates its condition exactly once and aborts the process exactly when it is false, in debug and release builds alike, for conditions of every type and wherever a statement can stand. The likelihood hint has the truth of its operand and evaluates it once; the unused sink evaluates its operand once, without copying or changing it. Functions, objects and classes marked exported are visible to other modules and those marked private are not, whatever the default visibility; a link-once definition may be repeated in several sources, which then share one object with its initial value, and gives way to an ordinary definition.",
 "inputs configurations", "all conditions of nine types x places a statement can stand in x debug and release; two-unit programs with hidden and default visibility",
 "No test uses these macros; an assertion that fails ends the test program, and release builds are not tested.",
 ["amtl/am-assert.h", "amtl/am-cxx.h", "amtl/am-linking.h", "amtl/am-unused.h", "amtl/am-utility.h"], [("macros", "KE_RELEASE_ASSERT, KE_CRITICAL_LIKELY, KE_LINKONCE, KE_DLL_EXPORT/PRIVATE/IMPORT; ke::Unused")], [], ["termination of the process", "evaluations", "symbols of the program"])

prop("G02", "Every header works alone, after any other, and in several sources of one program",
 "Each public header can be the only one a source includes and everything it offers can be used there; any two headers (and all of them) can be included together, in either order; and each can be included by several sources of one program, which then links and behaves as if there were one. This holds in debug and release builds, with the language standards the project supports, without run-time type information and exceptions, and with the documented option KE_ALLOW_STD_CXX.",
 "configurations", "all headers, all ordered pairs, all of them in every third rotation and both directions; two-source programs; debug, release, C++14, 17, 20; two compilers; no RTTI or exceptions, KE_ALLOW_STD_CXX",
 "The tests include several headers together, mostly in one order, and almost every header in one source only.",
 ["amtl"], [("includes, linkage of functions and templates", "the text of each header outside Windows branches")], [], ["compilation", "linking", "result of the program"])

prop("G03", "The platform headers recognise the system, machine and compiler they meet",
 "On every supported combination of system, machine and compiler, as they announce themselves by predefined macros, the platform headers define exactly the macro of that system (with its BSD, Mach and POSIX families), of that machine, and of the actual compiler rather than one it imitates, and mark exported, private and link-once symbols in the way that compiler understands. The version macros compare by major, then minor number; Apple's early version numbers are translated as documented, and compared as that; compilers older than the supported ones are refused, newer ones never.",
 "configurations", "all combinations of eleven systems, fourteen machines and four compilers that occur; all pairs of seventeen versions; the translated and the refused versions",
 "The tests are compiled on one system with one compiler.",
 ["amtl/am-platform.h", "amtl/am-cxx.h", "amtl/am-linking.h"], [("conditional macros", "KE_LINUX ... KE_WINDOWS, KE_POSIX, KE_BSD, KE_ARCH_*, KE_CXX_*, KE_CLANG_AT_LEAST, KE_GCC_AT_LEAST, KE_CLANG_MAJOR/MINOR")], [], ["macros defined", "refusals"])

prop("W01", "On Windows the same contracts hold over the Win32 API and Microsoft's runtime",
 "Compiled for Windows, the headers keep their guarantees over the Win32 API and Microsoft's compiler and runtime as documented: every library loaded is freed exactly once, when its last reference goes; failed opens and error queries put the system's text, or the code in hexadecimal when there is none or it does not fit, NUL-terminated within the given buffer; file queries and directory creation follow the attributes and result the system reports; paths are normalised to backslashes; thread-local variables isolate threads and give their slots back; naming a thread passes the name as UTF-16, leaves no library referenced and lets nothing escape; bounded printing, bit scans (also where a long has 32 bits and a size 64) and floating-point helpers answer as on other systems; with Microsoft's debug heap, containers take all their memory from it and give all of it back, and a refused request ends the program. Each header can be the first one included.",
 "histories inputs fault_sequences", "the library, thread-local and naming histories to the depth bound with every outcome of the API; all attribute combinations; the input spaces of S01, S02, S04, N02 and N04 again",
 "The tests cannot be built for Windows here, and on Windows they would not reach failing API calls.",
 ["amtl/os/am-shared-library.h", "amtl/os/am-system-errors.h", "amtl/os/am-fsutil-windows.h", "amtl/os/am-path.h", "amtl/am-thread.h", "amtl/am-threadlocal.h", "amtl/am-string.h", "amtl/am-bits.h", "amtl/am-float.h", "amtl/am-allocator-policies.h"], [("code under KE_WINDOWS, _WIN32 and _MSC_VER", "the Windows branches of each header")], [], ["API calls", "buffers", "results"])

# ------------------------------------------------------------------ argument parser
prop("U01", "On macOS, BSD and musl, thread names and error texts keep their contract",
 "Where a system offers only the calls of its own flavour, the contracts stay: on macOS a thread is given a name by itself alone, so naming the calling thread or starting a named thread names exactly that thread before its function begins, and asking to name another thread names nobody; on systems with the two-argument call it is exactly the given thread. With the POSIX strerror_r (macOS, BSD, musl) the error text is the system's own, cut to the buffer, terminated, for known and unknown codes, and an errno-based query describes errno as it was at the call. A refused name disturbs nothing. The library's headers compile under the predefined macros of those systems, and paths, file queries, libraries and thread-local values work there as elsewhere.",
 "inputs configurations faults", "three target systems x names of 14 lengths x every way of naming x accepted or refused, and 20 error codes x both entry points x every buffer size",
 "The tests run on one Linux with glibc and never compile these branches.",
 ["amtl/am-thread.h", "amtl/os/am-system-errors.h", "amtl/am-platform.h"],
 [("per-system branches", "SetThreadName, NewThread, FormatSystemErrorCode")], [], ["calls made to the system", "error text"])
prop("U02", "On 32-bit machines the same contracts hold",
 "Compiled for a machine whose pointers, sizes and longs have 32 bits, the headers keep their guarantees there: bit scans and overflow detectors are right for 64-bit values and for 32-bit sizes; flag sets and enumerations over 64-bit types obey set algebra; fixed arrays and hash tables report every size that cannot be represented and never ask for less memory than they use; maps agree with an abstract dictionary and hash helpers with their definitions; callables of up to three machine words are stored without allocation and every callable and optional value lies at an address suitable for its type; handles and cells own exactly; lists, queues, scope helpers and bounded copies behave as elsewhere; and times keep their instant.",
 "inputs histories", "pattern families of 32- and 64-bit values and all their pairs; sizes around every power of two up to 2^32 for nine element and five slot sizes; all map, wrapper, optional and handle histories of three to four operations",
 "The tests are only built for the machine they run on, which has 64 bits.",
 ["amtl/am-bits.h", "amtl/am-arithmetic.h", "amtl/am-fixedarray.h", "amtl/am-hashtable.h", "amtl/am-function.h", "amtl/am-maybe.h", "amtl/am-refcounting.h", "amtl/am-time.h"], [("sizes of long, size_t and pointers", "builtins for long, sizeof computations, alignment of inline storage")], [], ["results", "requests to the allocator", "addresses"])

prop("A01", "The argument parser assigns every argument exactly as its grammar says",
 "For every argument vector and parser configuration (inline values, slashes, extra arguments, pass-through, optional help), parsing accepts exactly the vectors the option declarations allow and then gives every option, positional, extra and pass-through list exactly the values the grammar assigns: separate, '=' or inline values, optional boolean values, negated forms, repeated options in order, stop options ending the parse, and '--' passing everything after it through. Anything else (unknown or repeated options, missing, unwanted or out-of-range values, missing or surplus positionals) is rejected and never crashes. The same holds for value types and option classes of the user's own, whose policies say what is a value, whether it may be omitted, repeated, or ends the parse. All entry points (argc/argv, vectors, variadic) give the same result.",
 "inputs configurations", "all argument vectors up to a length bound over an alphabet of tokens chosen per option kind x all parser configurations",
 "Thirteen hand-written vectors; error paths, combinations of configuration flags and most token shapes are not reached.",
 ["amtl/experimental/am-argparser.h", "amtl/experimental/am-argparser.cpp"], [("single left-to-right scan with per-option consume rules", "Parser::parse_impl, IOption subclasses, ValuePolicy")], [("options_/positionals_/extra_args_/passthrough_args_", "declarations and results", "am-argparser.h")], ["parse() result", "option values"])
prop("A02", "A reset parser behaves exactly like a fresh one",
 "After a reset, whatever was parsed before, successfully or not, every option is back to its default, collected lists and error state are empty, and any further parse gives the same result, values and usage output as the same parse on a newly built parser with the same declarations. A parser never modifies its arguments, and options registered globally are available to every parser created afterwards.",
 "histories", "all pairs of argument vectors over the token alphabet (first parse, reset, second parse) compared with a fresh parser",
 "Tests reset between successful single-option parses but never after errors, extras or pass-through arguments.",
 ["amtl/experimental/am-argparser.h"], [("reset of every option and of parser state", "Parser::reset, IOption::reset")], [], ["values after reset"])
prop("A03", "Usage text shows every option and every word of help within the page",
 "The usage output lists every positional, option form (with a value placeholder exactly when a value is required) and extra usage entry once: positionals under their heading, then options under theirs, then extra entries, each in declaration order and each with all words of its help text in order. Lines of entries stay within 80 columns unless a single option form, or a single help word wider than the help column, does not fit. After a rejected parse the output is the usage line and an error naming the argument or option at fault, or the full help if help was requested on the command line of a parser that offers it.",
 "inputs configurations", "all combinations of option kinds, name lengths around the column limits and help texts of every length up to several lines",
 "No test calls the usage function.",
 ["amtl/experimental/am-argparser.h"], [("two-column layout with word wrapping", "Parser::usage/usage_line/add_usage_line")], [], ["usage text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
