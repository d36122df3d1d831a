"""The single source of properties.jsonl and MANIFEST.json (python3 spec/gen.py)."""
CH = "seq/internal/concurrent_hash_table.hpp"
PROPS = []
NA = []

def P(id, title, statement, over, quant, why, files, mech, level="other", technique="", note="", observe=(), check=True, assumptions=(), explanation=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      level=level, technique=technique, note=note, observe=list(observe), check=check,
                      assumptions=list(assumptions), explanation=explanation))

def not_applicable(id, title, statement, over, quant, why, files, mech, reason, observe=()):
    P(id, title, statement, over, quant, why, files, mech, check=False, observe=observe)
    NA.append((id, reason))

TS = ["user types (elements, hash, equality, allocator, visitors) are opaque: any of their operations may do anything to its own arguments and may throw unless declared noexcept",
      "the container object itself outlives the operation; the destructor is not concurrent with anything"]
LOCK_EXPL = ("every public operation of concurrent_set/concurrent_map (wrappers of harness/conc.cpp instantiated with opaque user types) is lowered to LLVM IR, "
             "inlined whole and explored path by path (typestate over lock objects, affine counters for runs of bucket locks, correlated branch conditions); "
             "no code is run")

P("C01", "Concurrent containers release exactly the locks they take, on every exit",
  "Every operation of concurrent_map and concurrent_set releases each internal lock it acquired exactly once, in the mode it was acquired, on every way out of the operation, "
  "including when a user supplied hash, equality, visitor, constructor or allocator throws. No operation releases a lock it does not hold. "
  "An operation that has returned or thrown therefore never leaves part of the container locked or unprotected.",
  ["schedules", "fault_sequences"], "all public operations, all concurrency levels, all interleavings, an exception out of any user supplied callable or allocation",
  "tests never throw from user code inside the containers and never check lock balance; a leaked or wrongly released lock only shows as a hang or a race in particular schedules",
  [CH, "seq/lock.hpp", "seq/concurrent_map.hpp"],
  [("per bucket locks and table lock", CH + " ChainingHashTable::get_node/get_node_shared/rehash_internal/visit_all/erase_if/clear_no_lock"), ("lock guards", CH + " LockUnique/LockShared")],
  technique="path-sensitive typestate over lock objects on whole-inlined LLVM IR, with affine lock counters",
  note="all paths of every wrapped operation for each analysed concurrency level; loops summarised by affine counters",
  observe=["any operation after another one returned or threw"], assumptions=TS, explanation=LOCK_EXPL)

P("C02", "Concurrent containers touch elements only under a lock that protects them",
  "Every access of a concurrent container operation to a stored element or to its bucket, including calls of user visitors, equality, constructors and destructors on stored elements, happens while the operation "
  "holds a lock that excludes conflicting accesses by other threads: at least a shared lock for reading, an exclusive one for anything that may modify. "
  "While no per-bucket locks exist yet, the table-wide lock plays that role.",
  ["schedules"], "all public operations, all interleavings of any number of threads",
  "stress tests only meet the schedules the machine happens to produce; most unprotected accesses are benign in almost every run",
  [CH, "seq/concurrent_map.hpp"],
  [("bucket lock before element access", CH + " visit_hash/insert_policy/erase_key/visit_all/erase_if"), ("exclusive table lock", CH + " rehash_internal/clear")],
  technique="path-sensitive guarded-access analysis (lockset with modes) on whole-inlined LLVM IR",
  note="every element access site on every path of every wrapped operation", observe=["visitors", "elements"], assumptions=TS, explanation=LOCK_EXPL)

P("C03", "Bucket choice is re-validated under the lock, table replaced under all locks",
  "An operation that computed which bucket to lock from state read before locking re-checks that state after locking and moves on to the right bucket if it changed, and it reads the table it works on only once protected. "
  "The table (its buckets and their number) is only ever replaced while the exclusive table lock and the locks of all existing buckets are held.",
  ["schedules"], "all interleavings of insertions, lookups, erasures, visits, clear and rehash",
  "the windows between choosing a bucket, locking it and replacing the table are a few instructions wide: tests hit them rarely and then see no wrong result in most cases",
  [CH], [("re-validation loop", CH + " get_node/get_node_shared/update_lock"), ("all buckets locked before publication", CH + " rehash_internal, clear_no_lock")],
  technique="path-sensitive provenance and freshness analysis of table pointers and bucket indices on whole-inlined LLVM IR",
  note="every bucket lock, element access and publication on every path", observe=["lost or duplicated elements, use of freed buckets"], assumptions=TS, explanation=LOCK_EXPL)

P("C05", "Concurrent containers acquire locks in a fixed order and never self-deadlock",
  "Within one operation, locks are taken in a fixed hierarchy (container data, then table, then bucket); no operation acquires a lock it already holds, takes a table lock while holding one of its bucket locks, or "
  "holds several bucket locks without exclusive ownership of the table. Operations on two containers do not deadlock with each other, nor when both operands are the same container.",
  ["schedules"], "all interleavings and all aliasing of operands",
  "deadlocks need a particular interleaving or unusual operands (a container merged with itself); tests contain neither",
  [CH, "seq/concurrent_map.hpp"], [("lock hierarchy", CH + " merge/operator==/rehash_internal/get_node")],
  technique="lock-order analysis along all paths of whole-inlined LLVM IR",
  note="all pairs of nested acquisitions on all paths", observe=["hang"], assumptions=TS, explanation=LOCK_EXPL)

P("C06", "Lock-free reads in concurrent containers are ordered: no data race on internals",
  "State of a concurrent container that is read without holding a protecting lock is only accessed atomically; an object reached through a pointer obtained that way is read through an acquire operation and published through a release operation; "
  "a new table is fully in place before its size becomes visible to other threads. Concurrent use of the thread-safe operations therefore never is a data race on the container's own state.",
  ["schedules"], "all interleavings, on any hardware memory model allowed by C++17",
  "x86 hides missing acquire/release ordering and torn reads; the test suite does not run under a race detector",
  [CH], [("atomic header fields", CH + " AtomicLoad, d_locks, d_hash_mask, d_data"), ("lock array slots", CH + " SharedLockArray")],
  technique="memory-order and provenance analysis along all paths of whole-inlined LLVM IR",
  note="every unlocked access to container state on every path", observe=["race detector reports, weakly ordered hardware"], assumptions=TS, explanation=LOCK_EXPL)

ALLH = ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp", "seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp",
        "seq/concurrent_map.hpp", "seq/internal/radix_tree.hpp", CH]
CALL_EXPL = ("every public operation of every container (wrappers of harness/*.cpp instantiated with opaque user types) is lowered to LLVM IR without inlining; "
             "an interprocedural effect analysis propagates over the complete call graph; no code is run")

P("E01", "Exceptions of user code and of allocation always reach the caller",
  "An exception thrown by anything the user supplies (element constructors and assignments, comparison, hash, visitors, iterators) or by memory allocation, while a container operation runs, propagates to the caller of that operation: "
  "it is never swallowed by a handler that completes normally, and it never ends the program by reaching a noexcept boundary inside the library.",
  ["fault_sequences"], "every public operation of every container, an exception at any call of user code or allocation",
  "the tests hardly throw from user types, and never from each of the many call sites of every operation",
  ALLH, [("noexcept declarations on operations that call user code", "seq/*.hpp"), ("catch (...) handlers that roll back", "seq/tiered_vector.hpp make_manager, seq/sequence.hpp insert, seq/internal/radix_tree.hpp")],
  technique="interprocedural exception-effect analysis on the call graph of the LLVM IR", note="all call sites reachable from every public operation",
  observe=["std::terminate, silently incomplete results"], assumptions=TS[:1], explanation=CALL_EXPL)

P("A01", "Containers take all lasting memory from their allocator",
  "Every block of memory that a container keeps beyond the operation that obtained it comes from the allocator the user gave the container (possibly rebound), and goes back to it; "
  "the global heap serves at most scratch buffers that live and die within one operation.",
  ["inputs", "configurations"], "every public operation of every allocator-aware container, any allocator type",
  "tests use std::allocator nearly everywhere, for which a by-passed allocator makes no difference", ALLH,
  [("rebound allocators of nodes, chunks, buckets and lock arrays", "seq/sequence.hpp, seq/internal/*.hpp")],
  technique="interprocedural reachability of global allocation functions with ownership of the allocating object, on the LLVM IR call graph",
  note="all call sites reachable from every public operation", observe=["custom allocators, memory accounting"], assumptions=TS[:1], explanation=CALL_EXPL)

FLOW_EXPL = ("every public operation of every container (wrappers of harness/seqs.cpp and harness/assoc.cpp instantiated with opaque user types) is lowered to LLVM IR and inlined whole; "
             "the origins of every pointer and value (operand and field it was read from, fresh memory, constant) are computed by a flow-insensitive points-to analysis; no code is run")
CELL_EXPL = FLOW_EXPL.replace("flow-insensitive points-to analysis", "flow-sensitive field by field analysis of the state at return")
NCON = [f for f in ALLH if "concurrent" not in f]

P("M02", "Const operations do not write: concurrent readers of any container are safe",
  "An operation on a const container other than the concurrent ones (lookup, iteration, comparison, copying its positions, reading its properties) never modifies the container, its elements or any shared static state except through atomic objects. "
  "Any number of threads may therefore read one such container at the same time.",
  ["schedules"], "every const operation of devector, tiered_vector, sequence, flat_*, ordered_*, radix_* containers, any number of reading threads",
  "single threaded tests cannot see a cache filled by a const function; the value written is usually the right one", NCON,
  [("const member functions and iterators", "seq/*.hpp"), ("cached position of the first element", "seq/internal/radix_tree.hpp first()")],
  technique="points-to and write-effect analysis of inlined LLVM IR", note="every write in every const operation, recursion included",
  observe=["data races between readers"], assumptions=TS[:1], explanation=FLOW_EXPL)

P("M05", "Containers use, keep and pass on the functors they were given",
  "A flat, ordered or radix_hash container compares and hashes only with the comparison, hash and equality objects it was constructed with. Constructors store the objects they are given, copy and move construction and assignment take those of the source, "
  "swap exchanges them together with the elements they order, and no other operation changes them.",
  ["inputs", "configurations"], "every operation of flat_*, ordered_* and radix_hash_* containers, any stateful functor",
  "tests use stateless functors, for which a default constructed or stale functor makes no difference", ["seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp"],
  [("base class functors", "seq/flat_map.hpp LessAdapter, seq/ordered_map.hpp hash_equal, seq/internal/radix_tree.hpp RadixHasherUnordered")],
  technique="flow-sensitive field provenance analysis of inlined LLVM IR", note="every call of a functor and the functor fields after every operation",
  observe=["stateful comparators, seeded hashes"], assumptions=TS[:1], explanation=CELL_EXPL)

P("M07", "Swap exchanges and move transfers the whole container",
  "For every container other than the concurrent ones: after swap, each operand holds exactly what the other one held, field by field; after move construction and move assignment the destination holds everything the source held, and the source of a move construction owns nothing of it any more. "
  "Nothing is leaked, shared or left behind.",
  ["inputs"], "swap, move construction and move assignment of every non concurrent container, in any state",
  "a field forgotten in a swap only shows with particular states of both operands", NCON,
  [("swap and move members", "seq/*.hpp")],
  technique="flow-sensitive field provenance analysis of inlined LLVM IR", note="every field that any operation reads",
  observe=["moved-from containers"], assumptions=TS[:1], explanation=CELL_EXPL)

P("A02", "Every allocation and deallocation uses the right allocator object",
  "Memory of a container (other than the concurrent ones) is obtained through and returned to an allocator object of that container: constructors use the allocator they are given (copies of it included), a copy uses the one selected by select_on_container_copy_construction, a move the one of the source; "
  "never a default constructed or foreign allocator object.",
  ["inputs", "configurations"], "every operation of every non concurrent container, any stateful allocator",
  "tests use stateless allocators, or one allocator everywhere", NCON,
  [("rebound allocator copies in nodes, chunks and buckets", "seq/tiered_vector.hpp CircularBuffer/BucketManager, seq/sequence.hpp, seq/utils.hpp pools, seq/internal/radix_tree.hpp RootTree")],
  technique="points-to analysis of allocator objects over inlined LLVM IR", note="every allocate and deallocate call site (radix_set/radix_map: merge and erase excepted)",
  observe=["stateful allocators"], assumptions=TS[:1], explanation=FLOW_EXPL)

P("A04", "The allocator of a container follows the propagation traits",
  "For every container other than the concurrent ones: after copy assignment, move assignment and swap the allocator of the destination is the one propagate_on_container_copy_assignment, _move_assignment and _swap ask for; copy construction takes select_on_container_copy_construction, move construction the allocator of the source, "
  "allocator-extended construction the given one. A copy assignment with a propagating allocator allocates with the new one, and a container never takes over memory of an allocator it may not be equal to.",
  ["inputs", "configurations"], "construction, assignment and swap of every non concurrent container, allocators with and without propagation",
  "tests do not assert on the identity of allocators", NCON,
  [("assign_allocator, swap_allocator, copy_allocator", "seq/utils.hpp"), ("assignment operators", "seq/*.hpp")],
  technique="flow-sensitive field provenance analysis of inlined LLVM IR", note="allocator field after every whole-container operation, propagating and non propagating",
  observe=["stateful allocators, memory resources"], assumptions=TS[:1], explanation=CELL_EXPL)

P("L01", "No operation leaks memory, whichever way it ends",
  "Memory obtained during a container operation, and memory the container held before, is, on every way out of it, held by the container (or by another object that outlives the operation) or released. "
  "This includes the ways out by an exception of user code or of a later allocation, and constructors: an object whose construction fails is never destroyed, so the constructor itself has to release what it obtained. A node taken out of a container's list is released or linked again. (Merge and copy assignment of the concurrent containers are not claimed.)",
  ["fault_sequences", "inputs"], "every operation of every container (merge and copy assignment of the concurrent ones excepted), an exception at any call of user code or any allocation",
  "the tests check leaks of a few operations that succeed; exceptions in the middle of an operation are hardly ever provoked", NCON,
  [("roll back on exceptions", "seq/sequence.hpp, seq/tiered_vector.hpp, seq/ordered_map.hpp, seq/internal/radix_tree.hpp"), ("constructors", "seq/*.hpp")],
  technique="ownership dataflow analysis to every normal and exceptional exit of inlined LLVM IR",
  note="every allocation site against every exit (radix erase and merge, and directories merged again within merge_dir, excepted)",
  observe=["memory accounting of allocators"], assumptions=TS[:1],
  explanation=FLOW_EXPL.replace("flow-insensitive points-to analysis", "points-to analysis, and the set of blocks that nothing designates (yet, or any more) is propagated to every exit"))

WIT_EXPL = ("type-level witnesses: translation units that use every public member of every container with element types, functors, allocators and iterators that offer exactly what the "
            "operation may ask for (and nothing more), and static assertions on the types, are type-checked by both compilers against the current headers; a program that breaks the property fails to build; no code is run")

P("T01", "Every member compiles for every type that meets its requirements",
  "Every public member of every container can be used with every element type that is default constructible and movable (and copyable, for members which copy), whatever its alignment, overloaded operators, throwing or deleted other operations; "
  "with stateful functors and allocators that have no default constructor; with input iterators, initializer lists and elements of integral type. Members which only move never ask for a copy. Every header can be included on its own.",
  ["inputs", "configurations"], "all element types, functors, allocators and iterator categories that meet the requirements",
  "a member of a template is only compiled when a test uses it with that very type; members nobody instantiates may not compile at all",
  NCON + ["seq/concurrent_map.hpp", "seq/any.hpp", "seq/tiny_string.hpp"],
  [("overload sets", "seq/*.hpp insert, assign, emplace, erase, merge"), ("move-only elements", "seq/internal/radix_tree.hpp rebalance, seq/tiered_vector.hpp, seq/sequence.hpp"), ("requirements on functors", "seq/flat_map.hpp LessAdapter, seq/utils.hpp")],
  technique="type-level witnesses: archetype types and explicit instantiation, decided by the type checkers of gcc and clang",
  note="every public member times archetypes of elements (move-only, copy-only, hostile operators, over-aligned, integral, bool), both compilers",
  observe=["programs that use a member with such a type do not build"], assumptions=["the archetypes stand for all types with the same operations"], explanation=WIT_EXPL)

P("T02", "Types keep their promises: no-throw moves, const views, iterator categories",
  "Containers are no-throw movable, move assignable, swappable and destructible (with the standard allocator), whatever their elements. A const container, a const_iterator, a set and a const visit of a concurrent container only ever give const elements, "
  "and members which modify are not available on them. Iterators are of the documented category and convert to const iterators, heterogeneous lookup is offered with transparent functors only, locks are neither copied nor moved.",
  ["inputs", "configurations"], "all containers, element types with and without throwing moves",
  "tests use the members that exist; none asserts what must not compile or what may not throw", NCON + ["seq/concurrent_map.hpp", "seq/lock.hpp"],
  [("noexcept specifications", "seq/*.hpp"), ("iterators", "seq/*.hpp"), ("const visits", "seq/concurrent_map.hpp, " + CH + " visit_hash, visit_all"), ("transparent overloads", "seq/*.hpp")],
  technique="type-level witnesses: static assertions and must-not-compile detection, decided by the type checkers of gcc and clang",
  note="every container, both compilers; visitors which only accept const elements on all const visits",
  observe=["strong guarantees of containers of containers", "data races through const visits"], assumptions=[], explanation=WIT_EXPL)

P("R01", "Elements are only relocated bitwise when their type permits it",
  "Containers other than the concurrent ones move the bytes of elements (memcpy, memmove) only when the element type is relocatable: is_relocatable is never true of a type whose copy, move or destruction does something, or which may designate itself (strings of the standard library, node based "
  "containers, functions, and pairs, tuples, smart pointers and containers made of such types, deleters and allocators). Elements of any other type are moved and destroyed one by one, through their own operations.",
  ["inputs", "configurations"], "all element types, every operation of every non concurrent container",
  "a bitwise copy of a type that does not permit it mostly works, until an object holds a pointer into itself or is registered somewhere", NCON + ["seq/type_traits.hpp"],
  [("is_relocatable", "seq/type_traits.hpp and specialisations in seq/*.hpp"), ("memmove and memcpy of elements", "seq/devector.hpp, seq/tiered_vector.hpp CircularBuffer, seq/sequence.hpp, seq/internal/radix_tree.hpp copy_destroy, insert_move_right, erase_pos")],
  technique="type-level witnesses on the relocation traits, and a query for bulk copies of element storage in the LLVM IR of containers of non relocatable elements",
  note="all bulk copies reachable from any operation of containers of opaque elements", observe=["corrupted elements"], assumptions=TS[:1],
  explanation=WIT_EXPL + "; the LLVM IR of every operation with a non relocatable element type is searched for bulk copies, and each is shown not to reach element storage")

P("M03", "References and iterators stay valid where that is documented",
  "sequence and ordered_set/map (multi variants included) never move an element once it is in the container: no insertion, removal, resize, lookup or merge constructs, assigns or relocates an existing element, "
  "except shrink_to_fit, sort, assign and insert_or_assign. Swap and move construction of any container (other than the concurrent ones) take the storage over and perform no operation on elements, so references follow the elements into the other container.",
  ["inputs", "histories"], "every operation of sequence and ordered_*, swap and move construction of all containers, all states",
  "tests compare contents after an operation, not addresses; an element moved to another slot looks the same", NCON,
  [("chunks and free slots", "seq/sequence.hpp"), ("positions kept in the hash table", "seq/ordered_map.hpp SparseFlatNodeHashTable"), ("swap members", "seq/*.hpp")],
  technique="points-to and effect analysis of element operations over inlined LLVM IR", note="every construction and assignment of an element, for elements that are not relocatable",
  observe=["dangling pointers to elements"], assumptions=TS[:1], explanation=FLOW_EXPL)

P("C04", "The lock classes exclude each other and order memory",
  "spinlock and shared_spinner (every width): lock() and a successful try_lock*() give exclusive ownership, lock_shared() and a successful try_lock_shared() shared ownership that excludes exclusive owners; an attempt that fails leaves "
  "the lock as it found it; unlocking gives up exactly what was held. Taking a lock acquires, giving it up releases. Counts of shared owners never overflow into other states, and waiting threads never leave a free lock in a state from which it cannot be taken.",
  ["schedules"], "all schedules of any number of threads, all lock word widths, every primitive",
  "a lock that fails under one interleaving in a million passes tests; memory orders do not matter on the machine that runs them", ["seq/lock.hpp"],
  [("lock word transitions", "seq/lock.hpp spinlock, shared_spinner"), ("failed attempts and hints of waiting writers", "seq/lock.hpp shared_spinner::failed_lock, try_lock_shared")],
  technique="bit-level abstract interpretation of every path of every lock primitive in LLVM IR against an inductive invariant of the lock word",
  note="every atomic operation on every path, loops up to four turns; u8, u16, u32 and u64 lock words",
  observe=["two owners of one lock", "locks that are never taken again"], assumptions=["fewer than 2^13 threads hold or try a lock of 16 bits in shared mode at once, 2^29 one of 32 bits"],
  explanation="the lock primitives are compiled to LLVM IR from the current sources; every atomic operation on the lock word is classified on every path by its effect (bits set, cleared, added) and by the bits of the previous value "
  "which the path has tested, and each class is checked against one invariant of the word; nothing is run")

SEQH = ["seq/devector.hpp", "seq/tiered_vector.hpp", "seq/sequence.hpp"]
not_applicable("M01", "Sequences hold the elements of the reference model in its order",
  "After any history of operations devector, tiered_vector and sequence hold exactly the elements which std::deque (std::list for the stable insertions of sequence) would hold, in that order, and positions, iterators and size agree.",
  ["inputs", "histories"], "every operation, every state, every element type", "histories that wrap circular buffers, split and merge buckets are far more than tests visit", SEQH,
  [("circular buffers, buckets and chunks", "seq/tiered_vector.hpp CircularBuffer, BucketManager; seq/sequence.hpp")],
  "the order of elements depends on index arithmetic modulo run-time capacities over unbounded buffers: no static domain in reach relates positions of elements before and after; types, effects and ownership of the same code are decided by M03, M07, L01 and R01")
not_applicable("M08", "Associative lookups find exactly what was inserted",
  "find, lower_bound, count, contains and equal_range of flat, ordered, radix, radix_hash and concurrent containers answer as std::map / std::unordered_map (multi variants included) would after the same history; sorted containers iterate in order.",
  ["inputs", "histories"], "all keys, all histories, all hash functions including colliding ones", "collisions, probe distances, splits of radix nodes occur for particular sets of keys only",
  ["seq/flat_map.hpp", "seq/ordered_map.hpp", "seq/radix_map.hpp", "seq/radix_hash_map.hpp", "seq/internal/radix_tree.hpp", "seq/internal/concurrent_hash_table.hpp"],
  [("robin hood table, radix tree, binary search in buckets", "seq/ordered_map.hpp, seq/internal/radix_tree.hpp, seq/internal/binary_search.hpp")],
  "invariants over run-time hash values, bit patterns of keys and array contents (probe distances, prefixes, sortedness) cannot be bounded by a sound static argument in reach; that the user's functors are the ones used is decided by M05")
not_applicable("M09", "Sorting and merging algorithms order any range, stably where promised",
  "net_sort, net_sort_size, inplace_merge and the sort members leave a permutation of the range which is ordered by the comparator, stable, with any buffer size including none.",
  ["inputs"], "all ranges, comparators and buffer sizes", "orderings are sampled", ["seq/algorithm.hpp"], [("run detection, merging with and without buffer", "seq/algorithm.hpp algo_detail")],
  "permutation and order of a range of run-time length need inductive invariants on array contents, which is deductive verification, not a dataflow fact")
not_applicable("N01", "Numbers are formatted and parsed exactly",
  "to_chars, from_chars and format write and read the number std::to_chars / std::from_chars / printf would for every value, base, precision and buffer, and report errors as they do.",
  ["inputs"], "all values, formats and buffers", "2^64 values", ["seq/charconv.hpp", "seq/format.hpp"], [("digit generation and decimal scaling", "seq/charconv.hpp detail")],
  "exactness is arithmetic on run-time values (128 bit products, rounding), beyond interval or type based analyses")
not_applicable("C07", "Operations of concurrent containers are linearizable",
  "The results of concurrent operations on concurrent_map and concurrent_set, visits included, are those of some sequential order of the operations that respects real time.",
  ["schedules", "histories"], "all interleavings of any number of operations", "tests sample schedules", ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"],
  [("bucket locks, rehash and resize", "seq/internal/concurrent_hash_table.hpp ChainingHashTable")],
  "relates results of operations to histories; the protocol it rests on (protection, re-validation, order, publication, lock classes) is decided statically by C01 to C06, the step from the protocol to results is not")
not_applicable("C08", "Progress: every operation completes when the others do",
  "No operation of a concurrent container or lock waits forever or retries without bound once the other threads have left.",
  ["schedules"], "all schedules", "a schedule that starves is not met", ["seq/lock.hpp", "seq/internal/concurrent_hash_table.hpp"], [("spin loops and retries", "seq/lock.hpp, concurrent_hash_table.hpp get_node")],
  "liveness of retry loops depends on fairness and run-time state; what can be decided (order of locks, no lock held twice or left behind, a lock word from which it can be taken again) is C01, C04 and C05")
not_applicable("X01", "hold_any: casts, comparisons and streams agree with the registered types",
  "any_cast, comparison, hashing, formatting and conversions of hold_any behave as the contained type does, whatever was registered before, and throw bad_any_cast otherwise.",
  ["histories"], "all types and orders of registration", "registration is global state", ["seq/any.hpp"], [("type ids and tables of converters", "seq/any.hpp")],
  "dispatch goes through run-time tables of type-erased functions filled in any order: no call graph of useful precision")
