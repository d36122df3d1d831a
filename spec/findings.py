"""Genuine defects of the original tree: repaired (status fixed) or recorded (status known). Writes known-findings.json."""
import json, os
F = []
def fixed(prop, commit, what):
    F.append({"status": "fixed", "property": prop, "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})
def known(prop, match, what, how=""):
    F.append({"status": "known", "property": prop, "match": match, "what": what, "demonstration": how})

fixed("C01", "b9cdc13", "find operations took the shared bucket lock in exclusive mode and released it as shared: the lock word underflowed")
fixed("C05", "e42f4a2", "s.merge(s) and s == s locked the same data lock twice and never returned")
fixed("C07", "29525aa", "visit_all() const ignored the boolean result of the functor in the inner tables")
fixed("C02", "3f82fbc", "non const visit_all called modifying functors under a shared table lock")
fixed("C03", "f4516b7", "erasing from a full bucket left a dangling 'right' pointer to a freed chain node")
fixed("C01", "4e9200b", "concurrent rehash released bucket locks it did not hold when an allocation failed")
fixed("C03", "7343e0a", "an insertion racing with clear() used a detached table or never returned")
fixed("C06", "a74acae", "pointers published between threads were read with relaxed loads")
fixed("C06", "a39f692", "hash mask and rehash target were read without lock and not atomically")
fixed("C05", "81bc363", "a = b and b = a in two threads deadlocked; copy assignment lost functors and mixed allocators")
fixed("C06", "9c876c0", "load_factor() read the bucket pointer without lock")
fixed("M06", "a147ccf", "comparison of concurrent maps converted the mapped values to the key type")

fixed("T01", "c5ade6b", "radix containers: merge, move with allocator and bounds with a non radix key did not compile")
fixed("M04", "446cb9d", "flat containers: assign and insert of non random access ranges wrote through end()")
fixed("E01", "a3e99ae", "iterators over a repeated value copied it in noexcept functions")
fixed("E01", "d4ab80e", "swap_branchless was noexcept whatever the swap of the elements does")
fixed("E01", "8e6d461", "constructors of ordered containers allocate but were noexcept")
fixed("E01", "e34d2af", "tiered_vector swallowed exceptions while copying another container and kept a dangling pointer")
fixed("E01", "8949b61", "radix containers terminated when hash, equality or allocation throws")
fixed("E01", "651ddbc", "concurrent containers terminated when a hash or a visitor throws")
fixed("M02", "88fc587", "const operations of radix containers raced on the cached first child")
known("E01", r"^conc\.cpp\|E01\|.*make_array.* is stopped by std::terminate in iterator::operator\*$",
      "the iterator over bucket locks is noexcept but allocates lock arrays on demand: a std::bad_alloc while clear(), rehash() or the destructor lock all buckets terminates the program",
      "concurrent_set with an allocator that throws on the allocation of a lock array inside clear()")
known("E01", r"^conc\.cpp\|E01\|.*hash.* is stopped by std::terminate in ChainingHashTable::move_back$",
      "move_back restores the old buckets after a failed concurrent rehash and is noexcept, but calls the user's hash again: a hash that throws there terminates the program",
      "concurrent_set with a hash function that throws twice during rehash()")
fixed("M05", "0f89428", "ordered containers: copy assignment kept the old functors and swap left them in place")
fixed("M05", "72c1fb5", "radix hash containers: hash and equality objects did not follow the values")
fixed("M05", "60350f2", "radix hash containers ignored the equality object in leaves")
fixed("A04", "0f89428", "ordered containers: copy assignment allocated the new table with the old allocator")
known("A04", r"vf_move_assign takes over memory of the source without comparing the allocators",
      "move assignment of every container exchanges the operands even when allocators neither propagate nor compare equal: each container then releases memory of the other one's allocator",
      "devector<int, A> a(A(1)), b(10, 0, A(2)); a = std::move(b); with propagate_on_container_move_assignment false: the buffer allocated by A(2) is released by A(1)")
known("A04", r"vf_move_assign\|after vf_move_assign, the allocator \(offset \d+\) of operand 0 holds: a[01]\[\d+\]",
      "move assignment of every container is a swap: it follows propagate_on_container_swap instead of propagate_on_container_move_assignment when the two traits differ",
      "flat_set<int, less, A> with POCMA true and POCS false: a = std::move(b) keeps the allocator of a while it takes over the memory of b")
fixed("L01", "0346b70", "ordered containers: allocator-extended move leaked the table when hash throws")
fixed("L01", "17b2db1", "constructors of radix containers leaked when an insertion throws")
fixed("L01", "823932a", "constructors of tiered_vector and sequence leaked when an element throws")
fixed("L01", "06cd5dd", "devector::resize_front leaked the previous storage when it reallocates")

fixed("T01", "c26c501", "members of flat containers which no test instantiates did not compile")
fixed("T01", "c4fe02f", "members of sequences which no test instantiates did not compile")
fixed("T01", "aa90c88", "members of flat_multiset, flat_multimap, ordered_map and sequence did not compile")
fixed("T01", "ce4e45c", "members of flat, concurrent and radix hash containers did not compile for valid functors and allocators")
fixed("T01", "e31cb38", "radix containers copied move-only elements")
fixed("T02", "53de30f", "const visits of concurrent containers passed modifiable elements under a shared lock")
fixed("R01", "cb705e6", "is_relocatable ignored the allocator of devector and the pointer type of unique_ptr")
fixed("T01", "46aae9e", "ordered_map: insert(hint, P&&) did not compile, nor did erase(iterator) with transparent functors")
fixed("T01", "c46fc0f", "sorting elements of type bool did not compile")
fixed("L01", "e31cb38", "erasing from radix containers leaked emptied vector leaves")

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    json.dump({"findings": F}, open(os.path.join(root, "known-findings.json"), "w"), indent=1)
