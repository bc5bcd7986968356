#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          **({"state": state} if state else {}),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

S = "src/"
prop("C01", "The vector behaves as a sequence under every history and allocator",
 "After any history of operations the vector holds exactly the values, in the order, that a plain list given the same operations would hold, and every operation returns what the list would return. Its length, emptiness and fullness agree with that, it never claims room for more elements than the memory it was given, and after room has been reserved it has at least the room asked for. This holds whatever addresses, stale contents and reuse pattern the supplied allocator produces.",
 ["histories","inputs","fault_sequences","configurations"],
 "All sequences of push/pop/insert/remove/reserve/append/assign/clear/clone/collect/consume over several vectors, all element sizes and alignments, all allocator placement and reuse behaviours.",
 "The tests run a dozen short fixed scripts on integers with the default allocator; they never reuse dirty memory, mix operations after growth at odd capacities, or use elements that own something.",
 [S+"vector/mod.rs", S+"vector/into_iter.rs", S+"allocator.rs"],
 [("growth, shifting and pointer bookkeeping", S+"vector/mod.rs: Vector::{reserve,grow,push,pop,insert,remove,append,assign,clear}"),
  ("construction and consumption", S+"vector/mod.rs: From/FromIterator/Clone/IntoIterator impls")],
 [{"name":"begin/end/capacity pointers","meaning":"extent of live elements and of the buffer","where":S+"vector/mod.rs: struct Vector"}],
 ["slice view, len, is_empty, is_full, capacity, return values"])

prop("C02", "The deque and the queue behave as sequences under every history",
 "After any history of operations at both ends and in the middle, the deque holds exactly the values a plain double-ended list would hold in the same order, with matching length and matching first and last element, and every operation returns what that list would return. The queue built on it hands elements back exactly once, first in first out. This holds however many internal blocks the history has filled, emptied, shifted or reallocated, and whatever addresses the allocator returns.",
 ["histories","inputs","fault_sequences","configurations"],
 "All interleavings of pushes and pops at both ends, removals by index, iteration, and consumption, for every element size class and all allocator placement and reuse behaviours.",
 "Tests push and pop a couple of hundred integers in straight lines; block-boundary and pointer-table shifts depend on the exact history of both ends and on element size.",
 [S+"deque/mod.rs", S+"deque/iter.rs", S+"queue.rs"],
 [("block table management", S+"deque/mod.rs: realloc_ptr_array, push_*/pop_*"),
  ("removal by rotation", S+"deque/mod.rs: remove; "+S+"util.rs: rotate")],
 [{"name":"begin/end positions and block table","meaning":"where the live range starts and ends","where":S+"deque/mod.rs: struct Deque"}],
 ["front, back, iteration, len, pop results"])

prop("C03", "Hash maps and sets hold one value per key under any history and hash",
 "After any history of insertions, removals, lookups, clears and entry-style updates a hash map contains exactly the keys and values a reference dictionary would contain, each key once, and a hash set exactly the keys a reference set would contain. Every operation reports what the reference would report: the displaced or removed value, whether the key was new, and absence for missing keys. This holds for any user-supplied hash, however bad, across any growth of the table, and when the table is used again after being cleared.",
 ["histories","inputs","fault_sequences","configurations"],
 "All operation histories over small and large key sets, hash functions from perfect to constant, user-defined equality, all rehash points.",
 "Tests insert a handful of integers (one test has an all-colliding hash, no removals); chain surgery, entry reuse across a rehash, and set insertion results are not exercised.",
 [S+"internal/hash_table/mod.rs", S+"internal/hash_table/entry.rs", S+"internal/hash_table/rehash_policy.rs", S+"hash_map/mod.rs", S+"hash_map/entry.rs", S+"hash_set/mod.rs"],
 [("bucket chains, rehash and removal", S+"internal/hash_table/mod.rs: HashTable::{insert,insert_impl,rehash,remove_entry,clear}"),
  ("entry API", S+"internal/hash_table/entry.rs"), ("resize policy", S+"internal/hash_table/rehash_policy.rs")],
 [{"name":"bucket array and element count","meaning":"which node is in which chain","where":S+"internal/hash_table/mod.rs: struct HashTable"}],
 ["get/contains/insert/remove/entry results, iteration as a set, len"])

prop("C04", "The vector map stays sorted and unique and answers like a dictionary",
 "After any history of insertions, removals and entry-style updates, the ordered map's entries are strictly sorted by its comparator with no key twice, and every lookup, insertion and removal answers what a reference ordered dictionary would answer. This holds for ascending, descending and user-defined orders and regardless of the order in which keys arrive. Construction from a list with repeated keys keeps one entry per key, with the last value given.",
 ["histories","inputs","configurations","fault_sequences"],
 "All operation histories, arrival orders, comparators that are strict orders consistent with key equality, and allocator behaviours.",
 "Tests use one ascending integer order and a few entries and never remove an entry.",
 [S+"vector_map/mod.rs", S+"vector_map/entry.rs", S+"compare.rs", S+"vector/mod.rs"],
 [("binary search for the insertion point", S+"vector_map/mod.rs: lower_bound"),
  ("entry API", S+"vector_map/entry.rs"), ("comparators", S+"compare.rs")],
 None, ["slice view order, get/insert/remove/entry results"])

prop("C05", "Linked lists behave as sequences and stay correctly linked",
 "After any history of pushes, pops, extensions, clears and in-place changes a linked list, pooled or not, yields exactly the values a plain double-ended list would, in order, with matching length, first and last element and pop results. Iteration visits each element once and reports the number remaining exactly. This holds whichever addresses nodes get, including reuse of nodes just released.",
 ["histories","inputs","fault_sequences","configurations"],
 "All operation histories on plain and pooled lists (pool sizes from one up), all node reuse orders.",
 "Tests hold at most two elements at once, never reuse nodes after pops from both ends and never mix ends.",
 [S+"list/mod.rs", S+"list/node.rs", S+"list/iter.rs", S+"fixed_list/mod.rs", S+"fixed_list/conformant.rs"],
 [("link and unlink", S+"list/node.rs: insert, remove"), ("push/pop/clear", S+"list/mod.rs")],
 [{"name":"circular links through the sentinel","meaning":"element order","where":S+"list/node.rs: ListNodeBase"}],
 ["iter, front, back, len, pop results"])

prop("C06", "Strings hold valid text and stay NUL-terminated for foreign readers",
 "After any history of operations a string's text equals what a reference text value given the same operations holds: assignment replaces, insertion adds exactly one character at a position, and pop and remove return the character taken out. Its bytes are always valid UTF-8. Whenever the string owns a buffer, the byte just past its last character is NUL, so a foreign reader that scans for the terminator sees exactly this text.",
 ["histories","inputs","fault_sequences"],
 "All histories of assign/push/pop/insert/remove/reserve/clone on text of any characters, buffers with any stale contents.",
 "Tests use three-letter ASCII strings and assign only once; they never shorten a string by removal and look past the end, and never use multi-byte characters.",
 [S+"string/mod.rs", S+"string/null_terminator_allocator.rs"],
 [("terminator upkeep", S+"string/mod.rs: null_terminate; "+S+"string/null_terminator_allocator.rs"),
  ("editing", S+"string/mod.rs: assign/push/pop/insert/remove")],
 None, ["as_str, as_bytes, the byte after the last one, return values"])

prop("C07", "Fixed vectors live inline up to their limit and overflow without loss",
 "A fixed vector keeps its elements inside itself, requesting no memory, until a history first needs more than its fixed number of elements; from then on it behaves as an ordinary vector with the same contents and order. Relocating it to a new place keeps contents, order, overflow status and the allocator, leaves the old place owning nothing, and works again and again. Its report of whether it has overflowed is exactly whether its elements live outside it.",
 ["histories","inputs","fault_sequences","configurations"],
 "All operation histories with relocations at any point, fixed sizes from one up, allocators that hand back any free address including that of a vacated inline buffer.",
 "Tests relocate one vector once before and once after overflow and never operate on the result or let an address be reused.",
 [S+"fixed_vector/mod.rs", S+"fixed_vector/allocator.rs", S+"vector/mod.rs"],
 [("inline buffer bookkeeping", S+"fixed_vector/mod.rs: init_base_vec"), ("relocation", S+"fixed_vector/mod.rs: MoveNew"),
  ("inline vs overflow release", S+"fixed_vector/allocator.rs")],
 [{"name":"pool begin","meaning":"address that must not be returned to the overflow allocator","where":S+"fixed_vector/allocator.rs"}],
 ["element addresses, allocator requests, has_overflowed, contents"])

prop("C08", "Pooled nodes come from the pool first and return to their owner",
 "A pooled list uses its own storage for as long as a pool node is free, including nodes released earlier, and asks the overflow allocator only when all of its pool nodes are in use. No storage is ever given to two elements at once. Each node goes back to where it came from: pool nodes become available again and are never passed to the overflow allocator, overflow nodes are returned to it exactly once.",
 ["histories","fault_sequences","configurations"],
 "All histories of pushes and pops crossing the pool limit in any order, pool sizes from one up, overflow allocators placing blocks anywhere, including failing ones.",
 "Tests allocate at most two nodes and release them in one order.",
 [S+"fixed_pool/mod.rs", S+"fixed_pool/with_overflow.rs", S+"fixed_list/mod.rs", S+"fixed_list/conformant.rs", S+"fixed_map/mod.rs"],
 [("free list and bump pointer", S+"fixed_pool/mod.rs: FixedPool"), ("pool/overflow dispatch", S+"fixed_pool/with_overflow.rs")],
 [{"name":"free list, next unused node, pool end","meaning":"which pool nodes are free","where":S+"fixed_pool/mod.rs: FixedPool"}],
 ["element addresses relative to the container, requests seen by the overflow allocator"])

prop("C09", "Every container honours the allocator protocol and returns all memory",
 "Every block a container obtains is returned exactly once, to the same allocator, with the same size and alignment it was requested with, and nothing is outstanding once the container is gone. A container never reads or writes outside a block it holds, nor a block it has given back. Each allocator handed to a container is itself released exactly once.",
 ["histories","fault_sequences","configurations"],
 "All operation histories of all containers, stateful and stateless allocators, every placement, including blocks that abut unmapped pages.",
 "The tests use the process heap, which accepts wrong sizes, hides leaks and small overruns, and cannot tell one allocator from another.",
 [S+"allocator.rs", S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/rb_tree/mod.rs", S+"string/null_terminator_allocator.rs", S+"fixed_vector/allocator.rs", S+"fixed_pool/with_overflow.rs"],
 [("allocate/deallocate pairing", "every Drop and clear in src/"), ("size arithmetic", S+"allocator.rs: allocate, deallocate")],
 None, ["calls seen by the allocator, guard zones around blocks"])

prop("C10", "Every element is released exactly once, even when releasing one fails",
 "Every element given to, or copied into, a container is at any time either in exactly one place or released, and over its life it is released or handed back to the caller exactly once, with no copy of it used afterwards. Once containers and results are gone nothing remains unreleased. If releasing an element itself fails by unwinding, no element is ever released a second time and what remains in the container is usable.",
 ["histories","fault_sequences","crash_points"],
 "All operation histories of all containers with elements that own resources, with a destructor failing at any point of any operation.",
 "Tests drop one or two elements once per container and never have a destructor fail or an iterator abandoned half way.",
 [S+"vector/mod.rs", S+"vector/into_iter.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/rb_tree/mod.rs", S+"vector_map/mod.rs", S+"fixed_vector/mod.rs"],
 [("element destruction", "Drop, clear, assign, remove, consuming iterators of every container")],
 None, ["construction/clone/drop ledger of every element"])

prop("C11", "A failed allocation leaves containers consistent and loses nothing",
 "When the allocator reports failure by unwinding at any request, the container involved stays valid: an operation that adds one element leaves the contents exactly as before, an operation that adds several leaves a prefix of its effect, and an assignment that gets no room for the new contents leaves the old ones. No element and no memory is lost, duplicated or released twice, and the container can be used and destroyed normally afterwards. Construction that fails this way leaves nothing behind.",
 ["fault_sequences","histories"],
 "Every allocation request of every operation in any history failing, once or repeatedly, for every container.",
 "No test ever makes an allocation fail.",
 [S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/hash_table/rehash_policy.rs", S+"string/mod.rs", S+"fixed_pool/with_overflow.rs", S+"vector_map/mod.rs"],
 [("state is changed only after the request succeeded", "reserve, realloc_ptr_array, rehash, create_node, insert_impl")],
 None, ["contents, ledger and allocator state after the failed operation and after recovery"])

prop("C12", "User callbacks that unwind never corrupt a container",
 "When user code a container calls (copying, comparing, hashing, an entry closure, a source iterator, formatting) unwinds at any point, the container stays valid: what it holds is what it held before plus or minus only elements the operation was adding or replacing, each once. No element is lost, duplicated or released twice beyond what the operation itself consumed, no memory is lost, and the container works normally afterwards. Lookups and formatting that unwind change nothing, and a source that misstates its length changes nothing but speed.",
 ["fault_sequences","histories","inputs"],
 "Every callback invocation of every operation in any history unwinding; every wrong size estimate by a source.",
 "No test has a callback that unwinds or a source that misstates its length.",
 [S+"vector/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/hash_table/entry.rs", S+"vector_map/mod.rs", S+"list/mod.rs", S+"deque/mod.rs"],
 [("copy loops, rehash, entry closures, collection from sources", "append/assign/clone, rehash, or_insert_with, from_iter/extend")],
 None, ["contents, ledger and allocator state after the unwound operation"])

prop("C13", "Concurrent readers of a shared container see it unchanged and correct",
 "Any number of threads may read the same container through shared access at the same time, switching at any point inside lookups, comparisons, iteration, copying or formatting, and each obtains exactly the result it would obtain alone. Reading never modifies the container or any memory it owns.",
 ["schedules","histories"],
 "All interleavings of readers at every callback, iterator step and allocator call, over containers in any reachable state.",
 "No test uses more than one thread; the promise that shared reading is safe is only asserted by unsafe declarations.",
 [S+"vector/mod.rs", S+"deque/mod.rs", S+"queue.rs", S+"internal/hash_table/mod.rs", S+"hash_map/mod.rs", S+"hash_set/mod.rs", S+"map/mod.rs", S+"vector_map/mod.rs", S+"string/mod.rs"],
 [("shared-access declarations", "unsafe impl Sync in every container"), ("read paths", "get, contains, iter, front/back, as_slice, clone, Debug")],
 None, ["reader results; writes to container memory, which is write-protected while readers run"])

prop("C14", "Containers used by different threads do not affect each other",
 "Containers that are used independently, one per thread, behave exactly as if each were alone, wherever the threads switch, and each one's memory stays with its own allocator. A container handed over from one thread to another, or shared under a lock, keeps its contents and may be used and destroyed by the receiver.",
 ["schedules","histories"],
 "All interleavings of threads at every allocator call and callback, with hand-over of containers, iterators and elements at any point between operations.",
 "No test uses more than one thread.",
 [S+"internal/hash_table/mod.rs", S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"string/mod.rs", S+"allocator.rs"],
 [("no shared mutable state", "the only static is the shared empty bucket table"), ("transfer declarations", "unsafe impl Send in every container")],
 [{"name":"shared empty bucket table","meaning":"used by every empty hash table in the process","where":S+"internal/hash_table/mod.rs: EMPTY_BUCKET_ARR"}],
 ["each thread's contents against its own model"])

prop("C15", "Node-based containers never move an element that stays in them",
 "An element of a linked list, and a key and value of a hash map or set, keep their address from insertion until removal, whatever else is inserted or removed and however often the table grows. An element of a deque keeps its address while elements are added or removed only at the ends. References held by foreign code therefore stay good.",
 ["histories","fault_sequences"],
 "All histories with addresses recorded for every element, for all growth points and allocator placements.",
 "Tests never compare addresses across operations.",
 [S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"deque/mod.rs"],
 [("relinking instead of copying on rehash", S+"internal/hash_table/mod.rs: rehash"), ("only block pointers move", S+"deque/mod.rs: realloc_ptr_array"), ("node links", S+"list/node.rs")],
 None, ["addresses obtained through get, iter, front, back"])

prop("C16", "Ordered maps and sets read trees built by a foreign peer correctly",
 "For any tree that a foreign peer has built and keeps changing in the agreed shared memory layout, the ordered map and set report the right size, find exactly the keys present under their comparator, and traverse every entry once in order. In-place changes to values are seen by the peer and nothing else in the tree is altered by reading. Clearing or destroying such a container releases every entry and its memory once, after which it is empty and may be filled again by the peer.",
 ["histories","inputs","configurations"],
 "All insert/remove histories of the peer interleaved with reads, writes, clears and destruction on this side, all tree shapes, comparators and pooled variants.",
 "The crate itself cannot insert into these containers, so its tests only look at empty ones and single nodes.",
 [S+"internal/rb_tree/mod.rs", S+"internal/rb_tree/node.rs", S+"internal/rb_tree/iter.rs", S+"map/mod.rs", S+"set/mod.rs", S+"fixed_map/mod.rs"],
 [("successor walk", S+"internal/rb_tree/node.rs: next"), ("lookup", S+"internal/rb_tree/mod.rs: find_in_tree"), ("release", S+"internal/rb_tree/mod.rs: free_nodes, free_tree")],
 [{"name":"root, first, last, size","meaning":"tree header shared with the peer","where":S+"internal/rb_tree/mod.rs: struct RBTree"}],
 ["iteration order, get results, peer's view of the tree"])

prop("C17", "Running out of memory stops the operation and never corrupts memory",
 "With the default allocator, when the system has no memory for a request, or a requested capacity is too large to represent, the operation ends in a controlled stop (an unwinding panic or a process abort). It never continues with memory it did not get, never touches an invalid address, and no container ever claims room it does not have.",
 ["fault_sequences","inputs","crash_points"],
 "Every system allocation request failing in any history of any container; every requested capacity up to the largest integer.",
 "No test makes the system allocator fail or requests an enormous capacity.",
 [S+"allocator.rs", S+"vector/mod.rs", S+"string/mod.rs", S+"string/null_terminator_allocator.rs", S+"deque/mod.rs"],
 [("result of the system request", S+"allocator.rs: DefaultAllocator"), ("capacity arithmetic", S+"allocator.rs: allocate; "+S+"vector/mod.rs: reserve")],
 None, ["process exit state, container capacity against memory granted"])

prop("C18", "Iterators yield every element exactly once however they are driven",
 "An iterator over any container, borrowed, mutable or consuming, yields each element exactly once in the container's order whatever mixture of steps from front and back is used, then reports exhaustion from both ends for good. Its reported remaining length, where it offers one, is exact at every point; a copy, or a pair exported to and re-imported from the foreign representation, continues with exactly the elements not yet yielded. An iterator abandoned at any point leaves no element or memory behind and the borrowed container unchanged.",
 ["histories","inputs","fault_sequences"],
 "All containers in all reachable states, all sequences of steps from both ends, copies, exports/imports and abandonment points.",
 "Tests drive each iterator in one or two fixed patterns over one container state.",
 [S+"vector/into_iter.rs", S+"deque/iter.rs", S+"list/iter.rs", S+"internal/hash_table/iter.rs", S+"hash_set/iter.rs", S+"internal/rb_tree/iter.rs", S+"queue.rs"],
 [("cursor movement", "next/next_back of each iterator"), ("foreign representation", "into_compat/from_compat of deque and hash table iterators")],
 None, ["yielded elements and their order, size hints"])

prop("C19", "Hash values equal those of the foreign library for every key",
 "For every key of a supported type the default hash equals the value the foreign library computes for the same key.",
 ["inputs"], "All keys of all supported types.",
 "Tests compare four strings.", [S+"hash.rs"], [("hash functions", S+"hash.rs")], None, ["hash"])

prop("C20", "Container memory layouts match the foreign library on every build",
 "The size and field positions of every container equal those of the foreign library's counterpart for every element and allocator type.",
 ["configurations"], "All element and allocator types.",
 "Tests check one instantiation each.", [S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/rb_tree/mod.rs", S+"fixed_vector/mod.rs", S+"fixed_list/mod.rs"],
 [("declared field order", "#[repr(C)] structs")], None, ["size and offsets"])

prop("C21", "A foreign peer and this crate can take turns on one container",
 "The containers are objects of the foreign library's own shape. At any moment between two operations a foreign peer that uses the foreign library's algorithms on the same object reads exactly the contents this side sees, in the same order (for hash tables: finds every key by its hash). It may add, remove, reserve, rehash, change the load factor, reverse or clear with the container's allocator, and this side then goes on with exactly the edited contents, releasing what the peer allocated and the other way round. Iterators handed out to the peer, or taken from it, denote exactly the elements between the two positions.",
 ["histories","inputs","configurations"],
 "All histories in which two libraries alternate on one vector, vector map, deque, queue, list, pooled list, fixed vector or hash table; all iterator pairs exchanged in any state.",
 "The tests have no foreign side: offsets of a few fields are compared, links, end marks, growth state and iterator positions are not.",
 [S+"vector/mod.rs", S+"fixed_vector/mod.rs", S+"deque/mod.rs", S+"deque/iter.rs", S+"list/mod.rs", S+"list/node.rs", S+"fixed_pool/pool.rs", S+"internal/hash_table/mod.rs", S+"internal/hash_table/iter.rs", S+"internal/hash_table/rehash_policy.rs"],
 [("links in both directions and the node count", S+"list/mod.rs"), ("end mark behind the buckets, bucket of every key, growth state", S+"internal/hash_table/mod.rs: rehash; rehash_policy.rs"), ("begin and end positions with their block bounds", S+"deque/mod.rs"), ("foreign iterator positions", "into_compat/from_compat of deque and hash table iterators")],
 [{"name":"every field of the shared objects","meaning":"what the foreign library reads","where":"#[repr(C)] structs of each container"}],
 ["the peer's own traversal of the object, forward and backward; contents after its edits; nodes an iterator pair denotes"])

prop("C22", "Memory held stays in proportion to what a container stores",
 "At every point of every history the memory a container holds from its allocator is in proportion to its contents. A list holds one node per element and a hash container one node per entry, nothing more after removals; a deque or queue holds at most a few blocks beyond those its elements occupy, and a block pointer array proportional to the most elements it ever held at once; a hash container's bucket array is proportional to the most entries it ever held; a growable array (vector, vector map, string, fixed vector past its inline room) has a capacity of at most a small constant multiple of the most elements it ever held or was asked to make room for. Additions balanced by removals, however many, therefore never make a container grow without bound.",
 ["histories","configurations","fault_sequences"],
 "All histories, in particular arbitrarily long ones in which additions and removals balance, in all phases of block and array boundaries, and histories with failed requests in between.",
 "Tests look at capacities after a handful of additions; none counts blocks held, and none runs a steady flow through a container.",
 [S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/hash_table/rehash_policy.rs", S+"string/mod.rs", S+"vector_map/mod.rs", S+"fixed_vector/mod.rs", S+"queue.rs"],
 [("growth", S+"vector/mod.rs: calculate_grow_capacity, append, assign; "+S+"string/mod.rs: insert"), ("reuse of room in the pointer array, release of emptied blocks", S+"deque/mod.rs: realloc_ptr_array, pop_front, pop_back"), ("bucket counts", S+"internal/hash_table/rehash_policy.rs: get_rehash_required")],
 None, ["blocks and bytes a container has outstanding at its allocator, after every operation"])

prop("C23", "Requests, copies and user calls stay in proportion to the work asked for",
 "The memory requested over any history is proportional to the additions made (growth is amortised, whatever the order of operations and wherever elements are added one by one); looking up, traversing, removing, popping, clearing and relocating a container request none, nor does adding to a growable array whose reported capacity suffices. Elements are cloned only by operations that copy. A lookup in a hash container, hit or miss, hashes its key a constant number of times and compares it only with entries of one bucket, and there are never fewer buckets than the load factor demands; a lookup in an ordered container (vector map, tree map or set) calls its comparator at most a small multiple of the logarithm of its size.",
 ["histories","inputs","configurations"],
 "All histories and sizes, all hash qualities, comparators, tree shapes, growth points and block boundaries.",
 "Tests check results, never the number of requests or of calls to user code, and their containers are too small for the difference to show.",
 [S+"vector/mod.rs", S+"deque/mod.rs", S+"list/mod.rs", S+"internal/hash_table/mod.rs", S+"internal/hash_table/rehash_policy.rs", S+"internal/rb_tree/mod.rs", S+"string/mod.rs", S+"vector_map/mod.rs", S+"fixed_vector/mod.rs"],
 [("amortised growth", S+"vector/mod.rs: grow; "+S+"string/mod.rs: insert; "+S+"deque/mod.rs: realloc_ptr_array"), ("bucket search and load factor", S+"internal/hash_table/mod.rs: find_in_bucket; rehash_policy.rs"), ("ordered search", S+"vector_map/mod.rs: lower_bound; "+S+"internal/rb_tree/mod.rs: find_in_tree")],
 None, ["requests and bytes at the allocator, calls of clone, hash, equality and comparison, per operation"])

prop("C24", "Keys that contradict themselves never corrupt a keyed container",
 "Hash, equality and order of keys are safe user code and may be wrong: give different hashes for the same key, equality that is not an equivalence, an order that is none, or answers that change from call to call. Results of lookups are then unspecified, but nothing else is: in a hash map, hash set, vector map, tree map or tree set no operation touches memory it does not own; every key and value put in is afterwards held exactly once, was handed back to the caller, or was released exactly once; an insertion adds one entry or replaces one value and loses none; a removal takes out exactly the entry it hands back, or nothing; a lookup gives an entry that is there, or nothing, and changes nothing; length and traversal agree; entries of hash containers keep their address. Once emptied, the container behaves as new when the answers are consistent again.",
 ["histories","inputs","fault_sequences"],
 "All sequences of operations with all sequences of contradictory answers, among them at rehash, between the two searches of one operation, and during construction from iterators and lists.",
 "Tests and ordinary keys are consistent, so an index, bucket or position computed from one answer and trusted after another never goes wrong in them.",
 [S+"internal/hash_table/mod.rs", S+"internal/hash_table/entry.rs", S+"vector_map/mod.rs", S+"vector_map/entry.rs", S+"internal/rb_tree/mod.rs", S+"hash_map/mod.rs", S+"hash_set/mod.rs", S+"hash.rs", S+"equals.rs", S+"compare.rs"],
 [("each hash used once, for the node it was computed for", S+"internal/hash_table/mod.rs: rehash, insert_impl, remove_entry"), ("position checked against the length", S+"vector_map/mod.rs: lower_bound, insert, remove_entry; entry.rs: insert"), ("descent ends at a leaf", S+"internal/rb_tree/mod.rs: find_in_tree")],
 None, ["identity of every key and value met, handed out and released; address of every entry; results of operations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
