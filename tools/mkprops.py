#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long records stay readable).
import json, os
def st(n,m,w): return {"name":n,"meaning":m,"where":w}
def me(n,w): return {"name":n,"where":w}
P=[]
def prop(id,title,statement,over,qtext,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state,mechanism=mech,observe_at=obs,hook_needed=hook)))

RB=["immer/detail/rbts/rbtree.hpp","immer/detail/rbts/rrbtree.hpp","immer/detail/rbts/operations.hpp","immer/detail/rbts/node.hpp","immer/detail/rbts/position.hpp"]
AR=["immer/detail/arrays/with_capacity.hpp","immer/detail/arrays/no_capacity.hpp","immer/detail/arrays/node.hpp"]
HA=["immer/detail/hamts/champ.hpp","immer/detail/hamts/node.hpp","immer/detail/hamts/bits.hpp"]

prop("C01","No operation ever changes a value that was obtained earlier",
 "Once a program holds a container value (array, vector, flex_vector, set, map, table), that value reads the same - size, elements, order, lookups - until the program itself assigns, moves or mutates that very variable, whatever operations are performed on it, on copies of it, on values derived from it, on values it was derived from, or on transients taken from any of them. This includes operations that consume other values by move and in-place operations on other transients.",
 ["histories","configurations"],"every finite history of public operations over any number of live values and transients, every memory policy and every branching setting",
 "Tests keep one or two old versions alive and re-read them after short fixed scripts; whether some other version aliasing a node changes depends on the sharing pattern a whole history created, of which there are unboundedly many.",
 RB+AR+HA,[st("nodes","shared tree nodes reached from several values","immer/detail/*/node.hpp"),st("refcount / owner token","licence to write a node in place","immer/refcount, immer/transience")],
 [me("path copying","immer/detail/rbts/operations.hpp; immer/detail/hamts/champ.hpp do_add/do_update/do_sub"),me("can_mutate() ownership test","immer/detail/rbts/node.hpp, immer/detail/hamts/node.hpp, immer/detail/arrays/node.hpp")],
 ["all registers' full contents through the public API after every operation"])

prop("C02","Sequence operations return what the same list operation returns",
 "For array, vector and flex_vector, every operation (construction from range, list or fill; push_back, push_front, set, update, take, drop, concatenation, insert, erase, indexing, front/back) returns a value whose contents are those of the corresponding operation on the mathematical sequence, at every size. Checked access throws out_of_range exactly for positions at or beyond the size and otherwise reads the element.",
 ["histories","inputs","configurations"],"all argument values the documentation allows, on values built by any earlier history (any relaxed or regular internal shape), every branching factor and leaf size",
 "The shape of a concatenated or sliced tree depends on the full history; tests visit a few hand-picked shapes at a few sizes and branching settings.",
 RB+AR+["immer/vector.hpp","immer/flex_vector.hpp","immer/array.hpp"],
 [st("size, shift, root, tail","tree value","immer/detail/rbts/rrbtree.hpp")],
 [me("relaxed radix search","immer/detail/rbts/position.hpp"),me("concat rebalancing plan","immer/detail/rbts/operations.hpp concat_merger"),me("slice left/right","immer/detail/rbts/operations.hpp")],
 ["returned value contents, thrown exceptions"])

prop("C03","Sets, maps and tables behave as finite sets and functions for any hash",
 "For set, map and table, insert, set, update, update_if_exists, erase, count, find, at, operator[] and size give exactly the results of the same operation on a finite set or finite key-to-value function, for every hash function consistent with the key equality, including hashes that collide partly or completely. A missing key reads as absent: count 0, null find, out_of_range from at, a default value from operator[], and no change from erase or update_if_exists.",
 ["histories","inputs","configurations"],"every history of operations, every hash/equality pair that is consistent, every branching setting and element type",
 "Tests use a handful of key populations and one colliding hash; the trie paths (hoisting, collision nodes, deep shared prefixes) reached depend on the combination of hash values and operation order.",
 HA+["immer/set.hpp","immer/map.hpp","immer/table.hpp"],
 [st("datamap, nodemap, children, values, collisions","CHAMP node","immer/detail/hamts/node.hpp"),st("size","number of entries","immer/detail/hamts/champ.hpp")],
 [me("champ::do_add / do_update / do_sub","immer/detail/hamts/champ.hpp"),me("make_merged, copy_inner_*, copy_collision_*","immer/detail/hamts/node.hpp")],
 ["lookup results for every key of the universe, iteration, size"])

prop("C04","Transients equal the persistent operations and are isolated from their source",
 "Applying any operations to a transient yields the contents that the corresponding persistent operations would have yielded, under every memory and transience policy. Converting a value to a transient, mutating the transient, and snapshotting it with persistent() never disturbs the original value, other transients, or any earlier snapshot, however conversions, copies, moves and mutations are interleaved.",
 ["histories","configurations"],"every interleaving of transient(), copies/moves of transients, in-place operations, appends of one transient to another and persistent() over any number of live values, for reference-counted, collected and no-transience policies",
 "Isolation depends on ownership marks left on nodes by earlier histories; tests run linear scripts with one or two snapshots.",
 RB+AR+HA+["immer/transience/gc_transience_policy.hpp","immer/vector_transient.hpp","immer/flex_vector_transient.hpp","immer/map_transient.hpp","immer/set_transient.hpp","immer/table_transient.hpp","immer/array_transient.hpp"],
 [st("owner / ownee tokens","who may mutate a node in place","immer/transience/gc_transience_policy.hpp"),st("refcount","uniqueness test","immer/refcount/refcount_policy.hpp")],
 [me("*_mut operations","immer/detail/rbts/operations.hpp; rrbtree.hpp; champ.hpp"),me("owner renewal on copy and persistent()","immer/transience/gc_transience_policy.hpp")],
 ["contents of all transients and persistent values after every step"])

prop("C05","Operations on values about to expire give the same result as on copies",
 "Calling any operation on an rvalue container (or passing rvalue operands to concatenation) returns the same contents as calling it on an lvalue with equal contents, and never alters any other live value. A moved-from variable may afterwards be assigned to and destroyed, and assigning the result of an operation on a moved variable back to that same variable is well defined.",
 ["histories","configurations"],"every history mixing lvalue and rvalue calls, any sharing between the operands and other live values, every memory policy with and without in-place rvalue mutation",
 "Tests exercise rvalue calls on mostly unshared or freshly copied values; the mutate-or-copy decision is taken per node and the mixed cases need particular sharing histories.",
 RB+AR+HA+["immer/box.hpp"],
 [st("refcount","uniqueness test per node","immer/refcount/refcount_policy.hpp")],
 [me("move_t dispatch to *_mut","immer/vector.hpp, flex_vector.hpp, map.hpp, set.hpp, table.hpp, array.hpp"),me("concat_mut_l / concat_mut_r / concat_mut_lr","immer/detail/rbts/rrbtree.hpp")],
 ["result contents; contents of every other live value; state after reassignment"])

prop("C06","diff reports exactly the changes between two values",
 "Diffing two sets, maps or tables reports as added exactly the entries whose key is only in the new value, as removed exactly those whose key is only in the old value, and as changed exactly the keys in both whose entries differ, with the right old and new entries, each exactly once. This holds however the two values are related, including unrelated values and values with colliding hashes.",
 ["inputs","histories","configurations"],"all pairs of values, sharing structure or not, any hash function, any branching setting",
 "The pairwise node comparison has a case for every combination of node kinds (value, child, collision) on both sides; tests diff a few derived pairs.",
 ["immer/algorithm.hpp","immer/detail/hamts/champ.hpp"],
 [st("datamap, nodemap","per-level bitmaps compared","immer/detail/hamts/node.hpp")],
 [me("diff, diff_data_node, diff_collisions","immer/detail/hamts/champ.hpp")],["callbacks invoked by diff"])

prop("C07","Equality holds exactly when contents are equal, whatever the histories",
 "Two values of the same container type compare equal if and only if they have the same contents - same elements in the same order for sequences, same entries for sets, maps and tables - regardless of the operations, order, memory sharing or internal shape by which each was built. Inequality is always the negation, and equality is symmetric and reflexive.",
 ["histories","inputs","configurations"],"all pairs of values built by any histories, any hash function, any branching setting",
 "Needs two different histories reaching equal (or nearly equal) contents with different internal shapes; tests compare values built in the same way, or a few pairs.",
 RB+HA+AR+["immer/box.hpp"],
 [st("root, tail, shift, size","representation that may differ for equal contents","immer/detail/rbts/rrbtree.hpp")],
 [me("equals_visitor","immer/detail/rbts/operations.hpp"),me("champ::equals, collapse of single-entry subtrees on erase","immer/detail/hamts/champ.hpp")],
 ["operator== and != on every pair of live values"])

prop("C08","Every way of traversing a value visits exactly its elements, in one order",
 "Forward, reverse and random-access iteration from any position, chunk-wise traversal of the whole value or of any subrange, early-terminating chunk traversal, and the library's algorithms (accumulate, for_each, copy, all_of) all visit exactly the value's elements once each; for sequences in index order, for sets, maps and tables in one order that every traversal of that value repeats. Iterator arithmetic and comparisons agree with element positions, and copies of an iterator move independently.",
 ["histories","inputs","configurations"],"any value built by any history, any start/end pair of positions, any jump sequence of an iterator",
 "Subrange traversal has separate code for every alignment of both ends with leaves, inner nodes and tail and for relaxed nodes; tests try a few ranges.",
 ["immer/algorithm.hpp","immer/detail/iterator_facade.hpp","immer/detail/rbts/rbtree_iterator.hpp","immer/detail/rbts/rrbtree_iterator.hpp","immer/detail/hamts/champ_iterator.hpp"]+RB,
 [st("curr region","cached leaf range of an iterator","immer/detail/rbts/rrbtree_iterator.hpp")],
 [me("for_each_chunk_i / _right / _left visitors","immer/detail/rbts/operations.hpp, position.hpp"),me("iterator_facade","immer/detail/iterator_facade.hpp")],
 ["sequence of elements produced by each traversal"])

prop("C09","Every element and block is released exactly once, when nothing refers to it",
 "With a reference-counting memory policy, every element object a container creates is destroyed exactly once, and every memory block it obtains is given back exactly once to the heap it came from with the size it was requested with; no element is read, copied or destroyed after its destruction. When the last value that can reach them is gone nothing remains, apart from the constant per-type empty values.",
 ["histories","configurations"],"every history of operations including moves, transients, slices, concatenations and erasures, for trivial and non-trivial element types, relaxed or strict sizes, and every heap layout option",
 "Tests seldom use elements whose lifetime is observable and never account for blocks; a leak or a doubled release needs a particular sharing pattern and size.",
 RB+AR+HA+["immer/box.hpp","immer/refcount/refcount_policy.hpp","immer/heap"],
 [st("refcount","number of owners of a node","immer/refcount")],
 [me("dec_nodes / dec_traverser","immer/detail/rbts/operations.hpp"),me("delete_* helpers","immer/detail/rbts/node.hpp, immer/detail/hamts/node.hpp"),me("optimised size classes","immer/heap/heap_policy.hpp")],
 ["constructor/destructor calls of an instrumented element type; allocate/deallocate calls of an instrumented heap policy"])

prop("C10","An operation that throws changes nothing, leaks nothing and can be retried",
 "If a memory allocation, an element copy or a user function throws during an operation, every container value other than the one being mutated in place reads as before, no element or block is leaked, destroyed twice or used after destruction, and the exception reaches the caller. A sequence transient, and an expiring sequence in a single-element update or slice, also keeps its contents; the expiring operands of insertion, erasure and concatenation, which take several steps, may be used up but can be assigned and destroyed; a set, map or table being mutated in place stays usable and destructible; and the same operation retried without the fault gives the normal result.",
 ["fault_sequences","histories","configurations"],"every fault point (each allocation, element copy and callback) of every operation, after any history, repeatedly",
 "Tests inject faults with a fixed rotating pattern in insertion-only scripts with trivially destructible payloads, so partially built nodes with owned elements are not checked for leaks or double destruction.",
 RB+AR+HA,[st("partially built node","elements copied so far","immer/detail/*/node.hpp")],
 [me("IMMER_TRY/IMMER_CATCH clean-up blocks","immer/detail/rbts/rrbtree.hpp, operations.hpp, node.hpp; immer/detail/hamts/champ.hpp, node.hpp; immer/detail/arrays/node.hpp"),me("uninitialized_copy and friends","immer/detail/util.hpp")],
 ["exception seen by the caller; contents; element and block accounting"])

prop("C11","Values may be shared and dropped by many threads without locks",
 "With the default memory policy, threads may concurrently copy, read, derive new values from, move and destroy values that share structure, each thread using its own variables, with no synchronisation: each thread gets the same results as if it were alone, no memory is touched after release or released twice or lost, and no two conflicting memory accesses are unordered. In-place mutation of a node never happens while another thread can reach it.",
 ["schedules","histories"],"every interleaving of atomic steps of any number of threads running any operations on values sharing nodes",
 "The tests are single-threaded for containers; the failing interleavings (last two owners dropping together, uniqueness test racing with a drop or copy) are a few instructions wide.",
 ["immer/refcount/refcount_policy.hpp","immer/detail/hamts/champ.hpp","immer/detail/rbts/node.hpp","immer/detail/rbts/operations.hpp","immer/box.hpp"],
 [st("refcount","atomic owner count","immer/refcount/refcount_policy.hpp")],
 [me("acquire/release on the last decrement","immer/refcount/refcount_policy.hpp dec"),me("unique() before in-place mutation","immer/refcount/refcount_policy.hpp, node can_mutate")],
 ["per-thread results; every memory access, atomic step, allocation and release under a controlled scheduler"])

prop("C12","An atom is linearizable: no lost updates, no torn or freed values",
 "Concurrent load, store, exchange and update on one atom behave as if executed one at a time in some order that respects real time: every load returns a stored value, exchange returns exactly the value it replaced, update's function is applied to the value it replaces and no update is lost. Values obtained from the atom stay intact after it is overwritten, everything is reclaimed once, and whatever a thread did before storing a value is visible to the thread that loads it.",
 ["schedules","configurations"],"every interleaving of any number of threads performing any mix of atom operations, for reference-counted and garbage-collected policies",
 "The tests exercise atoms from one thread only; races between load and store, or compare-and-store in update, need particular interleavings.",
 ["immer/atom.hpp","immer/lock/spinlock_policy.hpp","immer/box.hpp"],
 [st("impl_","the box currently stored","immer/atom.hpp"),st("lock_ flag","spinlock","immer/lock/spinlock_policy.hpp")],
 [me("spinlock critical sections; compare pointer and swap in update","immer/atom.hpp"),me("compare_exchange loop","immer/atom.hpp gc_atom_impl")],
 ["call/return of each atom operation; memory accesses and atomic steps under a controlled scheduler"])

prop("C13","Heaps never hand out memory that is in use, and recycle within their limit",
 "Every heap adaptor (free lists shared, thread-local or unsynchronised; size-splitting; debugging; data-carrying) hands out blocks of at least the requested size that overlap no block still in use, in every interleaving where it is documented as thread-safe. Every block released comes back either to the free list, of which at most the configured number is kept (transiently a few more under concurrency), or to the parent heap with the size the parent was asked for; memory kept by a thread-local list goes back to the parent when the thread ends.",
 ["schedules","histories","configurations"],"every interleaving of allocate and deallocate calls from any number of threads; every size and composition of adaptors",
 "The heap tests allocate and free a few blocks in one thread; reuse races on a lock-free list need three operations of one thread inside one step of another.",
 ["immer/heap/free_list_heap.hpp","immer/heap/unsafe_free_list_heap.hpp","immer/heap/thread_local_free_list_heap.hpp","immer/heap/split_heap.hpp","immer/heap/debug_size_heap.hpp","immer/heap/with_data.hpp","immer/heap/heap_policy.hpp","immer/heap/identity_heap.hpp"],
 [st("head, count","free list and its length","immer/heap/free_list_heap.hpp")],
 [me("compare-and-swap push and pop","immer/heap/free_list_heap.hpp"),me("clear on thread exit","immer/heap/thread_local_free_list_heap.hpp")],
 ["allocate/deallocate calls and returns, calls reaching the parent heap"])

prop("C14","Updates share structure: their cost stays within the documented bounds",
 "For vector, flex_vector, set, map and table, copying, moving, converting to or from a transient and size queries allocate no nodes and copy no elements. Single-element updates, insertions and erasures, slices and concatenations allocate and copy only a number of nodes and elements bounded by the branching constants times the logarithm of the largest size in the value's history (for sets, maps and tables: times the hash depth of the key), never proportional to the size. In-place operations on an unshared value or transient allocate only for growth, so n appends to a transient allocate O(n / leaf size) blocks; long histories of concatenation and slicing do not degrade these bounds. Diffing a set, map or table with a recent version of itself examines only what the changes between them touched. An array is copied whole only where it is shared or has to grow, and its in-place appends reallocate O(log n) times.",
 ["histories","inputs","configurations"],"every operation on values of any size built by any history, every branching setting and reference-counting policy",
 "No test measures allocations or copies; a change that silently copies everything, or stops reusing unique nodes, passes all of them.",
 RB+HA+AR,[st("root, tail, shift","tree height","immer/detail/rbts/rrbtree.hpp")],
 [me("path copying","immer/detail/rbts/operations.hpp, immer/detail/hamts/champ.hpp"),me("concat rebalancing bound","immer/detail/rbts/operations.hpp concat_rebalance_plan")],
 ["allocations and element copies counted per operation"])

prop("C15","A box is an immutable value: copies never see each other's updates",
 "A box always holds a value equal to the one it was constructed from or last assigned; updating or assigning one box never changes another box, whether they share storage or not and whether the update consumed an expiring box. Comparisons and hashing look at the held value, and the held value is constructed and destroyed exactly once per storage, also when the update function throws (an expiring box whose value was handed to that function may then be used up, but can be assigned and destroyed).",
 ["histories","fault_sequences","configurations"],"every history of constructing, copying, moving, swapping, updating, nesting and destroying boxes, for every memory policy",
 "Tests check single updates; aliasing depends on which boxes share storage at the time of an in-place update.",
 ["immer/box.hpp"],[st("holder refcount","sharing of the storage","immer/box.hpp")],
 [me("unique() test in update &&","immer/box.hpp"),me("swap-based assignment","immer/box.hpp")],["value held by every live box after every step"])

prop("C16","Results do not depend on memory policy, branching setting or element type",
 "The same program run with any supported memory policy (heap, reference counting or garbage collection, transience, size-preference), any branching setting, any element type, and any placement of moves and transients produces the same contents, sizes, exceptions and comparison results.",
 ["configurations","histories"],"every supported combination of template parameters, every history",
 "Each test instantiates few parameter combinations and asserts its own expectations; behaviours that diverge only for one combination at one size go unseen.",
 ["immer/memory_policy.hpp","immer/detail/rbts/bits.hpp","immer/detail/hamts/bits.hpp","immer/heap/heap_policy.hpp","immer/detail/combine_standard_layout.hpp"]+RB+HA,
 [st("B, BL","branching constants","immer/detail/rbts/bits.hpp")],[me("derive_bits_leaf, mask/bitmap types","immer/detail/rbts/bits.hpp, immer/detail/hamts/bits.hpp")],
 ["observable results of one specification behaviour replayed under all configurations"])

prop("C17","A value keeps alive only what it contains",
 "Whatever operations, moves and transients a container went through: once all other values are dropped, the elements still alive because of it are exactly its own - one object for each element of an array, vector, set, map or table (key and value), and at most one for each element of a flex_vector, whose pieces may occur in it several times. What was erased, sliced off or replaced is destroyed and its memory returned as soon as no value contains it. The memory that a vector, set, map or table occupies depends only on its contents, not on how it came about; an array occupies one block, and a flex_vector at most one path of blocks for each element.",
 ["histories","configurations"],"every history of operations, moves, transients and shared values; every reference-counting policy and branching setting",
 "Tests look at contents; memory that is still reachable from a value is no leak to any tool, and how a value is laid out after a long history is tested nowhere.",
 RB+HA+AR,[st("root, tail, shift","tree","immer/detail/rbts/rrbtree.hpp"),st("nodemap, datamap","trie node","immer/detail/hamts/node.hpp")],
 [me("slicing with collapse of the root","immer/detail/rbts/operations.hpp slice_right_visitor, slice_left_visitor"),me("erasure that inlines a remaining single entry","immer/detail/hamts/champ.hpp do_sub, do_sub_mut")],
 ["live elements, blocks and bytes when all other values are gone, against those of a newly made equal value"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
