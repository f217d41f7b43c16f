#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Map point operations behave as an abstract map in every history",
 "For every version of a map reached by any history of operations issued by any number of interleaved clients, looking up, inserting (with or without replacement) and removing a key return exactly what a finite map holding that version's entries would return: the found entry or its absence, whether the insertion happened, the replaced entry, the removed entry. The new version contains exactly the old entries with that one change, and a failed insertion or removal changes nothing. Lookups, insertions and removals made with a different key type that is declared to hash and compare alike give the same answers.",
 ["histories","schedules","configurations"],
 "All interleaved client histories over shared versions, all key sets and hash functions (from perfect to fully colliding), all hash and branching widths.",
 "The unit tests insert up to a few thousand integers under one good 64-bit hash in one thread; collision chains longer than two, full nodes, deepest-level nodes and interleaved version histories are sampled hardly or not at all.",
 ["src/map.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/bit_indexed_array.rs","src/flag.rs"],
 [("hash prefix descent","src/flag.rs Flag::next, src/node/cnode.rs find/insert/remove"),("collision chain","src/node/lnode.rs find/insert/remove/lift_to_cnode_and_insert"),("sparse child array","src/bit_indexed_array.rs inserted/updated/removed")],
 ["return values of find, insert and remove","find over the whole key domain and visit on the produced version"])
p("P02","Existing versions never change, whatever concurrent clients do",
 "Once a version of a map or set exists, its size, its entries, the answers to lookups on it and the addresses of its entries stay the same for as long as any handle to it is held. This is so no matter which operations other clients concurrently run on it or on versions sharing memory with it, in which order handles are cloned and dropped, and at which point inside an operation control passes to another client.",
 ["schedules","histories","crash_points"],
 "All interleavings of operations on versions that share memory, with preemption inside hashing, comparing, cloning, dropping and user-supplied operations, and all orders of dropping handles.",
 "No existing test interleaves two operations or re-reads an old version after later operations in any depth; isolation must hold for every schedule and every sharing pattern.",
 ["src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/bit_indexed_array.rs"],
 [("copy-on-write path with shared reference-counted nodes","src/node/cnode.rs, src/bit_indexed_array.rs"),("immutable leaf nodes","src/node/snode.rs, src/node/lnode.rs")],
 ["full read-out of every retained version after every step and at the end"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P03","Sets behave as abstract sets in every history",
 "For every version of a set reached by any history of interleaved operations, lookup, insertion, removal, traversal and size answer exactly as the abstract set of its keys. Every bulk operation on one set or on two sets keeps, drops or converts each key exactly as its operation decided for that key (both-sides, left-only or right-only), so unions, intersections, differences and symmetric differences are exact. This holds for same-typed and differently typed key pairs and for the constant operations as well as for user-supplied ones.",
 ["histories","schedules","configurations"],
 "All interleaved histories on sets, all per-key decisions in bulk operations, all hash qualities and widths.",
 "Tests compute a few set combinations of random integers with one hash function; they do not reach collision chains on both sides, mixed decisions within a chain, or differently typed pairs.",
 ["src/set.rs","src/transformations.rs","src/results.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs"],
 [("set wrapper over the map trie with unit values","src/set.rs"),("set-to-map operation adapters","src/set.rs, src/transformations.rs")],
 ["return values and full read-out of the produced set compared with an abstract set"])
p("P04","Size and traversal are exact for every version",
 "For every version of a map or set that any history of operations, bulk operations and faults can produce, the reported size equals the number of distinct keys it holds, and traversal presents each entry of the version exactly once and nothing else. Every entry that traversal presents is found by lookup with the same key and value, and no other key is found.",
 ["histories","schedules","configurations"],
 "All versions reachable through any mix of point, single and joint bulk operations from interleaved clients.",
 "Sizes are cached in several node kinds and recomputed differently by each of about thirty bulk code paths; tests check size only after plain insertions and removals and for a few joint runs.",
 ["src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/mnode.rs","src/bit_indexed_array.rs"],
 [("size cached beside the child array","src/node/cnode.rs CNode::new, size"),("size cached in collision chains","src/node/lnode.rs LNode::new, size")],
 ["size(), visit() and find() on every version produced"],None,[("cached size","number of entries below a node","src/bit_indexed_array.rs extra(), src/node/lnode.rs size")])
p("P05","Bulk transformation and conversion of one map applies each entry's outcome",
 "Transforming or converting a map yields exactly the map obtained by applying the operation to each entry on its own: unchanged entries stay, transformed entries carry the new value, converted entries carry the new key and value, removed entries vanish. This holds for every mix of outcomes, for constant and user-supplied operations, and while other clients interleave with it or with dropping the source.",
 ["histories","schedules","configurations"],
 "All maps, all per-entry outcome assignments, all interleavings with other clients and all polling schedules of the asynchronous operation.",
 "The outcome depends on the mix of results of sibling entries (collapse of nodes, reuse of unchanged nodes, removal within collision chains); tests use a uniform outcome with a good hash.",
 ["src/map.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/node/mnode.rs"],
 [("per-node result merging","src/node/cnode.rs transform_impl, transmute; src/node/lnode.rs transform, transmute"),("node collapse","src/node/cnode.rs transform")],
 ["full read-out of the resulting map against a per-entry reference"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P06","Joint transformation of two same-typed maps applies each key's outcome",
 "Jointly transforming two maps of the same type yields exactly the map whose entry for each key is what the both-sides operation decided from the two entries if the key is in both maps, what the left operation decided if only in the left, and what the right operation decided if only in the right. Keeping the left value, the right value or either, transforming and removing may be mixed freely between keys, with constant or user-supplied operations, and the arguments always arrive as (left, right).",
 ["histories","schedules","configurations"],
 "All pairs of maps (including pairs sharing memory), all per-key outcome assignments, all hash qualities and widths, all interleavings.",
 "There are nine node-kind pairs times several outcome mixes per pair, each with its own code; tests run a handful of uniform outcomes on collision-free integers.",
 ["src/map.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/node/mnode.rs","src/results.rs"],
 [("pairwise descent over node kinds","src/node/mnode.rs transform_with_transformed*, src/node/cnode.rs transform_with_transformed_*"),("collision chain merging","src/node/lnode.rs joint_transform_with_*"),("argument flipping","src/transformations.rs flip, src/results.rs flip")],
 ["full read-out of the resulting map against a per-key reference"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P07","Joint operations on two differently typed maps apply each key's outcome",
 "Every joint operation over two maps whose key or value types differ (keeping the left type, keeping the right type, or producing a third type, with keys converted or preserved) yields exactly the map whose entry for each key is what the both-sides, left-only or right-only operation decided for it. Entries reported as unchanged keep the key and value of the side whose type is kept, and the arguments always arrive as (left key, left value, right key, right value).",
 ["histories","schedules","configurations"],
 "All pairs of maps of different types, all per-key outcome assignments, all hash qualities and widths, all interleavings.",
 "Each of the three variants has its own copy of the nine node-kind pairs; tests exercise a small collision-free sample of them.",
 ["src/map.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/node/mnode.rs","src/transformations.rs"],
 [("mixed-type pairwise descent","src/node/mnode.rs transform_with_transmuted*, transmute_with_transformed*, transmute_with_transmuted*"),("key preserving adapters","src/map.rs transform_with_transfuted, transfute_with_transformed")],
 ["full read-out of the resulting map against a per-key reference"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P08","Each entry is consulted once and contributes once to the reduction",
 "In every bulk operation over one or two maps or sets, the user-supplied operation is called exactly once for each entry, or each pair of entries with equal keys, with that entry's own data, and the returned reduction combines the contribution of every such call exactly once for any associative and commutative reduction with the default value as its identity. No contribution is lost, duplicated or taken from an entry that is not in the source maps, whatever the outcomes, hash collisions, parallelism strategy, schedule or polling pattern.",
 ["histories","schedules","configurations"],
 "All sources, all outcome mixes, all reductions forming a commutative monoid, all schedules and strategies.",
 "Tests reduce with constant unit values or a single count; a contribution dropped in one node-kind pair or counted twice in a chain is invisible to them.",
 ["src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/hash_trie.rs","src/transformations.rs"],
 [("reduction folding per node","src/node/cnode.rs reduce_op calls, src/node/lnode.rs *_result helpers")],
 ["reduction value and the recorded multiset of callback invocations"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P09","Every key, value and node is released exactly once, none while reachable",
 "Across any history of operations by interleaved clients, every key and value handed to or cloned by the library is dropped exactly once, never while a version that contains it or a reference to it is still held, and when the last handle is dropped every byte the library allocated has been returned. No operation reads or writes memory that has been freed or never initialised.",
 ["histories","schedules","crash_points","fault_sequences"],
 "All interleavings of operations and handle drops, including drops that happen inside another client's operation, injected panics and cancelled operations.",
 "The library builds arrays from uninitialised memory with raw pointer writes; ownership errors there need specific sizes, sharing patterns or drop orders, and the tests neither count drops nor check the heap.",
 ["src/bit_indexed_array.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/hash_trie.rs"],
 [("manual array construction and destruction","src/bit_indexed_array.rs"),("reference counting","src/node/*.rs Arc")],
 ["instance accounting in keys and values","a poisoning, accounting global allocator owned by the simulator"])
p("P10","A panic or cancellation inside an operation leaves all versions intact",
 "If user code (hashing, comparing, cloning, converting, transforming, reducing, visiting) panics at any point inside an operation, or an asynchronous operation is dropped at any point before completion, then every version that existed before, the operation's own sources included, keeps exactly its contents and remains fully usable. Nothing is released twice or leaked, and retrying the operation gives the result it would have given without the fault.",
 ["crash_points","fault_sequences","schedules","histories"],
 "All panic points at every user callback, all cancellation points at every suspension, in all histories with other clients in flight.",
 "No test injects a panic or drops an unfinished operation.",
 ["src/bit_indexed_array.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/hash_trie.rs"],
 [("pure construction of new nodes, published only on success","src/hash_trie.rs, src/node/*.rs"),("array built only from already cloned nodes","src/bit_indexed_array.rs")],
 ["catch_unwind around the faulted operation, then full read-out of all versions, retry, and accounting at the end"],"cfg(hash_trie_sim) yield points, so that an asynchronous bulk operation can be cancelled midway")
p("P11","Equality of versions is sound, stable and detects no-ops",
 "Two versions that compare equal always hold the same entries; equality is reflexive, symmetric and transitive, a handle equals its clones for ever, and an answer once given never changes while both versions are held. A bulk transformation of one non-empty map or set in which every entry is left unchanged returns a version equal to its source, and any version whose contents differ from another's compares unequal to it.",
 ["histories","schedules","configurations"],
 "All pairs of versions alive together in any history of interleaved clients, including versions created and dropped in any order.",
 "Equality is by identity of shared memory; reuse of freed memory, partially changed nodes or wrongly reported no-ops only show in particular histories. Tests compare a version with itself and its clone.",
 ["src/map.rs","src/set.rs","src/hash_trie.rs","src/node/cnode.rs","src/node/mnode.rs","src/node/lnode.rs"],
 [("identity comparison","src/node/cnode.rs PartialEq, src/node/mnode.rs PartialEq"),("unchanged results returning the source","src/hash_trie.rs transform")],
 ["== between all retained versions against reference contents"])
p("P12","Versions share every entry that an operation leaves alone",
 "Inserting or removing a key never copies, clones or moves any entry whose hash differs from that key's: such entries are at the same address in the old and the new version. Likewise an entry that a bulk operation leaves unchanged and whose hash is shared with no other key stays at its address, in the map or set it came from and in the result. The number of keys and values cloned by an insertion or removal is therefore bounded by the number of entries with the same hash, not by the size of the map.",
 ["histories","configurations","schedules"],
 "All versions and operations in any interleaved history.",
 "Tests look at values only; a change that silently copies subtrees keeps all results right and destroys the memory-sharing guarantee.",
 ["src/node/cnode.rs","src/bit_indexed_array.rs","src/node/lnode.rs","src/node/snode.rs","src/hash_trie.rs"],
 [("shared nodes","src/node/cnode.rs, src/bit_indexed_array.rs"),("reuse of unchanged nodes","src/node/cnode.rs transform*")],
 ["addresses of entries before and after, clone counts in keys and values"])
p("P13","References and pointers handed out stay valid and point into the right version",
 "The key and value pointers returned by an insertion designate the inserted entry of the returned version and stay valid while any handle to that version, or to a later version still holding that entry at that place, is held. References returned by lookups, by failed insertions, by replacing insertions and by removals designate the entry of the version they were asked of and keep reading the same data whatever other clients do meanwhile, including dropping every other handle.",
 ["histories","schedules"],
 "All interleavings in which one client holds references or pointers while others derive, overwrite and drop versions.",
 "Tests dereference results at once, in one thread, never after other versions were dropped.",
 ["src/map.rs","src/set.rs","src/hash_trie.rs","src/node/lnode.rs","src/node/snode.rs","src/node/cnode.rs"],
 [("pointers taken from the freshly built leaf","src/node/snode.rs insert, src/node/lnode.rs insert, lift_to_cnode_and_insert")],
 ["pointer identity with find on the returned version; contents re-read through held references after preemption"])
p("P14","Every operation terminates without panicking for any hash quality and width",
 "For every supported hash width and branching width, and for hash functions of any quality (hashes that share long prefixes, differ only in their last bits, or collide completely, on either side of a joint operation), every operation completes without panicking, within a number of user-code calls and an amount of memory bounded polynomially by the sizes of its operands. Any standard hasher can be used with every hash width.",
 ["configurations","inputs","histories","schedules"],
 "All hash/branching width combinations and all hash functions, for every operation on every version in any history.",
 "Tests use one or two widths and a good hash, so nodes at the last level of the hash and chains of three or more colliding keys never arise.",
 ["src/flag.rs","src/traits.rs","src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs","src/bit_indexed_array.rs"],
 [("hash window per depth","src/flag.rs new_at_depth, next"),("collision chains","src/node/lnode.rs"),("width-specific hashing","src/traits.rs HasherBv")],
 ["progress budget on user callbacks and allocated bytes, panics caught around each operation"])
p("P15","Bulk results do not depend on parallelism strategy or polling schedule",
 "The contents and reduction produced by an asynchronous bulk operation are the same under every parallelism strategy, under every way of polling it (delayed, repeated, interleaved with other operations polled by the same or other tasks, or after earlier attempts were cancelled), and equal those of running it alone to completion in one go.",
 ["schedules","fault_sequences","histories"],
 "All polling schedules, interleavings of several operations in flight over shared versions, and cancellation sequences, for each strategy.",
 "Tests block on one future at a time and compare strategies only by constant reductions.",
 ["src/enums.rs","src/node/cnode.rs","src/node/mnode.rs","src/hash_trie.rs","src/map.rs","src/set.rs"],
 [("split of child ranges","src/node/cnode.rs transform, transform_impl, transform_with_transformed_cnode, *_impl"),("asynchronous recursion","src/node/cnode.rs async_recursion")],
 ["results of runs of the same operation under different strategies and polling schedules"],"cfg(hash_trie_sim) yield points inside the asynchronous bulk operations")
p("P16","Bit-level word operations satisfy their algebraic laws",
 "For every word width and every argument, the public bit operations (index of a flag, insertion, removal, merge, count, n-th bit, masks) obey their documented laws, and out-of-range arguments are rejected.",
 ["inputs"],"All words and indices of every width.","Tests sample a few words per width.",
 ["src/traits.rs"],[("bit traits","src/traits.rs")],["return values"])
p("P17","Versions may be shared between hardware threads without data races",
 "Sharing handles between operating system threads and operating on them in parallel is free of data races under the language memory model.",
 ["schedules"],"All parallel executions on weakly ordered hardware.","Tests are single threaded.",
 ["src/node/cnode.rs","src/node/mnode.rs"],[("unsafe Send and Sync markers","src/node/cnode.rs, src/node/mnode.rs"),("atomic reference counting of the standard library","alloc::sync::Arc")],["race detector"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
