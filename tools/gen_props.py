#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
A = "triple_arena/src/arena/"
C = "triple_arena/src/chain/"
S = "triple_arena/src/surject/"
O = "triple_arena/src/ord/"
T = "triple_arena/src/traits/"
R = "triple_arena_render/src/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=anchors))


p("C01", "A Ptr resolves to its own element until invalidated, and never again after",
  "For every arena type, a Ptr returned by an insertion resolves to exactly the element it was issued for until that element is removed, invalidated, moved or cleared. After that, as long as the Ptr type has a generation counter, the Ptr is rejected by every operation that takes a Ptr (lookup, mutation, removal, linking, union, advancer start and so on) forever, however often its slot is reused, and no later insertion ever hands out an equal Ptr. With such a Ptr type the always-invalid Ptr is likewise rejected by every operation on every arena.",
  ["histories", "configurations"],
  "all histories of operations on all five arena types, with index widths 8 bit to usize and generation widths from none to 128 bit, including slot reuse, cloning, clearing, compression and histories containing caught panics",
  "stale handles only become dangerous after particular remove/reinsert sequences that reuse the same slot; tests exercise one seed with one wide Ptr type",
  [A + "base_arena.rs", T + "ptr.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("generation check on lookup", A + "base_arena.rs Arena::get/contains"), ("generation increment on invalidation", A + "base_arena.rs Arena::inc_gen"), ("interlink validity", C + "chain_arena.rs ChainArena::are_neighbors")])

p("C02", "Arena behaves as a map from handles to values",
  "Every history of Arena operations gives the results a plain map from Ptrs to values would give: len, is_empty, lookups, mutable lookups, paired lookups, removal, removal by predicate, both replacements, swapping and clearing return and leave exactly what the map model says. No operation on a Ptr affects any element other than the ones named.",
  ["histories"], "all histories of public Arena operations over any mix of live, stale and foreign Ptrs",
  "the interesting states (free list shapes, holes, full capacity, equal operands) are reached only by long mixed histories",
  [A + "base_arena.rs", A + "nonzero_inx_vec.rs", T + "arena_trait.rs"],
  [("entry table and free list", A + "base_arena.rs Arena"), ("storage vector", A + "nonzero_inx_vec.rs NonZeroInxVec")])

p("C03", "Chain arenas hold exactly the chains the operations describe",
  "For every history of operations on a chain arena (with or without generations in its interlinks), following the previous and next interlinks shows exactly the set of linear and cyclic chains obtained by applying those operations to ordinary lists. Interlinks are always mutual and only refer to live links, and insertion, connecting, breaking, exchanging and removal succeed exactly when the documented neighbour conditions hold.",
  ["histories"], "all histories of chain operations including single-link cycles, two-link cycles, exchanges within and between chains and removal in the middle",
  "the number of combinations of chain shape and operands (same link, adjacent links, same chain, cyclic or not) is far beyond what example tests enumerate",
  [C + "chain_arena.rs", C + "chain_no_gen_arena.rs", C + "chain_iterators.rs"],
  [("interlink maintenance", C + "chain_arena.rs ChainArena::insert/remove/connect/break_prev/break_next/exchange_next"), ("index-only interlinks", C + "chain_no_gen_arena.rs ChainNoGenArena")])

p("C04", "SurjectArena keeps an exact partition of keys with one value per set",
  "For every history, keys are partitioned into non-empty sets exactly as insertion, key insertion, union and removal dictate, each set has exactly one value, and every key of a set gives access to that same value. Set sizes, key and value counts, same-set queries, the surviving value of a union and the value handed back with the last key always agree with that partition.",
  ["histories"], "all histories of key insertion, union, key removal, set removal, swaps and mutation",
  "the partition, the per-set key count and the value table are three separate structures that can silently drift apart",
  [S + "surject_arena.rs", S + "surject_iterators.rs"],
  [("key chain plus value entry with key count", S + "surject_arena.rs SurjectArena::union/remove_key/insert_key/remove")])

p("C05", "OrdArena is an ordered map with stable handles",
  "For any history with a consistent ordering of keys, iteration and the first, last, previous and next links of an OrdArena enumerate precisely the inserted and not removed entries in ascending key order, and every lookup by key, by similar key or by comparison closure returns exactly what a sorted reference would allow. Inserting an existing key replaces the value under the existing Ptr, non-hereditary insertion keeps duplicates adjacent, and Ptrs of other entries keep resolving to the same entry through any amount of rebalancing.",
  ["histories", "inputs"], "all histories of insertions (plain, nonhereditary, linear, manual), lookups and removals over any key sequences, including duplicates",
  "tree rebalancing has dozens of rotation cases; which one runs depends on the whole history",
  [O + "ord_arena.rs", O + "find.rs", O + "insert.rs", O + "remove.rs", O + "ord_iterators.rs"],
  [("WAVL insertion rebalancing", O + "insert.rs"), ("WAVL removal rebalancing", O + "remove.rs"), ("search", O + "find.rs")])

p("C06", "OrdArena lookups stay logarithmic",
  "With n entries, a key lookup in an OrdArena never performs more key comparisons than the documented logarithmic bound: about 1.44 times log2(n) when entries were only ever inserted and 2 times log2(n) with removals (plus a small constant), for every insertion and removal order. The bound also holds directly after bulk operations such as compression, cloning and deserialization. A search that starts linearly at a given entry costs only the linear comparisons needed to reach its target if that is within the given number, and no more than that number (nor than a walk over all entries) on top of the bound otherwise.",
  ["histories", "inputs"], "all insertion and removal orders, including sorted, reversed, alternating and adversarial deletion patterns",
  "a rebalancing mistake keeps all results correct and only shows as a slowly degenerating tree",
  [O + "insert.rs", O + "remove.rs", O + "ord_arena.rs"],
  [("rank rules", O + "ord_arena.rs OrdArena::_check_invariants"), ("bulk rebuild", O + "ord_arena.rs raw_rebalance_assuming_compressed")])

p("C07", "OrdArena survives inconsistent orderings",
  "If the key ordering is inconsistent (non-transitive, random, changing over time, or bypassed by manual insertion) every OrdArena operation still terminates without panicking or aborting, loses and leaks no entry, and leaves the tree and the linear order over all entries structurally intact. Only the order and what lookups find may be arbitrary.",
  ["inputs", "histories"], "all comparison behaviours, including adversarial closures and interior mutation of keys",
  "tests use lawful orderings; the failure needs an ordering that changes its answer at a bad moment",
  [O + "find.rs", O + "insert.rs", O + "remove.rs", O + "ord_arena.rs"],
  [("search loops bounded by tree depth", O + "find.rs"), ("structure independent of ordering", O + "insert.rs")])

p("C08", "Every stored value is dropped or handed back exactly once",
  "Every value, key or link moved into an arena is either returned to the caller exactly once or dropped exactly once, no later than when the arena (or the draining iterator) is dropped, and is never touched afterwards. This holds for overwriting, clearing, compressing, cloning, partial draining and abandoned iterators.",
  ["histories"], "all histories on all arena types, ending at any point",
  "leaks and double drops of plain data are invisible to assertion-based tests",
  [A + "base_arena.rs", A + "nonzero_inx_vec.rs", A + "arena_iterators.rs", O + "ord_iterators.rs", S + "surject_arena.rs"],
  [("manual storage management", A + "nonzero_inx_vec.rs NonZeroInxVec drop/clear/pop"), ("draining iterators", A + "arena_iterators.rs Drain/CapacityDrain")])

p("C09", "No undefined behaviour is reachable through the safe API",
  "No sequence of safe public calls, with any element type (zero sized, over-aligned, heap owning) and any Ptr type, leads to undefined behaviour: no out-of-bounds or uninitialised access, use after free, aliasing violation, misaligned access, invalid deallocation or leak of the backing storage. References handed out together by paired lookups and mutable iterators never alias.",
  ["histories", "configurations"], "all safe call sequences, element layouts and Ptr types, including unwinding through user code",
  "undefined behaviour usually has no visible symptom in a normal test run",
  [A + "nonzero_inx_vec.rs", A + "arena_iterators.rs", A + "base_arena.rs", C + "chain_iterators.rs", S + "surject_iterators.rs", O + "ord_iterators.rs", T + "ptr.rs"],
  [("raw allocation", A + "nonzero_inx_vec.rs"), ("lifetime-extending mutable iterators", A + "arena_iterators.rs IterMut/ValsMut"), ("unchecked index creation", T + "ptr.rs PtrInx")])

p("C10", "Advancers are complete and terminating while the arena is being modified",
  "An advancer loop terminates and visits each element that is valid for the whole duration of the loop exactly once, visits no element twice and never yields an invalid Ptr, whatever finite insertions and removals the loop body performs (documented exceptions: relinking or invalidating the chain, or invalidating the set, being walked, and invalidating the next greater entry of an ordered walk; such loops still terminate and yield only valid Ptrs). Chain advancers visit a whole chain from any starting link, set advancers a whole key set, and ordered advancers go in ascending order from their start.",
  ["histories", "schedules"], "all interleavings of advance calls with arena modifications, for all advancer kinds and all starting Ptrs",
  "requires interleaving modification with advancing at every position",
  [T + "advancer.rs", A + "arena_iterators.rs", C + "chain_iterators.rs", C + "chain_no_gen_iterators.rs", S + "surject_iterators.rs", O + "ord_iterators.rs"],
  [("index based advancing", A + "arena_iterators.rs PtrAdvancer"), ("bidirectional chain walk with advance limit", C + "chain_iterators.rs ChainPtrAdvancer"), ("ordered walk", O + "ord_iterators.rs")])

p("C11", "Iterators and drains yield every element exactly once",
  "Every iterator (pointers, keys, values, pairs, mutable, per-chain, per-set, by value and draining) yields each element of its scope exactly once, with the same pairing of Ptr and content that a direct lookup gives, in ascending order for ordered arenas, whatever combination of iterator methods drives it and with size hints that admit what is left. A drain leaves the arena empty with its capacity kept and all previous Ptrs invalid even if it is abandoned part-way, and the arena is fully usable afterwards.",
  ["histories"], "all arena states reachable by histories, all iterator kinds, driving adaptors and abandonment points",
  "depends on hole patterns and on where the iteration is abandoned",
  [A + "arena_iterators.rs", C + "chain_iterators.rs", C + "chain_no_gen_iterators.rs", S + "surject_iterators.rs", O + "ord_iterators.rs"],
  [("drain and its drop", A + "arena_iterators.rs Drain"), ("ordered drain", O + "ord_iterators.rs Drain")])

p("C12", "Cloning keeps every Ptr valid and the copies independent",
  "After cloning an arena, cloning into an existing arena, cloning with a mapping, or converting to another arena type by cloning, exactly the Ptrs valid in the source are valid in the result, they refer to the image of the same element, and all relations between elements (chains, key sets, order) carry over. The result is fully functional and from then on changes to one side never affect the other.",
  ["histories"], "all pairs of source and destination states reachable by histories, for every cloning operation, followed by further histories on both sides",
  "correctness depends on the combination of two arbitrary arena states (lengths, capacities, free lists) and on later operations",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("clone_from free list extension", A + "base_arena.rs Arena::clone_from/clone_from_with"), ("structure-preserving conversions", O + "ord_arena.rs OrdArena::clone_to_chain_arena")])

p("C13", "Compression and recasting move everything consistently",
  "Compressing an arena keeps every element and every relation between elements, reports each element exactly once with its true old and new Ptr, makes capacity equal to length, invalidates all old Ptrs, and lays whole chains out contiguously. Recasting with the produced recaster turns each stored old Ptr into the new Ptr of the same element and returns an error for a Ptr that is unknown to the recaster.",
  ["histories"], "all arena states reachable by histories for all arena types, with and without callback, and all stored Ptr graphs",
  "depends on the hole pattern, the chain shapes and the tree shape at the time of compression",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("compress_and_shrink_with", A + "base_arena.rs"), ("chain compression", C + "chain_arena.rs compress_and_shrink_with"), ("ordered compression", O + "ord_arena.rs compress_and_shrink_with")])

p("C14", "Serialization round trips",
  "Serializing any serializable arena and deserializing the result, in a self-describing or a compact binary format, yields an arena with the same elements under the same indexes and the same relations (chains, key sets, order), ready for any further operation. An OrdArena that has not been compressed reports a serialization error instead of writing wrong data.",
  ["histories", "inputs"], "all arena states reachable by histories, for all arena types and Ptr types, followed by further histories on the result",
  "index holes, free list rebuilding and tree rebuilding depend on the whole state",
  [T + "serde.rs", T + "ptr_serde.rs"],
  [("map visitor and free list rebuild", T + "serde.rs"), ("ordered rebuild", O + "ord_arena.rs raw_rebalance_assuming_compressed")])

p("C15", "Deserialization rejects inconsistent input and never builds a broken arena",
  "For any input (whose indexes do not themselves demand more memory than there is), deserializing an arena either returns an error or yields an arena that satisfies all invariants of its type (the key order of an OrdArena is taken from the input as it is): duplicated indexes, out-of-range indexes, one-sided interlinks, wrong key counts, mixed key sets and truncated data are reported as errors. It never panics on malformed input.",
  ["inputs", "fault_sequences"], "all mutations, truncations and hand-crafted inconsistent documents, for all arena types and narrow index types",
  "malformed documents form an unbounded adversarial input space",
  [T + "serde.rs", S + "surject_arena.rs", C + "chain_arena.rs"],
  [("duplicate and range detection", T + "serde.rs"), ("structure validation", C + "chain_arena.rs ChainArena::from_arena"), ("surject validation", S + "surject_arena.rs _check_surjects")])

p("C16", "Index and generation limits are enforced exactly",
  "An arena can hold exactly as many elements as its index type has values, through every insertion method, and its generation counter can be used up to its maximum; operations below these limits never panic, and an operation that would exceed one panics or reports failure instead of wrapping or truncating. A caught limit panic leaves all elements, relations and Ptr validity exactly as they were before the call.",
  ["configurations", "histories"], "all arena types with 8 and 16 bit indexes and generations, all insertion and invalidation operations except the ordered drain (which spends one generation per entry), at and around every limit",
  "tests use wide types whose limits cannot be reached",
  [A + "base_arena.rs", T + "ptr.rs", C + "chain_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs", A + "arena_iterators.rs"],
  [("capacity doubling clamp", A + "base_arena.rs Arena::insert/insert_with/reserve"), ("generation overflow panic", T + "ptr.rs PtrGen::increment")])

p("C17", "A rejected operation changes nothing and gives the arguments back",
  "Whenever an operation reports failure (an error or None because of an invalid Ptr, unmet neighbour condition, full capacity, same set and so on) the arena afterwards is indistinguishable from before the call: contents, relations, Ptr validity, generation and capacity. Values passed by ownership come back in the error, and constructor closures of a rejected insertion are not run.",
  ["histories", "inputs"], "all failing calls on all arena types in all reachable states, for every combination of valid, stale and foreign Ptrs",
  "partial effects of two-Ptr operations only show when exactly one argument is bad",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("validate before mutate", C + "chain_arena.rs ChainArena::insert/connect/exchange_next/swap"), ("fallible insertion", A + "base_arena.rs Arena::try_insert/try_insert_with")])

p("C18", "Capacity is predictable and freed slots are reused",
  "Insertion never changes capacity or allocates while there is a free slot, so an arena whose population stays bounded keeps a bounded capacity however long it runs; when full, capacity grows by a constant factor so that allocations are logarithmically few, and the memory held stays in proportion to capacity. Reserving guarantees the requested insertions without further growth, clearing and draining keep capacity, shrinking operations and compression reduce it to exactly what is needed and give the memory back, and cloning into an arena keeps the capacity it had without ever growing beyond the larger of the two.",
  ["histories"], "all histories on all arena types, in particular long churn with bounded population and repeated cross-cloning",
  "lost free slots and leapfrogging growth only appear over long histories",
  [A + "base_arena.rs", A + "nonzero_inx_vec.rs", S + "surject_arena.rs"],
  [("free list", A + "base_arena.rs freelist_root"), ("exponential growth mitigation", A + "base_arena.rs Arena::clone_from")])

p("C19", "Equality and ordering of arenas mean what they document",
  "Two arenas compare equal exactly if they hold equal elements under equal Ptrs with equal relations (interlinks for chains, the cyclic key order of each set and its value for key sets), regardless of capacity, generation and internal layout; equality is reflexive and symmetric. OrdArenas compare, both for equality and ordering, exactly as the ordered lists of their key-value pairs.",
  ["inputs", "histories"], "all pairs of arenas reachable by histories, including near-identical pairs that differ in one element, one Ptr, one link or one set",
  "needs pairs that differ in exactly one aspect, in any position",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("PartialEq", A + "base_arena.rs"), ("set-relation comparison", S + "surject_arena.rs PartialEq"), ("list comparison", O + "ord_arena.rs PartialEq/PartialOrd/Ord")])

p("C20", "A panic in user code never corrupts memory or revives stale Ptrs",
  "If user code called by an arena (constructor or predicate closures, mapping callbacks, comparison, cloning, destructors) panics and the panic is caught, no value is dropped twice or used after being dropped, and the arena can still be cleared, refilled with correct results, and dropped. A panicking constructor closure or key comparison leaves the contents, relations and Ptr validity exactly as before the call, a panicking removal predicate removes just the elements accepted before it, and no caught panic ever makes an invalidated Ptr resolve again.",
  ["fault_sequences", "histories"], "a panic injected at every call index of every user callback, in states reached by random histories on all arena types",
  "panics in the middle of an operation are not injected by tests",
  [A + "base_arena.rs", A + "nonzero_inx_vec.rs", C + "chain_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("closure evaluated before mutation", A + "base_arena.rs Arena::insert_with/try_insert_with"), ("predicate removal", A + "base_arena.rs Arena::remove_by")])

p("C21", "Rendering shows exactly the given graph, for any graph",
  "For every arena of nodes, rendering either reports an invalid Ptr (exactly if asked to and one is present) or produces a drawing without panicking; in the drawing every node appears with its texts, every declared edge is drawn between its two endpoints or stand-ins for them, and nothing else is drawn as an edge. Edges on cycles, and no others, may be broken by stand-in nodes naming the Ptr they refer to, so that the drawn graph is acyclic, and edges to invalid Ptrs lead to stand-ins marked as invalid.",
  ["inputs"], "all directed multigraphs, including cycles reachable and not reachable from roots, self loops, shared and elided edges, disconnected parts and invalid Ptrs, with a Ptr type wide enough for the stand-ins",
  "tests cover one fixed example graph",
  [R + "grid_process.rs", R + "svg.rs", R + "lib.rs"],
  [("invalid Ptr substitution, edge completion and cycle breaking", R + "grid_process.rs"), ("line emission", R + "svg.rs")])

p("C22", "Rendered drawings are well formed and do not overlap",
  "Every rendered SVG is well-formed XML in which all texts are escaped so that they read back unchanged; node rectangles lie inside the drawing area and never overlap one another. Text and edge end points belonging to a node lie within or on that node. Rendering to a file leaves exactly the rendered SVG in it.",
  ["inputs"], "all directed multigraphs with arbitrary text contents (without control characters, which XML cannot hold), including markup characters, empty and multi-line texts, with a Ptr type wide enough for the stand-ins",
  "layout collisions depend on the global shape of the graph",
  [R + "render_grid.rs", R + "render_node.rs", R + "svg.rs", R + "grid_process.rs"],
  [("grid placement", R + "render_grid.rs RenderGrid::new"), ("escaping", R + "svg.rs")])

p("C23", "The generation counter counts invalidating operations exactly",
  "The generation of an arena starts at 2 and increases by exactly one for every call that invalidates Ptrs (a removal, invalidation, replacement with new Ptr, whole chain or set removal, removal by predicate, clearing, compression), by at least one for a drain of a non-empty arena, and by nothing otherwise, on every arena type. Every newly issued Ptr carries the current generation, operations documented to keep Ptrs valid leave it unchanged, and a clone takes over the generation of its source.",
  ["histories"], "all histories on all arena types with a generation counter",
  "an extra or missing increment has no direct symptom but spends or breaks the stale-handle protection",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("inc_gen", A + "base_arena.rs Arena::inc_gen")])

p("C24", "Operations keep their documented cost at any size",
  "Operations on one or two elements of an Arena, chain arena or SurjectArena, and on an OrdArena access by Ptr, neighbour links, first and last, take constant time whatever the number of elements, the length of the chain or set and the unused capacity (apart from growth); insertion, search and removal in an OrdArena take logarithmic time. Joining single keys with a set of any size is constant in both argument orders, and any sequence of unions costs O(n log n) in total. Filling, iterating, advancing, cloning, compressing, draining and clearing take time proportional to capacity, up to a logarithm.",
  ["inputs", "histories"], "all sizes, chain and set shapes, operand choices and fill levels (dense, with room, holes, nearly emptied)",
  "an operation that walks a whole chain, set or capacity still gives the right result; only its cost at sizes that tests do not use shows it",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("free list", A + "base_arena.rs Arena"), ("smaller set is relabelled", S + "surject_arena.rs SurjectArena::union"), ("key count per set", S + "surject_arena.rs"), ("stored first and last", O + "ord_arena.rs OrdArena::first/last")])

p("C25", "Ptr types are faithful to their index and generation for every width",
  "For every index and generation type and every form of ptr_struct (and PtrNoGen), two Ptrs are equal, hash and order as their pairs of index and generation do (index first), and are shown as different texts exactly if they differ. Index conversions are lossless up to the declared maximum, generations are counted one by one from one and two up to the maximum and incrementing the last one panics, and the default is the invalid Ptr with the greatest index and generation one. A recaster is applied to a Ptr exactly once, with its error handed back unchanged.",
  ["inputs", "configurations"], "all six index types, five generation types and none, all values including both sides of powers of two and limits, with and without serde support",
  "tests use one or two Ptr types and never reach the limits of wide ones; the two implementations (with and without serde) can drift apart",
  [T + "ptr.rs", T + "ptr_serde.rs"],
  [("ptr_struct macro", T + "ptr.rs ptr_struct"), ("PtrInx and PtrGen implementations", T + "ptr.rs impl_gen, impl_ptr_inx"), ("PtrNoGen", T + "ptr.rs PtrNoGen")])

p("C26", "Arenas and links print, compare and hash by exactly what they hold",
  "The debug text of every arena type, plain and alternate, names each element exactly once and in iteration order with its own Ptr, its own content (key and the value of its set) and, for chains, its own two interlinks; elements are themselves formatted in the requested form. A link gives back the interlinks and content it was made of, shows all of them in every text form, is equal to, and ordered with, another exactly like the triples of previous interlink, next interlink and content, and equal links have equal hashes.",
  ["inputs", "histories"], "all arena types in states reached by short random histories with holes and relations, all links including pairs that differ in one part only and contents that are not comparable with themselves, all Ptr types",
  "tests never look at the texts and never compare links that differ in one part",
  [A + "base_arena.rs", C + "chain_arena.rs", C + "chain_no_gen_arena.rs", S + "surject_arena.rs", O + "ord_arena.rs"],
  [("Debug of arenas", A + "base_arena.rs"), ("Debug, Display, PartialEq, PartialOrd, Ord, Hash of links", C + "chain_arena.rs Link"), ("the same without generations", C + "chain_no_gen_arena.rs LinkNoGen")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
