#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
A = "src/avl.rs"; AS = "src/avl/avl_set.rs"; B = "src/btree.rs"; BS = "src/btree/btree_set.rs"
C = "src/btree/core.rs"; F = "src/btree/fixed.rs"; L = "src/lib.rs"; S = "src/stack.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Maps answer every point operation exactly as an ordered map must",
  "After any history of operations, on any of the map types (AVL map, B-tree map of any minimum node occupancy of at least one, fixed-node B-tree map) and whether or not parts are shared with clones, every lookup, insertion, removal, first/last query, pop, entry operation, indexing, length and emptiness query returns exactly what std::collections::BTreeMap returns for the same history, the stored contents agree with it too, and no operation panics except indexing an absent key. Writing through a returned mutable reference or an entry changes exactly that key's value, and entry closures run exactly when and as often as the standard entry API would run them. Lookups by any borrowed form of the key give the same answers as lookups by the key.",
  ["histories", "inputs", "configurations"],
  "every operation history (insert, overwrite, remove, pop, entry, bulk steps in between), key distribution, map size, node occupancy and sharing pattern",
  "The crate's proptests cross-check a few operations on small i8/u16-keyed maps with N=5 and no sharing; rotation/merge/split cases in deep or shared trees, other occupancies, borrowed keys and the entry API are reached by chance or never.",
  [A, B, C, F, L],
  [("AVL insertion/removal with rotations", A + ": ins, rm, rm_leftmost, rm_rightmost, rebal_*, rot_*"),
   ("B-tree insertion/split, removal/rebalance", B + ": Node::insert, split, remove, rebal, merge_kids, rot_*; BTreeMap::rm_and_rebal"),
   ("fixed-node B-tree over raw inline arrays", C + ": Node::insert, ins_split, Splitter, remove, rebal, merge_kids"),
   ("entry API", L + ": Entry::{and_modify, or_aux, or_insert_with_key}")],
  ["return values of every public map method", "contents read back through iteration and lookups", "number and arguments of closure calls"])

p("C02", "Clones are independent: updating one never changes what another observes",
  "Cloning a map, set or stack yields a collection equal to the original, and from then on no operation on either one (insertion, removal, in-place writes through mutable references, iterators or entries, bulk operations, consumption by value, even only partially, or dropping) changes anything that any other clone, ancestor, descendant or collection split from it observes. Every handle always behaves as if it were a private deep copy, however many clones share parts of it and in whatever order they are updated and dropped.",
  ["histories", "inputs", "configurations"],
  "every tree of clones with any interleaving of updates, consumption and drops over its members",
  "The existing tests update mostly unshared collections; copy-on-write errors need a particular sharing pattern on the exact path, sibling or child that a rotation, merge, split, join or iterator touches, and then a check of the handle that was not touched.",
  [A, AS, B, BS, C, F, S, L],
  [("copy-on-write of shared nodes", "Arc::make_mut / Arc::try_unwrap / Rc::make_mut call sites in " + ", ".join([A, B, C, S])),
   ("mutable iteration over shared nodes", A + ": IterMutNode::destruct, range_mut; " + B + ": make_node_iter_mut, make_mut_worklist; " + C + ": NodeIterMut::new"),
   ("consumption of shared nodes", A + ": IntoIterNode; " + B + ": ArcNodeIntoIter; " + C + ": NodeIntoIter; " + S + ": pop, clear")],
  ["full contents of every live handle after each operation on any other handle"])

p("C03", "Trees stay sorted, balanced and correctly sized, so operations stay logarithmic",
  "After any history of operations, construction, splitting, joining, set algebra or deserialization, every AVL and B-tree map and set passes the crate's public invariant check (keys strictly ascending, balanced or equal-depth, node occupancy within bounds, recorded length equal to the number of elements). On every map and set, the fixed-node map included, a lookup, insertion or removal makes a number of key comparisons that is at most logarithmic in the current number of elements.",
  ["histories", "inputs", "configurations"],
  "every history and key order (ascending, descending, clustered, draining, alternating, bulk) at every size and node occupancy",
  "Unit tests check the invariants after short random histories at N=5 (or through private helpers); an imbalance that needs a deep tree, a rebalance with a shared sibling, a join of very different heights or a specific deserialization length is not sampled, and no test counts comparisons.",
  [A, B, BS, AS, C, F, L],
  [("AVL balance bookkeeping", A + ": Node heights, rebal_*, join, join_lf, join_rt, join2"),
   ("B-tree occupancy", B + ": split, rebal, stitch, make_whole; " + C + ": ins_split, rebal, merge_kids"),
   ("public invariant check", L + ": Map::check, Set::check")],
  ["result of the public check after every operation", "number of calls to the key type's comparison per operation"])

p("C04", "Cloning is lazy: clone is constant-cost and updates copy only a path",
  "Cloning a map, set or stack copies no element and does a constant amount of work and allocation whatever the size, and read-only operations never copy elements. A point lookup-for-update, insertion, removal or pop on a collection that shares nothing copies no value and at most the one key it works with (inserting through an entry may duplicate that key), and at most a number proportional to the height of the tree (times the node size for B-trees; for a stack, at most the elements from the top down to the affected one) when it is shared, so that many clones with few updates each keep a number of live elements far below the sum of their sizes. A mutable iterator or range over a shared collection copies only nodes on the paths to what it has visited.",
  ["histories", "inputs", "configurations"],
  "every collection size, sharing pattern and operation, including a second update of a path that has just become private",
  "No existing test counts element copies or allocations: a change that copies everything keeps all results right and every test passing.",
  [A, B, BS, AS, C, F, S],
  [("reference-counted node sharing", "Arc/Rc links in Node/List of " + ", ".join([A, B, C, S])),
   ("copy only what is shared", "Arc::make_mut / try_unwrap call sites")],
  ["calls of the element types' Clone per operation", "heap allocations and bytes per operation", "number of live elements over all clones"])

p("C05", "Every element is dropped exactly once, and none leaks or is lost",
  "Over any history, including sharing between clones, overwriting, bulk operations, draining, and iterators by value, by reference or by range that are consumed from either end and abandoned half way, each element that was created is dropped exactly once and none is used after being dropped. When the last collection, iterator or returned value that holds an element is gone the element is gone, and a collection that shares nothing holds exactly as many live keys and values as its length.",
  ["histories", "inputs", "configurations"],
  "every operation history over clones, with every point at which an iterator can be abandoned",
  "The tests use plain integers, for which a double drop, a leak or a bitwise duplicate is invisible.",
  [A, AS, B, BS, C, F, S],
  [("manual element moves and drops", C + ": InlineVec, Splitter, merge_kids, NodeIntoIter and its Drop"),
   ("destructuring of owned vs shared nodes", A + ": take_node, Merger, split; " + B + ": merge_kids, IntoNodeIter; " + S + ": pop, remove, clear")],
  ["constructions, copies, uses and drops recorded by instrumented element types", "live-element counts after each operation and at the end"])

p("C06", "Iterators yield each element once, in order, from both ends, with exact length",
  "Every iterator over a whole collection (by reference, by mutable reference, by value, keys, values, consuming keys and values, and over sets and stacks) yields exactly the collection's elements, each once, ascending (top to bottom for a stack), whatever mix of steps from the front and, where offered, from the back is used, and it stays exhausted once exhausted. At every step the reported exact length and the size hint agree with the number of elements still to come. In-place changes made through a mutable iterator are stored exactly where made, and dropping any iterator half way leaves the collection (or, for consuming ones, its clones) intact.",
  ["histories", "inputs", "configurations"],
  "every collection shape and sharing pattern, every interleaving of front and back steps, every abandonment point",
  "Tests drive iterators mostly front to back, or in one fixed alternation, on unshared integer collections; the meeting of front and back inside a node depends on tree shape and step order.",
  [A, AS, B, BS, C, F, S],
  [("AVL work-list iteration", A + ": InnerIter, IterNode::destruct"),
   ("B-tree work-list iteration", B + ": InnerIter, BorrowedNodeIter, IntoNodeIter"),
   ("fixed-node iteration", C + ": InnerIter, NodeIter, NodeIntoIter")],
  ["items, len() and size_hint() after each step", "contents after iteration"])

p("C07", "Range iteration yields exactly the elements within the bounds",
  "For every pair of bounds (included, excluded or unbounded, on present or absent keys, given as the key or a borrowed form of it), range and mutable range iteration over maps and sets yields exactly the elements inside the bounds, ascending, each once, under any mix of front and back steps, without panicking, and its size hint never contradicts the number still to come. Writes through a mutable range change exactly the visited elements of that collection. For inverted or empty-by-construction bounds, on which the standard map panics, it either panics or yields nothing, and the collection is unharmed.",
  ["inputs", "histories", "configurations"],
  "every collection shape and sharing pattern, every bound pair, every interleaving of steps",
  "Tests cover a handful of bound pairs on small integer maps; pruning the two edges of a range interacts with tree height, node boundaries, bound kind and step order.",
  [A, AS, B, BS],
  [("AVL range pruning", A + ": range, range_mut"),
   ("B-tree range pruning", B + ": find_range_edges, make_worklist, make_mut_worklist, Range, RangeMut")],
  ["items and size_hint() at each step", "contents after writes", "panics"])

p("C08", "Bulk map operations act as their element-wise definitions",
  "Append, split_off, retain, extend, collection from iterators and arrays, for_each and for_each_mut give exactly the contents (and leave the other operand as) the standard map would, with later or right-hand entries winning; retain calls its closure exactly once per entry in ascending order and keeps the closure's changes to kept values. Map union prefers the right operand's entry, intersection keeps the left operand's, difference and symmetric difference keep entries whose key is in exactly the required operands, and joining around a pivot yields all entries of both sides plus the pivot. All this holds whatever the sizes, overlap, heights and sharing of the operands, including operands that are clones of one another.",
  ["histories", "inputs", "configurations"],
  "every pair of operands (size ratio, interleaving, overlap, sharing) and every split key and predicate",
  "Tests cross-check a few of these on small unshared integer maps; joins of very different heights, shared operands and closure call order are not exercised.",
  [A, B, F, L],
  [("AVL split/join/merge", A + ": split, join, join_rt, join_lf, join2, Merger, retain"),
   ("B-tree rebuilds", B + ": append, retain, split_off")],
  ["contents of results and operands", "closure call order and count"])

p("C09", "Set algebra is exact for every pair of sets",
  "Union, intersection, difference and symmetric difference of two sets, whether obtained lazily by an iterator, through an operator or by consuming constructors, contain exactly the mathematically defined elements, each once and ascending, and leave borrowed operands unchanged. Subset, superset and disjointness tests answer exactly as defined, including for equal and empty sets. This holds for every size ratio, overlap and sharing of the two operands.",
  ["inputs", "histories", "configurations"],
  "every pair of sets, in particular of very different sizes, nested, equal, disjoint, interleaved, and clones modified a little",
  "Tests compare small random integer sets whose sizes are alike; size-dependent algorithm choices, equal operands and structure sharing are barely sampled.",
  [AS, BS, L, A],
  [("lazy set operations by merging", L + ": SortedMergeIter, SetOpIter"),
   ("consuming set operations", AS + ": new_union, new_intersection, new_diff, new_sym_diff; " + BS + ": the same, with size-ratio branches"),
   ("subset tests", AS + ": is_subset (has_all); " + BS + ": is_subset")],
  ["items of iterators and results, answers of the tests, operands afterwards"])

p("C10", "Sets answer every point operation exactly as an ordered set must",
  "After any history of operations, on the AVL set and on B-tree sets of any minimum node occupancy, shared or not, insertion, removal, take, replace, membership, get, first, last, pops, append, split_off, retain, extend, length and emptiness return exactly what std::collections::BTreeSet returns for the same history, and the contents agree. Taking, popping, getting and replacing hand out the stored element that matched, and no operation panics.",
  ["histories", "inputs", "configurations"],
  "every operation history, element distribution, set size, occupancy and sharing pattern",
  "Tests cross-check small unshared integer sets at the default occupancy, where equal elements are indistinguishable.",
  [AS, BS, A, B],
  [("set operations over the maps", AS + " and " + BS + ": insert, replace, take, remove, retain, split_off, append")],
  ["return values", "contents", "identity of returned elements"])

p("C11", "Stacks behave as independent last-in-first-out sequences",
  "After any history of push, pop, top, in-place change of the top, remove at an index, split_off, clear, extend, iteration (also mutable and consuming), membership, comparison and cloning, each stack holds exactly the sequence a private vector would, with index 0 at the bottom and iteration from the top, and its length is exact. Removing at or beyond the length and splitting beyond the length panic and leave the stack unchanged; nothing else panics.",
  ["histories", "inputs"],
  "every history over trees of cloned stacks that share tails at any depth",
  "The tests run scripted or small random sequences on one stack with integers; removal or splitting at a point above or below where clones share their tails is not sampled.",
  [S],
  [("shared linked list", S + ": push, pop, remove, split_off, clear, IterMut, top_mut")],
  ["return values and the contents of every handle after each operation"])

p("C12", "Operations on very long stacks never overflow the call stack",
  "For a stack of any length, every operation (dropping and clearing it, dropping one that shares its tail with other stacks, dropping a half-consumed iterator, cloning, splitting, removing deep down, comparing, iterating and mutating in place) uses a bounded amount of call-stack space.",
  ["inputs", "histories", "configurations"],
  "every length up to what memory holds, every pattern of tail sharing and order of drops",
  "Existing tests drop one long stack on a full-size thread; recursion on another path or in another sharing pattern shows only at large sizes and small thread stacks.",
  [S],
  [("iterative teardown", S + ": Drop, clear, pop, split_off, remove")],
  ["completion of the operation on a thread with a small call stack"])

p("C13", "Serialization round-trips, and any announced size deserializes safely",
  "Serializing a map announces exactly its number of entries and emits each entry once in ascending key order, and deserializing what a map or set serialized (through any data format) yields an equal, well-formed collection. Deserializing any sequence of entries, whether sorted or not, with duplicates or not, and whatever size the data format announces in advance (none, exact, too small, too large, absurd), yields the collection that inserting the entries one by one would yield. An error of the data format at any point is returned as that error without panicking or leaking elements.",
  ["inputs", "fault_sequences", "configurations"],
  "every entry sequence, every announced size, every error position, every node occupancy",
  "The tests round-trip a few collections with exact hints; the bulk builder takes different paths for every length and hint, and errors in the middle are not tested.",
  [L, A, B, AS, BS],
  [("bulk construction by halves", L + ": serde::MapVisitor::visit_map, build_map_by_halves"),
   ("halves and stitching", A + " and " + B + ": make_half, stitch, make_whole"),
   ("serialization", A + " and " + B + ": Serialize impls")],
  ["sequence of serializer calls", "resulting contents and public check", "panics, errors, live elements"])

p("C14", "Maps and sets can be cloned, sent and used across threads without races",
  "Maps and sets of thread-safe elements can be moved to and shared with other threads, and when threads concurrently clone, read, update, iterate, consume and drop collections that share parts, every thread's collection behaves exactly as in a sequential run of that thread's own operations. There is no data race, no element is dropped twice or leaked, and sharing across threads needs no locking by the user.",
  ["schedules", "histories"],
  "every interleaving of the operations of any number of threads over collections that share parts",
  "No existing test uses threads; races on reference counts or on in-place updates of nodes believed private need a specific interleaving and a detector to be seen.",
  [A, AS, B, BS, C, F],
  [("atomically reference-counted nodes with in-place update of private ones", "Arc::make_mut / get_mut / try_unwrap call sites in " + ", ".join([A, B, C]))],
  ["data-race reports", "each thread's contents against its own model", "element drop accounting", "whether the types are Send and Sync"])

p("C15", "Safe use of the public API never causes undefined behaviour",
  "No sequence of safe calls to any collection, with element types of any size and alignment (zero-sized and heap-owning ones included), reads uninitialised or freed memory, goes out of bounds, breaks aliasing rules, creates invalid values, or leaks nodes. This includes iterators from both ends abandoned at any point, cloning, consuming shared collections, orderings that contradict themselves, and use from several threads wherever the types let it compile.",
  ["histories", "inputs", "configurations"],
  "every sequence of safe calls, element type layout and sharing pattern",
  "The unit tests run natively with integers: uninitialised reads, aliasing violations and out-of-bounds moves of plain data do not crash them.",
  [C, F, A, B, S],
  [("unsafe inline vectors", C + ": InlineVec, Splitter, merge_kids, NodeIntoIter"),
   ("nodes reused in place", A + ", " + B + ", " + S + ": make_mut, get_mut, try_unwrap")],
  ["reports of an undefined-behaviour interpreter and of the address sanitizer"])

p("C16", "A panic in user code never corrupts memory or other collections",
  "When a user-supplied comparison, clone, drop, closure or source iterator panics at any point inside any operation, no element is dropped twice or used after being dropped and no undefined behaviour follows, then or in later use of the collection, which can still be read (lookups, iteration and ranges agreeing on what it still holds, and its length not understating it), cleared, refilled and dropped. Every other collection, including clones that share parts with the one being operated on, keeps exactly its contents and keeps working; an operation that only reads leaves its own collection intact as well.",
  ["crash_points", "histories", "inputs"],
  "every call into user code of every operation as the panic point, on any collection shape and sharing pattern",
  "No existing test makes user code panic; each operation has tens of points at which it can, and only instrumented elements reveal the damage.",
  [C, F, A, B, AS, BS, S],
  [("moves between raw arrays around user calls", C + ": InlineVec::clone/clear, merge_kids, rot_lf, rot_rt, ins_split, NodeIntoIter::drop"),
   ("roots taken out during updates", A + ": rot_*, retain, append, split_off; " + B + ": retain, split_off")],
  ["instrumented element states after the unwinding", "contents of all handles", "sanitizer reports"])

p("C17", "Equality, ordering, hashing and debug text depend only on the contents",
  "Two collections of one type compare equal exactly when their element sequences are equal, order lexicographically by those sequences, hash equally when equal, and print exactly their elements in order, no matter how they were built, what shape they have inside, or what they share. Equality, partial and total ordering are mutually consistent, and elements that are not equal to themselves are handled as the standard collections handle them.",
  ["histories", "inputs"],
  "every pair of collections reached by any two histories",
  "Tests compare a few collections built the same way, so that shape-dependence or an ignored tail cannot show.",
  [A, AS, B, BS, S],
  [("comparison by iteration", A + ", " + B + ", " + AS + ", " + BS + ", " + S + ": PartialEq, PartialOrd, Ord, Hash, Debug impls")],
  ["results of ==, partial_cmp, cmp, hash and {:?}"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
