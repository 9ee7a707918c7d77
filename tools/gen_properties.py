#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
L="src/lib.rs"; I="src/iter.rs"; O="src/generic_impl/ord.rs"; R="src/generic_impl/rope.rs"; G="src/generic_impl/gap_buffer.rs"; F="src/generic_impl/len_finder.rs"; E="src/rle.rs"
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
HASH="src/sim.rs: with --cfg gbtree_sim the iteration order of the tree's internal hash maps is chosen by the simulator"
P=[
p("C01","A shared tree reads back as the history its callers produced",
  "When several callers take turns editing one tree (by position, by held handle, in bulk, by removal, by update), reading it after every turn yields exactly the sequence that the completed operations, applied in completion order to a plain list, would give: nothing lost, duplicated, reordered or altered. This does not depend on how the callers' turns interleave, on which elements agree to merge with or absorb their neighbours, or on hash order. Elements are merged only with a neighbour that agreed to it, in that order. No operation made within its documented preconditions panics or fails to return, and elements and positions returned by operations are the right ones.",
  ["schedules","histories","fault_sequences","configurations"],
  "every interleaving of callers' turns, every history of operations, every sequence of declined merges/absorptions, every internal hash order, additive and non-additive summaries, zero-length elements",
  "The unit tests replay a few recorded single-caller histories on Rope and a 1000-key ordered set; generic elements that decline merges, bulk insertion, prepend, update with splits and removals are untested or tested at one size, and no test interleaves callers.",
  [L,I],[("insert / split / lack handling",L),("bulk insertion and adjacent merging",L),("update_leaf, update_leaf_by_search, update, update_leaves_with_arg_in_ranges",L)],
  ["BTree::iter","BTree::iter_range","returned cursors and elements"],
  [("internal nodes and leaves","shape of the tree","src/lib.rs struct BTree")],HASH),
p("C02","Cached summaries always equal a recomputation from the elements",
  "After every completed, declined or abandoned operation, the summary reported for the whole tree and the summary shown for every subtree to lookups and filters equal the summary recomputed from the elements actually below it, for summaries maintained by differences and for summaries recomputed from children. The tree's own consistency check accepts it.",
  ["schedules","histories","fault_sequences","configurations"],
  "every interleaved history of edits, with declined merges, abandoned drains, failed callbacks, snapshots/restores and any hash order of the internal maps",
  "check() is called at the end of a handful of rope/ord tests; the difference-propagation path through a hash map of dirty nodes, prepend, bulk insertion and range update have no test that compares summaries.",
  [L,I],[("recursive_update_cache / update_dirty_cache_map",L),("Drain::drop cache repair",I),("split_node, split_root, handle_lack_single_layer",L)],
  ["BTree::root_cache","caches passed to iter_with_filter","BTree::check"],
  [("per-child cache","summary of the subtree","src/lib.rs struct Child"),("root_cache","summary of the tree","src/lib.rs struct BTree")],HASH),
p("C03","A held element handle denotes its element until it is removed, never another",
  "A caller that keeps handles to elements, and refreshes them only from what editing operations report (position of the new element, handles of newly split leaves), can at any later time, whatever other callers did in between, use the handle to reach exactly the item it was recorded for (after its element was split, the handle denotes the part that begins it and the reported handles the other parts). Once an element has been removed its handle resolves to nothing and removing it again does nothing, even after its storage is reused; this holds until the tree is cleared or replaced.",
  ["schedules","histories","fault_sequences"],
  "every interleaving of one caller's acquire/use of handles with other callers' edits, stalls of any length, storage reuse",
  "No test holds a handle across another edit, checks reported split leaves, or uses a stale handle.",
  [L,I],[("generational arenas",L),("SplittedLeaves reporting",L),("leaf parent pointers re-targeted on split/merge/borrow",L)],
  ["BTree::get_elem","BTree::remove_leaf","SplittedLeaves / Cursor results"]),
p("C04","Draining removes exactly its range, however far the consumer got",
  "A drain over a range yields the range's items in order; whenever the consumer stops (before the first item, after any number of items, at the end, or by failing with a panic that unwinds through the drain) the tree afterwards holds exactly the items outside the range, in order, with correct summaries, lookups and accounting, and further operations behave normally. This includes empty ranges, empty trees, ranges reaching either end and drains of everything.",
  ["crash_points","histories","schedules"],
  "every abandonment point of every drain (including consumer panic), on every tree shape reachable by an interleaved history",
  "Tests drain a few ranges to completion; none abandons a drain midway, panics in the consumer, or drains an empty range/tree.",
  [I,L],[("Drain::new boundary splits",I),("Drain::drop: ensure_finished, delete spans, repair caches, seal",I)],
  ["items yielded by the drain","BTree::iter","BTree::root_cache","BTree::check"],
  [("start/end paths","boundary of the removed span","src/iter.rs struct TempStore")]),
p("C05","A caller's failed callback leaves no partial edit behind",
  "If user code called by the tree fails (panics) before it has changed anything itself - a lookup strategy while searching, an input iterator while supplying elements for a bulk insertion or build, an element deciding whether it absorbs or merges a single insertion, the closure of a single-element, range or filtered update on its first call - and the caller catches the failure, the tree still holds exactly the sequence it held before that operation, with correct summaries and lookups, and it stays fully usable.",
  ["crash_points","histories","fault_sequences"],
  "every callback invocation at which the failure can strike, in every state reached by an interleaved history",
  "No test makes a callback fail.",
  [L,I],[("search completes before mutation",L),("bulk input is collected before the tree is touched",L),("closure runs before structure changes",L)],
  ["BTree::iter","BTree::root_cache","later operations"]),
p("C06","Ordered map and set behave as a sorted map for interleaved clients",
  "For any interleaving of clients inserting, overwriting and deleting keys, including deletions of absent keys, the ordered map and set report exactly the contents, order, length, emptiness and deletion results of a sorted map that received the completed operations in the same order. A key comparison that fails (panics) in the middle of an insertion or deletion leaves contents and length unchanged, and the container remains usable.",
  ["schedules","histories","crash_points"],
  "every interleaving of clients' operations over any key distribution and every comparison at which a failure can strike",
  "Tests insert 1000 random or ascending keys and delete only present keys, single client, no failures; order/length after mixed histories and absent-key deletions are not compared with a model.",
  [O,L],[("binary search over (min,max) summaries",O),("insert into leaf's parent with split",O),("remove_leaf with rebalancing",L)],
  ["OrdTreeMap::{insert,delete,iter,iter_key,len,is_empty}","OrdTreeSet::{insert,delete,iter,len,is_empty}"],
  [("len","number of keys","src/generic_impl/ord.rs struct OrdTreeMap")]),
p("C07","The rope equals a plain string under interleaved editors",
  "For any interleaving of editors inserting and deleting text at their own positions (typing, backspacing, pasting, range deletion with any bounds, clearing), after every edit the rope's text, length and emptiness equal those of a plain string given the same edits. A request outside the text (insertion beyond the end) fails without changing the text or disturbing later edits by any editor, and deletion ranges beyond the end or reversed are clamped.",
  ["schedules","histories","fault_sequences","configurations"],
  "every interleaving of editors' sessions, which decides when the remembered last edit position is reused; rejected requests at any point; both leaf-buffer sizes",
  "Tests replay a few recorded single-editor sequences with one-to-three digit strings; the remembered edit position across clear(), failed requests and other editors' edits is not exercised.",
  [R,G,L,F],[("last-edit cursor cache",R),("gap buffer shift/split/merge",G),("update_leaf, update_leaf_by_search, drain fast paths",L)],
  ["Rope::{to_string,len,is_empty,check}"],
  [("cursor","remembered position of the last edit","src/generic_impl/rope.rs struct Rope")],
  "src/generic_impl/gap_buffer.rs: --cfg gbtree_sim selects the 12-byte buffer that the unit tests use"),
p("C08","Lookups, order and navigation agree with the linear sequence",
  "In every state reached by interleaved editing, looking up a position finds the item at that position (and reports not-found exactly beyond the end), counting what precedes a cursor gives back its position, comparing two cursors held by different callers gives their order in the sequence, and stepping to the next or previous element, one offset forward, or across an element boundary, or iterating a range or a filtered set of elements visits precisely the neighbours, offsets or elements that the sequence defines.",
  ["schedules","histories","configurations"],
  "all cursors held by any caller across any interleaving of other callers' edits, over every reachable tree shape",
  "Tests compare cursor order only in one freshly built set of 100 keys and index counting in two tiny ropes.",
  [L,F,I],[("query_with_finder_return, LengthFinder",F),("compare_pos, visit_previous_caches, next/prev_same_level_in_node, shift_path_by_one_offset, prefer_left/right",L),("iter_range, iter_with_filter",L)],
  ["QueryResult","Ordering results","cursors returned by navigation","elements yielded"]),
p("C09","A snapshot and its origin never affect each other; a restore is exact",
  "After a snapshot (clone) of a tree is taken, no sequence of edits, drains or failures on either tree changes contents, summaries, lookups or handle meaning of the other. Discarding the live tree at any point and restarting from a snapshot restores exactly the state at the time of the snapshot, and handles that were valid then work on the restored tree.",
  ["crash_points","histories","schedules"],
  "every interleaving of edits on the branches and every point at which the live tree is lost and restarted from a snapshot",
  "No test clones a tree.",
  [L],[("Clone for BTree/Node/Child/LeafNode",L)],
  ["BTree::clone","iter/root_cache/get_elem on both trees"]),
p("C10","Range updates touch exactly the requested items exactly once",
  "Updating a range, a set of sub-ranges of elements, one element, or all elements matched by a summary filter applies the caller's change exactly once per request to every item inside and to no item outside, whatever splits it causes, in whatever order requests are given or internal maps are iterated, and whatever other callers did before; items the change makes removable disappear and nothing else does; reported new elements are exactly the ones created, and summaries reflect the update.",
  ["schedules","histories","configurations","fault_sequences"],
  "every interleaved history preceding the update, every order of sub-range requests, every hash order, every pattern of merge declines",
  "One integration test updates a flat range of 100 one-item elements and one bumps a range; sub-range updates, updates that remove elements, and filtered updates have no test at all (the code says 'need better test coverage').",
  [L],[("update: split ends, visit, dirty map, remove",L),("update_leaves_with_arg_in_ranges: split set, dirty map, re-insert",L),("update_leaf / update_leaf_by_search",L),("update_cache_and_elem_with_filter",L)],
  ["values of all items afterwards","returned handles","BTree::root_cache"],None,HASH),
p("C11","Removed elements release their storage; no unreachable nodes remain",
  "At every quiescent point, after any interleaved history including abandoned drains, failed callbacks and removals by update, the number of nodes the tree reports equals the number of nodes reachable from it, every element has the same depth, and a tree whose last element was removed reports a single (root) node.",
  ["histories","crash_points","schedules"],
  "every interleaved history with abandoned drains and failed callbacks, every order of removal",
  "node_len is not tested; a leak or an empty node left behind is invisible to content comparisons.",
  [L,I],[("purge / remove_internal_node / handle_lack_* / try_reduce_levels",L),("Drain::drop deleted list",I)],
  ["BTree::node_len","nodes visited by iter_with_filter","BTree::check"]),
p("C12","A tree rebuilt from exported elements is equivalent and fully editable",
  "After a crash of the holder, rebuilding from the exported elements (of any number, from any source that under-reports its size) gives a tree with the same contents, summaries, lookups and node accounting, on which every further interleaved history behaves as on the original. Bulk insertion into an empty tree gives the same result as inserting the elements one by one. A source that fails midway leaves nothing behind.",
  ["crash_points","histories","configurations"],
  "every element count, every source size report, every crash point in the source, and every history continued on the rebuilt tree",
  "One test builds a rope of fixed size from chunks; continuing to edit a rebuilt tree, sizes around the fan-out powers, and bulk insertion into an empty tree are untested.",
  [L],[("FromIterator for BTree",L),("create_subtrees_from_elem",L)],
  ["BTree::from_iter","BTree::insert_many_by_cursor","BTree::iter/root_cache/check"]),
p("C13","Slicing and partial update of one element are exact",
  "Splitting or slicing an element by any range, or updating a sub-range of it, yields parts whose concatenation is the original element with only the sub-range changed.",
  ["inputs"],"every element and range",
  "Only two fixed slices are tested.",
  [E,G],[("Sliceable::{slice,split,update_with_split}",E)],["returned parts"]),
p("C14","Operation cost and depth stay logarithmic",
  "The work of a point operation and the depth of the tree stay logarithmic in the number of elements after any history.",
  ["histories"],"every history",
  "Only ascending insertion prints its depth.",
  [L],[("split/lack handling",L)],["BTree::depth"]),
p("C15","Shared read access from several threads is safe",
  "Any number of threads may read one tree at the same time, and each sees the same unchanging contents.",
  ["schedules"],"every thread schedule",
  "No test uses threads.",
  [L],[("forbid(unsafe_code), no interior mutability",L)],["auto traits Send/Sync"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
