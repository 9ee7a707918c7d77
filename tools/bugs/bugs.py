BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))
L, I, O, R = 'lib.rs', 'iter.rs', 'generic_impl/ord.rs', 'generic_impl/rope.rs'

bug('c03-stale-slot', 'C03', [(L, '''        let leaf = self.leaf_nodes.get_mut(path.leaf.0)?;
        let parent_idx = leaf.parent();
        let parent = self.in_nodes.get_mut(leaf.parent).unwrap();
        let index = Self::get_leaf_slot(path.leaf.0, parent);
        let child = parent.children.remove(index);
''', '''        let (leaf_index, leaf) = self.leaf_nodes.get_by_slot_mut(path.leaf.0.slot())?;
        let path = Cursor {
            leaf: leaf_index.into(),
            ..path
        };
        let parent_idx = leaf.parent();
        let parent = self.in_nodes.get_mut(leaf.parent).unwrap();
        let index = Self::get_leaf_slot(path.leaf.0, parent);
        let child = parent.children.remove(index);
''')], 'a handle kept after its element was removed, the storage reused by another caller, then a removal through the old handle',
'a stale handle removes an unrelated element', '''
let mut t: BTree<D> = BTree::new();
t.push(solo(&[1]));
let b = t.push(solo(&[2]));
t.push(solo(&[3]));
assert_eq!(t.remove_leaf(b), Some(solo(&[2])));
assert_eq!(t.remove_leaf(b), None);
t.push(solo(&[4]));
assert_eq!(t.remove_leaf(b), None);
assert_eq!(all(&t), [1, 3, 4]);
sound(&t);''')

bug('c03-update-report', 'C03', [(L, '''        } = self.split_leaf_if_needed(start);
        splitted.push_option(new_leaf);
        let Some(start) = start else {''', '''        } = self.split_leaf_if_needed(start);
        if range.end.leaf != range.start.leaf {
            splitted.push_option(new_leaf);
        }
        let Some(start) = start else {''')], 'a range update strictly inside one element, which splits it into three',
'the handle of the middle part is never reported, so nobody can follow it', '''
let mut t: BTree<D> = BTree::new();
let a = t.push(solo(&[1, 2, 3, 4, 5, 6])).leaf;
t.push(solo(&[9]));
let s = t.update(
    Cursor { leaf: a, offset: 2 }..Cursor { leaf: a, offset: 4 },
    &mut |e| {
        let n: isize = e.v.len() as isize;
        e.v.iter_mut().for_each(|x| *x += 100);
        Some(Sum { len: 0, sum: 100 * n })
    },
);
assert_eq!(all(&t), [1, 2, 103, 104, 5, 6, 9]);
let mut parts: Vec<Vec<u32>> = s.arr.iter().map(|x| t.get_elem(*x).unwrap().v.clone()).collect();
parts.sort();
assert_eq!(parts, [vec![5, 6], vec![103, 104]]);
sound(&t);''')

bug('c04-unwind', 'C04', [(I, '''        self.ensure_finished();
        let Some(store) = self.store.take() else {''', '''        if std::thread::panicking() && !self.done {
            // the consumer failed: leave the rest of the range alone
            self.end_cursor = Some(Cursor {
                leaf: self.current_path.last().unwrap().arena.unwrap_leaf().into(),
                offset: 0,
            });
        }
        self.ensure_finished();
        let Some(store) = self.store.take() else {''')], 'a consumer that panics part way through a drain, so that the drain is dropped while unwinding',
'the rest of the drained range stays behind in an inconsistent tree', '''
let mut t: BTree<D> = BTree::new();
let mut at = vec![];
for i in 0..200 {
    at.push(t.push(solo(&[i])).leaf);
}
let from = t.query::<LengthFinder>(&30).unwrap();
let to = t.query::<LengthFinder>(&170).unwrap();
let mut seen = 0;
assert!(fails(|| {
    for x in t.drain(from..to) {
        seen += 1;
        if x.v[0] == 75 {
            panic!("consumer");
        }
    }
}));
assert_eq!(seen, 46);
let want: Vec<u32> = (0..30).chain(170..200).collect();
assert_eq!(all(&t), want);
sound(&t);''')

bug('c05-stream', 'C05', [(L, '''        let mut data = Vec::with_capacity(data_iter.size_hint().0 + 2);
''', '''        if cursor.is_none() && self.is_empty() {
            // nothing to search for: append as they come
            for elem in [first, second].into_iter().chain(data_iter) {
                self.push(elem);
            }
            return;
        }

        let mut data = Vec::with_capacity(data_iter.size_hint().0 + 2);
''')], 'a bulk insertion into an empty tree whose source fails after at least two elements',
'the elements supplied before the failure are left in the tree', '''
let mut t: BTree<D> = BTree::new();
t.insert_many_by_cursor(None, (0..30).map(|i| solo(&[i])));
assert_eq!(all(&t), (0..30).collect::<Vec<_>>());
sound(&t);
t.clear();
assert!(fails(|| t.insert_many_by_cursor(None, (0..30).map(|i| if i == 20 { panic!("source") } else { solo(&[i]) }))));
assert!(all(&t).is_empty());
assert!(t.is_empty());
sound(&t);''')

bug('c05-take-out', 'C05', [(L, '''        let node = self.leaf_nodes.get_mut(node_idx.0).unwrap();
        let mut parent_idx = node.parent();
        let (need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
''', '''        // take the element out while the caller works on it
        let mut node = self.leaf_nodes.remove(node_idx.0).unwrap();
        let mut parent_idx = node.parent();
        let (need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
        self.leaf_nodes.insert_at(node_idx.0, node);
        let node = self.leaf_nodes.get_mut(node_idx.0).unwrap();
''')], 'the closure of a single-element update panics and the caller catches it',
'the element is gone and its parent still refers to it', '''
let mut t: BTree<D> = BTree::new();
let mut h = vec![];
for i in 0..40 {
    h.push(t.push(solo(&[i])).leaf);
}
t.update_leaf(h[7], |e| {
    e.v.push(1000);
    (true, None, None)
});
assert!(fails(|| t.update_leaf(h[20], |_| panic!("closure"))));
assert_eq!(t.get_elem(h[20]), Some(&solo(&[20])));
let mut want: Vec<u32> = (0..40).collect();
want.insert(8, 1000);
assert_eq!(all(&t), want);
sound(&t);''')

bug('c06-count-first', 'C06', [(O, '''        let Some(result) = self.tree.query::<OrdTrait<Key, Value>>(&key) else {
            self.len += 1;
            self.tree.push''', '''        self.len += 1;
        let Some(result) = self.tree.query::<OrdTrait<Key, Value>>(&key) else {
            self.tree.push'''), (O, '''        if !result.found {
            self.len += 1;
            let tree''', '''        if !result.found {
            let tree'''), (O, '''        } else {
            let leaf = self.tree.get_elem_mut(result.leaf()).unwrap();
''', '''        } else {
            self.len -= 1;
            let leaf = self.tree.get_elem_mut(result.leaf()).unwrap();
''')], 'a key comparison that panics during an insertion', 'the length counts an insertion that did not happen', '''
use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LEFT: AtomicUsize = AtomicUsize::new(usize::MAX);
#[derive(Debug, Clone, PartialEq, Eq)]
struct K(u32);
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &Self) -> Ordering {
        if LEFT.fetch_sub(1, SeqCst) == 0 {
            panic!("comparison");
        }
        self.0.cmp(&o.0)
    }
}
let mut m: OrdTreeMap<K, u32> = OrdTreeMap::new();
for i in 0..100 {
    m.insert(K(i * 2), i);
}
for i in 0..100 {
    m.insert(K(i * 2), i + 1);
}
assert_eq!(m.len(), 100);
LEFT.store(3, SeqCst);
assert!(fails(|| m.insert(K(51), 0)));
LEFT.store(usize::MAX, SeqCst);
assert_eq!(m.len(), 100);
assert_eq!(m.iter().count(), 100);
m.insert(K(51), 0);
assert_eq!(m.len(), m.iter().count());''')

bug('c08-compare-deep', 'C08', [(L, '''        while node_a.parent != node_b.parent {
            node_a''', '''        if node_a.parent != node_b.parent {
            node_a''')], 'two cursors whose nearest common ancestor is at least three levels up',
'the order of the two cursors is wrong', '''
let mut t: BTree<D> = BTree::new();
let mut h = vec![];
for i in 0..3000 {
    h.push(t.push(solo(&[i])).leaf);
}
for i in (0..3000).step_by(37) {
    for j in (0..3000).step_by(53) {
        let c = t.compare_pos(Cursor { leaf: h[i], offset: 0 }, Cursor { leaf: h[j], offset: 0 });
        assert_eq!(c, i.cmp(&j), "{} {}", i, j);
    }
}''')

bug('c08-prev-deep', 'C08', [(L, '''                    let parent_prev = self.get_internal(parent_prev);
                    parent_prev.children.last().map(|x| x.arena)
''', '''                    let parent_prev = self.get_internal(parent_prev);
                    parent_prev.children.first().map(|x| x.arena)
''')], 'stepping backwards across a boundary between subtrees of depth two or more',
'stepping to the previous element skips a whole node', '''
let mut t: BTree<D> = BTree::new();
for i in 0..600 {
    t.push(solo(&[i]));
}
let mut c = t.end_cursor().unwrap();
let mut want = 599;
loop {
    assert_eq!(t.get_elem(c.leaf).unwrap().v, [want]);
    match t.prev_elem(c) {
        Some(p) => c = p,
        None => break,
    }
    want -= 1;
}
assert_eq!(want, 0);''')

bug('c08-iter-range-end', 'C08', [(L, '''            if end.leaf == leaf && end.offset == 0 && !inclusive_end {''',
'''            if end.leaf == leaf && start.leaf != leaf && end.offset == 0 {''')], 'a range iteration whose included end is at the very start of an element',
'the element at the end is left out', '''
let mut t: BTree<D> = BTree::new();
let mut h = vec![];
for i in 0..50 {
    h.push(Cursor { leaf: t.push(solo(&[i, 100 + i])).leaf, offset: 0 });
}
let got: Vec<u32> = t.iter_range(h[3]..=h[33]).map(|s| s.elem.v[0]).collect();
assert_eq!(got, (3..=33).collect::<Vec<_>>());
let got: Vec<u32> = t.iter_range(h[3]..h[33]).map(|s| s.elem.v[0]).collect();
assert_eq!(got, (3..33).collect::<Vec<_>>());''')

bug('c09-clone-links', 'C09', [(L, '''        Self {
            in_nodes: self.in_nodes.clone(),
            leaf_nodes: self.leaf_nodes.clone(),
            root: self.root,
            root_cache: self.root_cache.clone(),
        }
    }
}

pub struct FindResult''', '''        let mut tree = Self {
            in_nodes: self.in_nodes.clone(),
            leaf_nodes: self.leaf_nodes.clone(),
            root: self.root,
            root_cache: self.root_cache.clone(),
        };
        tree.update_children_parent_slot_from(tree.root, 0);
        tree
    }
}

pub struct FindResult'''), (L, '''            parent: self.parent,
            parent_slot: self.parent_slot,
            children: self.children.clone(),
''', '''            parent: self.parent,
            parent_slot: u8::MAX,
            children: self.children.clone(),
''')], 'a snapshot of a tree of at least four levels that is later edited or navigated',
'the snapshot has the contents but nodes below the second level do not know their place', '''
let mut t: BTree<D> = BTree::new();
let mut h = vec![];
for i in 0..1500 {
    h.push(t.push(solo(&[i])).leaf);
}
let mut s = t.clone();
for i in 0..200 {
    s.remove_leaf(Cursor { leaf: h[i * 7], offset: 0 });
    s.insert_by_path(Cursor { leaf: h[i * 7 + 1], offset: 0 }, solo(&[5000 + i as u32]));
}
let want: Vec<u32> = (0..1500u32).map(|i| if i % 7 == 0 && i < 1400 { 5000 + i / 7 } else { i }).collect();
assert_eq!(all(&s), want);
assert_eq!(all(&t), (0..1500).collect::<Vec<_>>());
sound(&s);
sound(&t);''')

bug('c10-unsorted-args', 'C10', [(L, '''        args.sort_by_key(|x| x.0);
        let mut new_leaves''', '''        if args.iter().any(|x| x.1.start > 0) {
            args.sort_by_key(|x| x.0);
        }
        let mut new_leaves'''),], 'requests for two elements in alternating order, all of which start at the beginning of their element',
'the second request for an element is applied to what is left of it, or panics', '''
let mut t: BTree<D> = BTree::new();
let a = t.push(solo(&[1, 2, 3, 4, 5, 6])).leaf;
let b = t.push(solo(&[11, 12, 13, 14, 15, 16])).leaf;
t.update_leaves_with_arg_in_ranges(
    vec![(b, 0..5, 1000), (a, 0..4, 100), (b, 0..2, 3000), (a, 0..6, 500)],
    |e, k: &u32| e.v.iter_mut().for_each(|x| *x += k),
);
assert_eq!(all(&t), [601, 602, 603, 604, 505, 506, 4011, 4012, 1013, 1014, 1015, 16]);
sound(&t);''')

bug('c10-two-parts', 'C10', [(L, '''            let parent = if parent.children.len() + count >= MAX_CHILDREN_NUM {''',
'''            let parent = if parent.children.len() + 1 >= MAX_CHILDREN_NUM {'''), (L, '''            let count = if new_insert_1.is_some() { 1 } else { 0 }
                + if new_insert_2.is_some() { 1 } else { 0 };
''', '')], 'an update that splits an element into three while its node has exactly ten children',
'the update panics half way', '''
for n in 1..40 {
    for k in 0..n {
        let mut t: BTree<D> = BTree::new();
        let mut h = vec![];
        for i in 0..n {
            h.push(t.push(solo(&[i * 3, i * 3 + 1, i * 3 + 2])).leaf);
        }
        t.update_leaf(h[k as usize], |e| {
            let c = solo(&[e.v[2]]);
            let b = solo(&[e.v[1]]);
            e.v.truncate(1);
            (true, Some(b), Some(c))
        });
        assert_eq!(all(&t), (0..n * 3).collect::<Vec<_>>());
        sound(&t);
    }
}''')

bug('c11-old-root', 'C11', [(L, '''            self.in_nodes.remove(self.root.unwrap()).unwrap();
            self.root = new_root;
''', '''            self.root = new_root;
''')], 'a bulk insertion into an empty tree', 'the old root stays allocated for ever', '''
let mut t: BTree<D> = BTree::new();
for _ in 0..5 {
    t.insert_many_by_cursor(None, (0..30).map(|i| solo(&[i])));
    assert_eq!(t.node_len(), reach(&t));
    let (a, b) = (t.query::<LengthFinder>(&0).unwrap(), t.query::<LengthFinder>(&30).unwrap());
    drop(t.drain(a..b));
    assert!(t.is_empty());
    assert_eq!(t.node_len(), 1);
}''')

bug('c12-slot-carry', 'C12', [(L, '''        // recursively create the internal nodes in higher level, until we reach root
        while internal_nodes.len() > 1 {''', '''        // recursively create the internal nodes in higher level, until we reach root
        let mut parent_slot = 0;
        while internal_nodes.len() > 1 {'''), (L, '''            let mut parent_slot = 0;
            // eprintln!(''', '''            // eprintln!(''')], 'a tree rebuilt from a number of elements that needs a third level and does not fill its second one',
'nodes of the upper levels do not know their place, so later edits corrupt the tree', '''
for n in [1u32, 9, 10, 11, 99, 100, 101, 105, 111, 150, 205, 999, 1000, 1001, 1234] {
    let mut t: BTree<D> = (0..n).map(|i| solo(&[i])).collect();
    assert_eq!(all(&t), (0..n).collect::<Vec<_>>());
    sound(&t);
    let mut c = t.start_cursor().unwrap();
    for i in 1..n {
        c = t.next_elem(c).unwrap();
        assert_eq!(t.get_elem(c.leaf).unwrap().v, [i]);
    }
    t.push(solo(&[n]));
    assert_eq!(all(&t), (0..=n).collect::<Vec<_>>());
    sound(&t);
}''')

bug('c12-full-nodes', 'C12', [(L, '''            let parent = match internal_nodes.last_mut() {
                Some(last) if last.children.len() < max_child_size => last,
                Some(last) => {
                    // calculate cache
                    B::calc_cache_internal(&mut last.cache, &last.children);
                    let index = tree.in_nodes.insert(Default::default());
                    internal_nodes.push(TempInternalNode {
                        children: Default::default(),
                        cache: Default::default(),
                        arena_index: index,
                    });
                    internal_nodes.last_mut().unwrap()
                }
                _ => unreachable!(),
            };

            let leaf''', '''            let parent = match internal_nodes.last_mut() {
                Some(last) if last.children.len() < MAX_CHILDREN_NUM => last,
                Some(last) => {
                    // calculate cache
                    B::calc_cache_internal(&mut last.cache, &last.children);
                    let index = tree.in_nodes.insert(Default::default());
                    internal_nodes.push(TempInternalNode {
                        children: Default::default(),
                        cache: Default::default(),
                        arena_index: index,
                    });
                    internal_nodes.last_mut().unwrap()
                }
                _ => unreachable!(),
            };

            let leaf''')], 'an insertion into a tree that was rebuilt from more than eleven elements',
'the node has no room and the insertion panics', '''
for n in [1u32, 10, 12, 13, 30, 130] {
    for k in 0..n {
        let mut t: BTree<D> = (0..n).map(|i| solo(&[i])).collect();
        let mut want: Vec<u32> = (0..n).collect();
        t.insert::<LengthFinder>(&(k as usize), solo(&[7777]));
        want.insert(k as usize, 7777);
        assert_eq!(all(&t), want);
        sound(&t);
    }
}''')

bug('c02-stop-early', 'C02', [(L, '''                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                this.calc_cache(&mut parent.children[this_arr as usize].cache, None);
                this_idx = parent_idx;
''', '''                let (parent, this) = self.get2_mut(parent_idx, this_idx);
                let cache = &mut parent.children[this_arr as usize].cache;
                let old = cache.clone();
                this.calc_cache(cache, None);
                if this.parent.is_some() && old == *cache && this_idx != node_idx {
                    // nothing changes further up
                    return;
                }
                this_idx = parent_idx;
''')], 'a drain over several subtrees that ends exactly at a node boundary, in a tree of at least three levels',
'summaries above the point where nothing changed are not recomputed although whole subtrees were removed there', '''
for n in [150u32, 400, 1500] {
    for w in (1..n as usize).step_by(13) {
        for a in (0..n as usize - w).step_by(n as usize / 20) {
            let mut t: BTree<N> = (0..n).map(|i| solo(&[i])).collect();
            let (x, y) = (t.query::<LengthFinder>(&a).unwrap(), t.query::<LengthFinder>(&(a + w)).unwrap());
            drop(t.drain(x..y));
            assert_eq!(all(&t).len(), n as usize - w);
            sound(&t);
        }
    }
}''')

bug('c01-insert-pos', 'C01', [(L, '''                    let offset = leaf.elem.rle_len();
                    leaf.elem.merge_right(&data);
                    Cursor {
                        leaf: index,
                        offset,
                    }
                } else {
                    // Insert''', '''                    leaf.elem.merge_right(&data);
                    let offset = leaf.elem.rle_len() - data.rle_len();
                    Cursor {
                        leaf: index,
                        offset: offset.min(cursor.offset.saturating_sub(data.rle_len())),
                    }
                } else {
                    // Insert''')], 'an inserted element that is merged into the one before it',
'the reported position of the inserted element is wrong', '''
let mut t: BTree<D> = BTree::new();
let a = t.push(glue(&[1, 2, 3])).leaf;
t.push(solo(&[9]));
let (c, _) = t.insert_by_path(Cursor { leaf: a, offset: 3 }, glue(&[4, 5]));
assert_eq!(all(&t), [1, 2, 3, 4, 5, 9]);
assert_eq!(c, Cursor { leaf: a, offset: 3 });
sound(&t);''')

bug('c08-filter-prefix', 'C08', [(L, '''                            let (drill, new_r) = f(&child.cache);
                            if drill {
                                queue.push_back((child.arena, r));
                            }
                            r += new_r;
''', '''                            let (drill, new_r) = f(&child.cache);
                            if drill {
                                queue.push_back((child.arena, r));
                            }
                            if drill || child.is_internal() {
                                r += new_r;
                            }
''')], 'a filtered iteration that skips an element before a matching one in the same node',
'the reported prefix of later elements does not include the skipped element', '''
let t: BTree<D> = (0..300).map(|i| solo(&[i])).collect();
let got: Vec<(isize, u32)> = t
    .iter_with_filter(|c: &Sum| (c.len > 1 || c.sum % 3 == 0, c.len))
    .map(|(n, e)| (n, e.v[0]))
    .collect();
assert_eq!(got, (0..300u32).filter(|x| x % 3 == 0).map(|x| (x as isize, x)).collect::<Vec<_>>());''')

bug('c07-reversed', 'C07', [(R, """        let end = end.min(self.len());
        let start = start.min(end);
""", """        let end = end.min(self.len());
        let start = start.min(self.len());
""")], 'a deletion whose bounds are reversed', 'the request panics or removes text instead of doing nothing', """
let mut rope = Rope::new();
let mut model = String::new();
for i in 0..40 {
    let t = format!("line {:03} ", i);
    rope.insert(model.len() / 2, &t);
    model.insert_str(model.len() / 2, &t);
}
for (a, b) in [(200usize, 100usize), (9, 3), (300, 299), (5, 0), (1000, 20), (1000, 2000)] {
    let r = fails(|| rope.delete_range(a..b));
    assert!(!r, "{} {}", a, b);
    assert_eq!(rope.to_string(), model);
    assert_eq!(rope.len(), model.len());
}
rope.insert(10, "x");
model.insert(10, 'x');
assert_eq!(rope.to_string(), model);""")

bug('c11-empty-collect', 'C11', [(L, """        debug_assert_eq!(internal_nodes.len(), 1);
        let node = internal_nodes.remove(0);
""", """        debug_assert_eq!(internal_nodes.len(), 1);
        let node = internal_nodes.remove(0);
        if node.children.is_empty() {
            return tree;
        }

""")], 'a rebuild from no elements at all', 'an unreachable node stays allocated', """
let mut t: BTree<D> = std::iter::empty::<El>().collect();
assert_eq!(t.node_len(), 1);
sound(&t);
for i in 0..20 {
    t.push(solo(&[i]));
}
sound(&t);""")


bug('c14-split-tail', 'C14', [(L, """        let split = at.unwrap_or(node.children.len() / 2);
""", """        // keep the node nearly full, most trees are built by appending
        let split = at.unwrap_or(node.children.len() - 2);
""")], 'a tree that is not built by appending', 'nodes with two children pile up: several times more nodes and a deeper tree', """
let mut t: BTree<D> = BTree::new();
for i in 0..4000u32 {
    t.prepend(solo(&[i]));
}
sound(&t);
let nodes = t.node_len() - 4000;
assert!(nodes < 1400, "{}", nodes);
assert!(t.depth() <= 6);
let mut t: BTree<D> = BTree::new();
for i in 0..4000u32 {
    t.push(solo(&[i]));
}
assert!(t.node_len() - 4000 < 1400);""")

bug('c14-lazy-shrink', 'C14', [(L, """        let child = parent.children.remove(index);
        let is_lack = parent.is_lack();
        let is_empty = parent.is_empty();
        debug_assert_eq!(child.arena.unwrap(), path.leaf.0);
""", """        let child = parent.children.remove(index);
        // rebalance lazily
        let is_lack = parent.len() < 2;
        let is_empty = parent.is_empty();
        debug_assert_eq!(child.arena.unwrap(), path.leaf.0);
""")], 'scattered removals of most of a large tree, never of all the elements of a node',
'the tree keeps the depth and nodes it had when it was large', """
let mut t: BTree<D> = BTree::new();
let mut at = vec![];
for i in 0..4000u32 {
    at.push(t.push(solo(&[i])));
}
let mut left = 4000;
for i in 0..4000 {
    if i % 3 != 0 {
        assert!(t.remove_leaf(at[i]).is_some());
        left -= 1;
    }
}
sound(&t);
let nodes = t.node_len() - left;
assert!(nodes < left * 2 / 5, "{} nodes {} elements", nodes, left);""")

bug('c14-drain-levels', 'C14', [(I, """        for i in 1..path.len() - 1 {
            let Some(node)""", """        for i in (1..path.len() - 1).rev().take(1) {
            let Some(node)""")], 'drains that cut through several levels, many times',
'thin upper levels stay: a small tree remains deep', """
// every round cuts a hole through all levels and fills it again
let mut t: BTree<D> = (0..6000).map(|i| solo(&[i])).collect();
let mut x = 12345u64;
for round in 0..300 {
    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let n = t.root_cache().len as usize;
    if n < 40 {
        break;
    }
    let a = (x >> 33) as usize % (n - 20);
    let w = 1 + (x >> 20) as usize % 40;
    t.drain_by_query::<LengthFinder>(a..(a + w).min(n));
    sound(&t);
    let leaves = t.iter().count();
    let nodes = t.node_len() - leaves;
    assert!(nodes <= 6 + leaves * 34 / 100, "round {}: {} nodes, {} elements", round, nodes, leaves);
}
let n = t.root_cache().len as usize;
t.drain_by_query::<LengthFinder>(3..n - 3);
assert!(t.depth() <= 3, "{}", t.depth());""")

bug('c14-dirty-walk', 'C14', [(L, """        self.in_nodes
            .get(self.root.unwrap_internal())
            .unwrap()
            .calc_cache(&mut self.root_cache, None);
    }

    /// Removed deleted""", """        // the root is last in the list
        for (_, node) in self.in_nodes.iter() {
            node.calc_cache(&mut self.root_cache, None);
        }
        self.in_nodes
            .get(self.root.unwrap_internal())
            .unwrap()
            .calc_cache(&mut self.root_cache, None);
    }

    /// Removed deleted""")], 'a sub-range update of one element of a large tree', 'the update visits every node of the tree', """
let t: BTree<D> = (0..20000).map(|i| solo(&[i])).collect();
let mut t = t;
let l = t.query::<LengthFinder>(&777).unwrap().leaf();
let before = CALLS.with(|c| c.get());
t.update_leaves_with_arg_in_ranges(vec![(l, 0..1, 5u32)], |e, a| e.v[0] += *a);
let calls = CALLS.with(|c| c.get()) - before;
sound(&t);
assert!(calls < 300, "{}", calls);""")

bug('c09-clone-rebuild', 'C09', [(L, '''        Self {
            in_nodes: self.in_nodes.clone(),
            leaf_nodes: self.leaf_nodes.clone(),
            root: self.root,
            root_cache: self.root_cache.clone(),
        }''', '''        // a snapshot can be stored compactly when nodes have been released
        if self.leaf_nodes.len() * 2 < self.leaf_nodes.capacity() && !self.is_empty() {
            return self.iter().cloned().collect();
        }

        Self {
            in_nodes: self.in_nodes.clone(),
            leaf_nodes: self.leaf_nodes.clone(),
            root: self.root,
            root_cache: self.root_cache.clone(),
        }''')], 'a snapshot taken after most elements were removed, then a handle from before the snapshot used on it',
'handles do not survive the snapshot', """
let mut t: BTree<D> = BTree::new();
let hs: Vec<_> = (0..200u32).map(|i| t.push(solo(&[i])).leaf).collect();
for (i, h) in hs.iter().enumerate() {
    if i % 5 != 0 {
        assert!(t.remove_leaf(Cursor { leaf: *h, offset: 0 }).is_some());
    }
}
let mut c = t.clone();
sound(&c);
assert_eq!(all(&c), all(&t));
for (i, h) in hs.iter().enumerate() {
    assert_eq!(c.get_elem(*h), t.get_elem(*h), "{}", i);
}
assert_eq!(c.remove_leaf(Cursor { leaf: hs[100], offset: 0 }), Some(solo(&[100])));
sound(&c);
sound(&t);""")

bug('c10-early-break', 'C10', [(L, '''                    for (_, r, a) in group.iter() {
                        if r.start <= cur_range.start && cur_range.end <= r.end {
                            f(&mut elem, a);
                        }
                    }
''', '''                    for (_, r, a) in group.iter() {
                        if r.start > cur_range.start {
                            // the others start even later
                            break;
                        }
                        if cur_range.end <= r.end {
                            f(&mut elem, a);
                        }
                    }
''')], 'several sub-ranges of the same element, given in an order that is not ascending',
'an earlier sub-range is not updated', """
let mut t: BTree<D> = BTree::new();
let a = t.push(solo(&[1, 2, 3, 4, 5, 6, 7, 8])).leaf;
t.push(solo(&[9]));
t.update_leaves_with_arg_in_ranges(vec![(a, 1..3, 100u32), (a, 5..7, 200)], |e, x| e.v.iter_mut().for_each(|y| *y += x));
assert_eq!(all(&t), [1, 102, 103, 4, 5, 206, 207, 8, 9]);
let mut t: BTree<D> = BTree::new();
let a = t.push(solo(&[1, 2, 3, 4, 5, 6, 7, 8])).leaf;
t.push(solo(&[9]));
t.update_leaves_with_arg_in_ranges(vec![(a, 5..7, 200u32), (a, 1..3, 100)], |e, x| e.v.iter_mut().for_each(|y| *y += x));
assert_eq!(all(&t), [1, 102, 103, 4, 5, 206, 207, 8, 9]);
sound(&t);""")

bug('c11-empty-chain', 'C11', [(I, '''                deleted.push(parent.children.remove(start_path[level].arr as usize).arena);
                self.tree''', '''                // it has no children left, nothing to release below it
                parent.children.remove(start_path[level].arr as usize);
                self.tree''')], 'a drain that empties a whole inner node and starts and ends in it',
'the emptied node stays allocated', """
let mut r = Rng(7);
for n in [30usize, 120, 500] {
    for _ in 0..60 {
        let mut t: BTree<D> = (0..n as u32).map(|i| solo(&[i])).collect();
        let a = r.next(n);
        let b = (a + r.next(25)).min(n);
        t.drain_by_query::<LengthFinder>(a..b);
        sound(&t);
    }
}""")

bug('c11-empty-node', 'C11', [(L, '''        let node = self.in_nodes.remove(node).unwrap();
        if let Some(parent_idx) = node.parent {''', '''        let Node {
            parent,
            parent_slot,
            ..
        } = *self.in_nodes.get(node).unwrap();
        if let Some(parent_idx) = parent {'''), (L, '''            parent.children.remove(node.parent_slot as usize);
            let is_lack = parent.is_lack();
            let is_empty = parent.is_empty();
            self.update_children_parent_slot_from(parent_idx, node.parent_slot as usize);
            if is_empty {
                self.remove_internal_node(parent_idx.unwrap_internal());
            } else if is_lack {
                self.handle_lack_recursively(parent_idx);
            }''', '''            parent.children.remove(parent_slot as usize);
            let is_lack = parent.is_lack();
            let is_empty = parent.is_empty();
            self.update_children_parent_slot_from(parent_idx, parent_slot as usize);
            if is_empty {
                self.in_nodes.remove(node);
                self.remove_internal_node(parent_idx.unwrap_internal());
            } else if is_lack {
                self.handle_lack_recursively(parent_idx);
            }''')], 'removing the only element of a node (such a node is only made by building a tree of certain sizes)',
'the emptied node stays allocated', """
for n in [11u32, 21, 101, 111, 1001] {
    let mut t: BTree<D> = (0..n).map(|i| solo(&[i])).collect();
    sound(&t);
    let last = t.last_leaf().unwrap();
    assert_eq!(t.remove_leaf(Cursor { leaf: last, offset: 0 }), Some(solo(&[n - 1])));
    assert_eq!(all(&t), (0..n - 1).collect::<Vec<_>>());
    sound(&t);
}""")

bug('c04-before-sibling', 'C04', [(I, '''            if start_result.offset == 0 {
                tree.prev_same_level_in_node(node_idx)
            } else {''', '''            if start_path[..start_path.len()].last().unwrap().arr == 0 {
                // nothing of this node is left before the range
                None
            } else if start_result.offset == 0 {
                tree.prev_same_level_in_node(node_idx)
            } else {''')], 'a drain that starts exactly at the first element of an inner node and ends under another branch of the tree',
'summaries of the branch in which the drain started stay stale', """
let mut r = Rng(3);
for n in [120usize, 700, 1500] {
    for _ in 0..60 {
        let mut t: BTree<D> = (0..n as u32).map(|i| solo(&[i])).collect();
        let a = r.next(n / 10) * 10;
        let b = a + r.next(n - a);
        t.drain_by_query::<LengthFinder>(a..b);
        sound(&t);
        let left: Vec<u32> = (0..a as u32).chain(b as u32..n as u32).collect();
        assert_eq!(all(&t), left);
        for (i, x) in left.iter().enumerate() {
            let q = t.query::<LengthFinder>(&i).unwrap();
            assert_eq!(t.get_elem(q.leaf()).unwrap().v, [*x]);
        }
    }
}""")

bug('c01-batch-forward', 'C01', [(L, '''        for item in data.drain(inserted..).rev() {
            let (p, _) = self.insert_by_path(pos, item);
            pos = p
        }''', '''        for item in data.drain(inserted..) {
            let (p, _) = self.insert_by_path(pos, item);
            // go on behind the item
            pos = Cursor {
                leaf: p.leaf,
                offset: self.get_leaf(p.leaf.into()).elem.rle_len(),
            }
        }''')], 'a bulk insertion in front of an element that takes in the first of the new elements but not the second',
'the rest of the batch ends up behind that element', """
for (batch, at) in [
    (vec![glue(&[1]), solo(&[2])], 0usize),
    (vec![solo(&[1]), solo(&[2])], 0),
    (vec![glue(&[1, 2]), solo(&[3]), solo(&[4])], 3),
    (vec![solo(&[1]), glue(&[2]), solo(&[3])], 5),
] {
    let mut t: BTree<D> = BTree::new();
    t.push(glue(&[10, 11, 12]));
    t.push(solo(&[20, 21]));
    t.push(glue(&[30, 31]));
    let mut model = vec![10, 11, 12, 20, 21, 30, 31];
    let c = t.query::<LengthFinder>(&at).unwrap().cursor;
    model.splice(at..at, batch.iter().flat_map(|e| e.v.clone()));
    t.insert_many_by_cursor(Some(c), batch.into_iter());
    assert_eq!(all(&t), model);
    sound(&t);
}""")

bug('c07-first-slot', 'C07', [(R, '''                if f.slot == 0 || f.parent.is_none() {
                    None
                } else {''', '''                if f.parent.is_none() {
                    None
                } else if f.slot == 0 {
                    // there is no chunk in front of it in this node
                    Some(Cursor {
                        pos: index,
                        leaf: q.leaf(),
                    })
                } else {''')], 'an insertion in front of the first chunk of a node that has no room for it, then another edit near that place',
'the remembered place is wrong and the next edit lands elsewhere', """
let mut rope = Rope::new();
let mut model = String::new();
let mut r = Rng(11);
for i in 0..3000 {
    let at = if i % 3 == 0 { r.next(model.len() + 1) } else { (r.next(400)).min(model.len()) };
    let big = "x".repeat(90);
    let text = if i % 2 == 0 { format!("{:03}{}", i, big) } else { format!("<{}>", i) };
    let at = if i % 7 == 0 { 0 } else { at };
    rope.insert(at, &text);
    model.insert_str(at, &text);
    let at2 = (at + 2).min(model.len());
    rope.insert(at2, "typed");
    model.insert_str(at2, "typed");
    if i % 10 == 0 {
        assert_eq!(rope.to_string(), model, "{}", i);
        assert_eq!(rope.len(), model.len());
    }
}
assert_eq!(rope.to_string(), model);""")

bug('c02-lack-order', 'C02', [(L, '''                if is_first {
                    parent.children.remove(child_arr_pos as usize);
                    is_first = false;
                } else {
                    B::apply_cache_diff(&mut parent.children[child_arr_pos as usize].cache, &diff);
                }

                let is_lack = parent.is_lack();

                if is_child_lack {
                    self.handle_lack_single_layer(child_idx);
                }
''', '''                let is_lack = parent.is_lack();
                if is_first {
                    parent.children.remove(child_arr_pos as usize);
                    is_first = false;
                } else if is_child_lack {
                    // the summaries of the nodes it touches are recomputed
                    self.handle_lack_single_layer(child_idx);
                } else {
                    B::apply_cache_diff(&mut parent.children[child_arr_pos as usize].cache, &diff);
                }
''')], 'a removal through update_leaf_by_search from a node with the minimal number of children whose parent has no other child',
'summaries on the way to the root stay stale', """
for (n, from) in [(21u32, 20u32), (101, 100), (103, 100), (1001, 1000), (1004, 1000), (106, 100), (1010, 1000)] {
    let mut t: BTree<D> = (0..n).map(|i| solo(&[i])).collect();
    let mut left = n;
    for _ in from..n {
        t.update_leaf_by_search::<LengthFinder>(&(left as usize - 1), |e, _| {
            let d = Sum { len: -(e.v.len() as isize), sum: -(e.v.iter().map(|x| *x as isize).sum::<isize>()) };
            e.v.clear();
            Some((d, None, None))
        });
        left -= 1;
        assert_eq!(all(&t), (0..left).collect::<Vec<_>>());
        sound(&t);
    }
}""")

bug('c05-filter-take', 'C05', [(L, '''                    let node = self.in_nodes.get_mut(idx).unwrap();
                    for child in node.children.iter_mut() {
                        if f(&mut child.cache) {
                            stack.push(child.arena);
                        }
                    }
''', '''                    let mut children = take(&mut self.in_nodes.get_mut(idx).unwrap().children);
                    children
                        .iter_mut()
                        .filter_map(|child| f(&mut child.cache).then_some(child.arena))
                        .for_each(|child| stack.push(child));
                    self.in_nodes.get_mut(idx).unwrap().children = children;
''')], 'the filter of update_cache_and_elem_with_filter fails and the caller goes on with the tree',
'everything below the node being filtered is gone', """
let mut t: BTree<D> = (0..300u32).map(|i| solo(&[i])).collect();
assert!(fails(|| t.update_cache_and_elem_with_filter(|_| panic!("filter"), |_| {})));
assert_eq!(all(&t), (0..300).collect::<Vec<_>>());
sound(&t);
t.push(solo(&[300]));
assert_eq!(all(&t), (0..301).collect::<Vec<_>>());
sound(&t);""")

bug('c10-end-of-node', 'C10', [(L, '''            } else {
                new_pos = self.next_elem(pos);
            }
            leaf_slot + 1
        } else {''', '''            } else {
                // nothing follows
                new_pos = None;
            }
            leaf_slot + 1
        } else {''')], 'a range update that ends (or starts) exactly at the end of an element which is the last one of its node, with more elements after that node',
'the update runs on to the end of the tree, or does nothing', '''
let mut t: BTree<D> = (0..40).map(|i| solo(&[i, i])).collect();
let ls: Vec<LeafIndex> = t.iter_range(..).map(|s| s.cursor().leaf).collect();
for k in 3..30 {
    let mut u = t.clone();
    let mut n = 0;
    u.update(Cursor { leaf: ls[k - 2], offset: 0 }..Cursor { leaf: ls[k], offset: 2 }, &mut |e| {
        n += 1;
        let d: isize = e.v.len() as isize;
        e.v.iter_mut().for_each(|x| *x += 100);
        Some(Sum { len: 0, sum: 100 * d })
    });
    assert_eq!(n, 3);
    sound(&u);
}
let _ = &mut t;''')

bug('c03-merge-next', 'C03', [(L, '''                        self.recursive_update_cache(next_idx.into(), B::USE_DIFF, None);
                        splitted.push(next_idx.into());
                        return (true, splitted);''', '''                        self.recursive_update_cache(next_idx.into(), B::USE_DIFF, None);
                        return (true, splitted);''')], 'an update of one element that splits it, where the second part merges into the next element',
'nobody is told where the second part went', '''
let mut t: BTree<D> = BTree::new();
let a = t.push(solo(&[1, 2, 3])).leaf;
let b = t.push(glue(&[7])).leaf;
let (ok, s) = t.update_leaf(a, |e| {
    let r = e.split(1);
    (true, Some(glue(&r.v)), None)
});
assert!(ok);
assert_eq!(all(&t), [1, 2, 3, 7]);
assert_eq!(runs(&t), [vec![1], vec![2, 3, 7]]);
assert_eq!(s.arr.iter().copied().collect::<Vec<_>>(), [b]);
sound(&t);''')

bug('c08-search-slot', 'C08', [(L, '''                    let is_full = parent.is_full();
                    if !parent.is_child_leaf() {
                        self.update_children_parent_slot_from(''', '''                    let is_full = parent.is_full();
                    // a full node is about to be split, which renumbers its children
                    if !is_full && !parent.is_child_leaf() {
                        self.update_children_parent_slot_from(''')], 'an update through a lookup that inserts an element and makes a node split whose parent becomes full too; then stepping or comparing positions there',
'nodes of the left half do not know their place', '''
let mut t: BTree<D> = BTree::new();
for i in 0..60 {
    t.push(solo(&[i]));
}
for k in 0..400u32 {
    let p = (k as usize * 7) % 11;
    t.update_leaf_by_search::<LengthFinder>(&p, |e, _| {
        e.v[0] += 1;
        Some((Sum { len: 1, sum: 1 + 5 }, Some(solo(&[5])), None))
    });
    let ls: Vec<LeafIndex> = t.iter_range(..).map(|s| s.cursor().leaf).collect();
    for w in ls.windows(2) {
        assert_eq!(t.next_elem(Cursor { leaf: w[0], offset: 0 }).map(|c| c.leaf), Some(w[1]));
        assert_eq!(t.prev_elem(Cursor { leaf: w[1], offset: 0 }).map(|c| c.leaf), Some(w[0]));
        let (x, y) = (Cursor { leaf: w[0], offset: 0 }, Cursor { leaf: w[1], offset: 0 });
        assert_eq!(t.compare_pos(x, y), std::cmp::Ordering::Less);
    }
}
sound(&t);''')

bug('c05-root-taken', 'C05', [(L, '''        let mut is_full = false;
        let mut splitted: SplittedLeaves = Default::default();
        let ans = match leaf.elem.try_insert(cursor.offset, data) {''', '''        let mut is_full = false;
        let mut splitted: SplittedLeaves = Default::default();
        // the summary as it was, whatever splitting does to it on the way
        let root_cache = take(&mut self.root_cache);
        let ans = match leaf.elem.try_insert(cursor.offset, data) {'''), (L, '''        self.recursive_update_cache(cursor.leaf.into(), B::USE_DIFF, cache_diff);
        if is_full {
            self.split(parent_idx);
        }

        (ans, splitted)''', '''        self.root_cache = root_cache;
        self.recursive_update_cache(cursor.leaf.into(), B::USE_DIFF, cache_diff);
        if is_full {
            self.split(parent_idx);
        }

        (ans, splitted)''')], 'an element that fails while it decides whether it absorbs or merges an insertion, and a caller that survives it',
'the summary of the whole tree is empty afterwards', '''
#[derive(Debug, Clone)]
struct Bomb(u32);
impl HasLength for Bomb { fn rle_len(&self) -> usize { 1 } }
impl Sliceable for Bomb { fn _slice(&self, _: Range<usize>) -> Self { self.clone() } }
impl Mergeable for Bomb {
    fn can_merge(&self, rhs: &Self) -> bool { if self.0 == 13 || rhs.0 == 13 { panic!("refuse") } false }
    fn merge_right(&mut self, _: &Self) { unreachable!() }
    fn merge_left(&mut self, _: &Self) { unreachable!() }
}
impl TryInsert for Bomb { fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> { Err(e) } }
impl CanRemove for Bomb { fn can_remove(&self) -> bool { false } }
#[derive(Debug)]
struct B;
impl BTreeTrait for B {
    type Elem = Bomb;
    type Cache = isize;
    type CacheDiff = isize;
    fn calc_cache_internal(c: &mut isize, cs: &[Child<Self>]) -> isize {
        let n: isize = cs.iter().map(|x| *x.cache()).sum();
        let d = n - *c;
        *c = n;
        d
    }
    fn apply_cache_diff(c: &mut isize, d: &isize) { *c += d }
    fn merge_cache_diff(a: &mut isize, b: &isize) { *a += b }
    fn get_elem_cache(_: &Bomb) -> isize { 1 }
    fn new_cache_to_diff(c: &isize) -> isize { *c }
    fn sub_cache(a: &isize, b: &isize) -> isize { a - b }
}
impl UseLengthFinder<B> for B { fn get_len(c: &isize) -> usize { *c as usize } }
let mut t: BTree<B> = (0..20).filter(|x| *x != 13).map(Bomb).collect();
let n = *t.root_cache();
let r = catch_unwind(AssertUnwindSafe(|| t.insert::<LengthFinder>(&5, Bomb(13))));
assert!(r.is_err());
assert_eq!(*t.root_cache(), n);
assert_eq!(t.iter().count() as isize, n);
t.insert::<LengthFinder>(&6, Bomb(50));
assert_eq!(*t.root_cache(), n + 1);
t.check();''')

bug('c01-prepend-consent', 'C01', [(L, '''        let ans = if elem.can_merge(&leaf.elem) {
            leaf.elem.merge_left(&elem);''', '''        let ans = if leaf.elem.can_merge(&elem) {
            leaf.elem.merge_left(&elem);''')], 'a prepended element and a first element that would merge in the other order but not in this one',
'two elements are merged that must not be', '''
/// an interval of numbers; merges only with the one that continues it
#[derive(Debug, Clone, PartialEq)]
struct Iv(u32, u32);
impl HasLength for Iv { fn rle_len(&self) -> usize { (self.1 - self.0) as usize } }
impl Sliceable for Iv { fn _slice(&self, r: Range<usize>) -> Self { Iv(self.0 + r.start as u32, self.0 + r.end as u32) } }
impl Mergeable for Iv {
    fn can_merge(&self, rhs: &Self) -> bool { self.1 == rhs.0 }
    fn merge_right(&mut self, rhs: &Self) { self.1 = rhs.1 }
    fn merge_left(&mut self, left: &Self) { self.0 = left.0 }
}
impl TryInsert for Iv { fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> { Err(e) } }
impl CanRemove for Iv { fn can_remove(&self) -> bool { self.0 == self.1 } }
#[derive(Debug)]
struct B;
impl BTreeTrait for B {
    type Elem = Iv;
    type Cache = isize;
    type CacheDiff = isize;
    fn calc_cache_internal(c: &mut isize, cs: &[Child<Self>]) -> isize {
        let n: isize = cs.iter().map(|x| *x.cache()).sum();
        let d = n - *c;
        *c = n;
        d
    }
    fn apply_cache_diff(c: &mut isize, d: &isize) { *c += d }
    fn merge_cache_diff(a: &mut isize, b: &isize) { *a += b }
    fn get_elem_cache(e: &Iv) -> isize { e.rle_len() as isize }
    fn new_cache_to_diff(c: &isize) -> isize { *c }
    fn sub_cache(a: &isize, b: &isize) -> isize { a - b }
}
let mut t: BTree<B> = BTree::new();
t.push(Iv(3, 6));
t.prepend(Iv(6, 9));
let v: Vec<Iv> = t.iter().cloned().collect();
assert_eq!(v, [Iv(6, 9), Iv(3, 6)]);
t.check();''')

bug('c10-lost-part', 'C10', [(L, '''                if let Some(new_1) = new_insert_1 {
                    node.elem = new_1;
                    new_insert_1 = new_insert_2.take();
                }''', '''                if let Some(new_1) = new_insert_1.take() {
                    node.elem = new_1;
                }''')], 'an update of one element that leaves it empty and returns two new elements',
'the second new element is lost', '''
let mut t: BTree<D> = BTree::new();
t.push(solo(&[0]));
let a = t.push(solo(&[1, 2, 3])).leaf;
t.push(solo(&[9]));
let (ok, _) = t.update_leaf(a, |e| {
    let mut l = std::mem::take(e);
    let r = l.split(1);
    (true, Some(l), Some(r))
});
assert!(ok);
assert_eq!(all(&t), [0, 1, 2, 3, 9]);
sound(&t);''')

bug('c10-narrow-split', 'C10', [(L, '''                let mut last_index = first_split;
                for &index in split_at.iter().skip(1) {
                    let next_elem = elem.split(index - last_index);''', '''                let mut last_index = first_split;
                for &index in split_at.iter().skip(1) {
                    let width = (index - last_index) as u32;
                    let next_elem = elem.split(width as usize);''')],
  'an element longer than 2^32 (a run-length encoded span) and two requests whose ends are more than 2^32 apart',
  'update_leaves_with_arg_in_ranges splits the element at the wrong place: units outside the requested range are changed',
  '''
    /// a span of numbers
    #[derive(Debug, Clone, PartialEq)]
    struct Sp { len: usize, tag: isize }
    impl HasLength for Sp { fn rle_len(&self) -> usize { self.len } }
    impl Sliceable for Sp { fn _slice(&self, r: Range<usize>) -> Self { Sp { len: r.end - r.start, tag: self.tag } } }
    impl Mergeable for Sp {
        fn can_merge(&self, _: &Self) -> bool { false }
        fn merge_right(&mut self, _: &Self) { unreachable!() }
        fn merge_left(&mut self, _: &Self) { unreachable!() }
    }
    impl TryInsert for Sp { fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> { Err(e) } }
    impl CanRemove for Sp { fn can_remove(&self) -> bool { self.len == 0 } }
    #[derive(Debug)]
    struct B;
    impl BTreeTrait for B {
        type Elem = Sp;
        type Cache = isize;
        type CacheDiff = isize;
        fn calc_cache_internal(c: &mut isize, cs: &[Child<Self>]) -> isize {
            let n: isize = cs.iter().map(|x| *x.cache()).sum();
            let d = n - *c;
            *c = n;
            d
        }
        fn apply_cache_diff(c: &mut isize, d: &isize) { *c += d }
        fn merge_cache_diff(a: &mut isize, b: &isize) { *a += b }
        fn get_elem_cache(e: &Sp) -> isize { e.len as isize }
        fn new_cache_to_diff(c: &isize) -> isize { *c }
        fn sub_cache(a: &isize, b: &isize) -> isize { a - b }
    }
    let big = (1usize << 32) + 10;
    let mut t: BTree<B> = BTree::new();
    let a = t.push(Sp { len: 3 * big, tag: 0 }).leaf;
    t.update_leaves_with_arg_in_ranges(vec![(a, big..2 * big + 5, 1isize)], |e, d| e.tag += d);
    let v: Vec<(usize, isize)> = t.iter().map(|e| (e.len, e.tag)).collect();
    assert_eq!(v, [(big, 0), (big + 5, 1), (big - 5, 0)]);
    t.check();
''')

bug('c02-inner-remove', 'C02', [(L, '''        let elem = self.leaf_nodes.remove(child.arena.unwrap()).unwrap().elem;

        self.recursive_update_cache(parent_idx, B::USE_DIFF, None);''', '''        let elem = self.leaf_nodes.remove(child.arena.unwrap()).unwrap().elem;
        // a summary that is not kept by differences describes the two ends of its node
        let at_the_edge = index == 0 || index == parent.children.len();

        if B::USE_DIFF || at_the_edge {
            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
        }''')],
  'a tree whose summaries are recomputed, not kept by differences, and that depend on every element; removal of an element in the middle of its node by its handle',
  'every summary above the removed element still counts it', '''
let mut t: BTree<N> = (0..300).map(|i| solo(&[i, i + 1000])).collect();
sound(&t);
for p in [5, 301, 333, 590, 7] {
    let q = t.query::<LengthFinder>(&p).unwrap();
    t.remove_leaf(q.cursor).unwrap();
    sound(&t);
}
assert_eq!(t.root_cache().len, 590);''')

bug('c11-drain-aunt', 'C11', [(I, '''                    for x in &start_parent.children[del_start as usize..] {
                        deleted.push(x.arena);
                    }
                    delete_range(''', '''                    if level + 2 == path_len {
                        // deleted on the way up, there are only leafless nodes above
                        for x in &start_parent.children[del_start as usize..] {
                            deleted.push(x.arena);
                        }
                    }
                    delete_range('''), (I, '''        let mut level = start_path.len() - 2;''', '''        let path_len = start_path.len();
        let mut level = path_len - 2;''')],
  'a drain in a tree of at least five levels whose two ends have different parents two levels above the leaves',
  'the inner nodes right of the start of the range are cut off and never released: memory grows with every such drain', '''
let mut t: BTree<D> = (0..30000).map(|i| solo(&[i])).collect();
assert_eq!(t.node_len(), reach(&t));
drop(t.drain_by_query::<LengthFinder>(12..29985));
assert_eq!(all(&t), (0..12).chain(29985..30000).collect::<Vec<_>>());
sound(&t);
assert_eq!(t.node_len(), reach(&t));''')

bug('c04-edge-slots', 'C04', [(I, '''                    self.tree.update_children_parent_slot_from(end_arena, 0);''', '''                    self.tree
                        .update_children_parent_slot_from(end_arena, del_end as usize);''')],
  'a drain of a tree of at least four levels whose end keeps several siblings in a node that the start does not share',
  'the nodes after the range remember their old places in their parent; later edits update and remove the wrong nodes', '''
let mut bad = 0;
for (a, b) in [(12, 2985), (5, 1234), (555, 1777), (100, 2101), (333, 2950), (1, 1999)] {
    bad += fails(move || {
        let mut t: BTree<D> = (0..3000).map(|i| solo(&[i])).collect();
        drop(t.drain_by_query::<LengthFinder>(a as usize..b as usize));
        let want: Vec<u32> = (0..a).chain(b..3000).collect();
        assert_eq!(all(&t), want);
        sound(&t);
        for k in 0..want.len().min(400) {
            let p = (k * 7919) % all(&t).len();
            let q = t.query::<LengthFinder>(&p).unwrap();
            t.remove_leaf(q.cursor).unwrap();
        }
        sound(&t);
    }) as u32;
}
assert_eq!(bad, 0);''')

bug('c14-one-level', 'C14', [(L, '''        while self.get_internal(self.root).children.len() == 1 {
            let root = self.get_internal(self.root);
            if root.is_child_leaf() {
                break;
            }

            let child_arena''', '''        if self.get_internal(self.root).children.len() == 1 {
            let root = self.get_internal(self.root);
            if root.is_child_leaf() {
                return;
            }

            let child_arena''')],
  'a drain that leaves so little of a deep tree that several levels become superfluous at once',
  'a handful of elements keep sitting under many levels of nodes with one child', '''
let mut t: BTree<D> = (0..200000).map(|i| solo(&[i])).collect();
drop(t.drain_by_query::<LengthFinder>(3..199999));
assert_eq!(all(&t), [0, 1, 2, 199999]);
sound(&t);
assert!(t.depth() <= 3, "{}", t.depth());''')

bug('c12-small-hint', 'C12', [(L, '''        let max_child_size = MAX_CHILDREN_NUM - 2;

        struct TempInternalNode<B: BTreeTrait> {''', '''        let max_child_size = MAX_CHILDREN_NUM - 2;
        if (1..=max_child_size).contains(&min_size) {
            // they fit into the root
            let root = tree.root.unwrap();
            for elem in iter {
                let child = tree.alloc_leaf_child(elem.into(), root);
                let node = tree.in_nodes.get_mut(root).unwrap();
                let _ = node.children.push(child);
            }
            tree.update_root_cache();
            return tree;
        }

        struct TempInternalNode<B: BTreeTrait> {''')],
  'collecting more elements than a node holds from a source that announces at least one and at most ten of them',
  'the elements that do not fit into the first node are silently lost', '''
// an honest lower bound: the first part is counted, the second is filtered
for n in [5usize, 11, 12, 40] {
    let src = (0..3u32).chain((3..2 * n as u32).filter(|x| *x < n as u32));
    assert!(src.size_hint().0 <= n);
    let t: BTree<D> = src.map(|i| solo(&[i])).collect();
    assert_eq!(all(&t), (0..n as u32).collect::<Vec<_>>());
    assert_eq!(t.node_len(), reach(&t));
    sound(&t);
}''')

bug('c06-empty-summary', 'C06', [(O, '''    #[inline(always)]
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }''', '''    #[inline(always)]
    pub fn is_empty(&self) -> bool {
        self.tree.root_cache().is_none()
    }''')],
  'deleting every key of a map',
  'a map from which everything was deleted claims not to be empty', '''
let mut m: generic_btree::OrdTreeMap<u32, u32> = Default::default();
assert!(m.is_empty());
for i in 0..100 {
    m.insert(i, i);
    assert!(!m.is_empty());
}
for i in 0..100 {
    assert_eq!(m.delete(&i), Some((i, i)));
    assert_eq!(m.is_empty(), i == 99);
}''')

bug('c09-clone-from', 'C09', [(L, '''impl<Elem: Clone, B: BTreeTrait<Elem = Elem>> Clone for Node<B> {
    fn clone(&self) -> Self {
        Self {
            parent: self.parent,
            parent_slot: self.parent_slot,
            children: self.children.clone(),
        }
    }
}''', '''impl<Elem: Clone, B: BTreeTrait<Elem = Elem>> Clone for Node<B> {
    fn clone(&self) -> Self {
        let mut ans = Self::new();
        ans.clone_from(self);
        ans
    }

    fn clone_from(&mut self, source: &Self) {
        self.parent = source.parent;
        self.parent_slot = source.parent_slot;
        self.children.clone_from(&source.children);
    }
}'''), (L, '''            root: self.root,
            root_cache: self.root_cache.clone(),
        }
    }
''', '''            root: self.root,
            root_cache: self.root_cache.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        // keep the allocations
        self.in_nodes.clone_from(&source.in_nodes);
        self.leaf_nodes.clone_from(&source.leaf_nodes);
        self.root = source.root;
    }
''')],
  'assigning one tree to another with clone_from',
  'the tree that was overwritten keeps the summary it had before', '''
let a: BTree<D> = (0..100).map(|i| solo(&[i])).collect();
let mut b: BTree<D> = (0..7).map(|i| solo(&[i])).collect();
b.clone_from(&a);
assert_eq!(all(&b), all(&a));
assert_eq!(b.root_cache(), a.root_cache());
sound(&b);
b.push(solo(&[7]));
sound(&b);
sound(&a);''')

bug('c05-early-leaf', 'C05', [(L, '''            let leaf_idx = self.last_leaf().unwrap();
            let leaf = self.leaf_nodes.get_mut(leaf_idx.0).unwrap();
            parent_idx = leaf.parent();
            if leaf.elem.can_merge(&elem) {
                update_cache_idx = leaf_idx.into();
                let offset = leaf.elem.rle_len();
                leaf.elem.merge_right(&elem);
                Cursor {
                    leaf: leaf_idx,
                    offset,
                }
            } else {
                let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
                let parent''', '''            let leaf_idx = self.last_leaf().unwrap();
            parent_idx = self.get_leaf(leaf_idx.into()).parent();
            let data = self.alloc_leaf_child(elem, parent_idx.unwrap());
            let (leaf, new) = self.leaf_nodes.get2_mut(leaf_idx.0, data.arena.unwrap());
            let (leaf, new) = (leaf.unwrap(), new.unwrap());
            if leaf.elem.can_merge(&new.elem) {
                update_cache_idx = leaf_idx.into();
                let offset = leaf.elem.rle_len();
                leaf.elem.merge_right(&new.elem);
                self.leaf_nodes.remove(data.arena.unwrap());
                Cursor {
                    leaf: leaf_idx,
                    offset,
                }
            } else {
                let parent''')],
  'the caller\'s merge test panics while an element is pushed, and the tree is used further',
  'the element that was never pushed stays in the memory of the tree without a place in it: check() fails, node_len() is wrong', '''
thread_local! { static FAIL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
#[derive(Debug, Clone)]
struct E(u32);
impl HasLength for E { fn rle_len(&self) -> usize { 1 } }
impl Sliceable for E { fn _slice(&self, _: Range<usize>) -> Self { self.clone() } }
impl Mergeable for E {
    fn can_merge(&self, _: &Self) -> bool { assert!(!FAIL.with(|f| f.get())); false }
    fn merge_right(&mut self, _: &Self) { unreachable!() }
    fn merge_left(&mut self, _: &Self) { unreachable!() }
}
impl TryInsert for E { fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> { Err(e) } }
impl CanRemove for E { fn can_remove(&self) -> bool { false } }
#[derive(Debug)]
struct B;
impl BTreeTrait for B {
    type Elem = E;
    type Cache = isize;
    type CacheDiff = isize;
    fn calc_cache_internal(c: &mut isize, cs: &[Child<Self>]) -> isize {
        let n: isize = cs.iter().map(|x| *x.cache()).sum();
        let d = n - *c;
        *c = n;
        d
    }
    fn apply_cache_diff(c: &mut isize, d: &isize) { *c += d }
    fn merge_cache_diff(a: &mut isize, b: &isize) { *a += b }
    fn get_elem_cache(_: &E) -> isize { 1 }
    fn new_cache_to_diff(c: &isize) -> isize { *c }
    fn sub_cache(a: &isize, b: &isize) -> isize { a - b }
}
let mut t: BTree<B> = BTree::new();
for i in 0..50 { t.push(E(i)); }
let n = t.node_len();
FAIL.with(|f| f.set(true));
assert!(catch_unwind(AssertUnwindSafe(|| t.push(E(50)))).is_err());
FAIL.with(|f| f.set(false));
assert_eq!(t.node_len(), n);
t.check();
t.push(E(51));
t.check();
assert_eq!(t.iter().map(|e| e.0).collect::<Vec<_>>(), (0..50).chain([51]).collect::<Vec<_>>());''')

bug('c14-rope-front', 'C14', [(R, '''                if f.slot == 0 || f.parent.is_none() {
                    None
                } else {''', '''                if index == 0 || f.parent.is_none() {
                    None
                } else if f.slot == 0 {
                    // the chunk in front lies in another node
                    let mut pos = 0;
                    let mut next = self.tree.first_leaf().map(|leaf| crate::Cursor { leaf, offset: 0 });
                    while let Some(at) = next {
                        let len = self.tree.get_elem(at.leaf)?.len();
                        if pos + len == index {
                            return Some(Cursor { pos, leaf: at.leaf });
                        }
                        pos += len;
                        next = self.tree.next_elem(at);
                    }
                    None
                } else {''')], 'an insertion in a long text, in front of the first chunk of some node', 'such an insertion visits every chunk in front of it', """
let text = "0123456789abcdef".repeat(1 << 19);
let mut big = Rope::new();
big.insert(0, &text);
let mut small = Rope::new();
small.insert(0, &text[..4096]);
let mut best = (u128::MAX, u128::MAX);
for round in 0..5 {
    let t = std::time::Instant::now();
    for i in 0..40 {
        small.insert(100 * i + round, "x");
    }
    best.0 = best.0.min(t.elapsed().as_nanos());
    // the chunks are 128 bytes: these come in front of chunks, some of them the first of a node
    let t = std::time::Instant::now();
    for i in 0..40 {
        big.insert(text.len() - 128 * (30 + 40 * round + i), "x");
    }
    best.1 = best.1.min(t.elapsed().as_nanos());
}
assert_eq!(big.len(), text.len() + 200);
assert!(best.1 < 100 * best.0.max(10_000), "{:?}", best);""")

bug('c14-orphan-scan', 'C14', [(L, '''            self.remove_internal_node(parent_idx.unwrap());
        } else if is_lack {
            self.handle_lack_recursively(parent_idx);
        }

        Some(elem)''', '''            self.remove_internal_node(parent_idx.unwrap());
        } else if is_lack {
            self.handle_lack_recursively(parent_idx);
            // one of the two nodes may be gone by now
            if self.leaf_nodes.iter().any(|(_, l)| !self.in_nodes.contains(l.parent)) {
                unreachable!("a leaf was left in a removed node");
            }
        }

        Some(elem)''')], 'removing a leaf so that its node is merged away, in a large tree', 'such a removal visits every element of the tree, without calling into any of them', """
fn take_out(t: &mut BTree<D>, leaves: &[LeafIndex]) -> u128 {
    // removing every other element makes nodes lack and merge
    let at = std::time::Instant::now();
    for leaf in leaves.iter().step_by(2) {
        t.remove_leaf(Cursor { leaf: *leaf, offset: 0 });
    }
    at.elapsed().as_nanos()
}
let mut small: BTree<D> = (0..4000).map(|i| solo(&[i])).collect();
let mut big: BTree<D> = (0..1_000_000).map(|i| solo(&[i])).collect();
let of = |t: &BTree<D>| t.iter_range(..).take(4000).map(|s| s.cursor().leaf).collect::<Vec<_>>();
let (front, back) = (of(&small), of(&big));
let a = take_out(&mut small, &front);
let b = take_out(&mut big, &back);
sound(&small);
assert!(b < 40 * a.max(200_000), "{} {}", a, b);""")

bug('c14-prev-scan', 'C14', [(L, '''    pub fn prev_elem(&self, path: Cursor) -> Option<Cursor> {
''', '''    pub fn prev_elem(&self, path: Cursor) -> Option<Cursor> {
        let parent = self.get_leaf(path.leaf.into()).parent();
        let first = self.get_internal(parent).children.first();
        if first.map(|c| c.arena) == Some(path.leaf.into()) && parent != self.root {
            // the last leaf of the node in front
            let start = self.start_cursor()?;
            let end = Cursor {
                leaf: path.leaf,
                offset: 0,
            };
            let front = self.iter_range(start..end).last()?;
            return Some(Cursor {
                leaf: front.cursor().leaf,
                offset: 0,
            });
        }

''')], 'stepping back from the first element of an inner node', 'that one step walks over everything in front of it', """
let t: BTree<D> = (0..300_000).map(|i| solo(&[i])).collect();
fn back(t: &BTree<D>, mut at: Cursor) -> u128 {
    let clock = std::time::Instant::now();
    for _ in 0..400 {
        at = t.prev_elem(at).unwrap();
    }
    clock.elapsed().as_nanos()
}
let near = t.query::<LengthFinder>(&500).unwrap().cursor();
let far = t.end_cursor().unwrap();
let (mut a, mut b) = (u128::MAX, u128::MAX);
for _ in 0..3 {
    a = a.min(back(&t, near));
    b = b.min(back(&t, far));
}
sound(&t);
assert!(b < 40 * a.max(50_000), "{} {}", a, b);""")

bug('c08-packed-order', 'C08', [(L, '''        let leaf_a = self.leaf_nodes.get(a.leaf.0).unwrap();
        let leaf_b = self.leaf_nodes.get(b.leaf.0).unwrap();
        let mut node_a = self.get_internal(leaf_a.parent());
        if leaf_a.parent == leaf_b.parent {
            for child in node_a.children.iter() {
                if child.arena.unwrap() == a.leaf.0 {
                    return Ordering::Less;
                }
                if child.arena.unwrap() == b.leaf.0 {
                    return Ordering::Greater;
                }
            }
        }

        let mut node_b = self.get_internal(leaf_b.parent());
        while node_a.parent != node_b.parent {
            node_a = self.get_internal(node_a.parent.unwrap());
            node_b = self.get_internal(node_b.parent.unwrap());
        }

        node_a.parent_slot.cmp(&node_b.parent_slot)
''', '''        // the slots on the way down, packed into one number
        let rank = |cursor: Cursor| {
            let path = self.get_path(cursor.leaf.into());
            path[1..].iter().fold(0u32, |r, x| r << 5 | x.arr as u32)
        };
        rank(a).cmp(&rank(b))
''')], 'two cursors far apart in a tree of seven levels with a root of more than four children (190 000 elements, appended one by one)', 'comparing two cursors far apart gives the wrong order', """
let mut t: BTree<D> = BTree::new();
for i in 0..300_000 {
    t.push(solo(&[i]));
}
let at = |i: usize| t.query::<LengthFinder>(&i).unwrap().cursor();
for (i, j) in [(5, 6), (5, 50), (5, 299_999), (100_000, 299_999), (65_000, 150_000), (0, 80_000), (80_003, 280_000)] {
    assert_eq!(t.compare_pos(at(i), at(j)), std::cmp::Ordering::Less, "{} {}", i, j);
    assert_eq!(t.compare_pos(at(j), at(i)), std::cmp::Ordering::Greater, "{} {}", i, j);
}
for i in (0..260_000).step_by(1711) {
    assert_eq!(t.compare_pos(at(i), at(i + 40_000)), std::cmp::Ordering::Less, "{}", i);
}""")
