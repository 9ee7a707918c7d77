// Shared by the demonstrations: a list element and two kinds of summaries.
#![allow(dead_code)]
use generic_btree::rle::*;
use generic_btree::*;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// a run of numbers; merges with its neighbours only when `glue` is set on both
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct El {
    pub v: Vec<u32>,
    pub glue: bool,
}
pub fn solo(v: &[u32]) -> El {
    El { v: v.to_vec(), glue: false }
}
pub fn glue(v: &[u32]) -> El {
    El { v: v.to_vec(), glue: true }
}
impl HasLength for El {
    fn rle_len(&self) -> usize {
        self.v.len()
    }
}
impl Sliceable for El {
    fn _slice(&self, r: Range<usize>) -> Self {
        El { v: self.v[r].to_vec(), glue: self.glue }
    }
}
impl Mergeable for El {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.glue && rhs.glue && self.v.len() + rhs.v.len() <= 8
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.v.extend_from_slice(&rhs.v);
    }
    fn merge_left(&mut self, left: &Self) {
        self.v.splice(0..0, left.v.iter().copied());
    }
}
impl TryInsert for El {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for El {
    fn can_remove(&self) -> bool {
        self.v.is_empty()
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Sum {
    pub len: isize,
    pub sum: isize,
}
impl CanRemove for Sum {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}
fn of(e: &El) -> Sum {
    Sum { len: e.v.len() as isize, sum: e.v.iter().map(|x| *x as isize).sum() }
}

thread_local! {
    /// summary computations so far
    pub static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn called() {
    CALLS.with(|c| c.set(c.get() + 1));
}

/// summaries maintained by differences
#[derive(Debug)]
pub struct D;
impl BTreeTrait for D {
    type Elem = El;
    type Cache = Sum;
    type CacheDiff = Sum;
    fn calc_cache_internal(c: &mut Sum, cs: &[Child<Self>]) -> Sum {
        called();
        let n = Sum { len: cs.iter().map(|x| x.cache.len).sum(), sum: cs.iter().map(|x| x.cache.sum).sum() };
        let d = Sum { len: n.len - c.len, sum: n.sum - c.sum };
        *c = n;
        d
    }
    fn apply_cache_diff(c: &mut Sum, d: &Sum) {
        c.len += d.len;
        c.sum += d.sum;
    }
    fn merge_cache_diff(a: &mut Sum, b: &Sum) {
        a.len += b.len;
        a.sum += b.sum;
    }
    fn get_elem_cache(e: &El) -> Sum {
        of(e)
    }
    fn new_cache_to_diff(c: &Sum) -> Sum {
        c.clone()
    }
    fn sub_cache(a: &Sum, b: &Sum) -> Sum {
        Sum { len: a.len - b.len, sum: a.sum - b.sum }
    }
}
impl UseLengthFinder<D> for D {
    fn get_len(c: &Sum) -> usize {
        c.len as usize
    }
}

/// summaries recomputed from the children
#[derive(Debug)]
pub struct N;
impl BTreeTrait for N {
    type Elem = El;
    type Cache = Sum;
    type CacheDiff = ();
    const USE_DIFF: bool = false;
    fn calc_cache_internal(c: &mut Sum, cs: &[Child<Self>]) {
        *c = Sum { len: cs.iter().map(|x| x.cache.len).sum(), sum: cs.iter().map(|x| x.cache.sum).sum() };
    }
    fn apply_cache_diff(_: &mut Sum, _: &()) {}
    fn merge_cache_diff(_: &mut (), _: &()) {}
    fn get_elem_cache(e: &El) -> Sum {
        of(e)
    }
    fn new_cache_to_diff(_: &Sum) {}
    fn sub_cache(_: &Sum, _: &Sum) {}
}
impl UseLengthFinder<N> for N {
    fn get_len(c: &Sum) -> usize {
        c.len as usize
    }
}

pub fn all<B: BTreeTrait<Elem = El>>(t: &BTree<B>) -> Vec<u32> {
    t.iter().flat_map(|e| e.v.clone()).collect()
}
pub fn runs<B: BTreeTrait<Elem = El>>(t: &BTree<B>) -> Vec<Vec<u32>> {
    t.iter().map(|e| e.v.clone()).collect()
}
/// every node the tree can reach, and every summary against its elements
pub fn reach<B: BTreeTrait<Elem = El, Cache = Sum>>(t: &BTree<B>) -> usize {
    let mut n = 1;
    t.iter_with_filter(|_| {
        n += 1;
        (true, 0usize)
    })
    .for_each(|_| {});
    n
}
pub fn sound<B: BTreeTrait<Elem = El, Cache = Sum>>(t: &BTree<B>) {
    t.check();
    let v = all(t);
    assert_eq!(t.root_cache().len, v.len() as isize, "total length");
    assert_eq!(t.root_cache().sum, v.iter().map(|x| *x as isize).sum::<isize>(), "total sum");
    assert_eq!(t.node_len(), reach(t), "unreachable nodes");
}
/// true if it panicked
pub fn fails<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize % n
    }
}
