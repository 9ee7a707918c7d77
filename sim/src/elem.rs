//! Simulated user types: the element, its summaries, and lookup strategies.
use crate::env::{self, K_CACHE, K_INSERT, K_MERGE, K_QUERY, K_SLICE};
use crate::rng::mix2;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{ArenaIndex, BTreeTrait, Child, FindResult, Query, UseLengthFinder};
use std::ops::Range;

/// One item. `id` is unique within a run, so every read is attributable to one write.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Atom {
    pub id: u32,
    pub val: i32,
    pub mark: u32,
    pub class: u8,
    pub anchor: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
    pub atoms: Vec<Atom>,
    pub anchor: bool,
    pub tok: Tok,
}

/// Counts the element values in existence, wherever they are.
#[derive(Debug, PartialEq)]
pub struct Tok(());
impl Tok {
    pub fn new() -> Self {
        env::with(|e| e.alive.set(e.alive.get() + 1));
        Tok(())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::new()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        env::with(|e| e.alive.set(e.alive.get() - 1));
    }
}

impl Elem {
    pub fn run(atoms: Vec<Atom>) -> Self {
        Elem {
            atoms,
            anchor: false,
            tok: Tok::new(),
        }
    }
    pub fn anchor(a: Atom) -> Self {
        Elem {
            atoms: vec![a],
            anchor: true,
            tok: Tok::new(),
        }
    }
    fn key(&self) -> u64 {
        match self.atoms.first() {
            Some(a) => ((a.id as u64) << 20) | self.atoms.len() as u64,
            None => 0,
        }
    }
    fn pair(&self, right: &Elem) -> u64 {
        let end = |e: &Elem| e.atoms.last().map_or(0, |a| a.id as u64);
        mix2(mix2(self.key(), end(self)), mix2(right.key(), end(right)))
    }
    fn compatible(&self, o: &Elem) -> bool {
        !self.anchor
            && !o.anchor
            && match (self.atoms.first(), o.atoms.first()) {
                (Some(a), Some(b)) => a.class == b.class,
                _ => true,
            }
    }
}

impl HasLength for Elem {
    fn rle_len(&self) -> usize {
        if self.anchor {
            0
        } else {
            self.atoms.len()
        }
    }
}

impl Sliceable for Elem {
    fn _slice(&self, r: Range<usize>) -> Self {
        env::tick(K_SLICE);
        assert!(!self.anchor, "slicing a zero-length element");
        Elem::run(self.atoms[r].to_vec())
    }
}

impl Mergeable for Elem {
    fn can_merge(&self, rhs: &Self) -> bool {
        env::tick(K_MERGE);
        let (on, cap, ordered) = env::with(|e| (e.merge.get(), e.cap.get(), e.ordered.get()));
        let yes = on
            && self.compatible(rhs)
            && self.atoms.len() + rhs.atoms.len() <= cap
            && !(ordered && self.atoms.last().map(|a| a.id) > rhs.atoms.first().map(|a| a.id))
            && !env::decline_merge(mix2(self.key(), rhs.key()));
        if yes {
            env::agree(self.pair(rhs));
        }
        yes
    }
    fn merge_right(&mut self, rhs: &Self) {
        env::tick(K_SLICE);
        env::merged(self.pair(rhs));
        self.atoms.extend_from_slice(&rhs.atoms);
    }
    fn merge_left(&mut self, left: &Self) {
        env::tick(K_SLICE);
        env::merged(left.pair(self));
        self.atoms.splice(0..0, left.atoms.iter().copied());
    }
}

impl TryInsert for Elem {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        env::tick(K_INSERT);
        let (on, cap) = env::with(|e| (e.absorb.get(), e.cap.get()));
        if !on
            || !self.compatible(&elem)
            || self.atoms.len() + elem.atoms.len() > cap
            || env::decline_insert(mix2(self.key(), elem.key()))
        {
            return Err(elem);
        }
        self.atoms.splice(pos..pos, elem.atoms.iter().copied());
        Ok(())
    }
}

impl CanRemove for Elem {
    fn can_remove(&self) -> bool {
        self.atoms.is_empty()
    }
}

/// Summary. `cnt`, `len`, `sum` are additive; `max` and `hash` (order sensitive)
/// are maintained only by trees that recompute summaries from children.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cache {
    pub cnt: i64,
    pub len: i64,
    pub sum: i64,
    pub max: u32,
    pub hash: u64,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Diff {
    pub cnt: i64,
    pub len: i64,
    pub sum: i64,
}

impl CanRemove for Diff {
    fn can_remove(&self) -> bool {
        *self == Diff::default()
    }
}

const HB: u64 = 0x1000_0000_01B3;
pub fn hpow(mut n: u64) -> u64 {
    let (mut b, mut r) = (HB, 1u64);
    while n > 0 {
        if n & 1 == 1 {
            r = r.wrapping_mul(b);
        }
        b = b.wrapping_mul(b);
        n >>= 1;
    }
    r
}

/// The reference definition of a summary.
pub fn summarize(d: bool, atoms: &[Atom]) -> Cache {
    let mut c = Cache::default();
    for a in atoms {
        c.cnt += 1;
        c.len += !a.anchor as i64;
        c.sum += a.val as i64;
        if !d {
            c.max = c.max.max(a.id);
            c.hash = c
                .hash
                .wrapping_mul(HB)
                .wrapping_add(mix2(a.id as u64, a.val as u64));
        }
    }
    c
}

#[derive(Debug)]
pub struct T<const D: bool>;

impl<const D: bool> BTreeTrait for T<D> {
    type Elem = Elem;
    type Cache = Cache;
    type CacheDiff = Diff;
    const USE_DIFF: bool = D;

    fn calc_cache_internal(cache: &mut Cache, caches: &[Child<Self>]) -> Diff {
        env::tick(K_CACHE);
        let mut n = Cache::default();
        for c in caches {
            let c = &c.cache;
            n.cnt += c.cnt;
            n.len += c.len;
            n.sum += c.sum;
            if !D {
                n.max = n.max.max(c.max);
                n.hash = n
                    .hash
                    .wrapping_mul(hpow(c.cnt as u64))
                    .wrapping_add(c.hash);
            }
        }
        let diff = Diff {
            cnt: n.cnt - cache.cnt,
            len: n.len - cache.len,
            sum: n.sum - cache.sum,
        };
        *cache = n;
        diff
    }
    fn apply_cache_diff(cache: &mut Cache, d: &Diff) {
        env::tick(K_CACHE);
        assert!(D, "difference applied to a summary that has none");
        cache.cnt += d.cnt;
        cache.len += d.len;
        cache.sum += d.sum;
    }
    fn merge_cache_diff(a: &mut Diff, b: &Diff) {
        env::tick(K_CACHE);
        a.cnt += b.cnt;
        a.len += b.len;
        a.sum += b.sum;
    }
    fn get_elem_cache(e: &Elem) -> Cache {
        env::tick(K_CACHE);
        summarize(D, &e.atoms)
    }
    fn new_cache_to_diff(c: &Cache) -> Diff {
        Diff {
            cnt: c.cnt,
            len: c.len,
            sum: c.sum,
        }
    }
    fn sub_cache(l: &Cache, r: &Cache) -> Diff {
        Diff {
            cnt: l.cnt - r.cnt,
            len: l.len - r.len,
            sum: l.sum - r.sum,
        }
    }
}

impl<const D: bool> UseLengthFinder<T<D>> for T<D> {
    fn get_len(c: &Cache) -> usize {
        env::tick(K_QUERY);
        c.len as usize
    }
}

/// Finds a position preferring the end of an element over the start of the next.
pub struct LeftFinder {
    left: i64,
}
impl<const D: bool> Query<T<D>> for LeftFinder {
    type QueryArg = usize;
    fn init(t: &usize) -> Self {
        LeftFinder { left: *t as i64 }
    }
    fn find_node(&mut self, _: &usize, ch: &[Child<T<D>>]) -> FindResult {
        env::tick(K_QUERY);
        for (i, c) in ch.iter().enumerate() {
            let l = c.cache().len;
            if self.left > l && i + 1 < ch.len() {
                self.left -= l;
            } else {
                return FindResult::new_found(i, self.left as usize);
            }
        }
        unreachable!()
    }
    fn confirm_elem(&mut self, _: &usize, e: &Elem) -> (usize, bool) {
        env::tick(K_QUERY);
        (self.left as usize, self.left as usize <= e.rle_len())
    }
}

/// Finds an item by its ordinal, zero-length items included.
pub struct CntFinder {
    left: i64,
}
impl<const D: bool> Query<T<D>> for CntFinder {
    type QueryArg = usize;
    fn init(t: &usize) -> Self {
        CntFinder { left: *t as i64 }
    }
    fn find_node(&mut self, _: &usize, ch: &[Child<T<D>>]) -> FindResult {
        env::tick(K_QUERY);
        for (i, c) in ch.iter().enumerate() {
            let l = c.cache().cnt;
            if self.left < l {
                return FindResult::new_found(i, self.left as usize);
            }
            if i + 1 < ch.len() {
                self.left -= l;
            }
        }
        FindResult::new_missing(ch.len() - 1, self.left as usize)
    }
    fn confirm_elem(&mut self, _: &usize, e: &Elem) -> (usize, bool) {
        env::tick(K_QUERY);
        let l = self.left as usize;
        (l.min(e.rle_len()), l < e.atoms.len())
    }
}

/// Finds the item that covers a given accumulated weight (sum of values).
pub struct SumFinder {
    left: i64,
}
impl<const D: bool> Query<T<D>> for SumFinder {
    type QueryArg = i64;
    fn init(t: &i64) -> Self {
        SumFinder { left: *t }
    }
    fn find_node(&mut self, _: &i64, ch: &[Child<T<D>>]) -> FindResult {
        env::tick(K_QUERY);
        for (i, c) in ch.iter().enumerate() {
            let l = c.cache().sum;
            if self.left < l {
                return FindResult::new_found(i, 0);
            }
            if i + 1 < ch.len() {
                self.left -= l;
            }
        }
        FindResult::new_missing(ch.len() - 1, 0)
    }
    fn confirm_elem(&mut self, _: &i64, e: &Elem) -> (usize, bool) {
        env::tick(K_QUERY);
        for (i, a) in e.atoms.iter().enumerate() {
            if self.left < a.val as i64 {
                return (if e.anchor { 0 } else { i }, true);
            }
            self.left -= a.val as i64;
        }
        (e.rle_len(), false)
    }
}

/// A lookup strategy that goes where it is told and has its own opinion, at
/// every level, whether it has found what it looks for.
pub struct Told {
    level: usize,
}
#[derive(Clone)]
pub struct Tell {
    pub path: [u8; MAX_DEPTH],
    /// bit per level: this level says "missing"
    pub missing: u32,
    pub offset: usize,
    pub confirm: bool,
}
impl<const D: bool> Query<T<D>> for Told {
    type QueryArg = Tell;
    fn init(_: &Tell) -> Self {
        Told { level: 0 }
    }
    fn find_node(&mut self, t: &Tell, ch: &[Child<T<D>>]) -> FindResult {
        env::tick(K_QUERY);
        let i = (t.path[self.level] as usize).min(ch.len() - 1);
        self.level += 1;
        if t.missing >> (self.level - 1) & 1 == 1 {
            FindResult::new_missing(i, 0)
        } else {
            FindResult::new_found(i, 0)
        }
    }
    fn confirm_elem(&mut self, t: &Tell, _: &Elem) -> (usize, bool) {
        env::tick(K_QUERY);
        (t.offset, t.confirm)
    }
}

pub const MAX_DEPTH: usize = 24;

/// Walks one root-to-leaf path chosen by the caller and records the children
/// (with summaries) of every node on it: the external view of the structure.
pub struct Walk {
    level: usize,
    pub seen: Vec<Vec<(ArenaIndex, Cache)>>,
}
impl<const D: bool> Query<T<D>> for Walk {
    type QueryArg = [u8; MAX_DEPTH];
    fn init(_: &Self::QueryArg) -> Self {
        Walk {
            level: 0,
            seen: Vec::with_capacity(6),
        }
    }
    fn find_node(&mut self, path: &Self::QueryArg, ch: &[Child<T<D>>]) -> FindResult {
        let i = *path.get(self.level).unwrap_or(&0) as usize;
        self.level += 1;
        self.seen
            .push(ch.iter().map(|c| (c.arena, c.cache().clone())).collect());
        FindResult::new_found(i, 0)
    }
    fn confirm_elem(&mut self, _: &Self::QueryArg, _: &Elem) -> (usize, bool) {
        (0, true)
    }
}
