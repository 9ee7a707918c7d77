//! Interleaved clients editing one very long sequence of which every element
//! is a run-length encoded span: few elements, positions up to 2^57, and
//! neighbours that merge whenever one continues the other.
use crate::env::{self, guarded, Injected, Stop, K_CACHE, K_CLOSURE, K_INSERT, K_ITER, K_MERGE, K_QUERY, K_SLICE};
use crate::rng::mix2;
use crate::tree;
use crate::types::*;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTree, BTreeTrait, Child, Cursor, FindResult, LeafIndex, LengthFinder, PreviousCache, Query, QueryResult, UseLengthFinder};
use std::ops::Range;
use std::panic::panic_any;

pub const OPS: [&str; 17] = [
    "init", "push", "prepend", "insert", "insert_by_cursor", "insert_many", "delete_range", "update_range",
    "update_args", "update_leaf", "update_by_search", "remove_leaf", "snapshot", "restore", "rebuild", "clear", "probe",
];
pub const INIT: u8 = 0;
const PUSH: u8 = 1;
const PREPEND: u8 = 2;
const INSERT: u8 = 3;
const INS_CURSOR: u8 = 4;
const INS_MANY: u8 = 5;
const DELETE: u8 = 6;
const UPD_RANGE: u8 = 7;
const UPD_ARGS: u8 = 8;
const UPD_LEAF: u8 = 9;
const UPD_SEARCH: u8 = 10;
const REMOVE: u8 = 11;
const SNAPSHOT: u8 = 12;
const RESTORE: u8 = 13;
const REBUILD: u8 = 14;
const CLEAR: u8 = 15;

pub fn faults(op: u8) -> &'static [u8] {
    match op {
        PUSH | PREPEND => &[F_MERGE],
        INSERT => &[F_QUERY, F_MERGE, F_INSERT],
        INS_CURSOR => &[F_MERGE, F_INSERT],
        INS_MANY => &[F_ITER],
        DELETE => &[F_CONSUMER, F_ABANDON, F_QUERY],
        UPD_LEAF | UPD_RANGE => &[F_CLOSURE],
        UPD_SEARCH => &[F_QUERY, F_CLOSURE],
        _ => &[],
    }
}

/// `len` units, numbered `from..from+len` of source `src`, each of weight `tag`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span {
    src: u32,
    from: u64,
    len: u64,
    tag: i64,
}
impl Span {
    fn continues(&self, next: &Span) -> bool {
        self.src == next.src && self.tag == next.tag && self.from + self.len == next.from
    }
    fn part(&self, a: u64, b: u64) -> Span {
        Span { from: self.from + a, len: b - a, ..*self }
    }
    fn key(&self) -> u64 {
        mix2(self.src as u64, self.from)
    }
}
impl HasLength for Span {
    fn rle_len(&self) -> usize {
        self.len as usize
    }
}
impl Sliceable for Span {
    fn _slice(&self, r: Range<usize>) -> Self {
        env::tick(K_SLICE);
        assert!(r.start <= r.end && r.end as u64 <= self.len, "slice out of range");
        self.part(r.start as u64, r.end as u64)
    }
}
impl Mergeable for Span {
    fn can_merge(&self, rhs: &Self) -> bool {
        env::tick(K_MERGE);
        env::with(|e| e.merge.get()) && self.continues(rhs) && !env::decline_merge(mix2(self.key(), rhs.key()))
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.len += rhs.len;
    }
    fn merge_left(&mut self, left: &Self) {
        self.from = left.from;
        self.len += left.len;
    }
}
impl TryInsert for Span {
    fn try_insert(&mut self, pos: usize, e: Self) -> Result<(), Self> {
        env::tick(K_INSERT);
        if !env::with(|x| x.absorb.get()) || env::decline_insert(mix2(self.key(), e.key())) {
            return Err(e);
        }
        if pos as u64 == self.len && self.continues(&e) {
            self.len += e.len;
        } else if pos == 0 && e.continues(self) {
            self.from = e.from;
            self.len += e.len;
        } else {
            return Err(e);
        }
        Ok(())
    }
}
impl CanRemove for Span {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sum {
    len: i64,
    w: i64,
    max: i64,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dif {
    len: i64,
    w: i64,
}
impl CanRemove for Dif {
    fn can_remove(&self) -> bool {
        *self == Dif::default()
    }
}
fn sum_of(d: bool, e: &Span) -> Sum {
    Sum {
        len: e.len as i64,
        w: (e.len as i64).wrapping_mul(e.tag),
        max: if d || e.len == 0 { 0 } else { e.src as i64 + 1 },
    }
}
fn add(a: Sum, b: &Sum) -> Sum {
    Sum { len: a.len + b.len, w: a.w.wrapping_add(b.w), max: a.max.max(b.max) }
}
fn total<'a>(d: bool, it: impl Iterator<Item = &'a Span>) -> Sum {
    it.fold(Sum::default(), |a, e| add(a, &sum_of(d, e)))
}
fn minus(a: &Sum, b: &Sum) -> Dif {
    Dif { len: a.len - b.len, w: a.w.wrapping_sub(b.w) }
}

#[derive(Debug)]
pub struct S<const D: bool>;
impl<const D: bool> BTreeTrait for S<D> {
    type Elem = Span;
    type Cache = Sum;
    type CacheDiff = Dif;
    const USE_DIFF: bool = D;
    fn calc_cache_internal(c: &mut Sum, cs: &[Child<Self>]) -> Dif {
        env::tick(K_CACHE);
        let n = cs.iter().fold(Sum::default(), |a, x| add(a, x.cache()));
        let d = minus(&n, c);
        *c = n;
        d
    }
    fn apply_cache_diff(c: &mut Sum, d: &Dif) {
        env::tick(K_CACHE);
        c.len += d.len;
        c.w = c.w.wrapping_add(d.w);
    }
    fn merge_cache_diff(a: &mut Dif, b: &Dif) {
        a.len += b.len;
        a.w = a.w.wrapping_add(b.w);
    }
    fn get_elem_cache(e: &Span) -> Sum {
        env::tick(K_CACHE);
        sum_of(D, e)
    }
    fn new_cache_to_diff(c: &Sum) -> Dif {
        Dif { len: c.len, w: c.w }
    }
    fn sub_cache(a: &Sum, b: &Sum) -> Dif {
        minus(a, b)
    }
}
impl<const D: bool> UseLengthFinder<S<D>> for S<D> {
    fn get_len(c: &Sum) -> usize {
        env::tick(K_QUERY);
        c.len as usize
    }
}

/// Goes to a position and compares, on the way, every summary with its parts.
pub struct Auditor {
    left: i64,
    above: Option<Sum>,
    pub wrong: bool,
}
impl<const D: bool> Query<S<D>> for Auditor {
    type QueryArg = usize;
    fn init(t: &usize) -> Self {
        Auditor { left: *t as i64, above: None, wrong: false }
    }
    fn find_node(&mut self, _: &usize, ch: &[Child<S<D>>]) -> FindResult {
        let all = ch.iter().fold(Sum::default(), |a, x| add(a, x.cache()));
        self.wrong |= self.above.is_some_and(|x| x != all);
        for (i, c) in ch.iter().enumerate() {
            if self.left < c.cache().len || i + 1 == ch.len() {
                self.above = Some(*c.cache());
                return FindResult::new_found(i, self.left as usize);
            }
            self.left -= c.cache().len;
        }
        unreachable!()
    }
    fn confirm_elem(&mut self, _: &usize, e: &Span) -> (usize, bool) {
        self.wrong |= self.above != Some(sum_of(D, e));
        (self.left as usize, true)
    }
}

fn put(v: &mut Vec<Span>, s: Span) {
    if s.len == 0 {
        return;
    }
    match v.last_mut() {
        Some(l) if l.continues(&s) => l.len += s.len,
        _ => v.push(s),
    }
}
fn norm<'a>(it: impl Iterator<Item = &'a Span>) -> Vec<Span> {
    let mut v = vec![];
    for s in it {
        put(&mut v, *s);
    }
    v
}
fn cut(m: &[Span], a: u64, b: u64) -> Vec<Span> {
    let mut v = vec![];
    let mut at = 0;
    for s in m {
        let (x, y) = (a.max(at), b.min(at + s.len));
        if x < y {
            put(&mut v, s.part(x - at, y - at));
        }
        at += s.len;
    }
    v
}
fn length(m: &[Span]) -> u64 {
    m.iter().map(|s| s.len).sum()
}
/// `have` is the beginning of `want`
fn prefix(have: &[Span], want: &[Span]) -> bool {
    let n = length(have);
    n <= length(want) && cut(want, 0, n) == have
}

pub struct SpanSim<const D: bool> {
    cfg: Config,
    tree: BTree<S<D>>,
    model: Vec<Span>,
    saved: Option<(BTree<S<D>>, Vec<Span>)>,
    /// (handle, start, length) of every element at the last look
    leaves: Vec<(LeafIndex, u64, u64)>,
    caret: Vec<u64>,
    unit: u64,
    /// elements supplied to the current operation
    bulk: usize,
    src: u32,
    pub rep: Report,
}

enum Out<R> {
    Done(R),
    Crashed,
    Dead,
}

impl<const D: bool> SpanSim<D> {
    pub fn new(cfg: &Config) -> Self {
        env::with(|e| {
            e.rate_merge.set(cfg.rate_merge);
            e.rate_insert.set(cfg.rate_insert);
            e.cap.set(usize::MAX);
            e.absorb.set(cfg.absorb);
            e.merge.set(cfg.merge);
            e.ordered.set(false);
        });
        SpanSim {
            cfg: cfg.clone(),
            tree: BTree::new(),
            model: vec![],
            saved: None,
            leaves: vec![],
            caret: vec![0; cfg.clients.max(1) as usize],
            unit: [1, 3, 250, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40][(cfg.vseed % 8) as usize],
            src: 0,
            bulk: 0,
            rep: Report::default(),
        }
    }

    fn size(&self, h: u64) -> u64 {
        match h & 7 {
            0 => 1,
            1 => 1 + (h >> 8) % 5,
            2 => self.unit,
            3 => (self.unit + (h >> 8) % 3).saturating_sub(1).max(1),
            4 => self.unit * (1 + (h >> 8) % 4),
            _ => 1 + (h >> 8) % (self.unit * 2),
        }
    }
    /// a new span, often one that continues what is at `p`
    fn fresh(&mut self, h: u64, p: Option<u64>) -> Span {
        let len = self.size(mix2(h, 1));
        if let (Some(p), 0..=3) = (p, h >> 5 & 7) {
            if p > 0 {
                let l = cut(&self.model, p - 1, p)[0];
                return Span { src: l.src, from: l.from + 1, len, tag: l.tag };
            }
        }
        if let (Some(p), 4) = (p, h >> 5 & 7) {
            if p < length(&self.model) {
                let r = cut(&self.model, p, p + 1)[0];
                if r.from >= len {
                    return Span { src: r.src, from: r.from - len, len, tag: r.tag };
                }
            }
        }
        self.src += 1;
        Span { src: self.src, from: 1 << 50, len, tag: (h >> 12) as i64 % 5 - 1 }
    }

    fn pos(&self, client: u8, v: u64) -> u64 {
        let n = length(&self.model);
        let x = v >> 8;
        let p = match v & 15 {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1 + x % 2),
            3 => x % 3,
            4..=7 if !self.leaves.is_empty() => {
                let l = self.leaves[(x >> 8) as usize % self.leaves.len()];
                match x & 7 {
                    0..=3 => l.1,
                    4 => l.1 + 1,
                    5 => l.1 + l.2 - 1,
                    6 => l.1.saturating_sub(1),
                    _ => l.1 + l.2 / 2,
                }
            }
            8 | 9 => self.caret[client as usize % self.caret.len()],
            _ => mix2(x, 7) % (n + 1),
        };
        p.min(n)
    }
    fn leaf_at(&self, p: u64) -> Option<usize> {
        let k = self.leaves.partition_point(|l| l.1 + l.2 <= p);
        (!self.leaves.is_empty()).then(|| k.min(self.leaves.len() - 1))
    }
    /// where a lookup of `p` must lead
    fn want(&self, p: u64) -> Option<Cursor> {
        self.leaf_at(p).map(|k| Cursor { leaf: self.leaves[k].0, offset: (p - self.leaves[k].1) as usize })
    }

    fn splice(&mut self, at: u64, del: u64, ins: &[Span]) {
        let n = length(&self.model);
        let l = cut(&self.model, 0, at);
        let r = cut(&self.model, at + del, n);
        self.model = norm(l.iter().chain(ins).chain(&r));
    }

    fn act<R>(&mut self, i: usize, s: &Step, f: impl FnOnce(&mut BTree<S<D>>) -> R) -> Out<R> {
        if s.fault != 0 {
            *self.rep.faults_armed.entry(s.fault).or_insert(0) += 1;
        }
        env::with(|e| {
            e.step_ticks.set(0);
            if s.fault != 0 && s.fault <= 8 {
                e.crash_kind.set(s.fault);
                e.crash_in.set(if s.fault == F_CLOSURE { 0 } else { s.fk as u64 });
            }
        });
        let tree = &mut self.tree;
        let (v0, n0) = (env::visits(), tree.node_len());
        let r = guarded(move || f(tree));
        env::with(|e| e.crash_kind.set(0));
        let op = OPS[s.op as usize % OPS.len()];
        let bulk = std::mem::take(&mut self.bulk);
        if r.is_ok() {
            let gone = n0.saturating_sub(self.tree.node_len());
            if let Some(m) = env::walked(op, v0, n0, (bulk + gone) as u64, &mut self.rep.max_cost) {
                self.rep.fail(Class::Cost, i, m);
            }
        }
        match r {
            Ok(x) => {
                let used = env::with(|e| e.step_ticks.get());
                let allowed = tree::allowance(self.leaves.len() + 45) + 30 * bulk as u64;
                self.cost(i, op, used, allowed);
                Out::Done(x)
            }
            Err(Stop::Crash) => {
                *self.rep.faults_fired.entry(s.fault).or_insert(0) += 1;
                Out::Crashed
            }
            Err(Stop::Panic(m)) => {
                self.rep.fail(Class::Panic, i, format!("{} panicked: {}", op, m));
                self.rep.dead = true;
                Out::Dead
            }
            Err(Stop::Livelock) => {
                self.rep.fail(Class::Hang, i, format!("{} exceeded its simulated-time budget", op));
                self.rep.dead = true;
                Out::Dead
            }
        }
    }

    fn cost(&mut self, i: usize, what: &str, used: u64, allowed: u64) {
        self.rep.max_cost = self.rep.max_cost.max(used * 100 / allowed);
        if used > allowed {
            self.rep.fail(Class::Cost, i, format!("{} called user code {} times, allowed {}", what, used, allowed));
        }
    }

    /// the reported cursor must denote the first unit of what was put there
    fn returned(&mut self, i: usize, what: &str, c: Cursor, e: &Span) {
        let ok = self.tree.get_elem(c.leaf).is_some_and(|x| {
            (c.offset as u64) < x.len && x.src == e.src && x.tag == e.tag && x.from + c.offset as u64 == e.from
        });
        if !ok {
            self.rep.fail(Class::Return, i, format!("{} reported a place that does not hold the new element", what));
        }
    }

    fn range(&self, s: &Step) -> (u64, u64) {
        let x = self.pos(s.client, s.a);
        let n = length(&self.model);
        let y = match s.b & 7 {
            0 => x + 1,
            1 => x + self.size(s.b >> 3),
            2 => x,
            3 => n,
            _ => self.pos(s.client, s.b >> 3),
        }
        .min(n);
        (x.min(y), x.max(y))
    }

    pub fn step(&mut self, i: usize, s: &Step) {
        if self.rep.dead {
            return;
        }
        env::with(|e| {
            e.salt.set(s.salt);
            e.budget.set(3_000_000 + 60 * self.leaves.len() as u64 + if s.op == INIT { 60 * s.a } else { 0 });
        });
        #[cfg(gbtree_sim)]
        generic_btree::sim::set_hash_seed(s.salt);
        self.rep.steps_done += 1;
        let op = s.op as usize % OPS.len();
        self.rep.count(OPS[op]);
        self.go(i, s);
        if !self.rep.dead {
            self.verify(i, OPS[op], s.d);
        }
    }

    fn go(&mut self, i: usize, s: &Step) {
        let n = length(&self.model);
        let p = self.pos(s.client, s.a);
        let me = s.client as usize % self.caret.len();
        match s.op % OPS.len() as u8 {
            INIT => {
                self.bulk = s.a as usize;
                let v: Vec<Span> = (0..s.a % 200_001).map(|k| self.fresh(mix2(s.c, k), None)).collect();
                self.model = norm(v.iter());
                match s.b % 3 {
                    0 => self.tree = v.into_iter().collect(),
                    1 => {
                        self.act(i, s, |t| t.insert_many_by_cursor(None, v.into_iter()));
                    }
                    _ => {
                        self.act(i, s, |t| {
                            for e in v {
                                t.push(e);
                            }
                        });
                    }
                }
            }
            o @ (PUSH | PREPEND) => {
                let at = if o == PUSH { n } else { 0 };
                let e = self.fresh(s.c, Some(at));
                match self.act(i, s, |t| if o == PUSH { t.push(e) } else { t.prepend(e) }) {
                    Out::Done(c) => {
                        self.splice(at, 0, &[e]);
                        self.returned(i, OPS[o as usize], c, &e);
                    }
                    _ => return,
                }
            }
            o @ (INSERT | INS_CURSOR) => {
                let e = self.fresh(s.c, Some(p));
                let at = self.want(p);
                let r = match (o, at) {
                    (INS_CURSOR, Some(mut c)) => {
                        // the same place seen from the element before it
                        let left = if s.b & 1 == 1 { self.tree.prefer_left(c) } else { None };
                        c = left.unwrap_or(c);
                        self.act(i, s, |t| t.insert_by_path(c, e))
                    }
                    _ => self.act(i, s, |t| t.insert::<LengthFinder>(&(p as usize), e)),
                };
                if let Out::Done((c, _)) = r {
                    self.splice(p, 0, &[e]);
                    self.returned(i, OPS[o as usize], c, &e);
                    self.caret[me] = p + e.len;
                }
            }
            INS_MANY => {
                let k = match s.b & 7 {
                    0 => s.b >> 3 & 1,
                    1 => 10 + (s.b >> 3) % 60,
                    _ => 1 + (s.b >> 3) % 6,
                };
                let mut v: Vec<Span> = vec![];
                for j in 0..k {
                    let mut e = self.fresh(mix2(s.c, j), if j == 0 { Some(p) } else { None });
                    // pieces of one span in a row
                    if let (Some(l), true) = (v.last(), mix2(s.c, j) >> 40 & 1 == 1) {
                        e = Span { from: l.from + l.len, len: e.len, ..*l };
                    }
                    v.push(e);
                }
                let c = self.want(p);
                self.bulk = v.len();
                let w = v.clone();
                let mut it = v.into_iter();
                let r = self.act(i, s, |t| {
                    t.insert_many_by_cursor(
                        c,
                        std::iter::from_fn(|| {
                            env::tick(K_ITER);
                            it.next()
                        }),
                    )
                });
                if let Out::Done(()) = r {
                    self.splice(p, 0, &w);
                }
            }
            DELETE => {
                let (a, b) = self.range(s);
                let stop = if matches!(s.fault, F_CONSUMER | F_ABANDON) { s.fk as usize } else { usize::MAX };
                let crash = s.fault == F_CONSUMER;
                let got = std::cell::RefCell::new((Vec::<Span>::new(), false));
                let consume = |d: &mut dyn Iterator<Item = Span>| {
                    let mut g = 0;
                    let hint = d.size_hint();
                    while g < stop {
                        match d.next() {
                            Some(e) => got.borrow_mut().0.push(e),
                            None => {
                                got.borrow_mut().1 = true;
                                assert!(
                                    hint.0 <= g && hint.1.map_or(true, |x| g <= x),
                                    "a drain of {} elements promised {:?}",
                                    g,
                                    hint
                                );
                                // asking again must not take more
                                for _ in 0..s.salt % 3 {
                                    got.borrow_mut().0.extend(d.next());
                                }
                                break;
                            }
                        }
                        g += 1;
                    }
                    if crash {
                        panic_any(Injected);
                    }
                };
                let ends = (self.want(a), self.want(b));
                // removing costs what it removes
                self.bulk = match (self.leaf_at(a), self.leaf_at(b)) {
                    (Some(x), Some(y)) => y - x + 1,
                    _ => 0,
                };
                let form = s.c % 3;
                let r = self.act(i, s, |t| {
                    let m = |cursor| QueryResult { cursor, found: true };
                    match (form, ends) {
                        (0, (Some(x), Some(y))) => consume(&mut t.drain(m(x)..m(y))),
                        (1, (Some(_), Some(_))) => {
                            let r = t.range::<LengthFinder>(a as usize..b as usize).unwrap();
                            consume(&mut t.drain(r))
                        }
                        _ => consume(&mut t.drain_by_query::<LengthFinder>(a as usize..b as usize)),
                    }
                });
                let (got, done) = got.into_inner();
                match r {
                    Out::Dead => return,
                    Out::Crashed if s.fault == F_QUERY => return,
                    _ => {}
                }
                if s.fault == F_ABANDON && !done {
                    *self.rep.faults_fired.entry(F_ABANDON).or_insert(0) += 1;
                }
                let want = cut(&self.model, a, b);
                let have = norm(got.iter());
                if !prefix(&have, &want) || (done && have != want) {
                    self.rep.fail(
                        Class::Return,
                        i,
                        format!("draining units {}..{} gave {} units in {} elements", a, b, length(&have), got.len()),
                    );
                }
                self.splice(a, b - a, &[]);
                self.caret[me] = a;
            }
            UPD_RANGE if D => {
                let (a, b) = self.range(s);
                let (Some(x), Some(y)) = (self.want(a), self.want(b)) else { return };
                self.bulk = self.leaf_at(b).unwrap_or(0) + 1 - self.leaf_at(a).unwrap_or(0);
                let mode = s.c % 3;
                let delta = 1 + (s.c >> 4) as i64 % 3;
                let change = move |e: &mut Span| match mode {
                    0 => e.tag += delta,
                    1 => e.tag -= delta,
                    _ if e.src % 3 == 0 => e.len = 0,
                    _ => e.tag -= 1,
                };
                let seen = std::cell::RefCell::new(0u64);
                let r = self.act(i, s, |t| {
                    t.update(x..y, &mut |e: &mut Span| {
                        env::tick(K_CLOSURE);
                        *seen.borrow_mut() += e.len;
                        let c0 = sum_of(D, e);
                        change(e);
                        Some(minus(&sum_of(D, e), &c0))
                    });
                });
                if let Out::Done(()) = r {
                    if seen.into_inner() != b - a {
                        self.rep.fail(Class::Return, i, format!("update of {}..{} did not touch each unit once", a, b));
                    }
                    let mut v = cut(&self.model, a, b);
                    v.iter_mut().for_each(change);
                    self.splice(a, b - a, &v);
                }
            }
            UPD_ARGS if D && !self.leaves.is_empty() => {
                let k = 1 + s.b % 8;
                let mut args = vec![];
                let mut plan = vec![];
                let base = self.leaf_at(p).unwrap();
                self.bulk = 2 * k as usize;
                for j in 0..k {
                    let h = mix2(s.c, j);
                    let o = (base + h as usize % 5).min(self.leaves.len() - 1);
                    let l = self.leaves[o];
                    let x = mix2(h, 1) % l.2;
                    let y = x + 1 + mix2(h, 2) % (l.2 - x);
                    let (x, y) = match h >> 40 & 7 {
                        0 | 1 => (0, l.2),
                        2 => (0, y),
                        3 => (x, l.2),
                        4 => (x, x + 1),
                        _ => (x, y),
                    };
                    let d = 1 + (h >> 20) as i64 % 3;
                    args.push((l.0, x as usize..y as usize, d));
                    plan.push((l.1 + x, l.1 + y, d));
                }
                let r = self.act(i, s, |t| {
                    t.update_leaves_with_arg_in_ranges(args, |e: &mut Span, d: &i64| e.tag += d);
                });
                if let Out::Done(()) = r {
                    for (a, b, d) in plan {
                        let mut v = cut(&self.model, a, b);
                        v.iter_mut().for_each(|e| e.tag += d);
                        self.splice(a, b - a, &v);
                    }
                }
            }
            UPD_SEARCH if D && !self.leaves.is_empty() => {
                let k = self.leaf_at(p).unwrap();
                let l = self.leaves[k];
                let Some(old) = self.tree.get_elem(l.0).copied() else { return };
                let off = p - l.1;
                let mode = s.b % 4;
                let (e0, e1) = match mode {
                    0 => (Span { tag: old.tag + 1, ..old }, None),
                    1 if off > 0 && off < l.2 => {
                        (old.part(0, off), Some(Span { tag: old.tag + 1, ..old.part(off, l.2) }))
                    }
                    2 => (old.part(0, 0), None),
                    3 if off > 0 => (old.part(0, off), None),
                    _ => (old, None),
                };
                let mut v = vec![e0];
                v.extend(e1);
                let diff = minus(&total(D, v.iter()), &sum_of(D, &old));
                let seen = std::cell::RefCell::new(None);
                let want = self.want(p);
                let r = self.act(i, s, |t| {
                    t.update_leaf_by_search::<LengthFinder>(&(p as usize), |e, q| {
                        env::tick(K_CLOSURE);
                        *seen.borrow_mut() = Some((*e, q.cursor));
                        *e = e0;
                        (e0 != old).then_some((diff, e1, None))
                    })
                });
                if let Out::Done(_) = r {
                    if seen.into_inner() != want.map(|c| (old, c)) {
                        self.rep.fail(Class::Return, i, format!("update by search of {} reached another element", p));
                    }
                    self.splice(l.1, l.2, &v);
                }
            }
            UPD_LEAF | UPD_RANGE | UPD_ARGS | UPD_SEARCH => {
                let Some(k) = self.leaf_at(p) else { return };
                let l = self.leaves[k];
                let Some(old) = self.tree.get_elem(l.0).copied() else { return };
                let mut x = mix2(s.c, 1) % (l.2 + 1);
                let mut y = x + mix2(s.c, 2) % (l.2 - x + 1);
                if s.b >> 4 & 3 == 0 {
                    y = (x + 1).min(l.2);
                }
                let part = |a: u64, b: u64, d: i64| {
                    (a < b).then(|| Span { tag: old.tag + d, ..old.part(a, b) })
                };
                let v: Vec<Span> = match s.b % 5 {
                    0 => vec![Span { tag: old.tag + 1, ..old }],
                    1 => [part(0, x, 0), part(x, y, 1), part(y, l.2, 0)].into_iter().flatten().collect(),
                    2 => [part(0, x, 0), part(y, l.2, 0)].into_iter().flatten().collect(),
                    3 => {
                        x = x.max(1);
                        y = y.max(x);
                        [part(0, x, 0), Some(self.fresh(s.d, None)), part(y, l.2, 0)].into_iter().flatten().collect()
                    }
                    _ => vec![],
                };
                let (e0, e1, e2) = (v.first().copied().unwrap_or(old.part(0, 0)), v.get(1).copied(), v.get(2).copied());
                let seen = std::cell::RefCell::new(None);
                let r = self.act(i, s, |t| {
                    t.update_leaf(l.0, |e| {
                        env::tick(K_CLOSURE);
                        *seen.borrow_mut() = Some(*e);
                        *e = e0;
                        (true, e1, e2)
                    })
                });
                if let Out::Done((valid, _)) = r {
                    if seen.into_inner() != Some(old) || valid == v.is_empty() {
                        self.rep.fail(Class::Return, i, "update_leaf reached another element or reported the wrong validity".into());
                    }
                    self.splice(l.1, l.2, &v);
                }
            }
            REMOVE => {
                let Some(c) = self.want(p) else { return };
                let l = self.leaves[self.leaf_at(p).unwrap()];
                if let Out::Done(r) = self.act(i, s, |t| t.remove_leaf(c)) {
                    if norm(r.iter()) != cut(&self.model, l.1, l.1 + l.2) {
                        self.rep.fail(Class::Return, i, "remove_leaf returned another element".into());
                    }
                    self.splice(l.1, l.2, &[]);
                }
            }
            SNAPSHOT => {
                let mut out = None;
                self.act(i, s, |t| out = Some(t.clone()));
                self.saved = out.map(|t| (t, self.model.clone()));
            }
            RESTORE => {
                if let Some((t, m)) = &mut self.saved {
                    std::mem::swap(t, &mut self.tree);
                    std::mem::swap(m, &mut self.model);
                }
            }
            REBUILD => {
                let mut v: Vec<Span> = self.tree.iter().copied().collect();
                if s.b & 1 == 1 {
                    v = self.model.clone();
                }
                self.bulk = v.len();
                self.act(i, s, |t| *t = v.into_iter().collect());
            }
            CLEAR => {
                if let Out::Done(()) = self.act(i, s, |t| t.clear()) {
                    self.model.clear();
                }
            }
            _ => {}
        }
    }

    pub fn finish(&mut self, i: usize) {
        if self.rep.dead {
            return;
        }
        self.verify(i, "the end", 7);
        if let Some((t, m)) = self.saved.take() {
            let r = guarded(|| norm(t.iter()));
            match r {
                Ok(x) if x == m => {}
                Ok(_) => self.rep.fail(Class::Isolation, i, "a snapshot changed".into()),
                Err(_) => self.rep.fail(Class::Panic, i, "reading a snapshot panicked".into()),
            }
        }
    }

    fn verify(&mut self, i: usize, opn: &str, h: u64) {
        env::with(|e| {
            e.salt.set(0);
            e.step_ticks.set(0);
        });
        let (tree, model) = (&self.tree, &self.model);
        let cap = self.leaves.len() + self.model.len() + 10_000;
        let r = guarded(|| {
            let mut leaves = vec![];
            let mut seen = vec![];
            let mut at = 0;
            for sl in tree.iter_range(..).take(cap) {
                leaves.push((sl.cursor().leaf, at, sl.elem.len));
                at += sl.elem.len;
                put(&mut seen, *sl.elem);
            }
            let plain = norm(tree.iter().take(cap));
            let sum = *tree.root_cache();
            (leaves, seen, plain, sum)
        });
        let (leaves, seen, plain, sum) = match r {
            Ok(x) => x,
            Err(_) => {
                self.rep.fail(Class::Panic, i, format!("reading after {} panicked", opn));
                self.rep.dead = true;
                return;
            }
        };
        let mut bad: Vec<(Class, String)> = vec![];
        if plain != *model {
            let k = plain.iter().zip(model).take_while(|(a, b)| a == b).count();
            bad.push((
                Class::Content,
                format!(
                    "after {}: contents differ from run #{}: {:?} instead of {:?} ({} units instead of {})",
                    opn, k, plain.get(k), model.get(k), length(&plain), length(model)
                ),
            ));
        }
        if seen != plain {
            bad.push((Class::RangeIter, format!("after {}: iter_range(..) and iter disagree", opn)));
        }
        if leaves.iter().any(|l| l.2 == 0) {
            bad.push((Class::Content, format!("after {}: an emptied element is still there", opn)));
        }
        if sum != total(D, plain.iter()) {
            bad.push((Class::Summary, format!("after {}: the summary of the whole is {:?}, expected {:?}", opn, sum, total(D, plain.iter()))));
        }
        for l in &leaves {
            self.rep.digest = mix2(self.rep.digest, mix2(l.1, l.2));
        }
        self.rep.digest = mix2(self.rep.digest, sum.w as u64);
        self.rep.max_leaves = self.rep.max_leaves.max(leaves.len() as u64);
        self.leaves = leaves;
        if self.rep.shapes.len() < 100_000 {
            self.rep.shapes.push(self.rep.digest);
        }
        let n = self.leaves.len();
        if n > 0 {
            let depth = guarded(|| tree.depth()).unwrap_or(99);
            self.rep.max_depth = self.rep.max_depth.max(depth as u64);
            let deepest = 2 + (n as f64).log(3.0).floor() as usize;
            if depth > deepest {
                bad.push((Class::Cost, format!("after {}: {} elements lie {} levels deep (at most {})", opn, n, depth, deepest)));
            }
        }
        if !bad.is_empty() {
            self.model = plain;
        } else {
            let r = guarded(|| tree.check());
            if r.is_err() {
                bad.push((Class::Check, format!("after {}: check() failed", opn)));
            }
            for k in 0..3 {
                let p = self.pos(k as u8, mix2(h, k));
                let q = self.pos(k as u8, mix2(h, k + 10));
                match guarded(|| self.probe(p, q)) {
                    Ok(None) => {}
                    Ok(Some(x)) => {
                        bad.push((x.0, format!("after {}: {}", opn, x.1)));
                        break;
                    }
                    Err(_) => {
                        bad.push((Class::Panic, format!("after {}: looking up {} or {} panicked", opn, p, q)));
                        break;
                    }
                }
            }
        }
        for (c, m) in bad {
            self.rep.fail(c, i, m);
        }
    }

    fn probe(&self, p: u64, q: u64) -> Option<(Class, String)> {
        let no = |m: String| Some((Class::Probe, m));
        let t = &self.tree;
        let (got, f) = t.query_with_finder_return::<Auditor>(&(p as usize));
        let found = t.query::<LengthFinder>(&(p as usize));
        if self.leaves.is_empty() {
            return if got.is_some() || found.is_some() { no("found something in an empty tree".into()) } else { None };
        }
        if f.wrong {
            return Some((Class::Summary, format!("a summary on the way to {} is stale", p)));
        }
        let n = length(&self.model);
        let (x, y) = (self.leaf_at(p)?, self.leaf_at(q)?);
        let (c, d) = (self.want(p)?, self.want(q)?);
        if got.map(|g| g.cursor) != Some(c) || found.map(|g| (g.cursor, g.found)) != Some((c, p < n)) {
            return no(format!("looking up {} of {} gave {:?}, expected element #{} offset {}", p, n, found, x, c.offset));
        }
        // what lies before
        let mut before = 0u64;
        let mut own = None;
        t.visit_previous_caches(c, |v| match v {
            PreviousCache::NodeCache(s) => before += s.len as u64,
            PreviousCache::PrevSiblingElem(e) => before += e.len,
            PreviousCache::ThisElemAndOffset { offset, .. } => own = Some(offset as u64),
        });
        if own.map(|o| before + o) != Some(p) {
            return no(format!("the parts before {} sum up to {} and {:?}", p, before, own));
        }
        if t.compare_pos(c, d) != (x, c.offset).cmp(&(y, d.offset)) {
            return no(format!("comparing the places of {} and {} is wrong", p, q));
        }
        let next = (p < n).then(|| p + 1);
        let place = |c: Cursor| {
            let k = self.leaves.iter().position(|l| l.0 == c.leaf)?;
            (c.offset as u64 <= self.leaves[k].2).then(|| self.leaves[k].1 + c.offset as u64)
        };
        let s = t.shift_path_by_one_offset(c);
        if let Some(w) = next {
            if s.and_then(place) != Some(w) && w < n {
                return no(format!("one further than {} is {:?}", p, s.and_then(place)));
            }
        }
        // reading from one place to the other
        let (a, b, lo, hi) = if p <= q { (c, d, p, q) } else { (d, c, q, p) };
        let mut v = vec![];
        for sl in t.iter_range(a..b) {
            let (s, e) = (sl.start.unwrap_or(0) as u64, sl.end.map_or(sl.elem.len, |e| e as u64));
            if s > e || e > sl.elem.len {
                return Some((Class::RangeIter, format!("reading {}..{} gave a slice {}..{} of {}", lo, hi, s, e, sl.elem.len)));
            }
            put(&mut v, sl.elem.part(s, e));
        }
        if v != cut(&self.model, lo, hi) {
            return Some((Class::RangeIter, format!("reading {}..{} gave {} units", lo, hi, length(&v))));
        }
        None
    }
}
