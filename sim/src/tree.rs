//! The simulated deployment around `BTree`: interleaved clients sharing trees,
//! snapshots, crashes of user code, abandoned drains, declined merges.
use crate::elem::*;
use crate::env::{self, guarded, Injected, Stop, K_CLOSURE, K_INSERT, K_ITER, K_MERGE, K_QUERY};
use crate::rng::{mix, mix2};
use crate::types::*;
use generic_btree::rle::{HasLength, Sliceable};
use generic_btree::{
    ArenaIndex, BTree, Cursor, LeafIndex, LengthFinder, PreviousCache, Query, QueryResult,
};
use std::collections::HashSet;
use std::ops::Bound;
use std::panic::panic_any;
use std::rc::Rc;

pub const OPS: [&str; 27] = [
    "init",
    "push",
    "prepend",
    "insert",
    "insert_at_handle",
    "insert_many",
    "remove",
    "remove_stale",
    "update_leaf",
    "update_by_search",
    "update_range",
    "update_subranges",
    "drain",
    "clear",
    "snapshot",
    "restore",
    "rebuild",
    "probe",
    "edit_in_place",
    "update_filter",
    "acquire",
    "insert_anchor",
    "drop_branch",
    "range_probe",
    "batch_insert",
    "batch_remove",
    "shrink_to",
];
pub const INIT: u8 = 0;
pub const PUSH: u8 = 1;
pub const PREPEND: u8 = 2;
pub const INSERT: u8 = 3;
pub const INS_HANDLE: u8 = 4;
pub const INS_MANY: u8 = 5;
pub const REMOVE: u8 = 6;
pub const REMOVE_STALE: u8 = 7;
pub const UPD_LEAF: u8 = 8;
pub const UPD_SEARCH: u8 = 9;
pub const UPD_RANGE: u8 = 10;
pub const UPD_ARGS: u8 = 11;
pub const DRAIN: u8 = 12;
pub const CLEAR: u8 = 13;
pub const CLONE: u8 = 14;
pub const RESTORE: u8 = 15;
pub const REBUILD: u8 = 16;
pub const PROBE: u8 = 17;
pub const EDIT: u8 = 18;
pub const UPD_FILTER: u8 = 19;
pub const ACQUIRE: u8 = 20;
pub const ANCHOR: u8 = 21;
pub const DROP_BRANCH: u8 = 22;
pub const RANGE_PROBE: u8 = 23;
pub const BATCH_INSERT: u8 = 24;
pub const BATCH_REMOVE: u8 = 25;
pub const SHRINK: u8 = 26;

const MAX_ATOMS: usize = 6000;
const MANY_ATOMS: usize = 16000;

#[derive(Clone, Debug)]
pub struct LeafRec {
    pub idx: LeafIndex,
    pub start: usize,
    pub len: usize,
    pub a0: usize,
    pub n: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Dump {
    pub leaves: Vec<LeafRec>,
    /// first leaf ordinal of every lowest-level node
    pub node_first: Vec<usize>,
    /// the way from the root to it
    pub node_path: Vec<[u8; MAX_DEPTH]>,
    pub node_count: usize,
    pub depth: usize,
    pub len: usize,
    pub atoms: Vec<Atom>,
    pub shape: u64,
}

fn combine(d: bool, a: &mut Cache, b: &Cache) {
    if !d {
        a.hash = a.hash.wrapping_mul(hpow(b.cnt as u64)).wrapping_add(b.hash);
        a.max = a.max.max(b.max);
    }
    a.cnt += b.cnt;
    a.len += b.len;
    a.sum += b.sum;
}

/// Simulated time (calls into user code) an operation on a tree of `n` elements may take:
/// about twice what the unchanged tree was seen to need, and logarithmic.
pub fn allowance(n: usize) -> u64 {
    40 + 12 * (usize::BITS - (n + 2).leading_zeros()) as u64
}

type Problem = (Class, String);

/// Reads the whole structure through the public lookup interface.
pub fn dump<const D: bool>(t: &BTree<T<D>>) -> (Dump, Vec<Problem>) {
    let mut out = Dump::default();
    let mut bad: Vec<Problem> = vec![];
    if t.is_empty() {
        out.node_count = 1;
        out.depth = 1;
        if *t.root_cache() != Cache::default() {
            bad.push((
                Class::Summary,
                format!("empty tree reports summary {:?}", t.root_cache()),
            ));
        }
        if t.first_leaf().is_some() || t.last_leaf().is_some() {
            bad.push((Class::Nodes, "empty tree has a first or last element".into()));
        }
        return (out, bad);
    }
    let mut path = [0u8; MAX_DEPTH];
    let mut changed: isize = -1;
    let mut acc: Vec<Cache> = vec![Cache::default(); MAX_DEPTH];
    let mut shape = 7u64;
    loop {
        let (_, w) = t.query_with_finder_return::<Walk>(&path);
        let seen = w.seen;
        let l = seen.len();
        if out.depth == 0 {
            out.depth = l;
        } else if out.depth != l {
            bad.push((
                Class::Nodes,
                format!("elements at different depths: {} and {}", out.depth, l),
            ));
            return (out, bad);
        }
        out.node_count += l - (changed + 1) as usize;
        for s in &seen[(changed + 1) as usize..] {
            shape = mix2(shape, s.len() as u64);
            if s.is_empty() {
                bad.push((Class::Nodes, "a reachable internal node is empty".into()));
                return (out, bad);
            }
        }
        // the lowest node
        out.node_first.push(out.leaves.len());
        out.node_path.push(path);
        let mut sum = Cache::default();
        for (a, c) in &seen[l - 1] {
            let ArenaIndex::Leaf(raw) = *a else {
                bad.push((Class::Nodes, "a node mixes elements and subtrees".into()));
                return (out, bad);
            };
            let idx: LeafIndex = raw.into();
            let Some(e) = t.get_elem(idx) else {
                bad.push((Class::Nodes, "a node refers to a removed element".into()));
                return (out, bad);
            };
            if l >= 2 {
                let want = seen[l - 2][path[l - 2] as usize].0;
                let got = t.get_leaf(*a).parent();
                if got != want {
                    bad.push((
                        Class::Check,
                        format!("element {:?} does not point to its node", ids(&e.atoms)),
                    ));
                }
            }
            let s = summarize(D, &e.atoms);
            if s != *c {
                bad.push((
                    Class::Summary,
                    format!(
                        "summary stored for element {:?} is {:?}, its contents give {:?}",
                        ids(&e.atoms),
                        c,
                        s
                    ),
                ));
            }
            combine(D, &mut sum, &s);
            out.leaves.push(LeafRec {
                idx,
                start: out.len,
                len: e.rle_len(),
                a0: out.atoms.len(),
                n: e.atoms.len(),
            });
            out.len += e.rle_len();
            out.atoms.extend_from_slice(&e.atoms);
        }
        // climb
        let mut lv = l as isize - 2;
        loop {
            if lv < 0 {
                if sum != *t.root_cache() {
                    bad.push((
                        Class::Summary,
                        format!(
                            "summary of the tree is {:?}, its contents give {:?}",
                            t.root_cache(),
                            sum
                        ),
                    ));
                }
                out.shape = shape;
                return (out, bad);
            }
            let i = lv as usize;
            let have = &seen[i][path[i] as usize].1;
            if *have != sum {
                bad.push((
                    Class::Summary,
                    format!(
                        "summary stored for a subtree at level {} is {:?}, its contents give {:?}",
                        i, have, sum
                    ),
                ));
            }
            combine(D, &mut acc[i], &sum);
            path[i] += 1;
            if (path[i] as usize) < seen[i].len() {
                changed = lv;
                for p in path.iter_mut().skip(i + 1) {
                    *p = 0;
                }
                break;
            }
            sum = std::mem::take(&mut acc[i]);
            path[i] = 0;
            lv -= 1;
        }
        if out.leaves.len() > 600_000 {
            bad.push((Class::Nodes, "structure walk does not end".into()));
            return (out, bad);
        }
    }
}

pub fn ids(a: &[Atom]) -> Vec<u32> {
    a.iter().take(12).map(|x| x.id).collect()
}
fn show(a: &[Atom]) -> String {
    let v: Vec<String> = a
        .iter()
        .take(40)
        .map(|x| format!("{}:{}/{}", x.id, x.val, x.mark))
        .collect();
    format!("[{}{}]", v.join(" "), if a.len() > 40 { " .." } else { "" })
}
fn diff_at(a: &[Atom], b: &[Atom]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let w = |v: &[Atom]| show(&v[i.min(v.len())..(i + 6).min(v.len())]);
    format!(
        "lengths {} (expected) {} (found); first difference at item {}: expected {} found {}",
        a.len(),
        b.len(),
        i,
        w(a),
        w(b)
    )
}

pub struct Branch<const D: bool> {
    tree: BTree<T<D>>,
    model: Vec<Atom>,
    dump: Rc<Dump>,
    owner: Vec<Option<LeafIndex>>,
    graves: Vec<LeafIndex>,
}
impl<const D: bool> Branch<D> {
    fn new() -> Self {
        Branch {
            tree: BTree::new(),
            model: vec![],
            dump: Rc::new(Dump::default()),
            owner: vec![],
            graves: vec![],
        }
    }
    fn total(&self) -> usize {
        self.dump.len
    }
    fn set_owner(&mut self, id: u32, l: Option<LeafIndex>) {
        let i = id as usize;
        if self.owner.len() <= i {
            self.owner.resize(i + 1, None);
        }
        self.owner[i] = l;
    }
    fn owner_of(&self, id: u32) -> Option<LeafIndex> {
        self.owner.get(id as usize).copied().flatten()
    }
    fn refresh(&mut self, l: LeafIndex) {
        if let Some(e) = self.tree.get_elem(l) {
            let v: Vec<u32> = e.atoms.iter().map(|a| a.id).collect();
            for id in v {
                self.set_owner(id, Some(l));
            }
        }
    }
    /// the place in the sequence a cursor denotes
    fn place(&self, c: Cursor) -> Option<usize> {
        let e = self.tree.get_elem(c.leaf)?;
        if c.offset > e.rle_len() {
            return None;
        }
        let f = e.atoms.first()?;
        let i = self.model.iter().position(|x| x.id == f.id)?;
        Some(i + c.offset)
    }
    fn lenpos(&self, idx: usize) -> usize {
        self.model[..idx].iter().filter(|a| !a.anchor).count()
    }
    fn reset_handles(&mut self) {
        self.owner.clear();
        self.graves.clear();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum After {
    /// nothing may have changed
    Same,
    /// handles must be exactly what the operation reported
    Mirror,
    /// the operation reports no handles: re-learn them
    Resync,
    /// all handles of the branch are void (cleared, rebuilt)
    Void,
}

#[derive(Default, Clone)]
struct Client {
    held: Vec<u32>,
    hot: usize,
}

pub struct TreeSim<const D: bool> {
    cfg: Config,
    br: Vec<Branch<D>>,
    clients: Vec<Client>,
    next_id: u32,
    pub rep: Report,
    strict_iso: bool,
    /// element values that were in existence before this run
    alive0: i64,
    /// elements or requests the current call handles one by one
    bulk: usize,
    /// elements the call has to go to, without work on each
    spread: usize,
    /// the items of a giant tree, and some room
    giant: usize,
}

enum Out<R> {
    Done(R),
    Crashed,
    Dead,
}

impl<const D: bool> TreeSim<D> {
    pub fn new(cfg: &Config) -> Self {
        TreeSim {
            cfg: cfg.clone(),
            br: vec![Branch::new()],
            clients: vec![Client::default(); cfg.clients.max(1) as usize],
            next_id: 1,
            rep: Report::default(),
            strict_iso: cfg.prop == "C09",
            alive0: env::with(|e| e.alive.get()),
            bulk: 0,
            spread: 0,
            giant: 0,
        }
    }

    fn most_atoms(&self) -> usize {
        let few = if self.cfg.prop == "C14" { MANY_ATOMS } else { MAX_ATOMS };
        few.max(self.giant)
    }
    fn fresh(&mut self, n: usize, class: u64, anchor: bool) -> Vec<Atom> {
        (0..n)
            .map(|_| {
                let id = self.next_id;
                self.next_id += 1;
                let h = mix2(self.cfg.vseed, id as u64);
                let mut val = (h % 50) as i32;
                if self.cfg.neg {
                    val -= 25;
                }
                Atom {
                    id,
                    val,
                    mark: 0,
                    class: (class % self.cfg.nclass.max(1) as u64) as u8,
                    anchor,
                }
            })
            .collect()
    }
    fn fresh_elem(&mut self, s: &Step) -> Elem {
        if self.cfg.anchors && mix(s.d) % 6 == 0 {
            return Elem::anchor(self.fresh(1, 0, true)[0]);
        }
        let n = 1 + (s.d >> 8) as usize % self.cfg.maxlen.max(1);
        Elem::run(self.fresh(n, s.d >> 24, false))
    }

    fn pos(&self, bi: usize, client: u8, v: u64) -> usize {
        let b = &self.br[bi];
        let total = b.total();
        let x = (v >> 4) as usize;
        let d = &b.dump;
        match v & 15 {
            0..=5 => x % (total + 1),
            6 => 0,
            7 => total,
            8 | 9 if !d.leaves.is_empty() => d.leaves[x % d.leaves.len()].start,
            10 | 11 if !d.node_first.is_empty() => {
                d.leaves[d.node_first[x % d.node_first.len()]].start
            }
            12 | 13 => {
                let hot = self.clients[client as usize % self.clients.len()].hot;
                (hot + x % 5).saturating_sub(2).min(total)
            }
            14 => (x % 8).min(total),
            _ => total.saturating_sub(x % 8),
        }
    }
    fn leaf_ord(&self, bi: usize, client: u8, v: u64) -> Option<usize> {
        let b = &self.br[bi];
        let d = &b.dump;
        let n = d.leaves.len();
        if n == 0 {
            return None;
        }
        let x = (v >> 4) as usize;
        Some(match v & 15 {
            0..=5 => x % n,
            6 => 0,
            7 => n - 1,
            8 => d.node_first[x % d.node_first.len()],
            9 => {
                let k = x % d.node_first.len();
                if k + 1 < d.node_first.len() {
                    d.node_first[k + 1] - 1
                } else {
                    n - 1
                }
            }
            10..=13 => {
                let hot = self.clients[client as usize % self.clients.len()].hot;
                let o = self.leaf_at(b, hot);
                (o + x % 3).saturating_sub(1).min(n - 1)
            }
            14 => (x % 14).min(n - 1),
            _ => n - 1 - (x % 14).min(n - 1),
        })
    }
    fn leaf_at(&self, b: &Branch<D>, p: usize) -> usize {
        let n = b.dump.leaves.len();
        b.dump
            .leaves
            .partition_point(|l| l.start + l.len <= p)
            .min(n.saturating_sub(1))
    }
    fn cursor(&self, bi: usize, client: u8, v: u64, w: u64) -> Option<(usize, Cursor)> {
        let o = self.leaf_ord(bi, client, v)?;
        let l = &self.br[bi].dump.leaves[o];
        let off = match w % 5 {
            0 => 0,
            1 => l.len,
            _ => (w >> 3) as usize % (l.len + 1),
        };
        Some((
            o,
            Cursor {
                leaf: l.idx,
                offset: off,
            },
        ))
    }

    /// Run one call into the system with the step's fault armed.
    fn act<R>(
        &mut self,
        i: usize,
        bi: usize,
        s: &Step,
        allowed: &[u8],
        f: impl FnOnce(&mut BTree<T<D>>) -> R,
    ) -> Out<R> {
        let armed = s.fault != 0 && allowed.contains(&s.fault);
        if armed {
            *self.rep.faults_armed.entry(s.fault).or_insert(0) += 1;
        }
        env::with(|e| {
            e.step_ticks.set(0);
            e.forced.set(0);
            e.agreed.borrow_mut().clear();
            if armed && s.fault <= 8 {
                e.crash_kind.set(s.fault);
                e.crash_in.set(if s.fault == F_CLOSURE { 0 } else { s.fk as u64 });
            }
        });
        let tree = &mut self.br[bi].tree;
        let (v0, n0) = (env::visits(), tree.node_len());
        let r = guarded(move || f(tree));
        env::with(|e| e.crash_kind.set(0));
        let op = OPS[s.op as usize % OPS.len()];
        let bulk = std::mem::take(&mut self.bulk);
        let spread = std::mem::take(&mut self.spread);
        if r.is_ok() {
            let gone = n0.saturating_sub(self.br[bi].tree.node_len());
            if let Some(m) = env::walked(op, v0, n0, (bulk + spread + gone) as u64, &mut self.rep.max_cost) {
                self.rep.fail(Class::Cost, i, m);
            }
        }
        let forced = env::with(|e| e.forced.take());
        if forced > 0 {
            self.rep.fail(
                Class::Content,
                i,
                format!("{} merged {} pair(s) of elements that had not agreed to it", op, forced),
            );
        }
        match r {
            Ok(x) => {
                let used = env::with(|e| e.step_ticks.get());
                // a batch step edits before the structure is read again
                let n = self.br[bi].dump.leaves.len() + 45;
                self.cost(i, op, used, allowance(n) + 30 * bulk as u64);
                Out::Done(x)
            }
            Err(Stop::Crash) => {
                *self.rep.faults_fired.entry(s.fault).or_insert(0) += 1;
                self.rep.mixd(0xC4A5);
                Out::Crashed
            }
            Err(Stop::Panic(m)) => {
                self.rep
                    .fail(Class::Panic, i, format!("{} panicked: {}", op, m));
                self.rep.dead = true;
                Out::Dead
            }
            Err(Stop::Livelock) => {
                self.rep.fail(
                    Class::Hang,
                    i,
                    format!("{} exceeded its simulated-time budget", op),
                );
                self.rep.dead = true;
                Out::Dead
            }
        }
    }
    fn cost(&mut self, i: usize, what: &str, used: u64, allowed: u64) {
        self.rep.max_cost = self.rep.max_cost.max(used * 100 / allowed);
        if used > allowed {
            self.rep.fail(
                Class::Cost,
                i,
                format!("{} called user code {} times, allowed {}", what, used, allowed),
            );
        }
    }
    /// Depth, node overhead and the work of lookups stay small.
    fn verify_cost(&mut self, i: usize, bi: usize, nd: &Dump, opn: &str) {
        let n = nd.leaves.len();
        let most = 3 + n * 34 / 100;
        self.rep.max_cost = self.rep.max_cost.max((nd.node_count * 100 / most) as u64);
        if nd.node_count > most {
            self.rep.fail(
                Class::Cost,
                i,
                format!("after {}: {} internal nodes hold {} elements (at most {})", opn, nd.node_count, n, most),
            );
        }
        let deepest = 2 + (n.max(1) as f64).log(3.0).floor() as usize;
        if nd.depth > deepest {
            self.rep.fail(
                Class::Cost,
                i,
                format!("after {}: {} elements lie {} levels deep (at most {})", opn, n, nd.depth, deepest),
            );
        }
        if n == 0 || self.cfg.prop != "C14" {
            return;
        }
        let h = mix2(self.cfg.vseed, i as u64);
        let p = h as usize % (nd.len + 1);
        let l = &nd.leaves[(h >> 32) as usize % n];
        let c = Cursor { leaf: l.idx, offset: 0 };
        let h2 = mix2(h, 0x600D);
        let l2 = &nd.leaves[h2 as usize % n];
        let c2 = Cursor { leaf: l2.idx, offset: 0 };
        let few = 1 + (h2 >> 40) as usize % 6;
        let upto = nd.leaves[(((h >> 32) as usize % n) + few).min(n - 1)].idx;
        let last = nd.leaves[n - 1].idx;
        let whole = h2 % 8 == 0;
        let r = self.look(i, bi, "a lookup", |b| {
            let t0 = env::with(|e| e.step_ticks.get());
            b.tree.query::<LengthFinder>(&p);
            let t1 = env::with(|e| e.step_ticks.get());
            let mut seen = 0;
            b.tree.visit_previous_caches(c, |_| seen += 1);
            (t1 - t0, seen)
        });
        if let Some((q, v)) = r {
            self.cost(i, "a lookup by position", q, allowance(n));
            self.cost(i, "counting before a cursor", v, allowance(n));
        }
        // accesses to nodes, one by one
        let r = self.look(i, bi, "a read", |b| {
            let t = &b.tree;
            let mut all = vec![];
            let mut one = |what: &'static str, each: usize, f: &mut dyn FnMut()| {
                let v0 = env::visits();
                f();
                all.push((what, env::visits() - v0, each));
            };
            one("query", 0, &mut || drop(t.query::<LengthFinder>(&p)));
            one("visit_previous_caches", 0, &mut || t.visit_previous_caches(c, |_| ()));
            one("next_elem", 0, &mut || drop(t.next_elem(c)));
            one("prev_elem", 0, &mut || drop(t.prev_elem(c)));
            one("compare_pos", 0, &mut || drop(t.compare_pos(c, c2)));
            one("get_elem", 0, &mut || drop(t.get_elem(c.leaf)));
            one("first_leaf", 0, &mut || drop(t.first_leaf()));
            one("last_leaf", 0, &mut || drop(t.last_leaf()));
            one("start_cursor", 0, &mut || drop(t.start_cursor()));
            one("end_cursor", 0, &mut || drop(t.end_cursor()));
            one("prefer_right", 0, &mut || drop(t.prefer_right(c)));
            one("prefer_left", 0, &mut || drop(t.prefer_left(c)));
            one("root_cache", 0, &mut || drop(t.root_cache().len));
            one("node_len", 0, &mut || drop(t.node_len()));
            one("is_empty", 0, &mut || drop(t.is_empty()));
            one("depth", 0, &mut || drop(t.depth()));
            one("iter", few, &mut || drop(t.iter().take(few).count()));
            one("iter_range", few, &mut || {
                drop(t.iter_range(c..Cursor { leaf: upto, offset: 0 }).count())
            });
            one("iter_range", few, &mut || {
                drop(t.iter_range(c..Cursor { leaf: last, offset: 0 }).take(few).count())
            });
            if whole {
                one("iter", n, &mut || drop(t.iter().count()));
                one("iter_range", n, &mut || drop(t.iter_range(..).count()));
            }
            all
        });
        for (what, used, each) in r.unwrap_or_default() {
            if let Some(m) = env::walked(what, env::visits() - used, n, each as u64, &mut self.rep.max_cost) {
                self.rep.fail(Class::Cost, i, m);
            }
        }
    }

    /// A read-only observation of branch `bi`.
    fn look<R>(&mut self, i: usize, bi: usize, what: &str, f: impl FnOnce(&Branch<D>) -> R) -> Option<R> {
        env::with(|e| e.step_ticks.set(0));
        let b = &self.br[bi];
        match guarded(move || f(b)) {
            Ok(r) => Some(r),
            Err(Stop::Panic(m)) => {
                self.rep
                    .fail(Class::Panic, i, format!("{} panicked: {}", what, m));
                self.rep.dead = true;
                None
            }
            Err(_) => {
                self.rep.fail(
                    Class::Hang,
                    i,
                    format!("{} exceeded its simulated-time budget", what),
                );
                self.rep.dead = true;
                None
            }
        }
    }

    pub fn step(&mut self, i: usize, s: &Step) {
        if self.rep.dead {
            return;
        }
        env::with(|e| {
            e.salt.set(s.salt);
            e.rate_merge.set(self.cfg.rate_merge);
            e.rate_insert.set(self.cfg.rate_insert);
            e.cap.set(self.cfg.cap);
            e.absorb.set(self.cfg.absorb);
            e.merge.set(self.cfg.merge);
            e.ordered.set(self.cfg.vseed % 3 == 0);
            e.budget.set(8_000_000 + 100 * self.giant as u64);
        });
        #[cfg(gbtree_sim)]
        generic_btree::sim::set_hash_seed(s.salt);
        let bi = s.br as usize % self.br.len();
        self.rep.steps_done += 1;
        let op = s.op as usize % OPS.len();
        self.rep.count(OPS[op]);
        let m0 = env::with(|e| (e.n_decl_merge.get(), e.n_decl_insert.get()));
        let after = match op as u8 {
            INIT => self.op_init(i, bi, s),
            PUSH => self.op_push(i, bi, s, false),
            PREPEND => self.op_push(i, bi, s, true),
            INSERT | ANCHOR => self.op_insert(i, bi, s),
            INS_HANDLE => self.op_ins_handle(i, bi, s),
            INS_MANY => self.op_ins_many(i, bi, s),
            REMOVE => self.op_remove(i, bi, s),
            REMOVE_STALE => self.op_stale(i, bi, s),
            UPD_LEAF => self.op_upd_leaf(i, bi, s),
            UPD_SEARCH => self.op_upd_search(i, bi, s),
            UPD_RANGE => self.op_upd_range(i, bi, s),
            UPD_ARGS => self.op_upd_args(i, bi, s),
            DRAIN | SHRINK => self.op_drain(i, bi, s),
            CLEAR => self.op_clear(i, bi, s),
            CLONE => self.op_clone(i, bi, s),
            RESTORE => self.op_restore(i, bi, s),
            REBUILD => self.op_rebuild(i, bi, s),
            PROBE => self.op_probe(i, bi, s),
            EDIT => self.op_edit(i, bi, s),
            UPD_FILTER => self.op_filter(i, bi, s),
            ACQUIRE => self.op_acquire(i, bi, s),
            DROP_BRANCH => self.op_drop(i, bi, s),
            RANGE_PROBE => self.op_range_probe(i, bi, s),
            BATCH_INSERT => self.op_batch_insert(i, bi, s),
            BATCH_REMOVE => self.op_batch_remove(i, bi, s),
            _ => After::Same,
        };
        env::with(|e| e.salt.set(0));
        let m1 = env::with(|e| (e.n_decl_merge.get(), e.n_decl_insert.get()));
        self.rep.addn("declined_merges", m1.0 - m0.0);
        self.rep.addn("declined_absorptions", m1.1 - m0.1);
        if self.rep.dead {
            return;
        }
        let bi = bi.min(self.br.len() - 1);
        if after != After::Same || s.fault != 0 {
            self.verify(i, bi, after, op);
        }
        if self.strict_iso {
            for o in 0..self.br.len() {
                if o != bi && !self.rep.dead {
                    self.verify_iso(i, o);
                }
            }
        }
        self.verify_alive(i, OPS[op]);
    }

    /// Every element value in existence belongs to one of the trees.
    fn verify_alive(&mut self, i: usize, opn: &str) {
        if self.rep.dead || !self.rep.fails.is_empty() {
            return;
        }
        let held: usize = self.br.iter().map(|b| b.dump.leaves.len()).sum();
        let alive = env::with(|e| e.alive.get()) - self.alive0;
        if alive != held as i64 {
            self.rep.fail(
                Class::Nodes,
                i,
                format!("after {}: {} element values exist, the trees hold {}", opn, alive, held),
            );
        }
    }

    pub fn finish(&mut self, i: usize) {
        for o in 0..self.br.len() {
            if !self.rep.dead {
                self.verify_iso(i, o);
            }
        }
    }

    /// A branch nobody touched in this step must be exactly as it was.
    fn verify_iso(&mut self, i: usize, bi: usize) {
        let n0 = self.rep.fails.len();
        self.verify(i, bi, After::Mirror, OPS.len());
        for f in &mut self.rep.fails[n0..] {
            if !matches!(f.class, Class::Panic | Class::Hang | Class::Cost) {
                f.msg = format!("(branch {} not edited in this step) {:?}: {}", bi, f.class, f.msg);
                f.class = Class::Isolation;
            }
        }
    }

    /// All invariants over the whole state of one branch.
    fn verify(&mut self, i: usize, bi: usize, after: After, op: usize) {
        let opn = OPS.get(op).copied().unwrap_or("(nothing)");
        let Some((nd, bad)) = self.look(i, bi, "reading the structure", |b| dump(&b.tree)) else {
            return;
        };
        let mut trouble = !bad.is_empty();
        for (c, m) in bad.into_iter().take(3) {
            self.rep.fail(c, i, format!("after {}: {}", opn, m));
        }
        self.rep.max_leaves = self.rep.max_leaves.max(nd.leaves.len() as u64);
        self.rep.max_depth = self.rep.max_depth.max(nd.depth as u64);
        self.rep.mixd(nd.shape);
        for a in &nd.atoms {
            self.rep.digest = mix2(self.rep.digest, (a.id as u64) << 32 | a.val as u32 as u64);
        }
        if self.rep.shapes.len() < 100_000 {
            self.rep.shapes.push(mix2(nd.shape, nd.node_count as u64));
        }
        // contents through the plain iterator
        let Some(it) = self.look(i, bi, "iter", |b| {
            let mut v: Vec<Atom> = Vec::with_capacity(b.model.len());
            for e in b.tree.iter() {
                v.extend_from_slice(&e.atoms);
                if v.len() > 600_000 {
                    break;
                }
            }
            v
        }) else {
            return;
        };
        let b = &self.br[bi];
        if it != b.model || nd.atoms != b.model {
            trouble = true;
            let m = if it != b.model {
                format!("after {}: reading the tree: {}", opn, diff_at(&b.model, &it))
            } else {
                format!(
                    "after {}: walking the tree by lookups: {}",
                    opn,
                    diff_at(&b.model, &nd.atoms)
                )
            };
            self.rep.fail(Class::Content, i, m);
            self.br[bi].model = nd.atoms.clone();
        }
        // contents through a range read of everything
        let r = self.look(i, bi, "iter_range(..)", |b| {
            let mut v: Vec<Atom> = Vec::with_capacity(b.model.len());
            let mut k = 0;
            let mut msg = None;
            for sl in b.tree.iter_range(..) {
                match nd.leaves.get(k) {
                    Some(l) => {
                        let last = k + 1 == nd.leaves.len();
                        if *sl.cursor() != (Cursor { leaf: l.idx, offset: 0 })
                            || sl.start != (k == 0).then_some(0)
                            || sl.end != last.then_some(l.len)
                        {
                            msg = Some(format!("wrong slice at element {}", k));
                        }
                    }
                    None => msg = Some("more elements than the tree holds".into()),
                }
                v.extend_from_slice(&sl.elem.atoms);
                k += 1;
                if v.len() > 600_000 {
                    break;
                }
            }
            if msg.is_none() && v != b.model {
                msg = Some(diff_at(&b.model, &v));
            }
            msg
        });
        match r {
            None => return,
            Some(Some(m)) => {
                trouble = true;
                self.rep
                    .fail(Class::RangeIter, i, format!("after {}: iter_range(..): {}", opn, m))
            }
            Some(None) => {}
        }
        let b = &self.br[bi];
        // accounting
        let want = nd.node_count + nd.leaves.len();
        let got = b.tree.node_len();
        if want != got {
            trouble = true;
            self.rep.fail(
                Class::Nodes,
                i,
                format!(
                    "after {}: node_len() is {}, {} nodes are reachable",
                    opn, got, want
                ),
            );
        } else if b.model.is_empty() && (!b.tree.is_empty() || got != 1) && nd.leaves.is_empty() {
            self.rep.fail(
                Class::Nodes,
                i,
                format!("after {}: an empty tree holds {} nodes", opn, got),
            );
        }
        if nd.leaves.len() > 0 {
            // every node but the root is somebody's child
            let avg = b.tree.internal_avg_children_num();
            let real = (nd.node_count + nd.leaves.len() - 1) as f64 / nd.node_count as f64;
            if want == got && (avg - real).abs() > 1e-9 {
                self.rep.fail(
                    Class::Nodes,
                    i,
                    format!("after {}: internal_avg_children_num() is {}, it is {}", opn, avg, real),
                );
            }
        }
        self.verify_cost(i, bi, &nd, opn);
        // handles
        self.verify_handles(i, bi, &nd, after, opn);
        // the tree's own opinion
        if !trouble || self.cfg.prop == "C02" || self.cfg.prop == "C11" {
            env::with(|e| e.step_ticks.set(0));
            let b = &self.br[bi];
            match guarded(|| b.tree.check()) {
                Ok(()) => {}
                Err(Stop::Panic(m)) => {
                    trouble = true;
                    self.rep
                        .fail(Class::Check, i, format!("after {}: check() failed: {}", opn, m));
                }
                Err(_) => {
                    trouble = true;
                    self.rep
                        .fail(Class::Hang, i, format!("after {}: check() does not end", opn));
                }
            }
        }
        if trouble {
            self.rep.count("steps_with_trouble");
        }
        self.br[bi].dump = Rc::new(nd);
    }

    fn verify_handles(&mut self, i: usize, bi: usize, nd: &Dump, after: After, opn: &str) {
        let b = &mut self.br[bi];
        let old = b.dump.clone();
        if after == After::Void {
            b.reset_handles();
            for l in &nd.leaves {
                for a in &nd.atoms[l.a0..l.a0 + l.n] {
                    b.set_owner(a.id, Some(l.idx));
                }
            }
            return;
        }
        let mut msg = None;
        let now: HashSet<LeafIndex> = nd.leaves.iter().map(|l| l.idx).collect();
        if now.len() != nd.leaves.len() {
            msg = Some("one handle denotes two elements".to_string());
        }
        if after == After::Resync {
            // a handle whose element's first item survived still denotes that element
            let mut cur: Vec<Option<LeafIndex>> = vec![None; self.next_id as usize + 1];
            for l in &nd.leaves {
                for a in &nd.atoms[l.a0..l.a0 + l.n] {
                    cur[a.id as usize] = Some(l.idx);
                }
            }
            for l in &old.leaves {
                let Some(f) = old.atoms.get(l.a0) else { continue };
                if let Some(x) = cur[f.id as usize] {
                    if x != l.idx {
                        msg = Some(format!(
                            "after {}: the handle of the element beginning with item {} no longer denotes it (it was not removed)",
                            opn, f.id
                        ));
                        break;
                    }
                }
            }
        } else {
            'o: for l in &nd.leaves {
                for a in &nd.atoms[l.a0..l.a0 + l.n] {
                    if b.owner_of(a.id) != Some(l.idx) {
                        msg = Some(format!(
                            "after {}: the handle recorded for item {} {}",
                            opn,
                            a.id,
                            match b.owner_of(a.id) {
                                None => "is unknown to its holder".to_string(),
                                Some(h) => match b.tree.get_elem(h) {
                                    None => "resolves to nothing although the item is in the tree".into(),
                                    Some(e) => format!("resolves to the element {:?}", ids(&e.atoms)),
                                },
                            }
                        ));
                        break 'o;
                    }
                }
            }
        }
        // removed handles resolve to nothing
        for l in &old.leaves {
            if !now.contains(&l.idx) {
                b.graves.push(l.idx);
            }
        }
        let n = b.graves.len();
        let stride = (n / 64).max(1);
        let tail = n.saturating_sub(64);
        for k in (0..tail).step_by(stride).chain(tail..n) {
            let g = b.graves[k];
            if now.contains(&g) {
                msg = Some(format!("after {}: a removed handle denotes an element again", opn));
                break;
            }
            if let Some(e) = b.tree.get_elem(g) {
                msg = Some(format!(
                    "after {}: a removed handle resolves to {:?}",
                    opn,
                    ids(&e.atoms)
                ));
                break;
            }
        }
        // (re)learn
        if after == After::Resync || msg.is_some() {
            b.owner.clear();
            for l in &nd.leaves {
                for a in &nd.atoms[l.a0..l.a0 + l.n] {
                    b.set_owner(a.id, Some(l.idx));
                }
            }
        }
        if let Some(m) = msg {
            self.rep.fail(Class::Handle, i, m);
        }
    }

    // ---------------------------------------------------------------- edits

    fn splice(&mut self, bi: usize, at: usize, del: usize, ins: &[Atom]) {
        self.br[bi].model.splice(at..at + del, ins.iter().copied());
    }

    /// the new element is where the returned cursor says
    fn returned(&mut self, i: usize, bi: usize, opn: &str, c: Cursor, atoms: &[Atom]) {
        let ok = match self.br[bi].tree.get_elem(c.leaf) {
            None => false,
            Some(e) => e.atoms.get(c.offset..c.offset + atoms.len()) == Some(atoms),
        };
        if !ok {
            self.rep.fail(
                Class::Return,
                i,
                format!(
                    "{} returned a position that does not hold the inserted items {:?}",
                    opn,
                    ids(atoms)
                ),
            );
        }
    }

    fn op_push(&mut self, i: usize, bi: usize, s: &Step, front: bool) -> After {
        let e = self.fresh_elem(s);
        let atoms = e.atoms.clone();
        let r = self.act(i, bi, s, &[K_MERGE], move |t| {
            if front {
                t.prepend(e)
            } else {
                t.push(e)
            }
        });
        match r {
            Out::Done(c) => {
                let at = if front { 0 } else { self.br[bi].model.len() };
                self.splice(bi, at, 0, &atoms);
                self.returned(i, bi, if front { "prepend" } else { "push" }, c, &atoms);
                for a in &atoms {
                    self.br[bi].set_owner(a.id, Some(c.leaf));
                }
                self.learn(s, bi, &atoms);
            }
            Out::Crashed => {}
            Out::Dead => {}
        }
        After::Mirror
    }

    fn learn(&mut self, s: &Step, bi: usize, atoms: &[Atom]) {
        let n = self.clients.len();
        let at = self.br[bi]
            .model
            .iter()
            .position(|x| x.id == atoms[0].id)
            .unwrap_or(0);
        let hot = self.br[bi].lenpos(at);
        let c = &mut self.clients[s.client as usize % n];
        c.hot = hot;
        if c.held.len() < 12 {
            c.held.push(atoms[0].id);
        } else {
            let k = (s.a as usize) % 12;
            c.held[k] = atoms[0].id;
        }
    }

    fn find(&mut self, i: usize, bi: usize, which: u64, p: usize) -> Option<Option<QueryResult>> {
        self.look(i, bi, "query", |b| match which % 3 {
            0 => b.tree.query::<LengthFinder>(&p),
            1 => b.tree.query::<LeftFinder>(&p),
            _ => b.tree.query::<CntFinder>(&p),
        })
    }

    fn op_insert(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let which = if s.op == ANCHOR { s.c } else { s.c % 4 };
        let e = if s.op == ANCHOR && self.cfg.anchors {
            Elem::anchor(self.fresh(1, 0, true)[0])
        } else {
            self.fresh_elem(s)
        };
        let atoms = e.atoms.clone();
        let (c, r);
        if which % 4 == 3 {
            let Some((_, cur)) = self.cursor(bi, s.client, s.a, s.b) else {
                return self.op_push(i, bi, s, s.a & 1 == 1);
            };
            c = Some(cur);
            r = self.act(i, bi, s, &[K_MERGE, K_INSERT], move |t| {
                t.insert_by_path(cur, e)
            });
        } else {
            let p = if which % 3 == 2 {
                (s.a >> 4) as usize % (self.br[bi].model.len() + 1)
            } else {
                self.pos(bi, s.client, s.a)
            };
            let Some(q) = self.find(i, bi, which, p) else {
                return After::Same;
            };
            c = q.map(|q| q.cursor);
            if let Some(cur) = c {
                let b = &self.br[bi];
                let ok = match b.place(cur) {
                    None => false,
                    Some(at) if which % 3 == 2 => {
                        at == p || (p == b.model.len() && at + 1 == p && b.model[at].anchor)
                    }
                    Some(at) => b.lenpos(at) == p,
                };
                if !ok {
                    self.rep.fail(
                        Class::Return,
                        i,
                        format!("looking up position {} gave {:?}", p, cur.offset),
                    );
                }
            }
            r = self.act(i, bi, s, &[K_QUERY, K_MERGE, K_INSERT], move |t| {
                match which % 3 {
                    0 => t.insert::<LengthFinder>(&p, e),
                    1 => t.insert::<LeftFinder>(&p, e),
                    _ => t.insert::<CntFinder>(&p, e),
                }
            });
        }
        let at = match c {
            None => Some(self.br[bi].model.len()),
            // the cursor's element may just have been split or extended to its
            // left, so its place was fixed before: look it up in the old dump
            Some(cur) => self.old_place(bi, cur),
        };
        match r {
            Out::Done((cur, split)) => {
                if let Some(at) = at {
                    self.splice(bi, at, 0, &atoms);
                }
                self.returned(i, bi, "insert", cur, &atoms);
                for l in &split.arr {
                    self.br[bi].refresh(*l);
                }
                for a in &atoms {
                    self.br[bi].set_owner(a.id, Some(cur.leaf));
                }
                self.reported(i, bi, "insert", &split.arr, &[cur.leaf]);
                self.learn(s, bi, &atoms);
            }
            _ => {}
        }
        After::Mirror
    }

    /// place of a cursor in the sequence as of the last verified state
    fn old_place(&self, bi: usize, c: Cursor) -> Option<usize> {
        self.br[bi]
            .dump
            .leaves
            .iter()
            .find(|l| l.idx == c.leaf)
            .map(|l| l.a0 + c.offset.min(l.n))
    }

    /// handles an operation reports must denote elements
    fn reported(&mut self, i: usize, bi: usize, opn: &str, a: &[LeafIndex], b: &[LeafIndex]) {
        for l in a.iter().chain(b) {
            if self.br[bi].tree.get_elem(*l).is_none() {
                self.rep.fail(
                    Class::Return,
                    i,
                    format!("{} reported a handle that denotes nothing", opn),
                );
            }
        }
    }

    fn op_ins_handle(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let n = self.clients.len();
        let held = &self.clients[s.client as usize % n].held;
        if held.is_empty() {
            return self.op_insert(i, bi, s);
        }
        let id = held[(s.a >> 4) as usize % held.len()];
        let b = &self.br[bi];
        let Some(h) = b.owner_of(id) else {
            return self.op_stale(i, bi, s);
        };
        let Some(at0) = b.model.iter().position(|x| x.id == id) else {
            return After::Same;
        };
        // locate the held item inside its element
        let Some(k) = b
            .tree
            .get_elem(h)
            .and_then(|e| e.atoms.iter().position(|x| x.id == id))
        else {
            self.rep.fail(
                Class::Handle,
                i,
                format!("the handle held for item {} does not reach it", id),
            );
            return After::Same;
        };
        let anchor = b.model[at0].anchor;
        let side = if anchor { 0 } else { (s.b & 1) as usize };
        let cur = Cursor {
            leaf: h,
            offset: if anchor { 0 } else { k + side },
        };
        let at = at0 + side;
        let e = self.fresh_elem(s);
        let atoms = e.atoms.clone();
        if let Out::Done((cur, split)) =
            self.act(i, bi, s, &[K_MERGE, K_INSERT], move |t| t.insert_by_path(cur, e))
        {
            self.splice(bi, at, 0, &atoms);
            self.returned(i, bi, "insert_by_path", cur, &atoms);
            for l in &split.arr {
                self.br[bi].refresh(*l);
            }
            for a in &atoms {
                self.br[bi].set_owner(a.id, Some(cur.leaf));
            }
            self.reported(i, bi, "insert_by_path", &split.arr, &[cur.leaf]);
            self.learn(s, bi, &atoms);
        }
        After::Mirror
    }

    fn supply(&mut self, s: &Step, n: usize) -> Vec<Elem> {
        let mut v = Vec::with_capacity(n);
        for k in 0..n {
            let h = mix2(s.d, k as u64);
            let st = Step { d: h, ..*s };
            v.push(self.fresh_elem(&st));
        }
        v
    }

    fn op_ins_many(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let n = match s.b % 8 {
            0 => (s.b >> 3) as usize % 3,
            1..=4 => 2 + (s.b >> 3) as usize % 9,
            5 | 6 => 8 + (s.b >> 3) as usize % 40,
            _ if s.b >> 40 & 15 == 0 => 150 + (s.b >> 3) as usize % 1200,
            _ => 20 + (s.b >> 3) as usize % 150,
        };
        if self.br[bi].model.len() + n * self.cfg.maxlen > self.most_atoms() {
            return After::Same;
        }
        let v = self.supply(s, n);
        let atoms: Vec<Atom> = v.iter().flat_map(|e| e.atoms.iter().copied()).collect();
        let hint = self.hint(s.c >> 8, n);
        let cur = self.cursor(bi, s.client, s.a, s.c).map(|x| x.1);
        let at = match cur {
            None => 0,
            Some(c) => match self.old_place(bi, c) {
                Some(x) => x,
                None => return After::Same,
            },
        };
        self.bulk = n;
        match self.act(i, bi, s, &[K_ITER], move |t| {
            t.insert_many_by_cursor(cur, Source::new(v, hint))
        }) {
            Out::Done(()) => {
                self.splice(bi, at, 0, &atoms);
                if !atoms.is_empty() {
                    self.learn(s, bi, &atoms);
                }
                After::Resync
            }
            Out::Crashed => After::Mirror,
            Out::Dead => After::Same,
        }
    }

    fn hint(&self, v: u64, n: usize) -> usize {
        match v % 4 {
            0 => n,
            1 => 0,
            _ => n / 2,
        }
    }

    fn op_remove(&mut self, i: usize, bi: usize, s: &Step) -> After {
        // by held handle or by place
        let n = self.clients.len();
        let cl = &self.clients[s.client as usize % n];
        let b = &self.br[bi];
        let mut target = None;
        if s.c % 3 == 0 && !cl.held.is_empty() {
            let id = cl.held[(s.a >> 4) as usize % cl.held.len()];
            if let (Some(h), true) = (b.owner_of(id), b.model.iter().any(|x| x.id == id)) {
                target = Some((h, Some(id)));
            }
        }
        if target.is_none() {
            let Some(o) = self.leaf_ord(bi, s.client, s.a) else {
                return After::Same;
            };
            target = Some((b.dump.leaves[o].idx, None));
        }
        let (h, id) = target.unwrap();
        let Some(l) = b.dump.leaves.iter().find(|l| l.idx == h).cloned() else {
            self.rep
                .fail(Class::Handle, i, "a held handle is not in the tree".into());
            return After::Same;
        };
        let want = b.model[l.a0..l.a0 + l.n].to_vec();
        let off = (s.b as usize) % (l.len + 1);
        if let Out::Done(r) = self.act(i, bi, s, &[], move |t| {
            t.remove_leaf(Cursor {
                leaf: h,
                offset: off,
            })
        }) {
            match r {
                Some(e) if e.atoms == want => {
                    if let Some(id) = id {
                        if !want.iter().any(|x| x.id == id) {
                            self.rep.fail(
                                Class::Handle,
                                i,
                                format!("removing by the handle held for item {} removed {:?}", id, ids(&e.atoms)),
                            );
                        }
                    }
                }
                Some(e) => self.rep.fail(
                    Class::Return,
                    i,
                    format!(
                        "remove_leaf returned {:?}, the element was {:?}",
                        ids(&e.atoms),
                        ids(&want)
                    ),
                ),
                None => self.rep.fail(
                    Class::Return,
                    i,
                    "remove_leaf found nothing at a live handle".into(),
                ),
            }
            self.splice(bi, l.a0, l.n, &[]);
            for a in &want {
                self.br[bi].set_owner(a.id, None);
            }
            let n = self.clients.len();
            self.clients[s.client as usize % n].hot = l.start;
        }
        After::Mirror
    }

    fn op_stale(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let b = &self.br[bi];
        if b.graves.is_empty() {
            return After::Same;
        }
        let n = b.graves.len();
        let g = if s.a & 1 == 0 {
            b.graves[n - 1 - (s.a >> 4) as usize % n.min(16)]
        } else {
            b.graves[(s.a >> 4) as usize % n]
        };
        let off = (s.b % 3) as usize;
        if let Out::Done((a, m, r)) = self.act(i, bi, s, &[], move |t| {
            let a = t.get_elem(g).is_none();
            let m = t.get_elem_mut(g).is_none();
            let r = t.remove_leaf(Cursor {
                leaf: g,
                offset: off,
            });
            (a, m, r)
        }) {
            if !a || !m {
                self.rep
                    .fail(Class::Handle, i, "a removed handle resolves to an element".into());
            }
            if let Some(e) = r {
                self.rep.fail(
                    Class::Handle,
                    i,
                    format!("removing through a removed handle removed {:?}", ids(&e.atoms)),
                );
            }
        }
        After::Mirror
    }

    fn op_upd_leaf(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let Some(o) = self.leaf_ord(bi, s.client, s.a) else {
            return After::Same;
        };
        let l = self.br[bi].dump.leaves[o].clone();
        let before: Vec<Atom> = self.br[bi].model[l.a0..l.a0 + l.n].to_vec();
        let anchor = before[0].anchor;
        let mut mode = (s.b % 16) as u8;
        if anchor {
            mode = [0, 1, 3, 14, 16, 17][(s.b >> 8) as usize % 6];
        }
        let n = l.n;
        let k1 = 1 + (s.c >> 3) as usize % n.max(1);
        let k2 = k1 + (s.c >> 23) as usize % (n - k1 + 1);
        let extra = self.fresh(1 + (s.d % 3) as usize, s.d >> 9, false);
        let anch = self.cfg.anchors.then(|| self.fresh(1, 0, true)[0]);
        let delta = 1 + (s.d >> 12) as i32 % 7;
        let plan = plan_leaf(mode, &before, k1, k2, &extra, anch, delta);
        let (need, e0, e1, e2) = plan;
        let mut want: Vec<Atom> = e0.atoms.clone();
        for e in [&e1, &e2].into_iter().flatten() {
            want.extend_from_slice(&e.atoms);
        }
        let rest = [e1.clone(), e2.clone()];
        let seen = std::cell::RefCell::new(None);
        let sliced = std::cell::Cell::new(true);
        let salt = mix(s.d ^ 77);
        let r = self.act(i, bi, s, &[K_CLOSURE], |t| {
            t.update_leaf(l.idx, |e| {
                env::tick(K_CLOSURE);
                *seen.borrow_mut() = Some(e.atoms.clone());
                if mode == 12 && !anchor {
                    // the library's own partial-update helper
                    let (a, b) = e.update_with_split(bounds(k1 - 1, k2, n, salt), |x| {
                        for y in &mut x.atoms {
                            y.val += delta;
                        }
                    });
                    (true, a, b)
                } else {
                    if !anchor {
                        let part = e.slice(bounds(k1 - 1, k2, n, salt));
                        let mut own = e.clone();
                        own.slice_(bounds(k1 - 1, k2, n, salt >> 8));
                        sliced.set(part.atoms == before[k1 - 1..k2] && own.atoms == part.atoms);
                    }
                    *e = e0;
                    (need, e1, e2)
                }
            })
        });
        if !sliced.get() {
            self.rep
                .fail(Class::Return, i, "a slice of an element is wrong".into());
        }
        let (valid, split) = match r {
            Out::Done(x) => x,
            Out::Crashed => return After::Mirror,
            Out::Dead => return After::Same,
        };
        if seen.into_inner().as_deref() != Some(&before[..]) {
            self.rep.fail(
                Class::Return,
                i,
                "update_leaf handed its caller the wrong element".into(),
            );
        }
        self.splice(bi, l.a0, l.n, &want);
        for a in &before {
            self.br[bi].set_owner(a.id, None);
        }
        if valid != !want.is_empty() {
            self.rep.fail(
                Class::Return,
                i,
                format!(
                    "update_leaf said the element {} but it {}",
                    if valid { "is still there" } else { "is gone" },
                    if want.is_empty() { "was emptied" } else { "has contents" }
                ),
            );
        }
        let b = &mut self.br[bi];
        b.refresh(l.idx);
        for x in &split.arr {
            b.refresh(*x);
        }
        self.reported(i, bi, "update_leaf", &split.arr, &[]);
        // reported handles are new elements, or the neighbour that took new items
        let old: HashSet<LeafIndex> = self.br[bi].dump.leaves.iter().map(|l| l.idx).collect();
        let moved: HashSet<u32> = rest
            .iter()
            .flatten()
            .flat_map(|e| e.atoms.iter().map(|a| a.id))
            .chain(want.iter().map(|a| a.id))
            .collect();
        for x in &split.arr {
            let holds = self.br[bi]
                .tree
                .get_elem(*x)
                .is_some_and(|e| e.atoms.iter().any(|a| moved.contains(&a.id)));
            if *x == l.idx || (old.contains(x) && !holds) || !holds {
                self.rep.fail(
                    Class::Return,
                    i,
                    "update_leaf reported a handle that holds none of the new elements".into(),
                );
            }
        }
        let n = self.clients.len();
        self.clients[s.client as usize % n].hot = l.start;
        After::Mirror
    }

    fn op_upd_search(&mut self, i: usize, bi: usize, s: &Step) -> After {
        if !D || self.br[bi].dump.leaves.is_empty() {
            return self.op_upd_leaf(i, bi, s);
        }
        let which = s.c % 3;
        let p = if which == 2 {
            (s.a >> 4) as usize % self.br[bi].model.len()
        } else {
            self.pos(bi, s.client, s.a)
        };
        let Some(Some(q)) = self.find(i, bi, which, p) else {
            return After::Same;
        };
        let Some(l) = self.br[bi]
            .dump
            .leaves
            .iter()
            .find(|l| l.idx == q.cursor.leaf)
            .cloned()
        else {
            return After::Same;
        };
        let before: Vec<Atom> = self.br[bi].model[l.a0..l.a0 + l.n].to_vec();
        let anchor = before[0].anchor;
        let mut mode = [0u8, 1, 2, 3, 4, 4, 10, 14, 18][(s.b % 9) as usize];
        if anchor {
            mode = [0, 1, 3, 14, 16, 18][(s.b >> 8) as usize % 6];
        }
        let n = l.n;
        let k1 = 1 + (s.c >> 3) as usize % n.max(1);
        let extra = self.fresh(1 + (s.d % 3) as usize, s.d >> 9, false);
        let anch = self.cfg.anchors.then(|| self.fresh(1, 0, true)[0]);
        let delta = 1 + (s.d >> 12) as i32 % 7;
        let (need, e0, e1, _) = plan_leaf(mode, &before, k1, k1, &extra, anch, delta);
        let e1 = e1.filter(|e| !e.atoms.is_empty());
        let mut want: Vec<Atom> = e0.atoms.clone();
        if let Some(e) = &e1 {
            want.extend_from_slice(&e.atoms);
        }
        let c0 = summarize(D, &before);
        let c1 = summarize(D, &want);
        let diff = Diff {
            cnt: c1.cnt - c0.cnt,
            len: c1.len - c0.len,
            sum: c1.sum - c0.sum,
        };
        let seen = std::cell::RefCell::new(None);
        let r = self.act(i, bi, s, &[K_QUERY, K_CLOSURE], |t| {
            let f = |e: &mut Elem, q: QueryResult| {
                env::tick(K_CLOSURE);
                *seen.borrow_mut() = Some((e.atoms.clone(), q.cursor));
                *e = e0;
                need.then_some((diff, e1, None))
            };
            match which {
                0 => t.update_leaf_by_search::<LengthFinder>(&p, f),
                1 => t.update_leaf_by_search::<LeftFinder>(&p, f),
                _ => t.update_leaf_by_search::<CntFinder>(&p, f),
            }
        });
        let (cur, split) = match r {
            Out::Done(x) => x,
            Out::Crashed => return After::Mirror,
            Out::Dead => return After::Same,
        };
        if seen.into_inner() != Some((before.clone(), q.cursor)) {
            self.rep.fail(
                Class::Return,
                i,
                "update_leaf_by_search reached another element than a lookup of the same position".into(),
            );
        }
        self.splice(bi, l.a0, l.n, &want);
        for a in &before {
            self.br[bi].set_owner(a.id, None);
        }
        let b = &mut self.br[bi];
        b.refresh(l.idx);
        for x in &split.arr {
            b.refresh(*x);
        }
        self.reported(i, bi, "update_leaf_by_search", &split.arr, &[]);
        if cur.is_some() == want.is_empty() || cur.is_some_and(|c| c != q.cursor) {
            self.rep.fail(
                Class::Return,
                i,
                "update_leaf_by_search reported the wrong position or validity".into(),
            );
        }
        After::Mirror
    }

    fn two_cursors(&self, bi: usize, s: &Step) -> Option<(Cursor, Cursor)> {
        let a = self.cursor(bi, s.client, s.a, s.c)?;
        let n = self.br[bi].dump.leaves.len();
        let b = match s.b & 7 {
            0 => a,
            1 | 2 => self.cursor(bi, s.client, s.b >> 3, s.c >> 20)?,
            _ => {
                // near
                let o = (a.0 + (s.b >> 8) as usize % if s.b & 8 == 0 { 4 } else { 30 }).min(n - 1);
                let l = &self.br[bi].dump.leaves[o];
                let w = s.c >> 20;
                let off = match w % 5 {
                    0 => 0,
                    1 => l.len,
                    _ => (w >> 3) as usize % (l.len + 1),
                };
                (
                    o,
                    Cursor {
                        leaf: l.idx,
                        offset: off,
                    },
                )
            }
        };
        Some(if (a.0, a.1.offset) <= (b.0, b.1.offset) {
            (a.1, b.1)
        } else {
            (b.1, a.1)
        })
    }

    fn op_upd_range(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let Some((mut from, mut to)) = self.two_cursors(bi, s) else {
            return After::Same;
        };
        if s.d % 16 == 0 {
            // everything
            let d = &self.br[bi].dump;
            from = Cursor {
                leaf: d.leaves[0].idx,
                offset: 0,
            };
            let l = d.leaves.last().unwrap();
            to = Cursor {
                leaf: l.idx,
                offset: l.len,
            };
        }
        let (ai, bi2) = (
            self.old_place(bi, from).unwrap(),
            self.old_place(bi, to).unwrap(),
        );
        let mode = if D { (s.d >> 8) % 4 } else { 0 };
        let delta = 1 + (s.d >> 12) as i32 % 7;
        let modulus = 1 + (s.d >> 20) as u32 % 3;
        let change = move |a: &Atom| -> Option<Atom> {
            let mut a = *a;
            match mode {
                0 => a.mark = a.mark.wrapping_add(1),
                1 => a.val += delta,
                2 => {
                    a.val += delta;
                    a.mark = a.mark.wrapping_add(1);
                }
                _ => {
                    if a.id % modulus == 0 {
                        return None;
                    }
                    a.val -= delta;
                }
            }
            Some(a)
        };
        let calls = std::cell::RefCell::new(Vec::<u32>::new());
        let d = self.br[bi].dump.clone();
        self.bulk = leaf_ord_of(&d, to.leaf).unwrap_or(0) + 1 - leaf_ord_of(&d, from.leaf).unwrap_or(0);
        let r = self.act(i, bi, s, &[K_CLOSURE], |t| {
            let mut first = true;
            t.update(from..to, &mut |e: &mut Elem| {
                if first {
                    first = false;
                    env::tick(K_CLOSURE);
                }
                calls.borrow_mut().extend(e.atoms.iter().map(|a| a.id));
                let c0 = summarize(D, &e.atoms);
                e.atoms = e.atoms.iter().filter_map(change).collect();
                let c1 = summarize(D, &e.atoms);
                if mode == 0 {
                    None
                } else {
                    Some(Diff {
                        cnt: c1.cnt - c0.cnt,
                        len: c1.len - c0.len,
                        sum: c1.sum - c0.sum,
                    })
                }
            })
        });
        let split = match r {
            Out::Done(x) => x,
            // the range ends may have been split off, which changes no contents
            // but does move items to elements nobody was told about
            Out::Crashed => return After::Resync,
            Out::Dead => return After::Same,
        };
        let inside = self.br[bi].model[ai..bi2].to_vec();
        let mut want: Vec<u32> = inside.iter().map(|a| a.id).collect();
        let mut got = calls.into_inner();
        want.sort_unstable();
        got.sort_unstable();
        if want != got {
            self.rep.fail(
                Class::Return,
                i,
                format!(
                    "update touched items {:?}.. instead of {:?}..",
                    &got[..got.len().min(8)],
                    &want[..want.len().min(8)]
                ),
            );
        }
        let new: Vec<Atom> = inside.iter().filter_map(change).collect();
        self.splice(bi, ai, inside.len(), &new);
        for x in &split.arr {
            self.br[bi].refresh(*x);
        }
        let kept: std::collections::BTreeSet<u32> = new.iter().map(|x| x.id).collect();
        for a in &inside {
            if !kept.contains(&a.id) {
                self.br[bi].set_owner(a.id, None);
            }
        }
        // a reported part may itself have been removed by the change
        let _ = split;
        After::Mirror
    }

    fn op_upd_args(&mut self, i: usize, bi: usize, s: &Step) -> After {
        if !D || self.br[bi].dump.leaves.is_empty() {
            return self.op_upd_range(i, bi, s);
        }
        let n = match s.b >> 20 & 15 {
            0 => 1 + (s.b % 60) as usize,
            1 | 2 => 1 + (s.b % 20) as usize,
            _ => 1 + (s.b % 6) as usize,
        };
        let d = self.br[bi].dump.clone();
        let base = self.leaf_ord(bi, s.client, s.a).unwrap();
        let mut args = vec![];
        let mut plan = vec![];
        for k in 0..n {
            let h = mix2(s.c, k as u64);
            let o = match s.b >> 8 & 3 {
                0 => base,
                1 => (base + (h % (3 + n as u64 / 2)) as usize).min(d.leaves.len() - 1),
                2 => (base + (h % (20 + 2 * n as u64)) as usize).min(d.leaves.len() - 1),
                _ => (h % d.leaves.len() as u64) as usize,
            };
            let l = &d.leaves[o];
            let (x, y) = if l.len == 0 {
                (0, 0)
            } else {
                let x = (h >> 20) as usize % l.len;
                let y = x + 1 + (h >> 40) as usize % (l.len - x);
                match h >> 60 {
                    0..=3 => (0, l.len),
                    4 => (0, y),
                    5 => (x, l.len),
                    // a request for nothing, also at either end of the element
                    6 => (x, x),
                    7 => (0, 0),
                    8 => (l.len, l.len),
                    _ => (x, y),
                }
            };
            let amount = (1 + (h >> 50) % 5) as i32;
            args.push((l.idx, x..y, (amount, 1u32 << (k % 32))));
            let (p, q) = if l.len == 0 {
                (l.a0, l.a0 + 1)
            } else {
                (l.a0 + x, l.a0 + y)
            };
            plan.push((p, q, amount, 1u32 << (k % 32)));
        }
        self.bulk = args.len() * 2;
        let r = self.act(i, bi, s, &[], |t| {
            t.update_leaves_with_arg_in_ranges(args, |e: &mut Elem, a: &(i32, u32)| {
                for x in &mut e.atoms {
                    x.val += a.0;
                    x.mark = x.mark.wrapping_add(a.1);
                }
            })
        });
        if let Out::Done(new) = r {
            for (p, q, am, m) in plan {
                for a in &mut self.br[bi].model[p..q] {
                    a.val += am;
                    a.mark = a.mark.wrapping_add(m);
                }
            }
            for l in &new {
                self.br[bi].refresh(*l);
            }
            self.reported(i, bi, "update_leaves_with_arg_in_ranges", &new, &[]);
        }
        After::Mirror
    }

    fn op_drain(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let empty = self.br[bi].dump.leaves.is_empty();
        let form = s.c % 6;
        let natoms = self.br[bi].model.len();
        // 0 length, 1 left, 2 count: by lookups; 3 range()+drain; 4,5 by cursors
        let (p, q);
        let mut cursors = None;
        if s.op == SHRINK {
            // leave only a little
            let total = if form == 2 { natoms } else { self.br[bi].total() };
            let keep = (s.b % 30) as usize;
            let lo = (keep / 2).min(total);
            let left = match s.a & 7 {
                0 | 1 => 0,
                2 => lo,
                _ => (s.a >> 4) as usize % (lo + 1),
            };
            p = left;
            q = total.saturating_sub(lo - left.min(lo)).max(p);
        } else if form == 2 {
            let x = (s.a >> 4) as usize % (natoms + 1);
            let y = width(s.b, x, natoms);
            p = x.min(y);
            q = x.max(y);
        } else {
            let total = self.br[bi].total();
            let x = self.pos(bi, s.client, s.a);
            let y = match s.b & 7 {
                7 => self.pos(bi, s.client, s.b >> 3),
                _ => width(s.b, x, total),
            };
            p = x.min(y);
            q = x.max(y);
        }
        let mut ends = (0, 0);
        if !empty {
            if form >= 4 && s.op != SHRINK {
                let Some((from, to)) = self.two_cursors(bi, s) else {
                    return After::Same;
                };
                ends = (
                    self.old_place(bi, from).unwrap(),
                    self.old_place(bi, to).unwrap(),
                );
                cursors = Some((from, to));
            } else {
                let which = if form >= 3 { 0 } else { form };
                let (Some(Some(x)), Some(Some(y))) =
                    (self.find(i, bi, which, p), self.find(i, bi, which, q))
                else {
                    return After::Same;
                };
                let (Some(x), Some(y)) = (
                    self.old_place(bi, x.cursor),
                    self.old_place(bi, y.cursor),
                ) else {
                    return After::Same;
                };
                let b = &self.br[bi];
                let fits = |at: usize, p: usize| {
                    if which == 2 {
                        at == p || (p == natoms && at + 1 == p)
                    } else {
                        b.lenpos(at) == p
                    }
                };
                if x > y || !fits(x, p) || !fits(y, q) {
                    self.rep.fail(
                        Class::Return,
                        i,
                        format!("looking up positions {} and {} to drain between them found other places", p, q),
                    );
                    return After::Same;
                }
                ends = (x, y);
            }
        }
        let stop_at = match s.fault {
            F_CONSUMER | F_ABANDON => s.fk as usize,
            _ => usize::MAX,
        };
        let crash = s.fault == F_CONSUMER;
        let got = std::cell::RefCell::new((Vec::<Elem>::new(), false));
        let consume = |d: &mut dyn Iterator<Item = Elem>| {
            let mut g = 0;
            let hint = d.size_hint();
            while g < stop_at {
                match d.next() {
                    Some(e) => got.borrow_mut().0.push(e),
                    None => {
                        got.borrow_mut().1 = true;
                        assert!(
                            hint.0 <= g && hint.1.map_or(true, |x| g <= x),
                            "a drain of {} elements promised {:?}",
                            g,
                            hint
                        );
                        // asking again must not take more
                        for _ in 0..s.salt % 3 {
                            got.borrow_mut().0.extend(d.next());
                        }
                        break;
                    }
                }
                g += 1;
            }
            if crash {
                panic_any(Injected);
            }
        };
        let r = self.act(i, bi, s, &[F_QUERY, F_CONSUMER, F_ABANDON], |t| {
            if let Some((from, to)) = cursors {
                let m = |c| QueryResult {
                    cursor: c,
                    found: true,
                };
                consume(&mut t.drain(m(from)..m(to)));
                return;
            }
            match if form >= 3 { 3 } else { form } {
                0 => consume(&mut t.drain_by_query::<LengthFinder>(p..q)),
                1 => consume(&mut t.drain_by_query::<LeftFinder>(p..q)),
                2 => consume(&mut t.drain_by_query::<CntFinder>(p..q)),
                _ => {
                    if let Some(r) = t.range::<LengthFinder>(p..q) {
                        consume(&mut t.drain(r));
                    } else {
                        got.borrow_mut().1 = true;
                    }
                }
            }
        });
        let (got, finished) = got.into_inner();
        match r {
            Out::Dead => return After::Same,
            Out::Crashed if s.fault == F_QUERY => return After::Mirror,
            Out::Crashed => {}
            Out::Done(()) => {
                if s.fault == F_ABANDON && !finished {
                    *self.rep.faults_fired.entry(F_ABANDON).or_insert(0) += 1;
                }
            }
        }
        let want = self.br[bi].model[ends.0..ends.1].to_vec();
        let have: Vec<Atom> = got.iter().flat_map(|e| e.atoms.iter().copied()).collect();
        let ok = if finished {
            have == want
        } else {
            have.len() <= want.len() && have[..] == want[..have.len()]
        };
        if !ok {
            self.rep.fail(
                Class::Return,
                i,
                format!("drained items: {}", diff_at(&want, &have)),
            );
        }
        self.splice(bi, ends.0, ends.1 - ends.0, &[]);
        for a in &want {
            self.br[bi].set_owner(a.id, None);
        }
        After::Resync
    }

    fn op_clear(&mut self, i: usize, bi: usize, s: &Step) -> After {
        self.act(i, bi, s, &[], |t| t.clear());
        self.br[bi].model.clear();
        After::Void
    }

    /// A copy of branch `from`: a fresh one, or `over` assigned from it (`Clone::clone_from`).
    fn copy(&mut self, i: usize, from: usize, over: Option<usize>) -> Option<Branch<D>> {
        let t = match over {
            Some(o) if o < self.br.len() && o != from => {
                let mut t = std::mem::take(&mut self.br[o].tree);
                self.look(i, from, "clone_from", move |b| {
                    t.clone_from(&b.tree);
                    t
                })?
            }
            _ => self.look(i, from, "clone", |b| b.tree.clone())?,
        };
        let b = &self.br[from];
        Some(Branch {
            tree: t,
            model: b.model.clone(),
            dump: b.dump.clone(),
            owner: b.owner.clone(),
            graves: b.graves.clone(),
        })
    }
    fn op_clone(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let slot = (s.c % 3) as usize;
        let Some(c) = self.copy(i, bi, (s.b & 2 != 0).then_some(slot)) else {
            return After::Same;
        };
        if slot >= self.br.len() {
            self.br.push(c);
            let n = self.br.len() - 1;
            self.verify_iso(i, n);
        } else if slot != bi {
            self.br[slot] = c;
            self.verify_iso(i, slot);
        }
        After::Mirror
    }
    /// The live tree is lost; its holder restarts from a snapshot.
    fn op_restore(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let other = (bi + 1 + s.c as usize % self.br.len()) % self.br.len();
        if other == bi {
            return After::Same;
        }
        *self.rep.faults_armed.entry(100).or_insert(0) += 1;
        *self.rep.faults_fired.entry(100).or_insert(0) += 1;
        if s.b & 1 == 0 {
            let Some(c) = self.copy(i, other, (s.b & 2 != 0).then_some(bi)) else {
                return After::Same;
            };
            self.br[bi] = c;
        } else {
            let b = self.br.remove(other);
            let at = bi.min(self.br.len() - 1);
            let at = if other < bi { bi - 1 } else { at };
            self.br[at] = b;
            self.verify_iso(i, at);
            return After::Same;
        }
        After::Mirror
    }
    fn op_drop(&mut self, _i: usize, bi: usize, _s: &Step) -> After {
        if self.br.len() > 1 {
            self.br.remove(bi);
        }
        After::Same
    }

    fn rechunk(&self, atoms: &[Atom], s: u64, max: usize) -> Vec<Elem> {
        let mut out: Vec<Elem> = vec![];
        let mut cur: Vec<Atom> = vec![];
        let mut room = 1 + (mix(s) % max as u64) as usize;
        for a in atoms {
            if a.anchor {
                if !cur.is_empty() {
                    out.push(Elem::run(std::mem::take(&mut cur)));
                }
                out.push(Elem::anchor(*a));
                continue;
            }
            cur.push(*a);
            if cur.len() >= room {
                out.push(Elem::run(std::mem::take(&mut cur)));
                room = 1 + (mix2(s, out.len() as u64) % max as u64) as usize;
            }
        }
        if !cur.is_empty() {
            out.push(Elem::run(cur));
        }
        out
    }

    /// Build a new tree from elements; the holder crashed or bulk-loads.
    fn build(&mut self, i: usize, bi: usize, s: &Step, elems: Vec<Elem>, method: u64) -> Option<bool> {
        let hint = self.hint(s.c >> 8, elems.len());
        self.bulk = elems.len();
        let r = self.act(i, bi, s, if method <= 2 { &[K_ITER] } else { &[] }, move |_| {
            let mut t: BTree<T<D>> = BTree::new();
            match method {
                0 | 1 => t = Source::new(elems, hint).collect(),
                2 => t.insert_many_by_cursor(None, Source::new(elems, hint)),
                3 => {
                    for e in elems {
                        t.push(e);
                    }
                }
                _ => {
                    for e in elems.into_iter().rev() {
                        t.prepend(e);
                    }
                }
            }
            t
        });
        match r {
            Out::Done(t) => {
                self.br[bi].tree = t;
                Some(true)
            }
            Out::Crashed => Some(false),
            Out::Dead => None,
        }
    }

    fn op_rebuild(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let Some(v) = self.look(i, bi, "iter", |b| b.tree.iter().cloned().collect::<Vec<_>>())
        else {
            return After::Same;
        };
        let method = s.b % 6;
        let elems = match method {
            1 => self.rechunk(&self.br[bi].model.clone(), s.d, self.cfg.maxlen.max(2) * 2),
            2 if s.b & 64 != 0 => self.rechunk(&self.br[bi].model.clone(), s.d, self.cfg.maxlen),
            _ => v,
        };
        match self.build(i, bi, s, elems, method) {
            Some(true) => {
                self.rep.count("rebuilt");
                After::Void
            }
            Some(false) => After::Mirror,
            None => After::Same,
        }
    }

    fn op_init(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let n = (s.a as usize).min(300_000);
        if n > 12_000 {
            self.giant = n + n / 8;
            env::with(|e| e.budget.set(8_000_000 + 100 * self.giant as u64));
        }
        let mut elems = vec![];
        let mut total = 0;
        for k in 0..n {
            let st = Step {
                d: mix2(s.d, k as u64),
                ..*s
            };
            let e = self.fresh_elem(&st);
            total += e.atoms.len();
            elems.push(e);
            if total > self.most_atoms() {
                break;
            }
        }
        let atoms: Vec<Atom> = elems.iter().flat_map(|e| e.atoms.iter().copied()).collect();
        match self.build(i, bi, s, elems, s.b % 5) {
            Some(true) => {
                self.br[bi].model = atoms;
                After::Void
            }
            Some(false) => After::Mirror,
            None => After::Same,
        }
    }

    fn op_edit(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let Some(o) = self.leaf_ord(bi, s.client, s.a) else {
            return After::Same;
        };
        let l = self.br[bi].dump.leaves[o].clone();
        let before = self.br[bi].model[l.a0..l.a0 + l.n].to_vec();
        let mut want = before.clone();
        let delta = 1 + (s.d >> 12) as i32 % 7;
        match s.b % 3 {
            0 => want.iter_mut().for_each(|a| a.val += delta),
            1 if !before[0].anchor => want.truncate(1 + (s.c >> 3) as usize % l.n),
            _ => want.iter_mut().for_each(|a| a.val -= delta),
        }
        let c0 = summarize(D, &before);
        let c1 = summarize(D, &want);
        let diff = (D && s.c & 1 == 1).then(|| Diff {
            cnt: c1.cnt - c0.cnt,
            len: c1.len - c0.len,
            sum: c1.sum - c0.sum,
        });
        let w = want.clone();
        let can = D && s.c & 2 == 0 || diff.is_some();
        if let Out::Done(ok) = self.act(i, bi, s, &[], move |t| {
            let ok = match t.get_elem_mut(l.idx) {
                Some(e) => {
                    e.atoms = w;
                    true
                }
                None => false,
            };
            if ok {
                t.recursive_update_cache(l.idx.into(), can, diff);
            }
            ok
        }) {
            if !ok {
                self.rep
                    .fail(Class::Handle, i, "a live handle resolves to nothing".into());
            }
            self.splice(bi, l.a0, l.n, &want);
            for a in &before[want.len()..] {
                self.br[bi].set_owner(a.id, None);
            }
        }
        After::Mirror
    }

    fn op_filter(&mut self, i: usize, bi: usize, s: &Step) -> After {
        if self.br[bi].dump.leaves.is_empty() {
            return After::Same;
        }
        if D && s.b % 3 == 0 {
            // the caller keeps summaries up to date itself
            let delta = 1 + (s.c % 5) as i64;
            let first = self.br[bi].dump.leaves[0].idx;
            self.spread = self.br[bi].dump.leaves.len();
            if let Out::Done(()) = self.act(i, bi, s, &[K_CLOSURE], |t| {
                let mut once = true;
                t.update_cache_and_elem_with_filter(
                    |c| {
                        if once {
                            once = false;
                            env::tick(K_CLOSURE);
                        }
                        c.sum += delta * c.cnt;
                        true
                    },
                    |e| e.atoms.iter_mut().for_each(|a| a.val += delta as i32),
                );
                t.recursive_update_cache(first.into(), false, None);
            }) {
                for a in &mut self.br[bi].model {
                    a.val += delta as i32;
                }
            }
            return After::Mirror;
        }
        // mark the elements that hold some item satisfying the predicate
        let b = &self.br[bi];
        let root = b.tree.root_cache().clone();
        let hi = self.next_id;
        let t1 = (s.c % (hi as u64 + 1)) as u32;
        let pick: Box<dyn Fn(&Cache) -> bool> = if D {
            let m = 1 + s.c % 3;
            match s.b % 3 {
                1 => Box::new(move |c: &Cache| c.len as u64 >= m),
                _ => Box::new(move |c: &Cache| c.len < c.cnt || c.cnt as u64 >= m),
            }
        } else {
            Box::new(move |c: &Cache| c.max >= t1)
        };
        let _ = root;
        // both predicates are monotone: an ancestor of a matching element matches
        let touched = std::cell::RefCell::new(vec![]);
        // an inner node may match where none of its elements does
        self.spread = self.br[bi].dump.leaves.len();
        let r = self.act(i, bi, s, &[K_CLOSURE], |t| {
            let mut once = true;
            t.update_cache_and_elem_with_filter(
                |c| {
                    if once {
                        once = false;
                        env::tick(K_CLOSURE);
                    }
                    pick(c)
                },
                |e| {
                    touched.borrow_mut().push(e.atoms[0].id);
                    e.atoms.iter_mut().for_each(|a| a.mark = a.mark.wrapping_add(1))
                },
            )
        });
        if let Out::Done(()) = r {
            let d = self.br[bi].dump.clone();
            let mut want = vec![];
            for l in &d.leaves {
                let c = summarize(D, &self.br[bi].model[l.a0..l.a0 + l.n]);
                if pick(&c) {
                    want.push(self.br[bi].model[l.a0].id);
                    for a in &mut self.br[bi].model[l.a0..l.a0 + l.n] {
                        a.mark = a.mark.wrapping_add(1);
                    }
                }
            }
            let mut got = touched.into_inner();
            got.sort_unstable();
            want.sort_unstable();
            if got != want {
                self.rep.fail(
                    Class::Return,
                    i,
                    format!("filtered update visited {} elements, {} match", got.len(), want.len()),
                );
            }
        }
        After::Mirror
    }

    fn op_acquire(&mut self, i: usize, bi: usize, s: &Step) -> After {
        if self.br[bi].dump.leaves.is_empty() {
            return After::Same;
        }
        let p = (s.a >> 4) as usize % self.br[bi].model.len();
        let id = self.br[bi].model[p].id;
        let Some(q) = self.find(i, bi, 2, p) else {
            return After::Same;
        };
        let want = self.br[bi].owner_of(id);
        if q.map(|q| q.cursor.leaf) != want {
            self.rep.fail(
                Class::Handle,
                i,
                format!("looking up item {} gives another handle than the one recorded for it", id),
            );
        }
        let n = self.clients.len();
        let c = &mut self.clients[s.client as usize % n];
        if c.held.len() < 12 {
            c.held.push(id);
        } else {
            c.held[(s.b % 12) as usize] = id;
        }
        After::Same
    }

    fn op_batch_insert(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let n = 2 + (s.b % 40) as usize;
        let mode = s.c % 4;
        if self.br[bi].model.len() + n * self.cfg.maxlen > self.most_atoms() {
            return After::Same;
        }
        let mut p = self.pos(bi, s.client, s.a);
        for k in 0..n {
            let st = Step {
                d: mix2(s.d, k as u64),
                fault: 0,
                ..*s
            };
            let e = self.fresh_elem(&st);
            let atoms = e.atoms.clone();
            let total = self.br[bi].tree.root_cache().len.max(0) as usize;
            p = match mode {
                0 => p.min(total),
                1 => (mix2(s.a, k as u64) % (total as u64 + 1)) as usize,
                2 => (p + 1).min(total),
                _ => p.saturating_sub(1).min(total),
            };
            let Some(q) = self.find(i, bi, 0, p) else {
                return After::Same;
            };
            let at = match q {
                None => 0,
                Some(q) => match self.br[bi].place(q.cursor) {
                    Some(x) => x,
                    None => {
                        self.rep
                            .fail(Class::Return, i, format!("lookup of {} gave no place", p));
                        return After::Resync;
                    }
                },
            };
            match self.act(i, bi, &st, &[], move |t| t.insert::<LengthFinder>(&p, e)) {
                Out::Done((c, split)) => {
                    self.splice(bi, at, 0, &atoms);
                    for l in &split.arr {
                        self.br[bi].refresh(*l);
                    }
                    for a in &atoms {
                        self.br[bi].set_owner(a.id, Some(c.leaf));
                    }
                }
                _ => return After::Same,
            }
        }
        After::Mirror
    }

    fn op_batch_remove(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let most = if self.cfg.prop == "C14" { 400 } else { 40 };
        let n = 2 + (s.b % most) as usize;
        let d = self.br[bi].dump.clone();
        if d.leaves.is_empty() {
            return After::Same;
        }
        let base = self.leaf_ord(bi, s.client, s.a).unwrap();
        let keep = 3 + (s.c >> 8) as usize % 10;
        let stride = match s.c % 6 {
            0 | 1 => 1,
            2 => 2 + (s.c >> 4) as usize % 4,
            3 => 7 + (s.c >> 4) as usize % 8,
            // all but every so many
            _ => 0,
        };
        let method = if s.c >> 12 & 1 == 0 { 0 } else { (s.c >> 13) % 3 };
        let st = Step { fault: 0, ..*s };
        let mut gone = 0;
        for k in 0..n {
            let o = if stride > 0 {
                base + k * stride
            } else {
                base + k + k / (keep - 1)
            };
            let Some(l) = d.leaves.get(o) else { break };
            let h = l.idx;
            let want = d.atoms[l.a0..l.a0 + l.n].to_vec();
            let r = match method {
                1 => {
                    let r = self.act(i, bi, &st, &[], move |t| {
                        let mut was = vec![];
                        let (left, new) = t.update_leaf(h, |e| {
                            was = std::mem::take(&mut e.atoms);
                            (true, None, None)
                        });
                        (!left && new.arr.is_empty()).then_some(was)
                    });
                    match r {
                        Out::Done(r) => r,
                        _ => return After::Same,
                    }
                }
                2 if D && l.len > 0 => {
                    let p = l.start - gone;
                    let c = summarize(D, &want);
                    let diff = Diff { cnt: -c.cnt, len: -c.len, sum: -c.sum };
                    let r = self.act(i, bi, &st, &[], move |t| {
                        let mut was = vec![];
                        let (left, new) = t.update_leaf_by_search::<LengthFinder>(&p, |e, _| {
                            was = std::mem::take(&mut e.atoms);
                            Some((diff, None, None))
                        });
                        (left.is_none() && new.arr.is_empty()).then_some(was)
                    });
                    match r {
                        Out::Done(r) => r,
                        _ => return After::Same,
                    }
                }
                _ => {
                    let r = self.act(i, bi, &st, &[], move |t| t.remove_leaf(Cursor { leaf: h, offset: 0 }));
                    match r {
                        Out::Done(r) => r.map(|e| e.atoms),
                        _ => return After::Same,
                    }
                }
            };
            if r.as_ref() != Some(&want) {
                let m = ["remove_leaf returned", "update_leaf emptied", "update_leaf_by_search emptied"][method as usize];
                self.rep
                    .fail(Class::Return, i, format!("{} another element", m));
            }
            gone += l.len;
            if let Some(at) = self.br[bi].model.iter().position(|x| x.id == want[0].id) {
                self.splice(bi, at, want.len(), &[]);
            }
            for a in &want {
                self.br[bi].set_owner(a.id, None);
            }
        }
        After::Mirror
    }

    // ---------------------------------------------------------------- probes

    fn op_probe(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let d = self.br[bi].dump.clone();
        if d.leaves.len() < 64 && s.a & 3 == 0 {
            self.look(i, bi, "Debug formatting", |b| format!("{:?}", b.tree).len());
        }
        if d.leaves.is_empty() {
            let r = self.look(i, bi, "reads of an empty tree", |b| {
                b.tree.query::<LengthFinder>(&0).is_none()
                    && b.tree.range::<LengthFinder>(0..0).is_none()
                    && b.tree.start_cursor().is_none()
                    && b.tree.end_cursor().is_none()
                    && b.tree.first_leaf().is_none()
                    && b.tree.last_leaf().is_none()
                    && b.tree.iter().next().is_none()
                    && b.tree.iter_range(..).next().is_none()
                    && b.tree.iter_with_filter(|_| (true, 0usize)).next().is_none()
            });
            if r == Some(false) {
                self.rep
                    .fail(Class::Probe, i, "an empty tree answers a lookup".into());
            }
            return After::Same;
        }
        let many = if self.giant > 0 && self.cfg.prop == "C08" { 120 } else { 5 };
        for k in 0..many {
            let h = mix2(s.a ^ s.d, k);
            let p = self.pos(bi, s.client, h);
            let cur = self.cursor(bi, s.client, mix(h), mix(h ^ 1)).unwrap();
            let cur2 = self
                .cursor(bi, s.client, mix(h ^ 2), mix(h ^ 3))
                .unwrap();
            let dd = &d;
            let neg = self.cfg.neg;
            let x = self.look(i, bi, "a lookup or navigation", |b| {
                probe_one::<D>(b, dd, p, cur, cur2, h, neg)
            });
            match x {
                None => return After::Same,
                Some(Some((c, m))) => self.rep.fail(c, i, m),
                Some(None) => {}
            }
        }
        self.rep.mixd(1);
        After::Same
    }

    fn op_range_probe(&mut self, i: usize, bi: usize, s: &Step) -> After {
        let d = self.br[bi].dump.clone();
        if d.leaves.is_empty() {
            return After::Same;
        }
        for k in 0..3u64 {
            let st = Step {
                a: mix2(s.a, k),
                b: mix2(s.b, k),
                c: mix2(s.c, k),
                ..*s
            };
            let Some((from, to)) = self.two_cursors(bi, &st) else {
                return After::Same;
            };
            let dd = d.clone();
            let kind = match mix2(s.d, 77 + k) % 10 {
                0..=3 => 0,
                4..=6 => 1,
                7 => 2,
                8 => 3,
                _ => 4,
            };
            let fmin = (mix2(s.d, k) % (self.next_id as u64 + 1)) as u32;
            let x = self.look(i, bi, "a range read", |b| {
                range_probe::<D>(b, &dd, from, to, kind).or_else(|| filter_probe::<D>(b, &dd, fmin))
            });
            match x {
                None => return After::Same,
                Some(Some((c, m))) => self.rep.fail(c, i, m),
                Some(None) => {}
            }
        }
        After::Same
    }
}

fn width(v: u64, x: usize, total: usize) -> usize {
    let w = (v >> 6) as usize;
    match v & 7 {
        0 => x,
        1 => (x + 1 + w % 5).min(total),
        2 => (x + 1 + w % 40).min(total),
        3 => (x + w % 300).min(total),
        4 => total,
        5 => 0,
        _ => w % (total + 1),
    }
}

/// what an update closure turns one element into:
/// (summary changed, element, new element 1, new element 2)
/// `a..b` of `n`, written in one of several ways.
fn bounds(a: usize, b: usize, n: usize, how: u64) -> (Bound<usize>, Bound<usize>) {
    let lo = match how & 3 {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let hi = match how >> 2 & 3 {
        0 if b == n => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}

fn plan_leaf(
    mode: u8,
    before: &[Atom],
    k1: usize,
    k2: usize,
    extra: &[Atom],
    anch: Option<Atom>,
    delta: i32,
) -> (bool, Elem, Option<Elem>, Option<Elem>) {
    let anchor = before[0].anchor;
    let mk = |v: Vec<Atom>| {
        if anchor {
            Elem {
                atoms: v,
                anchor: true,
                tok: Tok::new(),
            }
        } else {
            Elem::run(v)
        }
    };
    let v = before.to_vec();
    let bump = |mut v: Vec<Atom>| {
        v.iter_mut().for_each(|a| a.val += delta);
        v
    };
    let cut = |v: &[Atom], a: usize, b: usize| Elem::run(v[a..b].to_vec());
    let n = v.len();
    match mode {
        0 => (true, mk(bump(v)), None, None),
        1 => {
            let mut v = v;
            v.iter_mut().for_each(|a| a.mark = a.mark.wrapping_add(1));
            (false, mk(v), None, None)
        }
        2 => (true, cut(&v, 0, k1), None, None),
        3 => (true, mk(vec![]), None, None),
        4 => (true, cut(&v, 0, k1), Some(cut(&v, k1, n)), None),
        5 => (
            true,
            cut(&v, 0, k1),
            Some(cut(&v, k1, k2)),
            Some(cut(&v, k2, n)),
        ),
        6 => (true, mk(vec![]), Some(mk(v)), None),
        7 => (
            true,
            Elem::run(vec![]),
            Some(cut(&v, 0, k1)),
            Some(cut(&v, k1, n)),
        ),
        8 => (
            true,
            cut(&v, 0, k1),
            Some(Elem::run(vec![])),
            Some(cut(&v, k1, n)),
        ),
        9 => (
            true,
            mk(bump(v)),
            Some(Elem::run(vec![])),
            Some(Elem::run(vec![])),
        ),
        10 => {
            let mut v = v;
            let k = k1.min(v.len());
            v.splice(k..k, extra.iter().copied());
            (true, Elem::run(v), None, None)
        }
        11 => (
            true,
            cut(&v, 0, k1),
            Some(cut(&v, k1, n)),
            Some(Elem::run(vec![])),
        ),
        12 => {
            let (s, e) = (k1 - 1, k2);
            let mut w = v;
            for a in &mut w[s..e] {
                a.val += delta;
            }
            // only the concatenation matters to the oracle
            (true, Elem::run(w), None, None)
        }
        13 => match anch {
            Some(a) => (
                true,
                cut(&v, 0, k1),
                Some(Elem::anchor(a)),
                Some(cut(&v, k1, n)),
            ),
            None => (true, mk(bump(v)), None, None),
        },
        14 => (true, mk(v), Some(Elem::run(extra.to_vec())), None),
        15 => (
            true,
            Elem::run(vec![]),
            None,
            Some(Elem::run(bump(v))),
        ),
        16 => match anch {
            Some(a) => (true, mk(v), Some(Elem::anchor(a)), None),
            None => (true, mk(bump(v)), None, None),
        },
        17 => (
            true,
            mk(vec![]),
            Some(Elem::run(extra.to_vec())),
            Some(mk(v)),
        ),
        _ => (false, mk(v), None, None),
    }
}

/// An input source that may under-report its size and may crash.
struct Source {
    v: std::vec::IntoIter<Elem>,
    hint: usize,
}
impl Source {
    fn new(v: Vec<Elem>, hint: usize) -> Self {
        Source {
            v: v.into_iter(),
            hint,
        }
    }
}
impl Iterator for Source {
    type Item = Elem;
    fn next(&mut self) -> Option<Elem> {
        env::tick(K_ITER);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint.min(self.v.len()), None)
    }
}

fn want_slot(d: &Dump, o: usize) -> usize {
    o - d.node_first[d.node_first.partition_point(|f| *f <= o) - 1]
}
fn leaf_ord_of(d: &Dump, l: LeafIndex) -> Option<usize> {
    d.leaves.iter().position(|x| x.idx == l)
}

fn probe_one<const D: bool>(
    b: &Branch<D>,
    d: &Dump,
    p: usize,
    cur: (usize, Cursor),
    cur2: (usize, Cursor),
    h: u64,
    neg: bool,
) -> Option<Problem> {
    let t = &b.tree;
    let no = |m: String| Some((Class::Probe, m));
    let nl = d.leaves.len();
    // 1. lookup by position
    let want = if p < d.len {
        let o = d.leaves.partition_point(|l| l.start + l.len <= p);
        (d.leaves[o].idx, p - d.leaves[o].start, true)
    } else {
        let l = &d.leaves[nl - 1];
        (l.idx, l.len, false)
    };
    for which in 0..2 {
        let q = if which == 0 {
            t.query::<LengthFinder>(&p)
        } else {
            t.range::<LengthFinder>(p..p).map(|r| r.end)
        };
        let Some(q) = q else {
            return no(format!("looking up position {} found no element", p));
        };
        if (q.cursor.leaf, q.cursor.offset, q.found) != want
            || q.leaf() != want.0
            || q.offset() != want.1
            || q.found() != want.2
        {
            return no(format!(
                "looking up position {} of {} gave element #{:?} offset {} found={}, expected #{:?} offset {} found={}",
                p, d.len, leaf_ord_of(d, q.cursor.leaf), q.cursor.offset, q.found,
                leaf_ord_of(d, want.0), want.1, want.2
            ));
        }
        if q.elem(t).map(|e| e.atoms[0].id) != t.get_elem(q.leaf()).map(|e| e.atoms[0].id) {
            return no("a lookup result gives another element than its handle".into());
        }
    }
    // the finder also tells where in its parent the element was found
    let (q, f) = t.query_with_finder_return::<LengthFinder>(&p);
    let slot = want_slot(d, leaf_ord_of(d, want.0).unwrap());
    if q.map(|q| (q.cursor.leaf, q.cursor.offset, q.found)) != Some(want)
        || f.left != want.1
        || f.slot as usize != slot
        || (d.depth > 1 && f.parent.map(ArenaIndex::Internal) != Some(t.get_leaf(want.0.into()).parent()))
    {
        return no(format!(
            "looking up position {} reported slot {} and rest {}, expected {} and {}, or another parent",
            p, f.slot, f.left, slot, want.1
        ));
    }
    let beyond = 1 + (h % 7) as usize;
    let (q, f) = t.query_with_finder_return::<LengthFinder>(&(d.len + beyond));
    if q.map(|q| (q.found, q.cursor.leaf)) != Some((false, d.leaves[nl - 1].idx)) {
        return no("a lookup beyond the end claims to have found an item".into());
    }
    if f.slot as usize != want_slot(d, nl - 1) {
        return no("a lookup beyond the end does not report the last slot".into());
    }
    // a strategy of the caller's own: the answer is where it went and what it said
    {
        let (o, c) = cur;
        let k = d.node_first.partition_point(|f| *f <= o) - 1;
        let (mut path, n) = (d.node_path[k], d.depth);
        path[n - 1] = (o - d.node_first[k]) as u8;
        let confirm = h >> 5 & 3 != 0;
        let missing = if h >> 40 & 1 == 0 { 0 } else { 1u32 << ((h >> 41) as usize % n) };
        let tell = Tell { path, missing, offset: c.offset, confirm };
        let q = t.query::<Told>(&tell);
        let want = (c.leaf, c.offset, confirm && missing == 0);
        if q.map(|q| (q.cursor.leaf, q.cursor.offset, q.found)) != Some(want) {
            return no(format!(
                "a lookup that chose element #{} and {} it gave {:?}",
                o,
                if want.2 { "found" } else { "did not find" },
                q.map(|q| (leaf_ord_of(d, q.cursor.leaf), q.cursor.offset, q.found))
            ));
        }
    }
    // 2. lookup by ordinal of an item
    let k = (h >> 7) as usize % b.model.len();
    let o = d.leaves.partition_point(|l| l.a0 + l.n <= k);
    match t.query::<CntFinder>(&k) {
        Some(q)
            if q.found
                && q.cursor.leaf == d.leaves[o].idx
                && q.cursor.offset == (k - d.leaves[o].a0).min(d.leaves[o].len) => {}
        _ => return no(format!("looking up item number {} gave another place", k)),
    }
    // 3. lookup by accumulated weight
    if !neg && b.model.iter().all(|a| a.val >= 0) {
        let total: i64 = b.model.iter().map(|a| a.val as i64).sum();
        if total > 0 {
            let w = ((h >> 11) % total as u64) as i64;
            let mut acc = 0;
            let k = b
                .model
                .iter()
                .position(|a| {
                    acc += a.val as i64;
                    acc > w
                })
                .unwrap();
            let o = d.leaves.partition_point(|l| l.a0 + l.n <= k);
            let off = (k - d.leaves[o].a0).min(d.leaves[o].len);
            match t.query::<SumFinder>(&w) {
                Some(q) if q.found && q.cursor.leaf == d.leaves[o].idx && q.cursor.offset == off => {}
                _ => return no(format!("looking up weight {} gave another item than number {}", w, k)),
            }
        }
    }
    // 4. counting what precedes a cursor
    for (o, c) in [cur, cur2] {
        let (mut len, mut cnt, mut own) = (0i64, 0i64, None);
        t.visit_previous_caches(c, |x| match x {
            PreviousCache::NodeCache(c) => {
                len += c.len;
                cnt += c.cnt;
            }
            PreviousCache::PrevSiblingElem(e) => {
                len += e.rle_len() as i64;
                cnt += e.atoms.len() as i64;
            }
            PreviousCache::ThisElemAndOffset { elem, offset } => {
                own = Some((elem.atoms[0].id, offset));
            }
        });
        let l = &d.leaves[o];
        if len != l.start as i64
            || cnt != l.a0 as i64
            || own != Some((b.model[l.a0].id, c.offset))
        {
            return no(format!(
                "counting before the element at position {} gave {} ({} items before it, counted {})",
                l.start, len, l.a0, cnt
            ));
        }
        // neighbours
        let nx = t.next_elem(c);
        let want = d.leaves.get(o + 1).map(|l| Cursor {
            leaf: l.idx,
            offset: 0,
        });
        if nx != want {
            return no(format!("next_elem of element #{} of {} is wrong", o, nl));
        }
        let pv = t.prev_elem(c);
        let want_p = (o > 0).then(|| Cursor {
            leaf: d.leaves[o - 1].idx,
            offset: 0,
        });
        if pv != want_p {
            return no(format!("prev_elem of element #{} of {} is wrong", o, nl));
        }
        // across a boundary
        let r = t.prefer_right(c);
        let want_r = if c.offset == 0 || c.offset < l.len {
            Some(c)
        } else {
            want
        };
        if r != want_r {
            return no(format!("prefer_right at element #{} offset {} is wrong", o, c.offset));
        }
        let lft = t.prefer_left(c);
        let want_l = if c.offset != 0 {
            Some(c)
        } else if o > 0 {
            Some(Cursor {
                leaf: d.leaves[o - 1].idx,
                offset: d.leaves[o - 1].len,
            })
        } else {
            None
        };
        if lft != want_l {
            return no(format!("prefer_left at element #{} offset {} is wrong", o, c.offset));
        }
        // one offset forward
        let target = l.start + c.offset + 1;
        let want_s = if target < d.len {
            let o = d.leaves.partition_point(|l| l.start + l.len <= target);
            Some(Cursor {
                leaf: d.leaves[o].idx,
                offset: target - d.leaves[o].start,
            })
        } else {
            None
        };
        let got = t.shift_path_by_one_offset(c);
        if got != want_s {
            return no(format!(
                "one offset forward from element #{} offset {} (position {}) gave {:?}, expected {:?}",
                o,
                c.offset,
                target - 1,
                got.map(|c| (leaf_ord_of(d, c.leaf), c.offset)),
                want_s.map(|c| (leaf_ord_of(d, c.leaf), c.offset))
            ));
        }
    }
    // 5. order of two cursors
    let want = (cur.0, cur.1.offset).cmp(&(cur2.0, cur2.1.offset));
    if t.compare_pos(cur.1, cur2.1) != want || t.compare_pos(cur2.1, cur.1) != want.reverse() {
        return no(format!(
            "compare_pos of elements #{} and #{} of {} is not {:?}",
            cur.0, cur2.0, nl, want
        ));
    }
    // 6. ends
    if t.first_leaf() != Some(d.leaves[0].idx)
        || t.last_leaf() != Some(d.leaves[nl - 1].idx)
        || t.start_cursor()
            != Some(Cursor {
                leaf: d.leaves[0].idx,
                offset: 0,
            })
        || t.end_cursor()
            != Some(Cursor {
                leaf: d.leaves[nl - 1].idx,
                offset: d.leaves[nl - 1].len,
            })
    {
        return no("the first or last position is wrong".into());
    }
    if t.depth() != d.depth {
        return no(format!("depth() is {}, elements are at depth {}", t.depth(), d.depth));
    }
    None
}

fn range_probe<const D: bool>(
    b: &Branch<D>,
    d: &Dump,
    from: Cursor,
    to: Cursor,
    kind: u8,
) -> Option<Problem> {
    use std::ops::Bound::*;
    let last = d.leaves.last()?;
    let from = if matches!(kind, 3 | 4) { Cursor { leaf: d.leaves[0].idx, offset: 0 } } else { from };
    let to = if kind == 2 { Cursor { leaf: last.idx, offset: last.len } } else { to };
    let incl = matches!(kind, 1 | 2 | 4);
    let (x, y) = (leaf_ord_of(d, from.leaf)?, leaf_ord_of(d, to.leaf)?);
    let mut want = vec![];
    for o in x..=y {
        let l = &d.leaves[o];
        if o == y && to.offset == 0 && !incl {
            continue;
        }
        want.push((
            l.idx,
            b.model[l.a0].id,
            (o == x).then_some(from.offset),
            (o == y).then_some(to.offset),
        ));
    }
    let mut got = vec![];
    let mut push = |sl: generic_btree::ElemSlice<'_, Elem>| {
        // the cursor of a slice is the beginning of its element
        let at = if sl.cursor().offset == 0 { sl.elem.atoms[0].id } else { u32::MAX };
        got.push((sl.cursor().leaf, at, sl.start, sl.end));
        got.len() < 600_000
    };
    let range = match kind {
        0 => (Included(from), Excluded(to)),
        1 => (Included(from), Included(to)),
        2 => (Included(from), Unbounded),
        3 => (Unbounded, Excluded(to)),
        _ => (Unbounded, Included(to)),
    };
    for sl in b.tree.iter_range(range) {
        if !push(sl) {
            break;
        }
    }
    if got != want {
        return Some((
            Class::RangeIter,
            format!(
                "reading from element #{} offset {} to #{} offset {} (inclusive={}) gave {} slices, expected {}{}",
                x, from.offset, y, to.offset, incl, got.len(), want.len(),
                if got.len() == want.len() { " (different ones)" } else { "" }
            ),
        ));
    }
    None
}

fn filter_probe<const D: bool>(b: &Branch<D>, d: &Dump, fmin: u32) -> Option<Problem> {
    // monotone predicate, so pruning loses nothing
    let pick = |c: &Cache| {
        if D {
            c.len > (fmin % 3) as i64
        } else {
            c.max >= fmin
        }
    };
    let mut want = vec![];
    for l in &d.leaves {
        if pick(&summarize(D, &b.model[l.a0..l.a0 + l.n])) {
            want.push((l.start as i64, b.model[l.a0].id));
        }
    }
    let got: Vec<(i64, u32)> = b
        .tree
        .iter_with_filter(|c| (pick(c), c.len))
        .take(600_000)
        .map(|(r, e)| (r, e.atoms[0].id))
        .collect();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Some((
            Class::Filter,
            format!(
                "filtered iteration gave {} elements, {} match; first difference at {}: {:?} instead of {:?} (position, item)",
                got.len(), want.len(), i, got.get(i), want.get(i)
            ),
        ));
    }
    None
}

#[allow(dead_code)]
fn _assert_query<const D: bool>()
where
    LengthFinder: Query<T<D>>,
{
}
