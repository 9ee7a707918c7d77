//! Interleaved clients of the ordered map and the ordered set.
use crate::env::{self, guarded, Stop, K_CMP};
use crate::rng::{mix, mix2};
use crate::types::*;
use generic_btree::{OrdTreeMap, OrdTreeSet};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub const OPS: [&str; 9] = [
    "init",
    "insert",
    "delete",
    "delete_present",
    "overwrite",
    "burst_insert",
    "burst_delete",
    "delete_absent",
    "read",
];
pub const INIT: u8 = 0;
pub const INSERT: u8 = 1;
pub const DELETE: u8 = 2;
pub const DEL_PRESENT: u8 = 3;
pub const OVERWRITE: u8 = 4;
pub const BURST_INS: u8 = 5;
pub const BURST_DEL: u8 = 6;
pub const DEL_ABSENT: u8 = 7;

/// A key whose comparison is user code: it costs simulated time and may crash.
#[derive(Debug)]
pub struct K {
    pub k: u32,
    /// tells equal keys apart
    pub tag: u32,
}
impl Clone for K {
    fn clone(&self) -> K {
        env::with(|e| e.copies.set(e.copies.get() + 1));
        K { ..*self }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.k == o.k
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        env::tick(K_CMP);
        self.k.cmp(&o.k)
    }
}

/// Comparisons one operation on `n` keys may make.
fn allowance(n: usize) -> u64 {
    40 + 12 * (usize::BITS - (n + 2).leading_zeros()) as u64
}

pub struct OrdSim {
    cfg: Config,
    map: OrdTreeMap<K, u64>,
    set: OrdTreeSet<K>,
    model: BTreeMap<u32, (u32, u64)>,
    smodel: BTreeMap<u32, u32>,
    tag: u32,
    pub rep: Report,
}

impl OrdSim {
    pub fn new(cfg: &Config) -> Self {
        OrdSim {
            cfg: cfg.clone(),
            map: OrdTreeMap::new(),
            set: OrdTreeSet::new(),
            model: BTreeMap::new(),
            smodel: BTreeMap::new(),
            tag: 0,
            rep: Report::default(),
        }
    }

    fn key(&self, client: u8, v: u64) -> u32 {
        let n = self.cfg.keys.max(2);
        let x = (v >> 4) as u32;
        match v & 15 {
            0..=5 => x % n,
            // a range owned by the client
            6..=8 => {
                let w = (n / self.cfg.clients.max(1) as u32).max(1);
                (client as u32 * w + x % w) % n
            }
            // a hot spot
            9 | 10 => (n / 2 + x % 9) % n,
            11 => x % 7 % n,
            12 => n - 1 - x % 7 % n,
            // beyond everything so far
            13 => self
                .model
                .last_key_value()
                .map_or(0, |(k, _)| (k + 1 + x % 3) % n),
            14 => self
                .model
                .first_key_value()
                .map_or(0, |(k, _)| k.saturating_sub(1 + x % 3)),
            _ => (x % 64) * (n / 64).max(1) % n,
        }
    }
    fn present(&self, v: u64) -> Option<u32> {
        if self.model.is_empty() {
            return None;
        }
        let probe = (v >> 4) as u32 % self.cfg.keys.max(2);
        match v & 7 {
            0 => self.model.keys().next().copied(),
            1 => self.model.keys().next_back().copied(),
            _ => self
                .model
                .range(probe..)
                .next()
                .or_else(|| self.model.iter().next())
                .map(|x| *x.0),
        }
    }

    fn act<R>(
        &mut self,
        i: usize,
        s: &Step,
        f: impl FnOnce(&mut Self) -> R,
    ) -> Option<Result<R, ()>> {
        let armed = s.fault == F_CMP;
        if armed {
            *self.rep.faults_armed.entry(F_CMP).or_insert(0) += 1;
        }
        env::with(|e| {
            e.step_ticks.set(0);
            e.copies.set(0);
            if armed {
                e.crash_kind.set(K_CMP);
                e.crash_in.set(s.fk as u64);
            }
        });
        let v0 = env::visits();
        let r = guarded(|| f(self));
        env::with(|e| e.crash_kind.set(0));
        match r {
            Ok(x) => {
                let n = self.model.len().max(self.smodel.len());
                let op = OPS[s.op as usize % OPS.len()];
                if let Some(m) = env::walked(op, v0, n, 0, &mut self.rep.max_cost) {
                    self.rep.fail(Class::Cost, i, m);
                }
                // simulated time = key comparisons
                let used = env::with(|e| e.step_ticks.get());
                let n = self.model.len().max(self.smodel.len());
                // summaries hold copies of keys
                let copies = env::with(|e| e.copies.get());
                let most = 3 * allowance(n);
                self.rep.max_cost = self.rep.max_cost.max(copies * 100 / most);
                if copies > most {
                    self.rep.fail(
                        Class::Cost,
                        i,
                        format!("{} of {} keys copied keys {} times, allowed {}", OPS[s.op as usize % OPS.len()], n, copies, most),
                    );
                }
                let allowed = allowance(n);
                self.rep.max_cost = self.rep.max_cost.max(used * 100 / allowed);
                if used > allowed {
                    self.rep.fail(
                        Class::Cost,
                        i,
                        format!(
                            "{} of {} keys compared keys {} times, allowed {}",
                            OPS[s.op as usize % OPS.len()],
                            n,
                            used,
                            allowed
                        ),
                    );
                }
                Some(Ok(x))
            }
            Err(Stop::Crash) => {
                *self.rep.faults_fired.entry(F_CMP).or_insert(0) += 1;
                Some(Err(()))
            }
            Err(Stop::Panic(m)) => {
                self.rep.fail(
                    Class::Panic,
                    i,
                    format!("{} panicked: {}", OPS[s.op as usize % OPS.len()], m),
                );
                self.rep.dead = true;
                None
            }
            Err(Stop::Livelock) => {
                self.rep
                    .fail(Class::Hang, i, "simulated-time budget exceeded".into());
                self.rep.dead = true;
                None
            }
        }
    }

    fn insert(&mut self, i: usize, s: &Step, k: u32) {
        self.tag += 1;
        let tag = self.tag;
        let v = mix2(self.cfg.vseed, tag as u64);
        // the crash, if any, strikes either the map or the set
        let both = s.fault == 0;
        let on_map = both || s.a & 1 == 0;
        let on_set = both || !on_map;
        if on_map {
            match self.act(i, s, |w| w.map.insert(K { k, tag }, v)) {
                Some(Ok(())) => {
                    self.model.entry(k).and_modify(|e| e.1 = v).or_insert((tag, v));
                }
                Some(Err(())) => {}
                None => return,
            }
        }
        if on_set {
            if let Some(Ok(())) = self.act(i, s, |w| w.set.insert(K { k, tag })) {
                self.smodel.entry(k).or_insert(tag);
            }
        }
    }

    fn delete(&mut self, i: usize, s: &Step, k: u32) {
        let both = s.fault == 0;
        let on_map = both || s.a & 1 == 0;
        let on_set = both || !on_map;
        if on_map {
            match self.act(i, s, |w| w.map.delete(&K { k, tag: 0 })) {
                Some(Ok(r)) => {
                    let want = self.model.remove(&k);
                    let got = r.map(|(k, v)| (k.k, k.tag, v));
                    let want = want.map(|(t, v)| (k, t, v));
                    if got != want {
                        self.rep.fail(
                            Class::Return,
                            i,
                            format!("deleting key {} from the map returned {:?}, expected {:?}", k, got, want),
                        );
                    }
                }
                Some(Err(())) => {}
                None => return,
            }
        }
        if on_set {
            if let Some(Ok(r)) = self.act(i, s, |w| w.set.delete(&K { k, tag: 0 })) {
                let want = self.smodel.remove(&k).is_some();
                if r != want {
                    self.rep.fail(
                        Class::Return,
                        i,
                        format!("deleting key {} from the set returned {}, expected {}", k, r, want),
                    );
                }
            }
        }
    }

    pub fn step(&mut self, i: usize, s: &Step) {
        if self.rep.dead {
            return;
        }
        env::with(|e| {
            e.salt.set(0);
            e.budget.set(4_000_000);
        });
        #[cfg(gbtree_sim)]
        generic_btree::sim::set_hash_seed(s.salt);
        self.rep.steps_done += 1;
        let op = s.op as usize % OPS.len();
        self.rep.count(OPS[op]);
        let mut st = *s;
        st.fault = 0;
        match op as u8 {
            INIT => {
                let n = (s.a as usize).min(120_000);
                for j in 0..n {
                    let keys = self.cfg.keys.max(2) as u64;
                    let k = match s.b % 4 {
                        0 => j as u64,
                        1 => keys - 1 - j as u64 % keys,
                        2 => mix2(s.d, j as u64),
                        _ => (j as u64 * 7919) ^ (s.d & 0xff),
                    } % keys;
                    self.insert(i, &st, k as u32);
                }
            }
            INSERT => {
                let k = self.key(s.client, s.b);
                self.insert(i, s, k)
            }
            DELETE => {
                let k = self.key(s.client, s.b);
                self.delete(i, s, k)
            }
            DEL_PRESENT => {
                if let Some(k) = self.present(s.b) {
                    self.delete(i, s, k)
                }
            }
            OVERWRITE => {
                if let Some(k) = self.present(s.b) {
                    self.insert(i, s, k)
                }
            }
            BURST_INS => {
                let base = self.key(s.client, s.b);
                let n = match s.c >> 20 & 31 {
                    0 => 2 + (s.c % 1500) as u32,
                    _ => 2 + (s.c % 60) as u32,
                };
                for j in 0..n {
                    let k = match s.d % 3 {
                        0 => base.wrapping_add(j),
                        1 => base.wrapping_sub(j),
                        _ => mix2(s.d, j as u64) as u32,
                    } % self.cfg.keys.max(2);
                    self.insert(i, &st, k);
                }
            }
            BURST_DEL => {
                let n = match s.c >> 20 & 15 {
                    // all but a few
                    0 => (self.model.len() as u64).saturating_sub(s.c % 9),
                    1 => 2 + s.c % (self.model.len() as u64 + 1),
                    _ => 2 + (s.c % 60),
                };
                let mut from = self.key(s.client, s.b);
                for j in 0..n {
                    let k = match s.d % 3 {
                        0 => self.model.range(from..).next().map(|x| *x.0),
                        1 => self.model.range(..=from).next_back().map(|x| *x.0),
                        _ => self.present(mix2(s.d, j)),
                    };
                    let Some(k) = k else { break };
                    from = k;
                    self.delete(i, &st, k);
                }
            }
            DEL_ABSENT => {
                let mut k = self.key(s.client, s.b);
                let n = self.cfg.keys.max(2);
                for _ in 0..50 {
                    if !self.model.contains_key(&k) {
                        break;
                    }
                    k = (k + 1) % (n + 5);
                }
                self.delete(i, s, k)
            }
            _ => {}
        }
        if self.rep.dead {
            return;
        }
        let big = self.model.len() > 400;
        if !big || i % 8 == 0 || s.fault != 0 {
            self.verify(i, OPS[op]);
        } else {
            self.lens(i, OPS[op]);
        }
    }

    pub fn finish(&mut self, i: usize) {
        if !self.rep.dead {
            self.verify(i, "the end");
        }
    }

    fn lens(&mut self, i: usize, opn: &str) {
        if self.map.len() != self.model.len()
            || self.map.is_empty() != self.model.is_empty()
            || self.set.len() != self.smodel.len()
            || self.set.is_empty() != self.smodel.is_empty()
        {
            let m = format!(
                "after {}: map len {} set len {}, expected {} and {}",
                opn,
                self.map.len(),
                self.set.len(),
                self.model.len(),
                self.smodel.len()
            );
            self.rep.fail(Class::Content, i, m);
        }
    }

    fn verify(&mut self, i: usize, opn: &str) {
        self.lens(i, opn);
        env::with(|e| e.step_ticks.set(0));
        let cap = self.model.len().max(self.smodel.len()) + 10_000;
        let r = guarded(|| {
            let a: Vec<(u32, u32, u64)> = self
                .map
                .iter()
                .take(cap)
                .map(|(k, v)| (k.k, k.tag, *v))
                .collect();
            let b: Vec<u32> = self.map.iter_key().take(cap).map(|k| k.k).collect();
            let c: Vec<(u32, u32)> = self.set.iter().take(cap).map(|k| (k.k, k.tag)).collect();
            (a, b, c)
        });
        let (a, b, c) = match r {
            Ok(x) => x,
            Err(Stop::Panic(m)) => {
                self.rep
                    .fail(Class::Panic, i, format!("iteration panicked: {}", m));
                self.rep.dead = true;
                return;
            }
            Err(_) => {
                self.rep.fail(Class::Hang, i, "iteration does not end".into());
                self.rep.dead = true;
                return;
            }
        };
        let wa: Vec<(u32, u32, u64)> = self.model.iter().map(|(k, (t, v))| (*k, *t, *v)).collect();
        let wc: Vec<(u32, u32)> = self.smodel.iter().map(|(k, t)| (*k, *t)).collect();
        for x in &a {
            self.rep.digest = mix2(self.rep.digest, (x.0 as u64) << 32 | x.1 as u64);
        }
        self.rep.max_leaves = self.rep.max_leaves.max(a.len() as u64);
        if self.rep.shapes.len() < 100_000 {
            let mut h = 1;
            for x in &wc {
                h = mix2(h, x.0 as u64);
            }
            self.rep.shapes.push(mix(h));
        }
        let ka: Vec<u32> = wa.iter().map(|x| x.0).collect();
        let d = |what: &str, n: usize, w: usize, at: usize| {
            format!(
                "after {}: {} holds {} entries, expected {}; first difference at {}",
                opn, what, n, w, at
            )
        };
        let mut bad = vec![];
        if a != wa {
            let at = a.iter().zip(&wa).take_while(|(x, y)| x == y).count();
            bad.push(d("the map", a.len(), wa.len(), at));
        } else if b != ka {
            bad.push(format!("after {}: iter_key disagrees with the keys", opn));
        }
        if c != wc {
            let at = c.iter().zip(&wc).take_while(|(x, y)| x == y).count();
            bad.push(d("the set", c.len(), wc.len(), at));
        }
        let trouble = !bad.is_empty();
        for m in bad {
            self.rep.fail(Class::Content, i, m);
        }
        if trouble {
            self.model = a.iter().map(|x| (x.0, (x.1, x.2))).collect();
            self.smodel = c.iter().copied().collect();
        }
        let ks: BTreeSet<u32> = self.model.keys().copied().collect();
        self.rep.mixd(ks.len() as u64);
    }
}
