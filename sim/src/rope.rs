//! Interleaved editors of one rope.
use crate::env::{self, guarded, Stop};
use crate::rng::{mix, mix2};
use crate::types::*;
use generic_btree::Rope;
use std::ops::Bound;

pub const OPS: [&str; 11] = [
    "init", "type", "backspace", "delete_forward", "paste", "delete_range", "move_caret", "clear",
    "insert_nothing", "reject", "retype",
];
pub const INIT: u8 = 0;
pub const TYPE: u8 = 1;
pub const BACKSPACE: u8 = 2;
pub const DEL_FWD: u8 = 3;
pub const PASTE: u8 = 4;
pub const DEL_RANGE: u8 = 5;
pub const MOVE: u8 = 6;
pub const CLEAR: u8 = 7;
pub const NOTHING: u8 = 8;
pub const REJECT: u8 = 9;
pub const RETYPE: u8 = 10;

pub struct RopeSim {
    cfg: Config,
    rope: Rope,
    model: String,
    carets: Vec<usize>,
    n: u64,
    pub rep: Report,
}

impl RopeSim {
    pub fn new(cfg: &Config) -> Self {
        RopeSim {
            cfg: cfg.clone(),
            rope: Rope::new(),
            model: String::new(),
            carets: vec![0; cfg.clients.max(1) as usize],
            n: 0,
            rep: Report::default(),
        }
    }

    fn text(&mut self, len: usize, v: u64) -> String {
        self.n += 1;
        let multi = self.cfg.neg;
        let mut s = String::new();
        let mut k = 0u64;
        while s.len() < len {
            let h = mix2(self.cfg.vseed ^ self.n, k ^ v << 32);
            k += 1;
            if multi && h % 5 == 0 {
                s.push(['é', 'ß', '中', '文', '🦀'][(h >> 8) as usize % 5]);
            } else {
                s.push((b'!' + ((h >> 8) % 90) as u8) as char);
            }
        }
        s
    }
    fn snap(&self, mut p: usize) -> usize {
        p = p.min(self.model.len());
        while !self.model.is_char_boundary(p) {
            p -= 1;
        }
        p
    }
    fn place(&self, s: &Step, v: u64) -> usize {
        let n = self.model.len();
        let x = (v >> 4) as usize;
        let c = self.carets[s.client as usize % self.carets.len()];
        let p = match v & 15 {
            0..=3 => x % (n + 1),
            4 => 0,
            5 => n,
            // around a leaf-sized step
            6 => (x % 40) * 12 % (n + 1),
            7 => (x % 40) * 128 % (n + 1),
            8 => (c + x % 20).saturating_sub(10),
            _ => c,
        };
        self.snap(p)
    }

    fn act<R>(&mut self, i: usize, opn: &str, f: impl FnOnce(&mut Rope) -> R) -> Option<R> {
        env::with(|e| {
            e.step_ticks.set(0);
            e.crash_kind.set(0)
        });
        let rope = &mut self.rope;
        #[cfg(gbtree_sim)]
        let w0 = (generic_btree::sim::work(), env::visits());
        let r = guarded(move || f(rope));
        #[cfg(gbtree_sim)]
        self.cost(i, opn, generic_btree::sim::work() - w0.0, w0.1);
        match r {
            Ok(r) => Some(r),
            Err(Stop::Panic(m)) => {
                self.rep
                    .fail(Class::Panic, i, format!("{} panicked: {}", opn, m));
                self.rep.dead = true;
                None
            }
            Err(_) => {
                self.rep.fail(Class::Hang, i, format!("{} does not end", opn));
                self.rep.dead = true;
                None
            }
        }
    }

    /// An edit takes logarithmic work, and a little for each piece of text it moves.
    #[cfg(gbtree_sim)]
    fn cost(&mut self, i: usize, opn: &str, used: u64, v0: u64) {
        if opn == "to_string" || opn == "clear" {
            return;
        }
        let (a, b) = (self.model.len(), self.rope.len());
        let n = a.max(b);
        let moved = if b > a { (b - a) / 12 } else { a - b } as u64;
        let allowed = 90 + 18 * (usize::BITS - (n + 2).leading_zeros()) as u64 + 40 * moved;
        self.rep.max_cost = self.rep.max_cost.max(used * 100 / allowed);
        if let Some(m) = env::walked(opn, v0, n, moved, &mut self.rep.max_cost) {
            self.rep.fail(Class::Cost, i, m);
        }
        if used > allowed {
            self.rep.fail(
                Class::Cost,
                i,
                format!("{} of {} bytes in {} took {} units of work, allowed {}", opn, a.abs_diff(b), n, used, allowed),
            );
        }
    }

    fn insert(&mut self, i: usize, s: &Step, opn: &str, at: usize, text: &str) {
        if self.act(i, opn, |r| r.insert(at, text)).is_some() {
            self.model.insert_str(at, text);
            let me = s.client as usize % self.carets.len();
            for (k, c) in self.carets.iter_mut().enumerate() {
                if *c > at || (k == me && *c == at) {
                    *c += text.len();
                }
            }
            self.carets[me] = at + text.len();
        }
    }

    fn remove(&mut self, s: &Step, a: usize, b: usize) {
        self.model.replace_range(a..b, "");
        for c in self.carets.iter_mut() {
            if *c >= b {
                *c -= b - a;
            } else if *c > a {
                *c = a;
            }
        }
        let me = s.client as usize % self.carets.len();
        self.carets[me] = a;
    }

    fn delete(&mut self, i: usize, s: &Step, opn: &str, a: usize, b: usize, form: u64) {
        // a <= b, both on character boundaries
        let n = self.model.len();
        let (mut ea, mut eb) = (a, b);
        let ok = match form % 10 {
            0..=3 => self.act(i, opn, |r| r.delete_range(a..b)),
            4 if b > a => self.act(i, opn, |r| r.delete_range(a..=b - 1)),
            5 => {
                ea = 0;
                self.act(i, opn, |r| r.delete_range(..b))
            }
            6 => {
                eb = n;
                self.act(i, opn, |r| r.delete_range(a..))
            }
            7 => {
                eb = n;
                let over = n + 1 + (form >> 8) as usize % 100;
                match (form >> 16) % 8 {
                    0 => self.act(i, opn, |r| r.delete_range(a..=over)),
                    1 => self.act(i, opn, |r| r.delete_range(a..usize::MAX)),
                    2 => self.act(i, opn, |r| r.delete_range(a..=usize::MAX)),
                    3 => {
                        // wholly beyond the end
                        ea = n;
                        self.act(i, opn, |r| r.delete_range(over..over + 3))
                    }
                    4 => {
                        ea = n;
                        let from = Bound::Excluded(usize::MAX);
                        self.act(i, opn, |r| r.delete_range((from, Bound::Unbounded)))
                    }
                    _ => self.act(i, opn, |r| r.delete_range(a..over)),
                }
            }
            8 if a > 0 => self.act(i, opn, |r| {
                r.delete_range((Bound::Excluded(a - 1), Bound::Excluded(b)))
            }),
            9 => {
                // reversed: nothing is inside
                eb = a;
                let (x, y) = (b, a);
                #[allow(clippy::reversed_empty_ranges)]
                self.act(i, opn, |r| r.delete_range(x..y))
            }
            _ => self.act(i, opn, |r| r.delete_range(a..b)),
        };
        if form % 10 == 9 || ea == eb && a < b {
            // nothing to remove; carets stay
            return;
        }
        if ok.is_some() && ea <= eb {
            self.remove(s, ea, eb);
        }
    }

    pub fn step(&mut self, i: usize, s: &Step) {
        if self.rep.dead {
            return;
        }
        env::with(|e| {
            e.salt.set(0);
            e.budget.set(u64::MAX);
        });
        #[cfg(gbtree_sim)]
        generic_btree::sim::set_hash_seed(s.salt);
        self.rep.steps_done += 1;
        let op = s.op as usize % OPS.len();
        self.rep.count(OPS[op]);
        let opn = OPS[op];
        let me = s.client as usize % self.carets.len();
        match op as u8 {
            INIT => {
                let t = self.text((s.a as usize).min(1_200_000), s.d);
                if s.b % 3 == 0 || t.len() > 20_000 && s.b % 8 != 0 {
                    self.insert(i, s, opn, 0, &t);
                } else {
                    // in pieces
                    let piece = 40.max(t.len() as u64 / 500);
                    let mut at = 0;
                    while at < t.len() && !self.rep.dead {
                        let mut e = (at + 1 + (mix2(s.d, at as u64) % piece) as usize).min(t.len());
                        while !t.is_char_boundary(e) {
                            e += 1;
                        }
                        self.insert(i, s, opn, at, &t[at..e]);
                        at = e;
                    }
                }
            }
            TYPE | RETYPE => {
                let n = 1 + (s.b % 6) as usize;
                let mut at = self.place(s, s.a);
                if op as u8 == RETYPE {
                    // type over: delete a character, type another, several times
                    for k in 0..n {
                        let e = self.snap_up(at + 1);
                        if self.rep.dead {
                            return;
                        }
                        self.delete(i, s, opn, at, e, 0);
                        let t = self.text(1, k as u64);
                        self.insert(i, s, opn, at, &t);
                        at += t.len();
                        if self.rep.dead {
                            return;
                        }
                    }
                } else {
                    let t = self.text(n, s.d);
                    if s.c % 3 == 0 {
                        let cs: Vec<char> = t.chars().collect();
                        for c in cs {
                            if self.rep.dead {
                                return;
                            }
                            self.insert(i, s, opn, at, &c.to_string());
                            at += c.len_utf8();
                        }
                    } else {
                        self.insert(i, s, opn, at, &t);
                    }
                }
            }
            PASTE => {
                let max = match self.model.len() {
                    12_001.. => 10,
                    0..=6000 if s.b >> 40 & 15 == 0 => 6000,
                    _ => 600,
                };
                let n = match s.b % 5 {
                    0 => 10 + (s.b >> 3) as usize % 6,
                    1 => 11 + (s.b >> 3) as usize % 30,
                    2 => 120 + (s.b >> 3) as usize % 20,
                    _ => (s.b >> 3) as usize % max,
                };
                let t = self.text(n, s.d);
                let at = self.place(s, s.a);
                self.insert(i, s, opn, at, &t);
            }
            BACKSPACE => {
                for _ in 0..1 + s.b % 4 {
                    let e = self.carets[me];
                    if e == 0 || self.rep.dead {
                        break;
                    }
                    let a = self.snap(e - 1);
                    self.delete(i, s, opn, a, e, s.c);
                    if s.c % 10 >= 5 {
                        break;
                    }
                }
            }
            DEL_FWD => {
                let a = self.place(s, s.a);
                let e = self.snap_up(a + 1);
                self.delete(i, s, opn, a, e, s.c % 5);
            }
            DEL_RANGE => {
                let a = self.place(s, s.a);
                let w = match s.b % 6 {
                    0 => 0,
                    1 | 2 => 1 + (s.b >> 3) as usize % 5,
                    3 => (s.b >> 3) as usize % 30,
                    4 => (s.b >> 3) as usize % 300,
                    _ => (s.b >> 3) as usize % (self.model.len() + 1),
                };
                let e = self.snap_up(a + w);
                self.delete(i, s, opn, a, e, s.c);
            }
            MOVE => {
                let p = self.place(s, s.a & !15 | (s.a & 15) % 9);
                self.carets[me] = p;
            }
            CLEAR => {
                if self.act(i, opn, |r| r.clear()).is_some() {
                    self.model.clear();
                    self.carets.iter_mut().for_each(|c| *c = 0);
                }
            }
            NOTHING => {
                let at = self.place(s, s.a);
                self.insert(i, s, opn, at, "");
            }
            REJECT => {
                let at = self.model.len() + 1 + (s.a % 50) as usize;
                let t = self.text((s.b % 20) as usize, s.d);
                *self.rep.faults_armed.entry(F_REJECT).or_insert(0) += 1;
                let rope = &mut self.rope;
                match guarded(move || rope.insert(at, &t)) {
                    Ok(()) => self.rep.fail(
                        Class::Return,
                        i,
                        "an insertion beyond the end was accepted".into(),
                    ),
                    Err(_) => *self.rep.faults_fired.entry(F_REJECT).or_insert(0) += 1,
                }
            }
            _ => {}
        }
        if !self.rep.dead && (self.model.len() < 3000 || i % 4 == 0) {
            self.verify(i, opn);
        }
    }

    fn snap_up(&self, mut p: usize) -> usize {
        p = p.min(self.model.len());
        while !self.model.is_char_boundary(p) {
            p += 1;
        }
        p
    }

    pub fn finish(&mut self, i: usize) {
        if !self.rep.dead {
            self.verify(i, "the end");
        }
    }

    fn verify(&mut self, i: usize, opn: &str) {
        let Some((t, len, empty)) = self.act(i, "to_string", |r| {
            (r.to_string(), r.len(), r.is_empty())
        }) else {
            return;
        };
        let mut h = 3u64;
        for c in t.as_bytes().chunks(8) {
            let mut x = 0u64;
            for b in c {
                x = x << 8 | *b as u64;
            }
            h = mix2(h, x);
        }
        self.rep.mixd(h);
        if self.rep.shapes.len() < 100_000 {
            self.rep.shapes.push(mix(h));
        }
        self.rep.max_leaves = self.rep.max_leaves.max(t.len() as u64);
        if t != self.model {
            let at = t
                .bytes()
                .zip(self.model.bytes())
                .take_while(|(a, b)| a == b)
                .count();
            self.rep.fail(
                Class::Content,
                i,
                format!(
                    "after {}: the text has {} bytes, expected {}; first difference at byte {}",
                    opn,
                    t.len(),
                    self.model.len(),
                    at
                ),
            );
            self.model = t.clone();
            for k in 0..self.carets.len() {
                self.carets[k] = self.snap(self.carets[k]);
            }
        }
        if len != t.len() || empty != t.is_empty() {
            self.rep.fail(
                Class::Content,
                i,
                format!(
                    "after {}: len() is {} and is_empty() {} for a text of {} bytes",
                    opn,
                    len,
                    empty,
                    t.len()
                ),
            );
        }
        let r = &self.rope;
        if let Err(e) = guarded(|| r.check()) {
            let m = match e {
                Stop::Panic(m) => m,
                _ => "does not end".into(),
            };
            self.rep
                .fail(Class::Check, i, format!("after {}: check() failed: {}", opn, m));
        }
    }
}
