//! From one 64-bit seed to one complete schedule: configuration (swarm),
//! workload, interleaving of clients, faults.
use crate::rng::{mix2, Rng};
use crate::types::*;
use crate::{ord, rope, span, tree};
use std::collections::BTreeMap;

pub const PROPS: [&str; 13] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14",
];

/// Which observed failures decide a property. Panics, hangs and aborts always do.
pub fn decides(prop: &str, c: Class) -> bool {
    use Class::*;
    if matches!(c, Panic | Hang | Abort) {
        return true;
    }
    match prop {
        "C01" => matches!(c, Content | RangeIter | Return),
        "C02" => matches!(c, Summary | Check),
        "C03" => matches!(c, Handle | Return),
        "C08" => matches!(c, Probe | RangeIter | Filter),
        "C10" => matches!(c, Content | Summary | Handle | Return),
        "C11" => matches!(c, Nodes | Check),
        "C14" => matches!(c, Cost),
        _ => c != Cost,
    }
}

fn base_weights() -> [u64; 27] {
    let mut w = [0u64; 27];
    for (op, x) in [
        (tree::PUSH, 40),
        (tree::PREPEND, 30),
        (tree::INSERT, 140),
        (tree::INS_HANDLE, 80),
        (tree::INS_MANY, 30),
        (tree::REMOVE, 100),
        (tree::REMOVE_STALE, 20),
        (tree::UPD_LEAF, 80),
        (tree::UPD_SEARCH, 50),
        (tree::UPD_RANGE, 40),
        (tree::UPD_ARGS, 40),
        (tree::DRAIN, 50),
        (tree::CLEAR, 2),
        (tree::CLONE, 8),
        (tree::RESTORE, 8),
        (tree::REBUILD, 8),
        (tree::PROBE, 30),
        (tree::EDIT, 30),
        (tree::UPD_FILTER, 20),
        (tree::ACQUIRE, 20),
        (tree::ANCHOR, 20),
        (tree::DROP_BRANCH, 3),
        (tree::RANGE_PROBE, 12),
        (tree::BATCH_INSERT, 20),
        (tree::BATCH_REMOVE, 20),
        (tree::SHRINK, 3),
    ] {
        w[op as usize] = x;
    }
    w
}

fn emphasis(prop: &str) -> &'static [(u8, u64)] {
    use tree::*;
    match prop {
        "C01" => &[(INS_MANY, 3), (PREPEND, 2), (BATCH_INSERT, 2), (UPD_LEAF, 2)],
        "C02" => &[(EDIT, 3), (UPD_LEAF, 2), (UPD_SEARCH, 2), (DRAIN, 2), (UPD_RANGE, 2), (UPD_ARGS, 2), (PREPEND, 2)],
        "C03" => &[(INS_HANDLE, 4), (REMOVE_STALE, 8), (ACQUIRE, 4), (UPD_LEAF, 2), (UPD_ARGS, 2), (DRAIN, 2)],
        "C04" => &[(DRAIN, 14), (SHRINK, 8), (BATCH_INSERT, 4)],
        "C05" => &[(INSERT, 2), (INS_MANY, 4), (UPD_LEAF, 3), (UPD_SEARCH, 3), (REBUILD, 8), (DRAIN, 3), (PUSH, 2), (PREPEND, 2), (UPD_FILTER, 4)],
        "C08" => &[(PROBE, 12), (RANGE_PROBE, 14), (ANCHOR, 2)],
        "C09" => &[(CLONE, 16), (RESTORE, 10), (DROP_BRANCH, 6), (DRAIN, 2)],
        "C10" => &[(UPD_LEAF, 3), (UPD_SEARCH, 4), (UPD_RANGE, 8), (UPD_ARGS, 10), (UPD_FILTER, 10), (EDIT, 3)],
        "C11" => &[(REMOVE, 2), (DRAIN, 4), (UPD_LEAF, 2), (UPD_SEARCH, 2), (BATCH_REMOVE, 3), (SHRINK, 6), (UPD_RANGE, 2)],
        "C14" => &[(BATCH_REMOVE, 8), (DRAIN, 4), (REMOVE, 2), (SHRINK, 3), (UPD_RANGE, 2), (INS_MANY, 3), (BATCH_INSERT, 2)],
        "C12" => &[(REBUILD, 30), (INS_MANY, 8), (CLEAR, 30), (SHRINK, 8), (PREPEND, 2)],
        _ => &[],
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mood {
    Grow,
    Churn,
    Shrink,
}

fn mood_factor(m: Mood, op: u8) -> (u64, u64) {
    use tree::*;
    let grows = matches!(op, PUSH | PREPEND | INSERT | INS_HANDLE | INS_MANY | ANCHOR | BATCH_INSERT);
    let shrinks = matches!(op, REMOVE | DRAIN | BATCH_REMOVE | SHRINK);
    match m {
        Mood::Grow if grows => (3, 1),
        Mood::Grow if shrinks => (1, 4),
        Mood::Shrink if shrinks => (4, 1),
        Mood::Shrink if grows => (1, 4),
        _ => (1, 1),
    }
}

fn tree_faults(op: u8) -> &'static [u8] {
    use tree::*;
    match op {
        PUSH | PREPEND => &[F_MERGE],
        INSERT | ANCHOR => &[F_QUERY, F_MERGE, F_INSERT],
        INS_HANDLE => &[F_MERGE, F_INSERT],
        INS_MANY | REBUILD | INIT => &[F_ITER],
        UPD_LEAF | UPD_RANGE | UPD_FILTER => &[F_CLOSURE],
        UPD_SEARCH => &[F_QUERY, F_CLOSURE],
        DRAIN | SHRINK => &[F_CONSUMER, F_ABANDON, F_CONSUMER, F_ABANDON, F_QUERY],
        _ => &[],
    }
}

/// Who runs next.
struct Sched {
    kind: u64,
    n: u64,
    cur: u64,
    stalled: u64,
    until: u64,
    t: u64,
}
impl Sched {
    fn new(r: &mut Rng, n: u64) -> Self {
        Sched {
            kind: r.below(4),
            n,
            cur: 0,
            stalled: r.below(n),
            until: r.range(5, 60),
            t: 0,
        }
    }
    fn next(&mut self, r: &mut Rng) -> u8 {
        self.t += 1;
        self.cur = match self.kind {
            0 => (self.cur + 1) % self.n,
            1 => r.below(self.n),
            2 if r.chance(850) => self.cur,
            2 => r.below(self.n),
            _ => {
                // one client is stalled for a long time, then acts on stale knowledge
                if self.t > self.until {
                    self.until = self.t + r.range(5, 60);
                    let was = self.stalled;
                    self.stalled = r.below(self.n);
                    was
                } else {
                    let mut c = r.below(self.n);
                    if c == self.stalled {
                        c = (c + 1) % self.n;
                    }
                    c
                }
            }
        };
        self.cur as u8
    }
}

fn fault_index(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=2 => 0,
        3 | 4 => 1,
        5 => 2,
        6 | 7 => r.below(8) as u32,
        8 => r.below(40) as u32,
        _ => r.below(300) as u32,
    }
}

pub fn generate(prop: &str, seed: u64, thorough: bool) -> Script {
    let mut r = Rng::new(seed);
    let kind = match prop {
        "C06" => Kind::Ord,
        "C07" => Kind::Rope,
        "C14" if r.chance(150) => Kind::Ord,
        "C14" if r.chance(100) => Kind::Rope,
        "C01" | "C02" | "C04" | "C05" | "C08" | "C10" | "C12" | "C14" if r.chance(110) => {
            if r.chance(600) {
                Kind::SpanD
            } else {
                Kind::SpanN
            }
        }
        "C10" => {
            if r.chance(780) {
                Kind::TreeD
            } else {
                Kind::TreeN
            }
        }
        _ => {
            if r.chance(580) {
                Kind::TreeD
            } else {
                Kind::TreeN
            }
        }
    };
    let cfg = Config {
        prop: prop.to_string(),
        kind,
        cap: r.pick(&[2, 3, 4, 5, 6, 8, 12, 24]),
        maxlen: r.pick(&[1, 1, 2, 3, 4, 5, 8]),
        absorb: r.chance(550),
        merge: r.chance(500),
        rate_merge: r.pick(&[0, 100, 300, 600, 900]),
        rate_insert: r.pick(&[0, 100, 300, 600, 900]),
        nclass: r.range(1, 3) as u8,
        anchors: r.chance(330),
        neg: r.chance(300),
        clients: r.pick(&[1, 2, 2, 3, 3, 4, 5, 6]),
        keys: 0,
        vseed: r.next(),
    };
    let mut s = match kind {
        Kind::Ord => gen_ord(&mut r, cfg, thorough),
        Kind::Rope => gen_rope(&mut r, cfg, thorough),
        Kind::SpanD | Kind::SpanN => gen_span(&mut r, cfg, thorough),
        _ => gen_tree(&mut r, cfg, thorough),
    };
    s.meta.insert("seed".into(), seed.to_string());
    s
}

fn size(r: &mut Rng, thorough: bool) -> u64 {
    match r.below(100) {
        0..=22 => r.below(4),
        23..=52 => r.range(4, 40),
        53..=80 => r.range(41, 200),
        81..=96 => r.range(200, 600),
        _ => r.range(600, if thorough { 2600 } else { 2000 }),
    }
}

/// A few runs go on for thousands of steps, so that slow accumulations show.
fn soak(r: &mut Rng, nsteps: u64, init: u64, thorough: bool) -> u64 {
    if init <= 400 && r.chance(if thorough { 15 } else { 4 }) {
        nsteps * r.range(15, if thorough { 80 } else { 40 })
    } else {
        nsteps
    }
}

fn gen_tree(r: &mut Rng, mut cfg: Config, thorough: bool) -> Script {
    let prop = cfg.prop.clone();
    let mut init = size(r, thorough);
    if prop == "C14" && r.chance(100) {
        init = r.range(2000, if thorough { 10000 } else { 5000 });
    }
    // just past a size that fills whole levels, so that the last nodes are thin
    let thin = r.chance(if prop == "C14" { 300 } else { 180 });
    if thin {
        init = match r.below(4) {
            0 => r.range(1, 9) * 10,
            1 | 2 => r.range(1, 9) * 100,
            _ => r.range(1, 2) * 1000,
        } + r.below(12);
    }
    // six and more levels of nodes
    let giant = r.chance(1);
    if giant {
        init = if r.chance(500) { r.range(100_000, 300_000) } else { r.range(6_000, 40_000) };
        cfg.maxlen = 1;
    }
    let mut nsteps = match init {
        100_000.. => r.range(3, 7),
        6_000.. => r.range(5, 20),
        0..=40 => r.range(20, 120),
        41..=200 => r.range(20, 90),
        201..=600 => r.range(15, 60),
        _ => r.range(10, 30),
    };
    if !giant && r.chance(60) {
        nsteps *= 3;
    }
    nsteps = soak(r, nsteps, init, thorough);
    if init > 600 {
        // big trees of small elements, so that they stay big
        cfg.maxlen = cfg.maxlen.min(2);
        if r.chance(700) {
            cfg.merge = false;
        }
    }
    let emph = emphasis(&prop);
    let mut w = base_weights();
    for x in w.iter_mut() {
        if r.chance(220) {
            *x = 0;
        } else if r.chance(150) {
            *x *= 4;
        }
    }
    let b = base_weights();
    for (op, f) in emph {
        // emphasised operations are mostly present
        if w[*op as usize] == 0 && r.chance(800) {
            w[*op as usize] = b[*op as usize];
        }
        w[*op as usize] *= f;
    }
    for op in [tree::INSERT, tree::REMOVE] {
        if w[op as usize] == 0 && r.chance(700) {
            w[op as usize] = b[op as usize];
        }
    }
    if giant && prop == "C08" {
        w[tree::PROBE as usize] = w.iter().sum::<u64>() + 1;
    }
    let frate = match prop.as_str() {
        "C05" => r.pick(&[300, 500, 700]),
        "C04" => r.pick(&[0, 300, 600, 900]),
        _ => r.pick(&[0, 0, 40, 100, 300]),
    };
    let salted = r.pick(&[0u64, 500, 900, 1000]);
    let mut sched = Sched::new(r, cfg.clients as u64);
    let mut steps = vec![];
    let mk = |r: &mut Rng, client: u8, op: u8| Step {
        client,
        op,
        br: 0,
        a: r.next(),
        b: r.next(),
        c: r.next(),
        d: r.next(),
        salt: if r.chance(salted) { r.next() | 1 } else { 0 },
        fault: 0,
        fk: 0,
    };
    if init > 0 {
        let mut s = mk(r, 0, tree::INIT);
        s.a = init;
        // bulk insertion builds trees of the same kind as editing; building from
        // an iterator gives minimally filled ones
        s.b = match init {
            _ if giant => r.pick(&[0, 2, 3, 3, 3, 4]),
            _ if thin => 0,
            0..=200 => r.below(5),
            _ => r.pick(&[0, 2, 3, 3]),
        };
        steps.push(s);
    }
    let mut mood = Mood::Churn;
    let mut left = 0;
    for _ in 0..nsteps {
        if left == 0 {
            mood = match r.below(10) {
                0..=3 => Mood::Grow,
                4..=6 => Mood::Churn,
                _ => Mood::Shrink,
            };
            left = r.range(4, 40);
        }
        left -= 1;
        let mut ww = w;
        for (op, x) in ww.iter_mut().enumerate() {
            let (m, d) = mood_factor(mood, op as u8);
            *x = *x * m / d;
        }
        if ww.iter().sum::<u64>() == 0 {
            ww[tree::INSERT as usize] = 1;
        }
        let op = r.weighted(&ww) as u8;
        let client = sched.next(r);
        let mut s = mk(r, client, op);
        s.br = match (prop.as_str(), r.below(100)) {
            ("C09", x) => (x % 3) as u8,
            (_, 0..=69) => 0,
            (_, 70..=89) => 1,
            _ => 2,
        };
        let fs = tree_faults(op);
        if !fs.is_empty() && r.chance(frate) {
            s.fault = r.pick(fs);
            s.fk = fault_index(r);
        }
        steps.push(s);
    }
    Script {
        cfg,
        steps,
        meta: BTreeMap::new(),
    }
}

fn gen_ord(r: &mut Rng, mut cfg: Config, thorough: bool) -> Script {
    cfg.keys = match r.below(10) {
        0 | 1 => r.range(3, 16),
        2..=4 => r.range(16, 120),
        5..=7 => r.range(120, 800),
        _ => r.range(800, if thorough { 20000 } else { 4000 }),
    } as u32;
    let giant = r.chance(if thorough { 8 } else { 2 });
    if giant {
        cfg.keys = r.range(20_000, 200_000) as u32;
    }
    let init = match r.below(6) {
        _ if giant => r.range(5000, 60_000),
        0 | 1 => 0,
        _ => {
            let s = size(r, thorough);
            s.min(cfg.keys as u64)
        }
    };
    let nsteps = match init {
        0..=400 => r.range(20, 300),
        401..=4999 => r.range(30, 200),
        _ => r.range(5, 40),
    };
    let nsteps = soak(r, nsteps, init, thorough);
    let frate = r.pick(&[0, 30, 150, 500]);
    let mut sched = Sched::new(r, cfg.clients as u64);
    let mut steps = vec![];
    let mk = |r: &mut Rng, client: u8, op: u8| Step {
        client,
        op,
        a: r.next(),
        b: r.next(),
        c: r.next(),
        d: r.next(),
        ..Step::default()
    };
    if init > 0 {
        let mut s = mk(r, 0, ord::INIT);
        s.a = init;
        steps.push(s);
    }
    // insert delete del_present overwrite burst_ins burst_del del_absent
    let base: [u64; 7] = [30, 12, 20, 10, 4, 4, 8];
    let mut w = base;
    for x in w.iter_mut() {
        if r.chance(150) {
            *x = 0;
        }
    }
    let mut left = 0;
    let mut ww = w;
    for _ in 0..nsteps {
        if left == 0 {
            left = r.range(5, 60);
            ww = w;
            match r.below(3) {
                0 => {
                    ww[0] *= 3;
                    ww[4] *= 3;
                }
                1 => {
                    ww[2] *= 4;
                    ww[5] *= 4;
                }
                _ => {}
            }
        }
        left -= 1;
        let op = 1 + r.weighted(&ww) as u8;
        let client = sched.next(r);
        let mut s = mk(r, client, op);
        if !matches!(op, ord::BURST_INS | ord::BURST_DEL) && r.chance(frate) {
            s.fault = F_CMP;
            s.fk = r.pick(&[0, 1, 2, 3, 5, 8, 13, 21, 30]) + r.below(3) as u32;
        }
        steps.push(s);
    }
    Script {
        cfg,
        steps,
        meta: BTreeMap::new(),
    }
}

fn gen_rope(r: &mut Rng, cfg: Config, thorough: bool) -> Script {
    let init = match r.below(10) {
        // deep trees
        _ if r.chance(4) => r.range(100_000, if thorough { 1_000_000 } else { 500_000 }),
        // enough for several levels of full-sized chunks
        _ if r.chance(15) => r.range(9000, if thorough { 80_000 } else { 40_000 }),
        0 | 1 => 0,
        2..=4 => r.range(1, 60),
        5..=7 => r.range(60, 1500),
        8 => r.range(1500, 6000),
        _ => r.range(6000, if thorough { 18000 } else { 9000 }),
    };
    let nsteps = if init > 90_000 { r.range(5, 25) } else if init > 1500 { r.range(20, 120) } else { r.range(20, 250) };
    let nsteps = soak(r, nsteps, init, thorough);
    let mut sched = Sched::new(r, cfg.clients as u64);
    let mut steps = vec![];
    let mk = |r: &mut Rng, client: u8, op: u8| Step {
        client,
        op,
        a: r.next(),
        b: r.next(),
        c: r.next(),
        d: r.next(),
        ..Step::default()
    };
    if init > 0 {
        let mut s = mk(r, 0, rope::INIT);
        s.a = init;
        steps.push(s);
    }
    // type backspace del_fwd paste del_range move clear nothing reject retype
    let base: [u64; 10] = [300, 120, 80, 80, 60, 80, 8, 8, 20, 60];
    let mut w = base;
    for x in w.iter_mut() {
        if r.chance(150) {
            *x = 0;
        }
    }
    w[0] = w[0].max(60);
    let mut left = 0;
    let mut ww = w;
    for _ in 0..nsteps {
        if left == 0 {
            left = r.range(5, 60);
            ww = w;
            match r.below(4) {
                0 => {
                    ww[0] *= 2;
                    ww[3] *= 4;
                }
                1 => {
                    ww[1] *= 4;
                    ww[2] *= 4;
                    ww[4] *= 4;
                }
                _ => {}
            }
        }
        left -= 1;
        let op = 1 + r.weighted(&ww) as u8;
        let client = sched.next(r);
        steps.push(mk(r, client, op));
    }
    Script {
        cfg,
        steps,
        meta: BTreeMap::new(),
    }
}

fn gen_span(r: &mut Rng, mut cfg: Config, thorough: bool) -> Script {
    let giant = r.chance(if thorough { 12 } else { 5 });
    let init = match r.below(10) {
        // deep trees
        _ if giant => r.range(2000, if thorough { 200_000 } else { 120_000 }),
        0..=2 => 0,
        3..=5 => r.range(1, 30),
        6..=8 => r.range(30, 300),
        _ => r.range(300, if thorough { 2400 } else { 1200 }),
    };
    cfg.merge = r.chance(800);
    let nsteps = match init {
        0..=300 => r.range(20, 160),
        301..=3000 => r.range(10, 60),
        _ => r.range(4, 14),
    };
    let nsteps = soak(r, nsteps, init, thorough);
    let frate = match cfg.prop.as_str() {
        "C04" | "C05" => r.pick(&[200, 500]),
        _ => r.pick(&[0, 40, 200]),
    };
    let salted = r.pick(&[0u64, 500, 1000]);
    let mut sched = Sched::new(r, cfg.clients as u64);
    let mut steps = vec![];
    let mk = |r: &mut Rng, client: u8, op: u8| Step {
        client,
        op,
        br: 0,
        a: r.next(),
        b: r.next(),
        c: r.next(),
        d: r.next(),
        salt: if r.chance(salted) { r.next() | 1 } else { 0 },
        fault: 0,
        fk: 0,
    };
    if init > 0 {
        let mut s = mk(r, 0, span::INIT);
        s.a = init;
        steps.push(s);
    }
    let emph = cfg.prop.clone();
    // push prepend insert by_cursor many delete range args leaf search remove snapshot restore rebuild clear probe
    let mut w: [u64; 16] = [30, 30, 120, 60, 50, 70, 40, 40, 60, 40, 30, 8, 8, 6, 2, 20];
    match emph.as_str() {
        "C04" => w[5] *= 5,
        "C08" => w[15] *= 6,
        "C10" => w[6..10].iter_mut().for_each(|x| *x *= 4),
        "C12" => {
            w[13] *= 12;
            w[14] *= 6;
        }
        _ => {}
    }
    for x in w.iter_mut() {
        if r.chance(180) {
            *x = 0;
        }
    }
    w[2] = w[2].max(30);
    for _ in 0..nsteps {
        let op = 1 + r.weighted(&w) as u8;
        let client = sched.next(r);
        let mut s = mk(r, client, op);
        let fs = span::faults(op);
        if !fs.is_empty() && r.chance(frate) {
            s.fault = r.pick(fs);
            s.fk = fault_index(r);
        }
        steps.push(s);
    }
    Script {
        cfg,
        steps,
        meta: BTreeMap::new(),
    }
}

pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |h, b| mix2(h, b as u64));
    mix2(mix2(base, p), idx)
}
