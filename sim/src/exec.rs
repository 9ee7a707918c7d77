//! Executing one script, and minimising one.
use crate::env;
use crate::gen::decides;
use crate::ord::OrdSim;
use crate::rope::RopeSim;
use crate::span::SpanSim;
use crate::tree::TreeSim;
use crate::types::*;
use std::time::{Duration, Instant};

/// Runs a script; stops early once `stop(class)` was seen.
pub fn run(s: &Script, stop: &dyn Fn(Class) -> bool) -> Report {
    env::with(|e| {
        e.ticks.set(0);
        e.step_ticks.set(0);
        e.salt.set(0);
        e.crash_kind.set(0);
        e.n_decl_insert.set(0);
        e.n_decl_merge.set(0);
    });
    #[cfg(gbtree_sim)]
    generic_btree::sim::set_hash_seed(0);
    macro_rules! go {
        ($sim:expr) => {{
            let mut sim = $sim;
            let mut seen = 0;
            let mut stopped = false;
            for (i, st) in s.steps.iter().enumerate() {
                sim.step(i, st);
                if sim.rep.fails.len() > seen {
                    if sim.rep.fails[seen..].iter().any(|f| stop(f.class)) {
                        stopped = true;
                        break;
                    }
                    seen = sim.rep.fails.len();
                }
                if sim.rep.dead || seen >= 30 {
                    break;
                }
            }
            if !stopped {
                sim.finish(s.steps.len());
            }
            let rep = std::mem::take(&mut sim.rep);
            // a damaged structure may fail to drop
            let _ = env::guarded(move || drop(sim));
            rep
        }};
    }
    let mut rep = match s.cfg.kind {
        Kind::TreeD => go!(TreeSim::<true>::new(&s.cfg)),
        Kind::TreeN => go!(TreeSim::<false>::new(&s.cfg)),
        Kind::Ord => go!(OrdSim::new(&s.cfg)),
        Kind::Rope => go!(RopeSim::new(&s.cfg)),
        Kind::SpanD => go!(SpanSim::<true>::new(&s.cfg)),
        Kind::SpanN => go!(SpanSim::<false>::new(&s.cfg)),
    };
    let t = env::with(|e| e.ticks.get());
    rep.mixd(t);
    rep
}

pub fn ticks() -> u64 {
    env::with(|e| e.ticks.get())
}

pub fn first_fail(prop: &str, r: &Report) -> Option<Fail> {
    r.fails.iter().find(|f| decides(prop, f.class)).cloned()
}

/// ddmin over steps, then simplification of what is left.
pub fn shrink(s: &Script, class: Class, budget: Duration, save: &mut dyn FnMut(&Script)) -> Script {
    let t0 = Instant::now();
    let mut best = s.clone();
    let prop = s.cfg.prop.clone();
    let fails = |c: &Script| -> Option<usize> {
        let r = run(c, &|k| k == class);
        r.fails
            .iter()
            .find(|f| f.class == class && decides(&prop, f.class))
            .map(|f| f.step)
    };
    match fails(&best) {
        Some(k) => best.steps.truncate(k + 1),
        None => return best,
    }
    let over = || t0.elapsed() > budget;
    let mut again = true;
    while again && !over() {
        again = false;
        // drop steps
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.steps.len() && !over() {
                let end = (at + chunk).min(best.steps.len());
                let mut c = best.clone();
                c.steps.drain(at..end);
                if let Some(k) = fails(&c) {
                    c.steps.truncate(k + 1);
                    best = c;
                    again = true;
                    save(&best);
                } else {
                    at += chunk;
                }
            }
            if chunk == 1 || over() {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        // simpler steps
        for i in (0..best.steps.len()).rev() {
            if i >= best.steps.len() || over() {
                continue;
            }
            type Edit = fn(&mut Step);
            let edits: [Edit; 13] = [
                |s| s.fault = 0,
                |s| s.salt = 0,
                |s| s.br = 0,
                |s| s.client = 0,
                |s| s.fk = 0,
                |s| s.fk /= 2,
                |s| s.a = 0,
                |s| s.b = 0,
                |s| s.c = 0,
                |s| s.d = 0,
                |s| s.a &= 0xff,
                |s| s.b &= 0xff,
                |s| s.c &= 0xff,
            ];
            for e in edits {
                let mut c = best.clone();
                if i >= c.steps.len() {
                    break;
                }
                e(&mut c.steps[i]);
                if c.steps[i] == best.steps[i] {
                    continue;
                }
                if let Some(k) = fails(&c) {
                    c.steps.truncate(k + 1);
                    best = c;
                    again = true;
                }
            }
            // halve the numbers
            for f in 0..4 {
                loop {
                    if i >= best.steps.len() || over() {
                        break;
                    }
                    let mut c = best.clone();
                    let v = match f {
                        0 => &mut c.steps[i].a,
                        1 => &mut c.steps[i].b,
                        2 => &mut c.steps[i].c,
                        _ => &mut c.steps[i].d,
                    };
                    if *v == 0 {
                        break;
                    }
                    *v = if *v > 1 << 16 { *v >> 16 } else { *v / 2 };
                    match fails(&c) {
                        Some(k) => {
                            c.steps.truncate(k + 1);
                            best = c;
                            again = true;
                        }
                        None => break,
                    }
                }
            }
        }
        // simpler configuration
        type CEdit = fn(&mut Config);
        let edits: [CEdit; 10] = [
            |c| c.rate_merge = 0,
            |c| c.rate_insert = 0,
            |c| c.merge = false,
            |c| c.absorb = false,
            |c| c.nclass = 1,
            |c| c.anchors = false,
            |c| c.neg = false,
            |c| c.clients = 1,
            |c| c.maxlen = 1,
            |c| c.vseed = 1,
        ];
        for e in edits {
            if over() {
                break;
            }
            let mut c = best.clone();
            e(&mut c.cfg);
            if c.cfg == best.cfg {
                continue;
            }
            if let Some(k) = fails(&c) {
                c.steps.truncate(k + 1);
                best = c;
                again = true;
            }
        }
        save(&best);
    }
    best
}
