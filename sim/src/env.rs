//! The environment seam: everything the tree calls back into consults this.
//! Decisions are pure functions of the step's salt, so schedules replay exactly.
use crate::rng::mix2;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub const K_QUERY: u8 = 1;
pub const K_CLOSURE: u8 = 2;
pub const K_ITER: u8 = 3;
pub const K_CMP: u8 = 4;
pub const K_MERGE: u8 = 5;
pub const K_INSERT: u8 = 6;
pub const K_CACHE: u8 = 7;
pub const K_SLICE: u8 = 8;

/// Payload of a simulated crash of user code.
pub struct Injected;
/// Payload raised when a step exceeds its simulated-time budget.
pub struct Budget;

#[derive(Default)]
pub struct Env {
    pub ticks: Cell<u64>,
    pub step_ticks: Cell<u64>,
    pub copies: Cell<u64>,
    /// element values in existence
    pub alive: Cell<i64>,
    pub budget: Cell<u64>,
    pub salt: Cell<u64>,
    pub rate_merge: Cell<u32>,
    pub rate_insert: Cell<u32>,
    pub cap: Cell<usize>,
    pub absorb: Cell<bool>,
    pub merge: Cell<bool>,
    pub crash_kind: Cell<u8>,
    pub crash_in: Cell<u64>,
    pub n_decl_merge: Cell<u64>,
    pub n_decl_insert: Cell<u64>,
    pub last_panic: Cell<Option<String>>,
    /// elements merge only if the left one's items are older
    pub ordered: Cell<bool>,
    /// pairs of neighbours that agreed to merge in this step
    pub agreed: RefCell<Vec<u64>>,
    /// merges without consent in this step
    pub forced: Cell<u32>,
}

thread_local! { static ENV: Env = Env::default(); }

pub fn with<R>(f: impl FnOnce(&Env) -> R) -> R {
    ENV.with(|e| f(e))
}

#[inline]
pub fn tick(kind: u8) {
    ENV.with(|e| {
        e.ticks.set(e.ticks.get() + 1);
        let s = e.step_ticks.get() + 1;
        e.step_ticks.set(s);
        if s > e.budget.get() && !std::thread::panicking() {
            e.step_ticks.set(0);
            panic_any(Budget);
        }
        if e.crash_kind.get() == kind && !std::thread::panicking() {
            let c = e.crash_in.get();
            if c == 0 {
                e.crash_kind.set(0);
                panic_any(Injected);
            }
            e.crash_in.set(c - 1);
        }
    })
}

pub fn agree(pair: u64) {
    ENV.with(|e| {
        let mut a = e.agreed.borrow_mut();
        if a.len() >= 4096 {
            a.clear();
        }
        a.push(pair);
    })
}
/// Two elements are being merged: they must have been asked, in this order.
pub fn merged(pair: u64) {
    ENV.with(|e| {
        if !e.agreed.borrow().iter().rev().any(|x| *x == pair) {
            e.forced.set(e.forced.get() + 1);
        }
    })
}

pub fn decline_merge(key: u64) -> bool {
    ENV.with(|e| {
        let salt = e.salt.get();
        if salt == 0 || e.rate_merge.get() == 0 {
            return false;
        }
        let d = mix2(salt, key) % 1000 < e.rate_merge.get() as u64;
        if d {
            e.n_decl_merge.set(e.n_decl_merge.get() + 1);
        }
        d
    })
}

pub fn decline_insert(key: u64) -> bool {
    ENV.with(|e| {
        let salt = e.salt.get();
        if salt == 0 || e.rate_insert.get() == 0 {
            return false;
        }
        let d = mix2(salt ^ 0xABCD, key) % 1000 < e.rate_insert.get() as u64;
        if d {
            e.n_decl_insert.set(e.n_decl_insert.get() + 1);
        }
        d
    })
}

/// Accesses to nodes and elements so far (hooked builds; always 0 in the others).
pub fn visits() -> u64 {
    #[cfg(gbtree_sim)]
    return generic_btree::sim::visits();
    #[cfg(not(gbtree_sim))]
    0
}
/// Accesses an operation on a tree of `n` elements may make.
pub fn walk_allowance(n: usize, each: u64) -> u64 {
    200 + 50 * (usize::BITS - (n + 2).leading_zeros()) as u64 + 100 * each
}
/// The accesses of one operation; what is over the allowance, as a message.
pub fn walked(what: &str, v0: u64, n: usize, each: u64, worst: &mut u64) -> Option<String> {
    let used = visits() - v0;
    let allowed = walk_allowance(n, each);
    *worst = (*worst).max(used * 100 / allowed);
    (used > allowed)
        .then(|| format!("{} on {} elements went to nodes {} times, allowed {}", what, n, used, allowed))
}

pub enum Stop {
    /// the injected crash fired
    Crash,
    /// a genuine panic of the code under test (or of an oracle): message
    Panic(String),
    /// simulated-time budget exceeded
    Livelock,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        ENV.with(|e| e.last_panic.set(Some(format!("{} at {}", msg, loc))));
    }));
}

/// Run a piece of the system, turning crashes, panics and livelocks into values.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Stop> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                Err(Stop::Crash)
            } else if p.downcast_ref::<Budget>().is_some() {
                Err(Stop::Livelock)
            } else {
                let mut m = ENV.with(|e| e.last_panic.take()).unwrap_or_default();
                if m.len() > 400 {
                    let mut i = 400;
                    while !m.is_char_boundary(i) {
                        i -= 1;
                    }
                    m.truncate(i);
                }
                Err(Stop::Panic(m.replace('\n', " | ")))
            }
        }
    }
}
