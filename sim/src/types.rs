//! Steps, configurations, failure classes, run reports.
use crate::rng::mix2;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Class {
    Content,
    RangeIter,
    Summary,
    Nodes,
    Handle,
    Probe,
    Filter,
    Return,
    Check,
    Isolation,
    Cost,
    Panic,
    Hang,
    Abort,
}
pub const CLASSES: [Class; 14] = [
    Class::Content,
    Class::RangeIter,
    Class::Summary,
    Class::Nodes,
    Class::Handle,
    Class::Probe,
    Class::Filter,
    Class::Return,
    Class::Check,
    Class::Isolation,
    Class::Cost,
    Class::Panic,
    Class::Hang,
    Class::Abort,
];
impl Class {
    pub fn name(self) -> String {
        format!("{:?}", self).to_uppercase()
    }
    pub fn parse(s: &str) -> Option<Class> {
        CLASSES.iter().copied().find(|c| c.name() == s)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: Class,
    pub step: usize,
    pub msg: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Step {
    pub client: u8,
    pub op: u8,
    pub br: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub d: u64,
    pub salt: u64,
    pub fault: u8,
    pub fk: u32,
}

pub const F_NONE: u8 = 0;
pub const F_QUERY: u8 = 1;
pub const F_CLOSURE: u8 = 2;
pub const F_ITER: u8 = 3;
pub const F_CMP: u8 = 4;
pub const F_MERGE: u8 = 5;
pub const F_INSERT: u8 = 6;
pub const F_CONSUMER: u8 = 9;
pub const F_ABANDON: u8 = 10;
pub const F_REJECT: u8 = 11;
pub fn fault_name(f: u8) -> &'static str {
    match f {
        F_NONE => "none",
        F_QUERY => "lookup_crash",
        F_CLOSURE => "closure_crash",
        F_ITER => "source_crash",
        F_CMP => "comparison_crash",
        F_MERGE => "merge_test_crash",
        F_INSERT => "absorb_test_crash",
        F_CONSUMER => "consumer_crash",
        F_ABANDON => "abandoned_drain",
        F_REJECT => "rejected_request",
        _ => "?",
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    TreeD,
    TreeN,
    Ord,
    Rope,
    SpanD,
    SpanN,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Config {
    pub prop: String,
    pub kind: Kind,
    pub cap: usize,
    pub maxlen: usize,
    pub absorb: bool,
    pub merge: bool,
    pub rate_merge: u32,
    pub rate_insert: u32,
    pub nclass: u8,
    pub anchors: bool,
    pub neg: bool,
    pub clients: u8,
    pub keys: u32,
    pub vseed: u64,
}

impl Config {
    pub fn line(&self) -> String {
        format!(
            "config prop={} kind={:?} cap={} maxlen={} absorb={} merge={} rate_merge={} rate_insert={} nclass={} anchors={} neg={} clients={} keys={} vseed={}",
            self.prop, self.kind, self.cap, self.maxlen, self.absorb as u8, self.merge as u8,
            self.rate_merge, self.rate_insert, self.nclass, self.anchors as u8, self.neg as u8,
            self.clients, self.keys, self.vseed
        )
    }
}

fn kv(line: &str) -> BTreeMap<&str, &str> {
    line.split_whitespace()
        .filter_map(|t| t.split_once('='))
        .collect()
}
fn num(m: &BTreeMap<&str, &str>, k: &str) -> u64 {
    m.get(k).and_then(|v| v.parse().ok()).unwrap_or(0)
}

#[derive(Clone, Debug)]
pub struct Script {
    pub cfg: Config,
    pub steps: Vec<Step>,
    pub meta: BTreeMap<String, String>,
}

impl Script {
    pub fn write(&self) -> String {
        let mut s = String::from("# gbsim replay v1\n");
        for (k, v) in &self.meta {
            s.push_str(&format!("meta {} {}\n", k, v.replace('\n', " ")));
        }
        s.push_str(&self.cfg.line());
        s.push('\n');
        for st in &self.steps {
            s.push_str(&format!(
                "step client={} op={} br={} a={} b={} c={} d={} salt={} fault={} fk={} # {} {}\n",
                st.client,
                st.op,
                st.br,
                st.a,
                st.b,
                st.c,
                st.d,
                st.salt,
                st.fault,
                st.fk,
                crate::op_name(self.cfg.kind, st.op),
                if st.fault == 0 { "" } else { fault_name(st.fault) }
            ));
        }
        s
    }
    pub fn parse(text: &str) -> Option<Script> {
        let mut cfg = None;
        let mut steps = vec![];
        let mut meta = BTreeMap::new();
        for l in text.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("meta ") {
                let (k, v) = r.split_once(' ').unwrap_or((r, ""));
                meta.insert(k.to_string(), v.to_string());
            } else if let Some(r) = l.strip_prefix("config ") {
                let m = kv(r);
                cfg = Some(Config {
                    prop: m.get("prop")?.to_string(),
                    kind: match *m.get("kind")? {
                        "TreeD" => Kind::TreeD,
                        "TreeN" => Kind::TreeN,
                        "Ord" => Kind::Ord,
                        "Rope" => Kind::Rope,
                        "SpanD" => Kind::SpanD,
                        "SpanN" => Kind::SpanN,
                        _ => return None,
                    },
                    cap: num(&m, "cap") as usize,
                    maxlen: num(&m, "maxlen") as usize,
                    absorb: num(&m, "absorb") == 1,
                    merge: num(&m, "merge") == 1,
                    rate_merge: num(&m, "rate_merge") as u32,
                    rate_insert: num(&m, "rate_insert") as u32,
                    nclass: num(&m, "nclass") as u8,
                    anchors: num(&m, "anchors") == 1,
                    neg: num(&m, "neg") == 1,
                    clients: num(&m, "clients") as u8,
                    keys: num(&m, "keys") as u32,
                    vseed: num(&m, "vseed"),
                });
            } else if let Some(r) = l.strip_prefix("step ") {
                let r = r.split('#').next().unwrap();
                let m = kv(r);
                steps.push(Step {
                    client: num(&m, "client") as u8,
                    op: num(&m, "op") as u8,
                    br: num(&m, "br") as u8,
                    a: num(&m, "a"),
                    b: num(&m, "b"),
                    c: num(&m, "c"),
                    d: num(&m, "d"),
                    salt: num(&m, "salt"),
                    fault: num(&m, "fault") as u8,
                    fk: num(&m, "fk") as u32,
                });
            }
        }
        Some(Script {
            cfg: cfg?,
            steps,
            meta,
        })
    }
}

/// What one simulated run produced.
#[derive(Default)]
pub struct Report {
    pub fails: Vec<Fail>,
    pub counts: BTreeMap<&'static str, u64>,
    pub faults_armed: BTreeMap<u8, u64>,
    pub faults_fired: BTreeMap<u8, u64>,
    pub digest: u64,
    pub shapes: Vec<u64>,
    pub steps_done: u64,
    pub dead: bool,
    pub max_leaves: u64,
    pub max_depth: u64,
    /// worst share of the simulated-time allowance used by an operation, in percent
    pub max_cost: u64,
}
impl Report {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn addn(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn mixd(&mut self, x: u64) {
        self.digest = mix2(self.digest, x);
    }
    pub fn fail(&mut self, class: Class, step: usize, msg: String) {
        self.mixd(0xFA11 + class as u64);
        if self.fails.len() < 32 {
            self.fails.push(Fail { class, step, msg });
        }
    }
}
