//! Many runs: worker processes, watchdog, minimisation, evidence.
use crate::exec;
use crate::gen::{self, decides, generate, run_seed};
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const BITS: usize = 1 << 24;
const HANG_S: u64 = 40;

/// A run is non-trivial when it did something worth interleaving.
fn nontrivial(s: &Script, r: &Report) -> bool {
    let switches = s.steps.windows(2).filter(|w| w[0].client != w[1].client).count();
    let fired: u64 = r.faults_fired.values().sum();
    let declined = r.counts.get("declined_merges").copied().unwrap_or(0)
        + r.counts.get("declined_absorptions").copied().unwrap_or(0);
    r.steps_done >= 10 && r.max_leaves >= 5 && (switches > 0 || fired > 0 || declined > 0)
}

#[allow(clippy::too_many_arguments)]
pub fn worker(prop: &str, thorough: bool, base: u64, lane: u64, lanes: u64, total: u64, deadline: u64, dir: &str) {
    let t0 = Instant::now();
    let mut prog = std::fs::File::create(format!("{}/progress.{}", dir, lane)).unwrap();
    let mut out: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *out.entry(k.to_string()).or_insert(0) += n;
        }
    };
    let mut digests: Vec<u8> = vec![];
    let mut bits = vec![0u8; BITS / 8];
    let mut foreign: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut worst = (0u64, 0u64, 0u64);
    let mut slowest = (0u64, 0u64);
    let mut sample = None;
    let mut found = None;
    let mut idx = lane;
    while idx < total {
        if deadline > 0 && t0.elapsed().as_secs() >= deadline {
            add("capped", 1);
            break;
        }
        let _ = prog.seek(SeekFrom::Start(0));
        let _ = prog.write_all(format!("{:020}\n", idx).as_bytes());
        let s = generate(prop, run_seed(base, prop, idx), thorough);
        let t1 = Instant::now();
        let r = exec::run(&s, &|c| decides(prop, c));
        let ms = t1.elapsed().as_millis() as u64;
        if ms > slowest.0 {
            slowest = (ms, idx);
        }
        let ticks = exec::ticks();
        add("runs", 1);
        add("ticks", ticks);
        add("steps", r.steps_done);
        for (k, v) in &r.counts {
            add(&format!("op:{}", k), *v);
        }
        for (k, v) in &r.faults_armed {
            add(&format!("armed:{}", k), *v);
        }
        for (k, v) in &r.faults_fired {
            add(&format!("fired:{}", k), *v);
        }
        add(
            "switches",
            s.steps.windows(2).filter(|w| w[0].client != w[1].client).count() as u64,
        );
        add(&format!("kind:{:?}", s.cfg.kind), 1);
        if r.max_leaves > worst.0 {
            worst.0 = r.max_leaves;
        }
        worst.2 = worst.2.max(r.max_cost);
        if r.max_depth > worst.1 {
            worst.1 = r.max_depth;
        }
        if nontrivial(&s, &r) {
            digests.extend_from_slice(&r.digest.to_le_bytes());
            if sample.is_none() && s.steps.len() <= 60 {
                sample = Some((idx, s.clone()));
            }
        }
        add("observed_states", r.shapes.len() as u64);
        for x in &r.shapes {
            let b = (*x as usize) % BITS;
            bits[b / 8] |= 1 << (b % 8);
        }
        if let Some(f) = exec::first_fail(prop, &r) {
            found = Some((idx, f));
            break;
        }
        for f in &r.fails {
            let e = foreign
                .entry(f.class.name())
                .or_insert((0, idx, f.msg.clone()));
            e.0 += 1;
        }
        if idx / lanes % 64 == 0 {
            let r2 = exec::run(&s, &|c| decides(prop, c));
            add("executed_twice", 1);
            if r2.digest != r.digest {
                add("not_repeatable", 1);
            }
        }
        idx += lanes;
    }
    let mut t = String::new();
    for (k, v) in &out {
        t.push_str(&format!("n {} {}\n", k, v));
    }
    t.push_str(&format!("max_leaves {}\nmax_depth {}\nmax_cost {}\n", worst.0, worst.1, worst.2));
    t.push_str(&format!("slowest {} {}\n", slowest.0, slowest.1));
    for (k, (n, i, m)) in &foreign {
        t.push_str(&format!("foreign {} {} {} {}\n", k, n, i, m.replace('\n', " ")));
    }
    if let Some((i, _)) = &sample {
        t.push_str(&format!("sample {}\n", i));
    }
    if let Some((i, f)) = &found {
        t.push_str(&format!(
            "found {} {} {} {}\n",
            i,
            f.class.name(),
            f.step,
            f.msg.replace('\n', " ")
        ));
    }
    let _ = std::fs::write(format!("{}/digests.{}", dir, lane), &digests);
    let _ = std::fs::write(format!("{}/bits.{}", dir, lane), &bits);
    // last: its presence says the worker finished
    let _ = std::fs::write(format!("{}/stats.{}.tmp", dir, lane), &t);
    let _ = std::fs::rename(
        format!("{}/stats.{}.tmp", dir, lane),
        format!("{}/stats.{}", dir, lane),
    );
}

pub fn survey(prop: &str, base: u64, n: u64, thorough: bool) {
    let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for idx in 0..n {
        let s = generate(prop, run_seed(base, prop, idx), thorough);
        let r = exec::run(&s, &|_| false);
        if let Some(f) = r.fails.first() {
            let key: String = f.msg.chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
            let e = seen
                .entry(format!("{} {}", f.class.name(), key))
                .or_insert((0, idx, f.msg.clone()));
            e.0 += 1;
        }
    }
    let mut v: Vec<_> = seen.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (n, i, m)) in v {
        println!("{:6} idx={} {}\n         {}", n, i, k, m);
    }
}

fn spawn(bin: &str, args: &[String], mem_kb: u64) -> std::io::Result<Child> {
    let mut c = Command::new("bash");
    c.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"", mem_kb))
        .arg(bin)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .process_group(0);
    c.spawn()
}

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn wait(mut c: Child, limit: Duration) -> End {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(x) => End::Code(x),
                    None => End::Signal(st.signal().unwrap_or(0)),
                }
            }
            Ok(None) => {}
            Err(_) => return End::Code(99),
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// What a fresh process makes of a script.
fn judge(bin: &str, file: &str, limit: u64) -> (Option<Class>, String) {
    let out = format!("{}.out", file);
    let sh = format!("ulimit -c 0; ulimit -v 6000000; exec \"$0\" exec \"$1\" > \"$1.out\" 2>\"$1.err\"");
    let c = Command::new("bash")
        .arg("-c")
        .arg(sh)
        .arg(bin)
        .arg(file)
        .stdin(Stdio::null())
        .process_group(0)
        .spawn();
    let Ok(c) = c else {
        return (None, "cannot start".into());
    };
    let end = wait(c, Duration::from_secs(limit));
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let err = std::fs::read_to_string(format!("{}.err", file)).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(format!("{}.err", file));
    match end {
        End::Code(0) => (None, text),
        End::Code(1) => {
            let c = text
                .lines()
                .find(|l| l.starts_with("FAIL "))
                .and_then(|l| l.split("class=").nth(1))
                .and_then(|l| l.split(' ').next())
                .and_then(Class::parse);
            (c, text)
        }
        End::Code(2) => (None, text),
        End::Code(x) => (Some(Class::Abort), format!("exit status {} {}", x, err)),
        End::Signal(x) => (Some(Class::Abort), format!("killed by signal {} {}", x, err)),
        End::Timeout => (Some(Class::Hang), format!("still running after {} s", limit)),
    }
}

/// Minimise by running candidates in fresh processes (hangs and aborts).
fn shrink_outside(bin: &str, s: &Script, class: Class, dir: &str, budget: u64) -> Script {
    let t0 = Instant::now();
    let mut best = s.clone();
    let file = format!("{}/cand.txt", dir);
    let limit = if class == Class::Hang { 5 } else { 20 };
    let mut chunk = (best.steps.len() / 2).max(1);
    while t0.elapsed().as_secs() < budget {
        let mut at = 0;
        while at < best.steps.len() && t0.elapsed().as_secs() < budget {
            let end = (at + chunk).min(best.steps.len());
            let mut c = best.clone();
            c.steps.drain(at..end);
            let _ = std::fs::write(&file, c.write());
            if judge(bin, &file, limit).0 == Some(class) {
                best = c;
            } else {
                at += chunk;
            }
        }
        if chunk == 1 {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    best
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push(' '),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Plan {
    runs: u64,
    cap_s: u64,
}
fn plan(prop: &str, thorough: bool) -> Plan {
    let scale: f64 = std::env::var("GBSIM_SCALE")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(1.0);
    let q = match prop {
        "C06" => 240_000,
        "C07" => 320_000,
        "C04" | "C12" => 170_000,
        "C14" => 48_000,
        _ => 100_000,
    };
    let n = if thorough { q * 40 } else { q };
    Plan {
        runs: ((n as f64 * scale) as u64).max(64),
        cap_s: if thorough { 800 } else { 200 },
    }
}

struct Known {
    line: String,
    prop: String,
    class: String,
    pattern: String,
}
/// `known: property=C01 class=PANIC match=<text in the message> | <what fails>`
fn known_findings() -> Vec<Known> {
    let p = std::env::var("GBSIM_KNOWN").unwrap_or_else(|_| "known_findings.txt".into());
    let t = std::fs::read_to_string(p).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: ")?;
            let (head, what) = r.split_once(" | ")?;
            let (h, pat) = head.split_once(" match=")?;
            let f = |k: &str| {
                h.split_whitespace()
                    .find_map(|t| t.strip_prefix(k).map(|x| x.to_string()))
            };
            Some(Known {
                line: what.to_string(),
                prop: f("property=")?,
                class: f("class=")?,
                pattern: pat.to_string(),
            })
        })
        .collect()
}

pub fn check(prop: &str, thorough: bool, seed: u64, plain: &str, hooked: &str, outdir: &str, evidence: &str) -> i32 {
    if !gen::PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let dir = format!("{}/work.{}.{}", outdir, prop, std::process::id());
    let replays = format!("{}/replays", outdir);
    if std::fs::create_dir_all(&dir).is_err() || std::fs::create_dir_all(&replays).is_err() {
        eprintln!("cannot create {}", dir);
        return 2;
    }
    let pl = plan(prop, thorough);
    let lanes = 8u64;
    let bins: Vec<&str> = (0..lanes)
        .map(|l| if hooked == "-" || l >= 6 { plain } else { hooked })
        .collect();
    let mem_kb = 3_500_000;
    let mut kids: Vec<Option<Child>> = vec![];
    for l in 0..lanes {
        let args: Vec<String> = vec![
            "worker".into(),
            prop.into(),
            (thorough as u8).to_string(),
            seed.to_string(),
            l.to_string(),
            lanes.to_string(),
            pl.runs.to_string(),
            pl.cap_s.to_string(),
            dir.clone(),
        ];
        match spawn(bins[l as usize], &args, mem_kb) {
            Ok(c) => kids.push(Some(c)),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 2;
            }
        }
    }
    // wait, watching for stalls, deaths and finds
    let mut last: Vec<(String, Instant)> = vec![(String::new(), Instant::now()); lanes as usize];
    // (lane, run, class, message)
    let mut suspects: Vec<(u64, u64, Class, String)> = vec![];
    let mut stop_all = false;
    let rd = |l: u64| std::fs::read_to_string(format!("{}/progress.{}", dir, l)).unwrap_or_default();
    loop {
        let mut alive = 0;
        for l in 0..lanes {
            let Some(c) = kids[l as usize].as_mut() else {
                continue;
            };
            match c.try_wait() {
                Ok(Some(st)) => {
                    kids[l as usize] = None;
                    let stats = std::fs::read_to_string(format!("{}/stats.{}", dir, l));
                    match stats {
                        Ok(t) => {
                            if let Some(f) = t.lines().find(|x| x.starts_with("found ")) {
                                let p: Vec<&str> = f.splitn(5, ' ').collect();
                                if let (Ok(i), Some(c)) = (p[1].parse(), Class::parse(p[2])) {
                                    suspects.push((l, i, c, p.get(4).unwrap_or(&"").to_string()));
                                    stop_all = true;
                                }
                            }
                        }
                        Err(_) => {
                            if let Ok(i) = rd(l).trim().parse::<u64>() {
                                suspects.push((l, i, Class::Abort, format!("{}", st)));
                                stop_all = true;
                            }
                        }
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let p = rd(l);
                    if p != last[l as usize].0 {
                        last[l as usize] = (p, Instant::now());
                    } else if last[l as usize].1.elapsed().as_secs() > HANG_S {
                        let _ = c.kill();
                        let _ = c.wait();
                        kids[l as usize] = None;
                        if let Ok(i) = p.trim().parse::<u64>() {
                            suspects.push((l, i, Class::Hang, format!("still running after {} s", HANG_S)));
                        }
                        stop_all = true;
                    }
                }
                Err(_) => kids[l as usize] = None,
            }
        }
        if alive == 0 {
            break;
        }
        if stop_all {
            // runs are independent, so the others may be cut short; give near
            // finds a moment so that the smallest index wins more often
            std::thread::sleep(Duration::from_millis(200));
            for l in 0..lanes {
                if let Some(c) = kids[l as usize].as_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                    kids[l as usize] = None;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(40));
    }
    let explore_s = t0.elapsed().as_secs_f64();

    // collect
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let (mut ml, mut md, mut mc) = (0u64, 0u64, 0u64);
    let mut samples: Vec<u64> = vec![];
    let mut digests: HashSet<u64> = HashSet::new();
    let mut bits = vec![0u8; BITS / 8];
    let mut reporting = 0;
    for l in 0..lanes {
        let Ok(t) = std::fs::read_to_string(format!("{}/stats.{}", dir, l)) else {
            continue;
        };
        reporting += 1;
        for line in t.lines() {
            let p: Vec<&str> = line.splitn(5, ' ').collect();
            match p[0] {
                "n" => {
                    if let Some((k, v)) = line[2..].rsplit_once(' ') {
                        *n.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
                "max_leaves" => ml = ml.max(p[1].parse().unwrap_or(0)),
                "max_cost" => mc = mc.max(p[1].parse().unwrap_or(0)),
                "max_depth" => md = md.max(p[1].parse().unwrap_or(0)),
                "sample" => samples.push(p[1].parse().unwrap_or(0)),
                "foreign" => {
                    let e = foreign.entry(p[1].to_string()).or_insert((
                        0,
                        p[3].parse().unwrap_or(0),
                        p.get(4).unwrap_or(&"").to_string(),
                    ));
                    e.0 += p[2].parse::<u64>().unwrap_or(0);
                }
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/digests.{}", dir, l)) {
            for c in b.chunks_exact(8) {
                digests.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(b) = std::fs::read(format!("{}/bits.{}", dir, l)) {
            for (x, y) in bits.iter_mut().zip(b) {
                *x |= y;
            }
        }
    }
    let states: u64 = bits.iter().map(|b| b.count_ones() as u64).sum();

    // confirm, minimise and report
    suspects.sort_by_key(|s| (matches!(s.2, Class::Hang | Class::Abort), s.1));
    let known = known_findings();
    let mut printed_known: BTreeSet<String> = BTreeSet::new();
    for k in known.iter().filter(|k| k.prop == prop) {
        if printed_known.insert(k.line.clone()) {
            println!("KNOWN-FINDING: property={} {}", prop, k.line);
        }
    }
    let mut violations = 0;
    let mut unconfirmed: Vec<String> = vec![];
    for (lane, idx, class, msg) in &suspects {
        let bin = bins[*lane as usize];
        let rs = run_seed(seed, prop, *idx);
        let mut s = generate(prop, rs, thorough);
        let flavour = if bin == hooked { "hooked" } else { "plain" };
        let raw = format!("{}/raw.{}.txt", dir, idx);
        let _ = std::fs::write(&raw, s.write());
        let (c, text) = judge(bin, &raw, HANG_S + 20);
        if c != Some(*class) && !c.is_some_and(|c| decides(prop, c)) {
            unconfirmed.push(format!("run {} {} {}", idx, class.name(), msg));
            continue;
        }
        let class = c.unwrap();
        let min = format!("{}/min.{}.txt", dir, idx);
        let full = s.steps.len();
        match class {
            Class::Hang | Class::Abort if !text.contains("FAIL ") => {
                s = shrink_outside(bin, &s, class, &dir, 100);
            }
            _ => {
                let args = vec![
                    "shrink".into(),
                    raw.clone(),
                    min.clone(),
                    class.name(),
                    "40".into(),
                ];
                if let Ok(c) = spawn(bin, &args, 6_000_000) {
                    wait(c, Duration::from_secs(75));
                }
                if let Some(m) = std::fs::read_to_string(&min).ok().and_then(|t| Script::parse(&t)) {
                    let _ = std::fs::write(&min, m.write());
                    if judge(bin, &min, HANG_S).0 == Some(class) {
                        s = m;
                    }
                }
            }
        }
        s.meta.insert("property".into(), prop.into());
        s.meta.insert("flavour".into(), flavour.into());
        s.meta.insert("class".into(), class.name());
        s.meta.insert("base_seed".into(), seed.to_string());
        s.meta.insert("run".into(), idx.to_string());
        s.meta.insert("seed".into(), rs.to_string());
        s.meta.insert("tier".into(), if thorough { "thorough" } else { "quick" }.into());
        s.meta.insert("steps_before_minimising".into(), full.to_string());
        let file = format!("{}/{}-{}-{}.txt", replays, prop, seed, idx);
        let _ = std::fs::write(&file, s.write());
        // reproduce the final file twice, in fresh processes
        let (c1, t1) = judge(bin, &file, HANG_S + 20);
        let (c2, t2) = judge(bin, &file, HANG_S + 20);
        let m = t1
            .lines()
            .find(|l| l.starts_with("FAIL "))
            .unwrap_or(t1.lines().next().unwrap_or(msg))
            .to_string();
        if let Some(d) = t1.split("digest=").nth(1).and_then(|x| x.split(' ').next()) {
            s.meta.insert("digest".into(), d.to_string());
        }
        s.meta.insert("observed".into(), m.clone());
        s.meta.insert(
            "reproduced".into(),
            if c1 == c2 && t1 == t2 { "exactly, twice, in fresh processes" } else { "same failure, trace differs" }.into(),
        );
        let _ = std::fs::write(&file, s.write());
        if let Some(k) = known
            .iter()
            .find(|k| k.prop == prop && k.class == class.name() && m.contains(&k.pattern))
        {
            println!("known finding met again: {}", k.line);
            continue;
        }
        println!("seed={} run={} build={} steps={} (from {})", rs, idx, flavour, s.steps.len(), full);
        println!("{}", m);
        println!("VIOLATION property={} replay={}", prop, file);
        violations += 1;
        break;
    }

    // evidence
    for k in ["declined_merges", "declined_absorptions"] {
        if let Some(v) = n.remove(&format!("op:{}", k)) {
            n.insert(format!("refused:{}", k), v);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let get = |k: &str| n.get(k).copied().unwrap_or(0);
    let runs = get("runs");
    let group = |p: &str, name: &dyn Fn(&str) -> String| -> String {
        let v: Vec<String> = n
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(p).map(|r| format!("{}:{}", jstr(&name(r)), v)))
            .collect();
        format!("{{{}}}", v.join(","))
    };
    let fname = |r: &str| -> String {
        match r.parse::<u64>() {
            Ok(100) => "holder_lost_and_restarted_from_snapshot".into(),
            Ok(x) => fault_name(x as u8).to_string(),
            _ => r.to_string(),
        }
    };
    let id = |r: &str| r.to_string();
    let mut sm = vec![];
    for i in samples.iter().take(2) {
        let s = generate(prop, run_seed(seed, prop, *i), thorough);
        sm.push(format!(
            "{{\"run\":{},\"seed\":{},\"schedule\":{}}}",
            i,
            run_seed(seed, prop, *i),
            jstr(&s.write())
        ));
    }
    let fo: Vec<String> = foreign
        .iter()
        .map(|(k, (c, i, m))| {
            format!(
                "{{\"class\":{},\"count\":{},\"run\":{},\"first\":{}}}",
                jstr(k),
                c,
                i,
                jstr(m)
            )
        })
        .collect();
    let un: Vec<String> = unconfirmed.iter().map(|s| jstr(s)).collect();
    let stub = match prop {
        "C06" => "stub: keys (comparison is user code that costs simulated time and may crash); real: OrdTreeMap, OrdTreeSet, BTree, iterators",
        "C07" => "stub: editors; real: Rope, gap buffer, LengthFinder, BTree, iterators",
        _ => "stub: element type, summaries, lookup strategies, input sources, drain consumers, update closures (all user code); real: BTree, Drain/Iter, LengthFinder, rle traits' default methods, heapless, thunderdome arenas",
    };
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\
\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\
\"planned_runs\":{},\"capped_by_time\":{},\"runs_per_hour\":{},\"seeds_per_hour\":{},\
\"simulated_time_ticks\":{},\"simulated_time_unit\":\"one tick is one call of the tree into user code (lookup step, summary computation, merge test, comparison, closure, source item)\",\
\"operations\":{},\"client_switches\":{},\"operation_counts\":{},\"refusals_injected\":{},\"faults_armed\":{},\"faults_fired\":{},\"kinds\":{},\
\"states_observed\":{},\"distinct_states_at_least\":{},\"state_measure\":{},\"max_elements\":{},\"max_depth\":{},\"worst_share_of_time_allowance_percent\":{},\
\"executed_twice\":{},\"not_repeatable\":{},\"workers\":{},\"workers_hooked\":{},\
\"components\":{},\"other_properties_failures\":[{}],\"unconfirmed\":[{}]}},\
\"assumptions\":[\"single-threaded callers take turns (every edit needs exclusive access), so an interleaving is an order of whole operations and of crash points inside them\",\"keyed hash order is simulated in the hooked builds only; the plain builds use the shipped order\",\"sampling, not enumeration\"],\
\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(prop),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        runs,
        digests.len(),
        jstr("one case is one simulated run generated from one seed; non-trivial: at least 10 operations completed, a structure of at least 5 elements was reached, and clients switched or a fault fired or a merge was declined; distinct: by hash of the whole event log (contents and shape after every operation)"),
        sm.join(","),
        pl.runs,
        (get("capped") > 0) as u8,
        (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
        (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
        get("ticks"),
        get("steps"),
        get("switches"),
        group("op:", &id),
        group("refused:", &id),
        group("armed:", &fname),
        group("fired:", &fname),
        group("kind:", &id),
        get("observed_states"),
        states,
        jstr(match prop {
            "C06" => "hash of the sorted key set, 24-bit bitmap",
            "C07" => "hash of the text, 24-bit bitmap",
            _ => "hash of the tree shape (children per node in order) and node count, 24-bit bitmap",
        }),
        ml,
        md,
        mc,
        get("executed_twice"),
        get("not_repeatable"),
        reporting,
        bins.iter().filter(|b| **b == hooked).count(),
        jstr(stub),
        fo.join(","),
        un.join(","),
        wall,
        violations
    );
    if let Err(e) = std::fs::write(evidence, ev) {
        eprintln!("cannot write {}: {}", evidence, e);
        return 2;
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} operations, {} faults fired, {:.1} s, {} violation(s)",
        prop,
        if thorough { "thorough" } else { "quick" },
        runs,
        digests.len(),
        get("steps"),
        n.iter()
            .filter(|(k, _)| k.starts_with("fired:"))
            .map(|x| x.1)
            .sum::<u64>(),
        wall,
        violations
    );
    if violations > 0 {
        return 1;
    }
    for u in &unconfirmed {
        println!("not reproduced in a fresh process, not reported: {}", u);
    }
    if runs == 0 || (reporting < lanes && suspects.is_empty()) {
        eprintln!("workers did not report");
        return 2;
    }
    0
}
