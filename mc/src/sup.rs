// Supervisor: exhaustive enumeration of cases, sharded over worker processes.
//
// A property supplies a deterministic generator (every case of a bounded space,
// in a fixed order) and a `run` function that executes one case against the
// real implementation and compares it with the reference model.  Workers run in
// their own processes so that a panic, a hang, a stack overflow or memory
// exhaustion of the implementation is attributed to one case.  Every violation
// is confirmed in a fresh process before it becomes a verdict.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn parse(s: &str) -> Tier { if s == "thorough" { Tier::Thorough } else { Tier::Quick } }
    pub fn name(&self) -> &'static str { match self { Tier::Quick => "quick", Tier::Thorough => "thorough" } }
    pub fn pick<T>(&self, q: T, t: T) -> T { match self { Tier::Quick => q, Tier::Thorough => t } }
}

pub enum Out {
    /// The implementation agreed with the model. `obs` identifies the observed
    /// outcome, `trivial` marks cases that exercise nothing of the property.
    Ok { obs: u64, trivial: bool },
    /// Disagreement: human readable description.
    Bad(String),
}

/// What the generator knows about the space it enumerated.
#[derive(Default, Clone)]
pub struct GenInfo {
    pub states: u64,
    pub transitions: u64,
    pub notes: Vec<String>,
}

pub type Sink<'a> = dyn FnMut(&[&str]) -> bool + 'a;

pub trait Prop {
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    fn gen(&self, tier: Tier, sink: &mut Sink) -> GenInfo;
    fn run(&mut self, f: &[&str]) -> Out;
    /// Number of implementation/model comparisons made so far (steps).
    fn steps(&self) -> u64;
}

pub fn h64(b: &[u8]) -> u64 {
    // FNV-1a with a final avalanche
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b { h ^= x as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^= h >> 33; h = h.wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 33;
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53); h ^= h >> 33;
    h
}
pub fn hs(s: &str) -> u64 { h64(s.as_bytes()) }
fn hfields(f: &[&str]) -> u64 {
    let mut v = Vec::with_capacity(64);
    for x in f { v.extend_from_slice(x.as_bytes()); v.push(0xff); }
    h64(&v)
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue; }
        match it.next() {
            Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'),
            Some('\\') => o.push('\\'),
            Some('u') => {
                let h: String = (0..4).filter_map(|_| it.next()).collect();
                o.push(std::char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(0x3f)).unwrap_or('?'));
            }
            Some(c) => { o.push('\\'); o.push(c); }
            None => o.push('\\'),
        }
    }
    o
}
pub fn case_line(f: &[&str]) -> String { f.iter().map(|x| esc(x)).collect::<Vec<_>>().join("\t") }
pub fn parse_case(line: &str) -> Vec<String> { line.split('\t').map(unesc).collect() }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" { fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32; }
fn limit_process() {
    unsafe {
        setrlimit(9, &[4u64 << 30, 4u64 << 30]);   // RLIMIT_AS
        setrlimit(4, &[0, 0]);                     // RLIMIT_CORE
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

pub fn run_guarded(p: &mut dyn Prop, f: &[&str]) -> Out {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| p.run(f)));
    match r {
        Ok(o) => o,
        Err(_) => Out::Bad(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// A worker stops enumerating after this long and says so (exhaustive=false).
fn cap_secs(tier: Tier) -> Duration {
    Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 480 } else { 3 * 3600 }))
}

const MAX_BAD_PER_WORKER: usize = 12;

// ---------------------------------------------------------------- worker
/// Prints results to `out`; the index of the case being run goes to `status`.
pub fn worker(p: &mut dyn Prop, tier: Tier, k: u64, n: u64, status: &str, out: &str, upto: u64) {
    limit_process();
    install_hook();
    let stat = fs::File::create(status).unwrap();
    stat.write_at(&0u64.to_le_bytes(), 0).unwrap();
    let known = Known::load(p.id());
    let mut seen: HashSet<u64> = HashSet::new();
    let mut obs: HashSet<u64> = HashSet::new();
    let mut idx = 0u64;
    let (mut cases, mut nontriv, mut dups) = (0u64, 0u64, 0u64);
    let mut bad: Vec<(u64, String, String)> = vec![];
    let mut nbad = 0usize;
    let mut samples: Vec<String> = vec![];
    let mut next_sample = 1u64;
    let mut stopped = false;
    let t0 = Instant::now();
    let cap = cap_secs(tier);
    let prof = std::env::var_os("MC_PROF").is_some() && k == 0;
    let mut last = 0;
    let info;
    {
        let pp: *mut dyn Prop = p;
        // The generator borrows the property immutably, `run` mutably; generators
        // never look at the state `run` changes.
        let g: &dyn Prop = unsafe { &*pp };
        let r: &mut dyn Prop = unsafe { &mut *pp };
        info = g.gen(tier, &mut |f: &[&str]| {
            if stopped { return false; }
            idx += 1;
            if upto != 0 && idx > upto { stopped = true; return false; }
            let h = hfields(f);
            if h % n != k { return true; }
            if !seen.insert(h) { dups += 1; return true; }
            stat.write_at(&idx.to_le_bytes(), 0).unwrap();
            cases += 1;
            if prof && t0.elapsed().as_secs() / 4 > last { last = t0.elapsed().as_secs() / 4; eprintln!("{:4}s case {} {}", t0.elapsed().as_secs(), cases, esc(&case_line(f).chars().take(200).collect::<String>())); }
            if cases % 64 == 0 && upto == 0 && t0.elapsed() > cap { stopped = true; return false; }
            match run_guarded(r, f) {
                Out::Ok { obs: o, trivial } => {
                    if !trivial {
                        nontriv += 1;
                        if obs.len() < 3_000_000 { obs.insert(o); }
                        if nontriv == next_sample && samples.len() < 12 {
                            samples.push(case_line(f));
                            next_sample = next_sample * 5 + 1;
                        }
                    }
                }
                Out::Bad(m) => {
                    let line = case_line(f);
                    if known.has(&line) || bad.iter().any(|b| b.1 == line) {
                        bad.push((idx, line, m));
                    } else {
                        nbad += 1;
                        bad.push((idx, line, m));
                        if nbad >= MAX_BAD_PER_WORKER && upto == 0 { stopped = true; return false; }
                    }
                }
            }
            true
        });
    }
    let mut o = fs::File::create(out).unwrap();
    writeln!(o, "N\tcases\t{}", cases).unwrap();
    writeln!(o, "N\tnontrivial\t{}", nontriv).unwrap();
    writeln!(o, "N\tduplicates\t{}", dups).unwrap();
    writeln!(o, "N\tsteps\t{}", p.steps()).unwrap();
    writeln!(o, "G\tstates\t{}", info.states).unwrap();
    writeln!(o, "G\ttransitions\t{}", info.transitions).unwrap();
    writeln!(o, "G\tgenerated\t{}", idx).unwrap();
    writeln!(o, "G\tstopped\t{}", stopped as u64).unwrap();
    for s in &info.notes { writeln!(o, "I\t{}", esc(s)).unwrap(); }
    for s in &samples { writeln!(o, "S\t{}", esc(s)).unwrap(); }
    for (i, l, m) in &bad { writeln!(o, "B\t{}\t{}\t{}", i, esc(l), esc(m)).unwrap(); }
    let mut raw = Vec::with_capacity(obs.len() * 8);
    for x in &obs { raw.extend_from_slice(&x.to_le_bytes()); }
    fs::write(format!("{}.obs", out), raw).unwrap();
    writeln!(o, "END").unwrap();
}

/// Runs one case; exit status 0 held, 1 violated (description on stdout).
pub fn replay(p: &mut dyn Prop, line: &str) -> i32 {
    limit_process();
    install_hook();
    let f = parse_case(line);
    let fr: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
    match run_guarded(p, &fr) {
        Out::Ok { .. } => { println!("held"); 0 }
        Out::Bad(m) => { println!("{}", m); 1 }
    }
}

// ---------------------------------------------------------------- known findings
struct Known { lines: Vec<(String, String)> }
impl Known {
    fn load(id: &str) -> Known {
        let path = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
        let mut lines = vec![];
        if let Ok(s) = fs::read_to_string(path) {
            for l in s.lines() {
                // KNOWN-FINDING: property=<id> case=<escaped case line> :: <what fails>
                let pre = format!("KNOWN-FINDING: property={} case=", id);
                if let Some(r) = l.strip_prefix(&pre) {
                    let mut it = r.splitn(2, " :: ");
                    let c = unesc(it.next().unwrap_or(""));
                    lines.push((c, it.next().unwrap_or("").to_string()));
                }
            }
        }
        Known { lines }
    }
    fn has(&self, line: &str) -> bool { self.lines.iter().any(|l| l.0 == line) }
}

// ---------------------------------------------------------------- supervisor
struct W { k: u64, child: Child, status: PathBuf, out: PathBuf, last: u64, since: Instant, done: bool }

fn read_idx(p: &Path) -> u64 {
    fs::read(p).ok().filter(|b| b.len() >= 8)
        .map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])).unwrap_or(0)
}

fn case_at(p: &dyn Prop, tier: Tier, want: u64) -> String {
    let mut idx = 0u64;
    let mut res = String::new();
    p.gen(tier, &mut |f: &[&str]| {
        idx += 1;
        if idx == want { res = case_line(f); return false; }
        true
    });
    res
}

enum Conf { Held, Violated(String), Hang, Died(String) }

/// Runs one case in a fresh process.
fn confirm(exe: &Path, id: &str, line: &str, scratch: &Path, hang: Duration) -> Conf {
    let cf = scratch.join("confirm.case");
    fs::write(&cf, line).unwrap();
    let of = scratch.join("confirm.out");
    let mut c = Command::new(exe).args(["replay", id]).arg(&cf)
        .stdout(fs::File::create(&of).unwrap()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let o = fs::read_to_string(&of).unwrap_or_default();
            return match (st.code(), st.signal()) {
                (Some(0), _) => Conf::Held,
                (Some(1), _) => Conf::Violated(o.trim().to_string()),
                (c, s) => Conf::Died(format!("process died (exit {:?}, signal {:?})", c, s)),
            };
        }
        if t.elapsed() > hang { let _ = c.kill(); let _ = c.wait(); return Conf::Hang; }
        std::thread::sleep(Duration::from_millis(2));
    }
}

pub fn supervise(p: &dyn Prop, tier: Tier, seed: i64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let exe = std::env::current_exe().unwrap();
    let n = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8)).clamp(1, 16);
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let hang = Duration::from_secs(std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    let cap = cap_secs(tier) + Duration::from_secs(120);

    let spawn = |k: u64, upto: u64, tag: &str| -> W {
        let status = scratch.join(format!("st{}{}", tag, k));
        let out = scratch.join(format!("out{}{}", tag, k));
        let child = Command::new(&exe)
            .args(["worker", id, tier.name(), &k.to_string(), &n.to_string()])
            .arg(&status).arg(&out).arg(upto.to_string())
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(if std::env::var_os("MC_PROF").is_some() { Stdio::inherit() } else { Stdio::null() }).spawn().unwrap();
        W { k, child, status, out, last: 0, since: Instant::now(), done: false }
    };
    let mut ws: Vec<W> = (0..n).map(|k| spawn(k, 0, "")).collect();
    let mut crashed: Vec<(u64, u64, String)> = vec![];      // (worker, idx, what)
    let mut capped = false;
    loop {
        let mut live = 0;
        for w in ws.iter_mut() {
            if w.done { continue; }
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                if !st.success() {
                    crashed.push((w.k, read_idx(&w.status), format!("died (exit {:?}, signal {:?})", st.code(), st.signal())));
                }
                continue;
            }
            live += 1;
            let i = read_idx(&w.status);
            if i != w.last { w.last = i; w.since = Instant::now(); }
            // index 0 = still generating its first case
            if i != 0 && w.since.elapsed() > hang {
                let _ = w.child.kill(); let _ = w.child.wait();
                w.done = true;
                crashed.push((w.k, i, "made no progress (hang)".into()));
            } else if t0.elapsed() > cap {
                let _ = w.child.kill(); let _ = w.child.wait();
                w.done = true; capped = true;
            }
        }
        if live == 0 { break; }
        std::thread::sleep(Duration::from_millis(5));
    }

    // ---- collect
    let mut num: BTreeMap<String, u64> = BTreeMap::new();
    let mut gen: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut bads: Vec<(u64, u64, String, String)> = vec![];   // (idx, worker, line, msg)
    let mut obs: HashSet<u64> = HashSet::new();
    let mut complete = true;
    for w in &ws {
        let s = fs::read_to_string(&w.out).unwrap_or_default();
        if !s.ends_with("END\n") { complete = false; continue; }
        for l in s.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            match c[0] {
                "N" => *num.entry(c[1].into()).or_insert(0) += c[2].parse::<u64>().unwrap(),
                "G" => { let e = gen.entry(c[1].into()).or_insert(0); *e = (*e).max(c[2].parse().unwrap()); }
                "I" => { let x = unesc(c[1]); if !notes.contains(&x) { notes.push(x); } }
                "S" => samples.push(unesc(c[1])),
                "B" => bads.push((c[1].parse().unwrap(), w.k, unesc(c[2]), unesc(c[3]))),
                _ => {}
            }
        }
        if let Ok(raw) = fs::read(format!("{}.obs", w.out.display())) {
            for ch in raw.chunks_exact(8) { obs.insert(u64::from_le_bytes(ch.try_into().unwrap())); }
        }
    }
    bads.sort();

    // ---- verdicts, each confirmed in a fresh process
    let known = Known::load(id);
    let mut verdicts: Vec<(String, String)> = vec![];      // (replay content, message)
    let mut knowns: Vec<(String, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    for (k, idx, what) in &crashed {
        if *idx == 0 { errors.push(format!("worker {} {} before its first case", k, what)); continue; }
        let line = case_at(p, tier, *idx);
        match confirm(&exe, id, &line, &scratch, hang) {
            Conf::Held => errors.push(format!("worker {} {} at case {} [{}], but the case holds when run alone", k, what, idx, line)),
            Conf::Violated(m) => verdicts.push((line, m)),
            Conf::Hang => verdicts.push((line, format!("no result within {} s", hang.as_secs()))),
            Conf::Died(m) => verdicts.push((line, m)),
        }
    }
    let mut unconfirmed: Vec<(u64, u64, String, String)> = vec![];
    let mut tried = 0;
    for (idx, k, line, msg) in &bads {
        if known.has(line) {
            let what = known.lines.iter().find(|l| l.0 == *line).unwrap().1.clone();
            if !knowns.iter().any(|x| x.0 == *line) { knowns.push((line.clone(), what)); }
            continue;
        }
        if tried >= 8 { continue; }
        tried += 1;
        match confirm(&exe, id, line, &scratch, hang) {
            Conf::Held => unconfirmed.push((*idx, *k, line.clone(), msg.clone())),
            Conf::Violated(m) => verdicts.push((line.clone(), m)),
            Conf::Hang => verdicts.push((line.clone(), format!("no result within {} s", hang.as_secs()))),
            Conf::Died(m) => verdicts.push((line.clone(), m)),
        }
    }
    // A case that fails only after the cases before it (state kept between
    // calls): replay the whole deterministic history of that worker.
    if verdicts.is_empty() {
        if let Some((idx, k, line, msg)) = unconfirmed.first() {
            let mut w = spawn(*k, *idx, "re");
            let _ = w.child.wait();
            let s = fs::read_to_string(&w.out).unwrap_or_default();
            let again = s.lines().any(|l| l.starts_with("B\t") && l.split('\t').nth(2).map(unesc).as_deref() == Some(line));
            if again {
                verdicts.push((format!("!history worker={} of={} tier={} upto={}", k, n, tier.name(), idx),
                    format!("after the {} cases before it, case [{}]: {}", idx, line, msg)));
            } else {
                errors.push(format!("case [{}] failed once ({}) and did not fail again: nondeterminism not captured", line, msg));
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    // ---- evidence
    let exhaustive = complete && !capped && crashed.is_empty() && gen.get("stopped").copied().unwrap_or(1) == 0;
    let g = |m: &BTreeMap<String, u64>, k: &str| m.get(k).copied().unwrap_or(0);
    let states = if g(&gen, "states") > 0 { g(&gen, "states") } else { obs.len() as u64 };
    let transitions = if g(&gen, "transitions") > 0 { g(&gen, "transitions") } else { g(&num, "steps") };
    samples.truncate(24);
    let mut e = String::from("{\n");
    e += &format!(" \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n", js(id), js(tier.name()), seed);
    e += " \"coverage\": {\n";
    e += &format!("  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n", states, transitions, g(&num, "cases"));
    e += &format!("  \"distinct_nontrivial\": {}, \"duplicates_skipped\": {},\n", g(&num, "nontrivial"), g(&num, "duplicates"));
    let (ms, mt) = (g(&gen, "states") > 0, g(&gen, "transitions") > 0);
    if ms { e += &format!("  \"distinct_outcomes\": {},\n", obs.len()); }
    if mt { e += &format!("  \"comparisons\": {},\n", g(&num, "steps")); }
    e += &format!("  \"states_meaning\": {}, \"transitions_meaning\": {},\n",
        js(if ms { "distinct model states reached while generating" } else { "distinct outcomes observed on the implementation and equal to the model's" }),
        js(if mt { "model transitions taken while generating" } else { "implementation calls compared with the model" }));
    e += &format!("  \"exhaustive\": {}, \"capped\": {}, \"workers\": {},\n", exhaustive, capped, n);
    e += &format!("  \"rule\": {},\n", js(p.rule()));
    e += &format!("  \"space\": [{}],\n", notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    e += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n   "));
    e += &format!(" \"assumptions\": [{}],\n", p.assumptions().iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"wall_s\": {:.2}, \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), verdicts.len());
    let ev = verif.join("evidence");
    let _ = fs::create_dir_all(&ev);
    fs::write(ev.join(format!("{}.json", id)), e).unwrap();

    // ---- report
    println!("{} {}: {} cases ({} non-trivial, {} distinct outcomes), states={} transitions={}, exhaustive={}, {:.1}s",
        id, tier.name(), g(&num, "cases"), g(&num, "nontrivial"), obs.len(), states, transitions, exhaustive, t0.elapsed().as_secs_f64());
    for (l, w) in &knowns { println!("KNOWN-FINDING: property={} {} [{}]", id, w, l); }
    if !verdicts.is_empty() {
        let dir = verif.join("evidence").join("replay");
        let _ = fs::create_dir_all(&dir);
        for (i, (line, m)) in verdicts.iter().enumerate() {
            let f = dir.join(format!("{}-{}.case", id, i));
            fs::write(&f, format!("{}\n", line)).unwrap();
            println!("VIOLATION property={} replay={}", id, f.display());
            println!("  case: {}", line);
            println!("  {}", m.replace('\n', "\n  "));
        }
        return 1;
    }
    if !errors.is_empty() || !complete {
        for e in &errors { println!("ERROR: {}", e); }
        if !complete { println!("ERROR: a worker did not finish"); }
        return 2;
    }
    if g(&num, "nontrivial") == 0 { println!("ERROR: vacuous exploration"); return 2; }
    0
}
