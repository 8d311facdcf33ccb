//! Shared machinery of the monitors: random numbers, the case runner, counters and the
//! allocation meter. A worker process runs a range of cases, each under `catch_unwind`, and writes
//! one report file; `check.py` starts the workers, watches them and turns reports into verdicts.

pub mod alloc;
pub mod json;
pub mod rng;

pub use rng::Rng;

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};

use json::quote;

/// A refuted property: what was expected, what was observed, and the case in full.
#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    pub witness: String,
}

pub type CaseResult = Result<(), Fail>;

pub fn fail<T>(what: impl Into<String>, witness: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { what: what.into(), witness: witness.into() })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one worker observed.
pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    findings: Vec<(String, String)>,
    /// Set by a case to describe itself before it drives the code, for use in panic reports.
    pub witness: String,
}

impl Ctx {
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::new(hash64(&(self.seed, self.idx, salt)))
    }
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(key) {
            *v += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }
    pub fn max(&mut self, key: &str, n: u64) {
        if let Some(v) = self.maxima.get_mut(key) {
            *v = (*v).max(n);
        } else {
            self.maxima.insert(key.to_string(), n);
        }
    }
    pub fn counter(&self, key: &str) -> u64 {
        self.counters.get(key).copied().unwrap_or(0)
    }
    /// Records a nontrivial case by the hash of its content.
    pub fn nontrivial<T: Hash>(&mut self, case: &T) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash64(case));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    /// A defect that was seen on the specific input `key`. `check.py` looks the key up in the
    /// committed list of known findings and reports a violation when it is not there.
    pub fn finding(&mut self, key: &str, what: impl Into<String>) {
        self.findings.push((key.to_string(), what.into()));
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // DefaultHasher::new() has fixed keys.
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type CaseFn = fn(&mut Ctx) -> CaseResult;

pub struct Check {
    pub id: &'static str,
    /// Number of cases, by tier.
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn clip(s: &str) -> String {
    const LIMIT: usize = 20_000;
    if s.len() <= LIMIT {
        return s.to_string();
    }
    let mut cut = LIMIT;
    while !s.is_char_boundary(cut) {
        cut -= 1;
    }
    format!("{} ... ({} bytes)", &s[..cut], s.len())
}

/// The payload of a panic by which a monitor inside the code under test's calls reports a violation.
pub struct Violation(pub String);

/// Ends the case in progress as a violation, from within a callback of the code under test.
pub fn violation_panic(what: &str) -> ! {
    panic::panic_any(Violation(what.to_string()))
}

thread_local! {
    static TOO_MUCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Ends the case in progress without a verdict: the correct answer is itself too big to watch.
pub fn too_much() -> ! {
    TOO_MUCH.with(|t| t.set(true));
    panic::panic_any(Violation("too much to watch".into()))
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(v) = p.downcast_ref::<Violation>() {
        v.0.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs a closure and turns a panic into its location and message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let last = LAST_PANIC.with(|l| l.borrow_mut().take());
            let (loc, _) = last.unwrap_or(("?".into(), String::new()));
            let loc = if p.is::<Violation>() { "monitor".to_string() } else { loc };
            Err((loc, payload(&*p)))
        }
    }
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, String::new())));
    }));
}

struct Args {
    id: String,
    tier: Tier,
    seed: u64,
    shard: u64,
    nshards: u64,
    cases: Option<u64>,
    only: Option<u64>,
    start: u64,
    out: String,
    max_seconds: u64,
}

fn parse_args() -> Args {
    let mut a = Args {
        id: String::new(),
        tier: Tier::Quick,
        seed: 1,
        shard: 0,
        nshards: 1,
        cases: None,
        only: None,
        start: 0,
        out: String::new(),
        max_seconds: 600,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match &k[..] {
            "--tier" => a.tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => a.seed = v().parse().expect("seed"),
            "--shard" => a.shard = v().parse().expect("shard"),
            "--nshards" => a.nshards = v().parse().expect("nshards"),
            "--cases" => a.cases = Some(v().parse().expect("cases")),
            "--only" => a.only = Some(v().parse().expect("only")),
            "--start" => a.start = v().parse().expect("start"),
            "--out" => a.out = v(),
            "--max-seconds" => a.max_seconds = v().parse().expect("seconds"),
            _ => a.id = k,
        }
    }
    a
}

/// Is this panic raised by harness code itself (a harness error), rather than by the code under test?
fn is_harness(loc: &str) -> bool {
    // Paths are absolute for path dependencies outside the harness workspace, relative inside it.
    let f = loc.replace('\\', "/");
    f.contains("/mon/") || f.starts_with("src/") || f.starts_with("../common/")
}

pub fn main(checks: &[Check]) {
    install_hook();
    let a = parse_args();
    if a.id == "warmup" {
        return;
    }
    let Some(check) = checks.iter().find(|c| c.id == a.id) else {
        eprintln!("unknown check {:?}", a.id);
        std::process::exit(2);
    };
    let total = a.cases.unwrap_or(match a.tier {
        Tier::Quick => check.quick,
        Tier::Thorough => check.thorough,
    });
    let mut ctx = Ctx {
        tier: a.tier,
        seed: a.seed,
        idx: 0,
        counters: BTreeMap::new(),
        maxima: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        findings: vec![],
        witness: String::new(),
    };
    let state_path = format!("{}.state", a.out);
    let mut state = fs::File::create(&state_path).expect("state file");
    let mut evaluations = 0u64;
    let mut problem: Option<String> = None;
    let mut truncated = false;
    let t0 = std::time::Instant::now();
    let (start, end) = match a.only {
        Some(i) => (i, i + 1),
        None => (a.start, total),
    };
    for idx in start..end {
        if a.only.is_none() && idx % a.nshards != a.shard {
            continue;
        }
        if t0.elapsed().as_secs() > a.max_seconds {
            truncated = true;
            break;
        }
        ctx.idx = idx;
        ctx.witness.clear();
        use std::io::Seek;
        let _ = state.seek(std::io::SeekFrom::Start(0));
        let _ = write!(state, "{:<20}", idx);
        let r = guarded(|| (check.run)(&mut ctx));
        evaluations += 1;
        if TOO_MUCH.with(|t| t.replace(false)) {
            ctx.count("cases given up: too big to watch", 1);
            continue;
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => {
                problem = Some(format!(
                    "{{\"kind\":\"violation\",\"case\":{},\"what\":{},\"witness\":{}}}",
                    idx,
                    quote(&clip(&f.what)),
                    quote(&clip(&f.witness))
                ));
                break;
            }
            Err((loc, msg)) => {
                let kind = if is_harness(&loc) { "harness" } else { "violation" };
                problem = Some(format!(
                    "{{\"kind\":\"{}\",\"case\":{},\"what\":{},\"witness\":{}}}",
                    kind,
                    idx,
                    quote(&clip(&format!("panic at {}: {}", loc, msg))),
                    quote(&clip(&ctx.witness))
                ));
                break;
            }
        }
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{},\"planned\":{},\"truncated\":{},", evaluations, total, truncated));
    let kv = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(",")
    };
    o.push_str(&format!("\"counters\":{{{}}},", kv(&ctx.counters)));
    o.push_str(&format!("\"maxima\":{{{}}},", kv(&ctx.maxima)));
    o.push_str(&format!(
        "\"samples\":[{}],",
        ctx.samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!(
        "\"findings\":[{}],",
        ctx.findings
            .iter()
            .map(|(k, w)| format!("[{},{}]", quote(k), quote(w)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push_str(&format!("\"problem\":{}", problem.as_deref().unwrap_or("null")));
    o.push('}');
    let mut d: Vec<u8> = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in &ctx.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(format!("{}.distinct", a.out), d).expect("distinct file");
    fs::write(&a.out, o).expect("report file");
}
