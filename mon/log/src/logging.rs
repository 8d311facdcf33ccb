//! C25: logging. The recognizer and the helpers are compiled twice, without and with their `log` feature, and run side by side.

use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

use cfg_symbol::Symbol;
use common::{fail, guarded, CaseResult, Ctx};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_grammar::Grammar;

use crate::drive::G;
use crate::gram::*;
use crate::helpers::answer;
use crate::parse::{max_len, style};
use crate::tables::dump;

/// A logger that takes every record and writes it out, to nowhere.
struct Sink;
static RECORDS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, record: &log::Record<'_>) {
        struct Length(u64);
        impl std::fmt::Write for Length {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len() as u64;
                Ok(())
            }
        }
        let mut l = Length(0);
        let _ = write!(l, "{} {}", record.target(), record.args());
        RECORDS.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(l.0, Ordering::Relaxed);
    }
    fn flush(&self) {}
}

fn loud<T>(level: log::LevelFilter, f: impl FnOnce() -> T) -> Result<T, String> {
    let _ = log::set_logger(&Sink);
    log::set_max_level(level);
    let r = guarded(f).map_err(|e| format!("{} {}", e.0, e.1));
    log::set_max_level(log::LevelFilter::Off);
    r
}

/// A forest that writes down what it is told.
#[derive(Clone, Default)]
struct Tape(Rc<RefCell<(u32, String)>>);
impl Tape {
    fn put(&self, s: std::fmt::Arguments<'_>) -> u32 {
        let mut t = self.0.borrow_mut();
        t.0 += 1;
        let id = t.0;
        let _ = write!(t.1, "{}={} ", id, s);
        id
    }
}
impl Forest for Tape {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.put(format_args!("begin"));
    }
    fn push_summand(&mut self, item: Item<u32>) {
        self.put(format_args!("{}@{}:{}", item.dot, item.origin, item.node));
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> u32 {
        self.put(format_args!("sum {:?}@{}", lhs, origin))
    }
    fn product(&mut self, l: u32, r: u32) -> u32 {
        self.put(format_args!("{}*{}", l, r))
    }
    fn leaf(&mut self, t: Symbol, pos: u32, value: u32) -> u32 {
        self.put(format_args!("leaf {:?} {} {}", t, pos, value))
    }
    fn nulling(&self, t: Symbol) -> u32 {
        u32::MAX - t.usize() as u32
    }
}

/// What is done at one location.
#[derive(Clone, Debug)]
pub struct Step {
    tokens: Vec<(Symbol, u32)>,
    hint: Option<Symbol>,
    report: bool,
    show: bool,
    /// Completions are driven by hand; a bit for each item tells whether it is kept.
    by_hand: Option<u64>,
    reset: bool,
}

macro_rules! transcript {
    ($name:ident, $recognizer:ident) => {
        fn $name(dg: &DefaultGrammar, steps: &[Step]) -> Vec<String> {
            use $recognizer::{lookahead::Lookahead, perf_hint::DefaultPerfHint, Recognizer};
            let tape = Tape::default();
            let mut r = Recognizer::with_forest_and_policy(dg, tape.clone(), DefaultPerfHint::new(8192));
            let mut out = vec![];
            let mut fresh = true;
            let mut dead = false;
            for s in steps {
                if s.reset {
                    r.reset();
                    (fresh, dead) = (true, false);
                }
                if s.show {
                    out.push(format!("{:?}", r));
                }
                if dead {
                    // The location is open still, and takes nothing any more, or something else.
                    out.push(format!("dead: {:?} {} {}", r.finished_node(), r.is_exhausted(), r.earleme()));
                }
                if fresh {
                    r.begin_earleme();
                    if let Some(h) = s.hint {
                        r.lookahead().set_hint(h);
                    }
                    r.scan(dg.sof(), 0);
                    dead = !r.end_earleme();
                    out.push(format!("{} {:?}", dead, r.finished_node()));
                    fresh = false;
                }
                if !dead {
                    r.begin_earleme();
                }
                if s.report {
                    out.push(format!(
                        "{:?} {:?} {:?} {:?} {:?}",
                        r.predicted_symbols().collect::<Vec<_>>(),
                        r.medial_items().map(|i| (i.dot, i.origin, i.node)).collect::<Vec<_>>(),
                        r.trace().collect::<Vec<_>>(),
                        r.events().collect::<Vec<_>>(),
                        r.expected_terminals().collect::<Vec<_>>()
                    ));
                }
                if let Some(h) = s.hint {
                    r.lookahead().set_hint(h);
                }
                for &(t, v) in &s.tokens {
                    r.scan(t, v);
                }
                dead = match s.by_hand {
                    Some(mut kept) if !r.is_exhausted() => {
                        while let Some(mut group) = r.next_sum() {
                            let mut any = false;
                            out.push(format!("group {:?} {}", group.symbol(), group.origin()));
                            while let Some(item) = group.next_summand() {
                                if kept & 1 == 1 {
                                    group.push_summand(item);
                                    any = true;
                                }
                                kept = kept.rotate_right(1);
                            }
                            if any {
                                out.push(format!("{}", group.complete_sum()));
                            }
                        }
                        r.advance_after_completion();
                        false
                    }
                    _ => !r.end_earleme(),
                };
                out.push(format!("{} {:?} {} {}", dead, r.finished_node(), r.is_exhausted(), r.earleme()));
                if s.show {
                    out.push(format!("{:?}", r));
                }
            }
            drop(r);
            let t = std::mem::take(&mut tape.0.borrow_mut().1);
            out.push(t);
            out
        }
    };
}
transcript!(plain, gearley_recognizer);
transcript!(logged, gearley_recognizer_log);

macro_rules! helpers {
    ($name:ident, $recognizer:ident, $utils:ident) => {
        fn $name(g: &G, toks: &[Symbol], words: &[String]) -> Vec<String> {
            use $recognizer::Recognizer;
            use $utils::RecognizerParseExt;
            let tape = Tape::default();
            let mut r = Recognizer::with_forest(&g.dg, tape.clone());
            let a = answer(r.parse(toks));
            let b = answer($utils::parse_terminal_list(g.gr.cfg().0, g.dg.clone(), words.iter().map(|s| &s[..])));
            let t = std::mem::take(&mut tape.0.borrow_mut().1);
            let mut r = Recognizer::new(&g.dg);
            let c = answer(r.parse(toks));
            vec![format!("{:?} {:?} {:?}", a, b, c), t]
        }
    };
}
helpers!(plain_helpers, gearley_recognizer, gearley_utils);
helpers!(logged_helpers, gearley_recognizer_log, gearley_utils_log);

fn compare(what: &str, want: &[String], got: Result<Vec<String>, String>, witness: &str) -> CaseResult {
    let got = match got {
        Ok(got) => got,
        Err(e) => return fail(format!("{}: panics, which it does not do without logging: {}", what, e), witness),
    };
    let short = |s: Option<&String>| s.map(|s| s.chars().take(400).collect::<String>());
    match (0..want.len().max(got.len())).find(|&i| want.get(i) != got.get(i)) {
        Some(i) => fail(format!("{}: {:?} instead of {:?}", what, short(got.get(i)), short(want.get(i))), witness),
        None => Ok(()),
    }
}

pub fn c25(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c25");
    let st = style(&mut rng);
    let (gr, name) = random_gr(&mut rng, st);
    ctx.witness = format!("grammar: {}", gr.show());
    // Compiling, without and with a logger.
    let want = guarded(|| DefaultGrammar::from_grammar(gr.cfg().0));
    let g = match want {
        Ok(dg) => G { an: An::new(&gr), gr, name, dg },
        // Grammars that cannot be compiled are the business of other properties.
        Err(_) => return Ok(()),
    };
    let before = RECORDS.load(Ordering::Relaxed);
    if g.gr.rules.len() < 60 {
        let w = format!("grammar: {}", g.gr.show());
        match loud(log::LevelFilter::Trace, || DefaultGrammar::from_grammar(g.gr.cfg().0)) {
            Err(e) => return fail(format!("compiling the grammar panics, which it does not do without logging: {}", e), w),
            Ok(dg) => {
                if dump::<DefaultGrammar>(&dg, g.gr.nsyms) != dump::<DefaultGrammar>(&g.dg, g.gr.nsyms) {
                    return fail("the compiled grammar is another one with logging", w);
                }
                ctx.count("grammars compiled with logging", 1);
            }
        }
    }
    ctx.count("records of compiling", RECORDS.load(Ordering::Relaxed) - before);
    for _ in 0..4 {
        let m = max_len(ctx, &mut rng, 14);
        let v = input(&mut rng, &g.gr, &g.an, m, true);
        let terms = g.an.terms();
        let mut steps: Vec<Step> = vec![];
        let truthful = rng.chance(1, 2);
        let reports = rng.chance(2, 3);
        for (k, &t) in v.iter().enumerate() {
            let mut tokens = vec![(g.int(t), rng.next() as u32)];
            while rng.chance(1, 8) {
                tokens.push((g.int(*rng.pick(&terms)), rng.below(1000) as u32));
            }
            rng.shuffle(&mut tokens);
            let hint = match rng.below(8) {
                0 => Some(g.int(*rng.pick(&terms))),
                1..=4 if truthful => v.get(k + 1).map(|&t| g.int(t)),
                _ => None,
            };
            let by_hand = match rng.below(8) {
                0 => Some(u64::MAX),
                1 => Some(rng.next() | rng.next()),
                _ => None,
            };
            steps.push(Step { tokens, hint, report: reports, show: rng.chance(1, 6), by_hand, reset: rng.chance(1, 20) });
        }
        let witness = format!("{}\nsteps: {:?}", g.show(&v), steps);
        ctx.witness = witness.clone();
        let want = match guarded(|| plain(&g.dg, &steps)) {
            Ok(w) => w,
            Err(_) => {
                ctx.count("sequences of calls that panic in any case", 1);
                continue;
            }
        };
        let before = RECORDS.load(Ordering::Relaxed);
        for level in [log::LevelFilter::Trace, log::LevelFilter::Off] {
            let got = loud(level, || logged(&g.dg, &steps));
            compare(&format!("with logging at {:?}", level), &want, got, &witness)?;
        }
        let records = RECORDS.load(Ordering::Relaxed) - before;
        ctx.count("records of parsing", records);
        ctx.count("observations compared", 2 * want.len() as u64);
        ctx.count("locations with logging", steps.len() as u64);
        if steps.iter().any(|s| s.reset) {
            ctx.count("sequences with a reset", 1);
        }
        // The helpers.
        let toks: Vec<Symbol> = v.iter().map(|&t| Symbol::from_raw(t as u32)).collect();
        let mut words: Vec<String> = v.iter().map(|&t| g.gr.name(t, &g.an)).collect();
        if rng.chance(1, 6) {
            words.push("unknown".into());
        }
        let Ok(want) = guarded(|| plain_helpers(&g, &toks, &words)) else { continue };
        let before = RECORDS.load(Ordering::Relaxed);
        for level in [log::LevelFilter::Trace, log::LevelFilter::Off] {
            let got = loud(level, || logged_helpers(&g, &toks, &words));
            compare(&format!("helpers, with logging at {:?}", level), &want, got, &witness)?;
        }
        ctx.count("calls of helpers compared", 6);
        ctx.count("records of helpers", RECORDS.load(Ordering::Relaxed) - before);
        if v.len() > 1 && records > 0 {
            ctx.nontrivial(&(&g.gr, &v));
            ctx.sample(|| witness.clone());
        }
    }
    Ok(())
}
