//! C26: parses that are alive at the same time.

use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::{Barrier, Mutex};

use cfg_symbol::Symbol;
use common::{fail, guarded, hash64, CaseResult, Ctx};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;

use crate::drive::*;
use crate::gram::*;
use crate::parse::{max_len, style};
use crate::refr::Earley;
use crate::tables::dump;

/// Something else to do in the middle of a call.
type Inside<'a> = Option<&'a dyn Fn()>;

/// A forest that can be asked, in the end, for what it holds.
trait Probe: Forest + Sized {
    fn finish(self, dg: &DefaultGrammar, node: Option<Self::NodeRef>, inside: Inside<'_>) -> String;
}

/// Writes down what it is told, and does something else inside of some calls.
#[derive(Clone, Default)]
struct Tape<'a> {
    text: Rc<RefCell<(u32, String)>>,
    inside: Inside<'a>,
}
impl Tape<'_> {
    fn put(&self, s: std::fmt::Arguments<'_>) -> u32 {
        if let Some(f) = self.inside {
            f();
        }
        let mut t = self.text.borrow_mut();
        t.0 += 1;
        let id = t.0;
        let _ = write!(t.1, "{}={} ", id, s);
        id
    }
}
impl Forest for Tape<'_> {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.put(format_args!("begin"));
    }
    fn push_summand(&mut self, item: Item<u32>) {
        self.put(format_args!("{}@{}:{}", item.dot, item.origin, item.node));
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> u32 {
        self.put(format_args!("sum {:?}@{}", lhs, origin))
    }
    fn product(&mut self, l: u32, r: u32) -> u32 {
        self.put(format_args!("{}*{}", l, r))
    }
    fn leaf(&mut self, t: Symbol, pos: u32, value: u32) -> u32 {
        self.put(format_args!("leaf {:?} {} {}", t, pos, value))
    }
    fn nulling(&self, t: Symbol) -> u32 {
        u32::MAX - t.usize() as u32
    }
}
impl Probe for Tape<'_> {
    fn finish(self, _: &DefaultGrammar, node: Option<u32>, _: Inside<'_>) -> String {
        format!("{:?} {}", node, std::mem::take(&mut self.text.borrow_mut().1))
    }
}

/// User actions; a value is a digest of the derivation.
struct Digest<'a>(Inside<'a>);
impl Digest<'_> {
    fn inside(&self) {
        if let Some(f) = self.0 {
            f();
        }
    }
}
impl Evaluate for Digest<'_> {
    type Elem = u64;
    fn leaf(&self, t: Symbol, v: u32) -> u64 {
        self.inside();
        hash64(&(1, t.usize(), v))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a u64>) -> u64 {
        let args: Vec<u64> = args.copied().collect();
        self.inside();
        hash64(&(2, action, args))
    }
    fn nulling<'r>(&self, s: Symbol, results: &'r mut Vec<u64>) {
        self.inside();
        results.push(hash64(&(3, s.usize())));
    }
}
macro_rules! bocage {
    ($t:ty) => {
        impl Probe for $t {
            fn finish(mut self, _: &DefaultGrammar, node: Option<NodeHandle>, inside: Inside<'_>) -> String {
                match node {
                    Some(n) => format!("{:?} {:?}", n, self.evaluate(Digest(inside), n)),
                    None => String::new(),
                }
            }
        }
    };
}
bocage!(simple_bocage::Bocage);
bocage!(compact_bocage::Bocage);

#[derive(Clone, Debug)]
enum Op {
    Begin,
    Report,
    Hint(Symbol),
    Scan(Symbol, u32),
    End,
    /// Ends the location with its completions driven by hand, and tells them.
    ByHand,
    Reset,
}

/// A parse that is taken one call at a time.
struct Machine<'o, 'g, F: Probe> {
    dg: &'g DefaultGrammar,
    r: Option<Recognizer<&'g DefaultGrammar, F, DefaultPerfHint>>,
    ops: &'o [Op],
    next: usize,
    dead: bool,
    inside: Inside<'o>,
    out: Vec<String>,
}
impl<'o, 'g, F: Probe> Machine<'o, 'g, F> {
    fn new(dg: &'g DefaultGrammar, forest: F, ops: &'o [Op], inside: Inside<'o>) -> Self {
        let r = Recognizer::with_forest_and_policy(dg, forest, DefaultPerfHint::new(8192));
        Machine { dg, r: Some(r), ops, next: 0, dead: false, inside, out: vec![] }
    }
    fn run(mut self) -> Vec<String> {
        while self.step() {}
        self.out
    }
}
trait Step {
    /// False when there is nothing left to do.
    fn step(&mut self) -> bool;
    fn done(&mut self) -> Vec<String>;
}
impl<F: Probe> Step for Machine<'_, '_, F>
where
    F::NodeRef: std::fmt::Debug,
{
    fn done(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
    fn step(&mut self) -> bool {
        let Some(r) = &mut self.r else { return false };
        let Some(op) = self.ops.get(self.next) else {
            let r = self.r.take().unwrap();
            let node = r.finished_node();
            let text = r.into_forest().finish(self.dg, if self.dead { None } else { node }, self.inside);
            self.out.push(text);
            return false;
        };
        self.next += 1;
        if self.dead && !matches!(op, Op::Reset) {
            return true;
        }
        match op {
            Op::Begin => r.begin_earleme(),
            Op::Report => {
                self.out.push(format!(
                    "{:?} {:?} {:?} {:?}",
                    r.predicted_symbols().collect::<Vec<_>>(),
                    r.medial_items().map(|i| (i.dot, i.origin, i.node)).collect::<Vec<_>>(),
                    r.trace().collect::<Vec<_>>(),
                    r.events().collect::<Vec<_>>(),
                ));
            }
            Op::Hint(s) => r.lookahead().set_hint(*s),
            Op::Scan(s, v) => r.scan(*s, *v),
            Op::End => {
                let ok = r.end_earleme();
                self.out.push(format!("taken: {} {:?} {}", ok, r.finished_node(), r.earleme()));
                self.dead = !ok;
            }
            Op::ByHand => {
                if r.is_exhausted() {
                    self.dead = true;
                } else {
                    while let Some(mut group) = r.next_sum() {
                        let mut s = format!("{:?}@{}:", group.symbol(), group.origin());
                        while let Some(item) = group.next_summand() {
                            let _ = write!(s, " {}", item.dot);
                            group.push_summand(item);
                            if let Some(f) = self.inside {
                                f();
                            }
                        }
                        let n = group.complete_sum();
                        let _ = write!(s, " {:?}", n);
                        self.out.push(s);
                    }
                    r.advance_after_completion();
                }
                self.out.push(format!("taken: {} {:?} {}", !self.dead, r.finished_node(), r.earleme()));
            }
            Op::Reset => {
                r.reset();
                self.dead = false;
            }
        }
        true
    }
}

/// One parse: its grammar, its calls, and its forest.
struct Job<'g> {
    g: &'g G,
    ops: Vec<Op>,
    kind: u8,
}
impl<'g> Job<'g> {
    fn machine<'s>(&'s self, inside: Inside<'s>) -> Box<dyn Step + 's> {
        let dg = &self.g.dg;
        match self.kind {
            0 => Box::new(Machine::new(dg, Tape { inside, ..Default::default() }, &self.ops, inside)),
            1 => Box::new(Machine::new(dg, simple_bocage::Bocage::new(dg), &self.ops, inside)),
            _ => Box::new(Machine::new(dg, compact_bocage::Bocage::new(dg), &self.ops, inside)),
        }
    }
    /// The parse on its own.
    fn alone(&self, inside: Inside<'_>) -> Vec<String> {
        let dg = &self.g.dg;
        match self.kind {
            0 => Machine::new(dg, Tape { inside, ..Default::default() }, &self.ops, inside).run(),
            1 => Machine::new(dg, simple_bocage::Bocage::new(dg), &self.ops, inside).run(),
            _ => Machine::new(dg, compact_bocage::Bocage::new(dg), &self.ops, inside).run(),
        }
    }
    fn show(&self) -> String {
        format!("{} with {}: {:?}", self.g.gr.show(), ["a tape", "the simple bocage", "the compact bocage"][self.kind as usize], self.ops)
    }
}

fn first_difference(want: &[String], got: &[String]) -> Option<String> {
    let short = |s: Option<&String>| s.map(|s| s.chars().take(400).collect::<String>());
    (0..want.len().max(got.len()))
        .find(|&i| want.get(i) != got.get(i))
        .map(|i| format!("{:?} instead of {:?}", short(got.get(i)), short(want.get(i))))
}

/// Whether a grammar may be used by several threads at once is for the compiler to say.
struct Probed<T>(std::marker::PhantomData<T>);
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for &Probed<T> {}
impl<T: Sync + Send> Probed<T> {
    fn shared(&self) -> bool {
        true
    }
}
struct Assumed<T>(T);
// Only used when the compiler has said that it holds.
unsafe impl<T> Sync for Assumed<T> {}
impl<T> Assumed<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

pub fn c26(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c26");
    let miri = cfg!(miri);
    let n_grammars = rng.range(1, 2);
    let mut gs = vec![];
    for _ in 0..n_grammars {
        let st = style(&mut rng);
        let (gr, name) = random_gr(&mut rng, st);
        ctx.witness = format!("grammar: {}", gr.show());
        if gr.rules.len() > if miri { 8 } else { 60 } {
            return Ok(());
        }
        // Grammars that cannot be compiled are the business of other properties.
        match guarded(|| DefaultGrammar::from_grammar(gr.cfg().0)) {
            Ok(dg) => gs.push(G { an: An::new(&gr), gr, name, dg }),
            Err(_) => return Ok(()),
        }
    }
    let mut jobs = vec![];
    for _ in 0..rng.range(2, if miri { 2 } else { 4 }) {
        let g = rng.pick(&gs);
        let m = if miri { 3 } else { max_len(ctx, &mut rng, 12) };
        let mut ops = vec![];
        let reports = rng.chance(1, 2);
        for part in 0..if rng.chance(1, 6) { 2 } else { 1 } {
            if part > 0 {
                ops.push(Op::Reset);
            }
            let v = input(&mut rng, &g.gr, &g.an, m, true);
            let hints = rng.chance(1, 3);
            for k in 0..=v.len() {
                ops.push(Op::Begin);
                if reports {
                    ops.push(Op::Report);
                }
                if hints && k < v.len() {
                    ops.push(Op::Hint(g.int(v[k])));
                }
                ops.push(match k {
                    0 => Op::Scan(g.dg.sof(), 0),
                    _ => Op::Scan(g.int(v[k - 1]), rng.next() as u32),
                });
                ops.push(if rng.chance(1, 6) { Op::ByHand } else { Op::End });
            }
        }
        let mut kind = rng.below(3) as u8;
        if kind > 0 {
            // Without sharing, values of very ambiguous sentences take too long.
            let mut s = spy_sess(g);
            let (mut small, mut dead) = (true, false);
            for op in &ops {
                match op {
                    Op::Scan(x, v) if !dead => dead = !s.read(&[(*x, *v)], None),
                    Op::Reset => {
                        s.reset();
                        dead = false;
                    }
                    _ => {}
                }
                small &= s.log().summands < 400;
            }
            let (total, _) = s.total();
            if !small || total.sat > 60 {
                kind = 0;
            }
        }
        jobs.push(Job { g, ops, kind });
    }
    let mut solo = vec![];
    for j in &jobs {
        ctx.witness = j.show();
        match guarded(|| j.alone(None)) {
            Ok(o) => solo.push(o),
            Err(_) => {
                ctx.count("parses that panic in any case", 1);
                return Ok(());
            }
        }
    }
    // On its own, each parse takes what it should.
    for (j, o) in jobs.iter().zip(&solo) {
        if j.ops.iter().any(|op| matches!(op, Op::Hint(_))) {
            continue;
        }
        let mut taken = o.iter().filter_map(|l| l.strip_prefix("taken: ")).map(|l| l.starts_with("true"));
        let (mut e, mut fresh, mut dead) = (Earley::new(&j.g.gr, &j.g.an), true, false);
        for op in &j.ops {
            match op {
                Op::Reset => (e, fresh, dead) = (Earley::new(&j.g.gr, &j.g.an), true, false),
                Op::Scan(s, _) if !dead => {
                    let want = std::mem::take(&mut fresh) || j.g.ext(*s).is_some_and(|t| e.read(&[t]));
                    dead = !want;
                    if taken.next() != Some(want) {
                        return fail(format!("after other parses in this process, token {:?} is not {}", s, if want { "taken" } else { "rejected" }), j.show());
                    }
                    ctx.count("tokens judged", 1);
                }
                _ => {}
            }
        }
    }
    let all = jobs.iter().map(|j| j.show()).collect::<Vec<_>>().join("\n");
    ctx.witness = all.clone();
    let judge = |what: &str, k: usize, got: Result<Vec<String>, String>| match got {
        Ok(got) => match first_difference(&solo[k], &got) {
            Some(d) => fail(format!("{}: parse {} gives {}", what, k, d), all.clone()),
            None => Ok(()),
        },
        Err(e) => fail(format!("{}: parse {} panics, which it does not do on its own: {}", what, k, e), all.clone()),
    };
    let text = |e: (String, String)| format!("{} {}", e.0, e.1);

    // One thread, call by call.
    for _ in 0..2 {
        let mut order = vec![];
        let result = guarded(|| {
            let mut ms: Vec<_> = jobs.iter().map(|j| j.machine(None)).collect();
            let mut live: Vec<usize> = (0..ms.len()).collect();
            while !live.is_empty() {
                let i = rng.below(live.len());
                for _ in 0..rng.range(1, 4) {
                    order.push(live[i]);
                    if !ms[live[i]].step() {
                        live.remove(i);
                        break;
                    }
                }
            }
            ms.iter_mut().map(|m| m.done()).collect::<Vec<_>>()
        });
        match result {
            Ok(outs) => {
                for (k, o) in outs.into_iter().enumerate() {
                    judge("call by call", k, Ok(o))?;
                }
            }
            Err(e) => return fail(format!("call by call: panics, which no parse does on its own: {}", text(e)), all),
        }
        let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
        ctx.count("switches between parses", switches as u64);
        ctx.nontrivial(&(&all, order));
    }

    // A parse inside of calls that another one makes.
    for k in 0..jobs.len() {
        let inner = rng.below(jobs.len());
        let calls = Cell::new(0u64);
        let every = rng.range(1, 9) as u64;
        let wrong: RefCell<Option<String>> = RefCell::new(None);
        let runs = Cell::new(0u64);
        let inside = || {
            calls.set(calls.get() + 1);
            if calls.get() % every == 0 && runs.get() < if miri { 2 } else { 12 } && wrong.borrow().is_none() {
                runs.set(runs.get() + 1);
                let got = jobs[inner].alone(None);
                if let Some(d) = first_difference(&solo[inner], &got) {
                    *wrong.borrow_mut() = Some(d);
                }
            }
        };
        let got = guarded(|| jobs[k].alone(Some(&inside))).map_err(text);
        judge("with another parse inside of its calls", k, got)?;
        if let Some(d) = wrong.borrow_mut().take() {
            return fail(format!("inside of the calls of another parse: parse {} gives {}", inner, d), all);
        }
        ctx.count("parses inside of calls of other parses", runs.get());
    }

    // Several threads.
    let shared = (&Probed::<DefaultGrammar>(std::marker::PhantomData)).shared();
    if rng.chance(1, if miri { 1 } else { 4 }) {
        let threads = if miri { 2 } else { 4 };
        let rounds = if miri { 1 } else { 3 };
        let barrier = Barrier::new(threads);
        let outs: Mutex<Vec<(usize, Result<Vec<String>, String>)>> = Mutex::new(vec![]);
        let compiled: Mutex<Vec<(usize, bool)>> = Mutex::new(vec![]);
        let picks: Vec<Vec<usize>> = (0..threads).map(|_| (0..rounds).map(|_| rng.below(jobs.len())).collect()).collect();
        let compile: Vec<bool> = (0..threads).map(|_| rng.chance(1, 2)).collect();
        if shared {
            let jobs = Assumed(&jobs);
            let gs = Assumed(&gs);
            std::thread::scope(|scope| {
                for t in 0..threads {
                    let (jobs, gs, barrier, outs, compiled, picks, compile) = (&jobs, &gs, &barrier, &outs, &compiled, &picks, &compile);
                    scope.spawn(move || {
                        let jobs = jobs.get();
                        let gs = gs.get();
                        barrier.wait();
                        if compile[t] && !cfg!(miri) {
                            let k = t % gs.len();
                            let same = guarded(|| {
                                let dg = DefaultGrammar::from_grammar(gs[k].gr.cfg().0);
                                dump::<DefaultGrammar>(&dg, gs[k].gr.nsyms) == dump::<DefaultGrammar>(&gs[k].dg, gs[k].gr.nsyms)
                            });
                            compiled.lock().unwrap().push((k, same == Ok(true)));
                        }
                        for &k in &picks[t] {
                            let got = guarded(|| jobs[k].alone(None)).map_err(|e| format!("{} {}", e.0, e.1));
                            outs.lock().unwrap().push((k, got));
                        }
                    });
                }
            });
            for (k, got) in outs.into_inner().unwrap() {
                judge("with other threads", k, got)?;
                ctx.count("parses in threads", 1);
            }
            for (k, same) in compiled.into_inner().unwrap() {
                if !same {
                    return fail(format!("with other threads: grammar {} is compiled to something else", k), all);
                }
                ctx.count("grammars compiled in threads", 1);
            }
        }
    }
    ctx.sample(|| all.clone());
    Ok(())
}
