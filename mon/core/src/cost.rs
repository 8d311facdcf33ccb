//! C20: what a parse costs, in retained sets, bytes, forest events and processor time.

use std::cell::Cell;
use std::rc::Rc;

use cfg_symbol::Symbol;
use common::{alloc, fail, CaseResult, Ctx, Rng, Tier};
use gearley_forest::item::Item;
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;

use crate::drive::*;
use crate::eval::{Act, Bocage};
use crate::gram::*;
use crate::parse::style;

/// Numbers of forest calls.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Calls {
    pub leaves: u64,
    pub products: u64,
    pub summands: u64,
    pub sums: u64,
}

impl Calls {
    fn all(&self) -> u64 {
        self.leaves + self.products + self.summands + self.sums
    }
}

/// A forest that only counts.
#[derive(Clone, Default)]
struct Counter(Rc<Cell<Calls>>);

impl Counter {
    fn add(&self, f: impl FnOnce(&mut Calls)) {
        let mut c = self.0.get();
        f(&mut c);
        self.0.set(c);
    }
}

impl Forest for Counter {
    type NodeRef = ();
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 0;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<()>) {
        self.add(|c| c.summands += 1)
    }
    fn sum(&mut self, _: Symbol, _: u32) {
        self.add(|c| c.sums += 1)
    }
    fn product(&mut self, _: (), _: ()) {
        self.add(|c| c.products += 1)
    }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) {
        self.add(|c| c.leaves += 1)
    }
    fn nulling(&self, _: Symbol) {}
}

/// Nanoseconds of processor time of this thread.
fn cpu() -> Option<u64> {
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        #[repr(C)]
        struct Timespec(i64, i64);
        extern "C" {
            fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
        }
        let mut t = Timespec(0, 0);
        const THREAD_CPUTIME: i32 = 3;
        if unsafe { clock_gettime(THREAD_CPUTIME, &mut t) } == 0 {
            return Some(t.0 as u64 * 1_000_000_000 + t.1 as u64);
        }
    }
    None
}

/// Tokens by letters, for a grammar in the small notation.
struct Letters {
    g: G,
    of: Vec<(char, usize)>,
}

impl Letters {
    fn new(text: &str) -> Letters {
        let mut of: Vec<(char, usize)> = vec![];
        for c in text.chars() {
            if c.is_alphabetic() && !of.iter().any(|x| x.0 == c) {
                of.push((c, of.len()));
            }
        }
        Letters { g: G::new(parse_gr(text), text.to_string()), of }
    }
    fn toks(&self, s: &str) -> Vec<usize> {
        s.chars().map(|c| self.of.iter().find(|x| x.0 == c).unwrap().1).collect()
    }
}

fn repeat(head: &str, cycle: &str, mid: &str, back: &str, tail: &str, n: usize) -> String {
    let mut s = String::from(head);
    for _ in 0..n {
        s.push_str(cycle);
    }
    s.push_str(mid);
    for _ in 0..n {
        s.push_str(back);
    }
    s.push_str(tail);
    s
}

/// Left-recursive lists: grammar, first tokens, tokens of one more element.
const LISTS: &[(&str, &str, &str)] = &[
    ("S=Sa|a", "a", "a"),
    ("S=Ssa|a", "a", "sa"),
    ("S=Sa|", "", "a"),
    ("S=SsL|L;L=bXe;X=a|aa", "bae", "sbaae"),
    ("P=PS|S;S=iwS|bPd|Et;E=EpF|F;F=n|oEc", "nt", "iwopt_"),
    ("P=PS|;S=Et;E=EpT|T;T=TmF|F;F=n|oEc", "", "npnmnt"),
    ("P=PS|;S=Et;E=EpT|T;T=TmF|F;F=n|oEc", "", "nponpnct"),
    ("S=Xa|a;X=S", "a", "a"),
    ("S=Sab|Sac|d", "d", "ab"),
    ("S=SNa|a;N=n|", "a", "na"),
    ("S=Aa|b;A=Sc|d", "b", "ca"),
    ("E=EpE|n", "", ""),
];

fn lists(ctx: &mut Ctx, which: usize) -> CaseResult {
    let (text, first, cycle) = LISTS[which];
    let cycle = cycle.replace("iwopt_", "iwnpnt");
    if cycle.is_empty() {
        return Ok(());
    }
    let l = Letters::new(text);
    let n = if ctx.tier == Tier::Thorough { 400_000 } else { 30_000 };
    let (first, cycle) = (l.toks(first), l.toks(&cycle));
    let total = n / cycle.len();
    for hints in [false, true] {
        let mut s = Sess::with(&l.g, NullForest, DefaultPerfHint::new(8192));
        // The bookkeeping of the session must not count.
        s.posmap = Vec::with_capacity(2 * n + 16);
        s.posmap.push(0);
        let mut next = first.iter().copied().chain(cycle.iter().copied().cycle()).peekable();
        let w = format!("{}: {:?} {:?}...", text, first, cycle);
        ctx.witness = w.clone();
        let h = |t: Option<&usize>| if hints { t.map(|&t| l.g.int(t)) } else { None };
        if !s.sof(h(next.peek())) {
            return fail("the start marker is rejected", w);
        }
        let (mut sets, mut sets_late, mut live_early) = (0, 0, 0);
        let warm = total / 4;
        for e in 0..total {
            let k = if e == 0 { first.len() + cycle.len() } else { cycle.len() };
            for _ in 0..k {
                let t = next.next().unwrap();
                if !s.read(&[(l.g.int(t), 0)], h(next.peek())) {
                    return fail(format!("rejected in element {}", e), w);
                }
                if e < warm {
                    sets = sets.max(s.rec.earleme() + 2);
                } else {
                    sets_late = sets_late.max(s.rec.earleme() + 2);
                }
            }
            if !hints && !s.rec.is_finished() {
                return fail(format!("a list of {} elements is not finished", e + 1), w);
            }
            if e == warm {
                live_early = alloc::live();
                alloc::reset_peak();
            }
        }
        ctx.count("list elements read", total as u64);
        ctx.max("sets retained for a list", sets_late as u64);
        if sets_late > sets {
            return fail(format!("{} sets are retained after {} elements, {} after {}", sets_late, total, sets, warm), w);
        }
        if cfg!(feature = "counting") {
            ctx.count("list memory compared", 1);
            // A few kilobytes come and go.
            let (peak, limit) = (alloc::peak(), live_early + 4096);
            if peak > limit {
                return fail(format!("after {} elements {} bytes were in use, after {} up to {}", warm, live_early, total, peak), w);
            }
        }
        ctx.nontrivial(&(text, hints));
        ctx.sample(|| format!("{}: at most {} sets for {} elements", w, sets_late, total));
    }
    Ok(())
}

/// Deterministic grammars: text, and head, cycle, middle, back cycle, tail of a sentence.
const LINEAR: &[(&str, [&str; 5])] = &[
    ("S=Sa|a", ["a", "a", "", "", ""]),
    ("S=aS|a", ["a", "a", "", "", ""]),
    ("S=aS|", ["", "a", "", "", ""]),
    ("S=asS|a", ["", "as", "a", "", ""]),
    ("S=aSb|ab", ["a", "a", "", "b", "b"]),
    ("S=aSb|", ["", "a", "", "b", ""]),
    ("S=aSbS|", ["", "ab", "", "", ""]),
    ("S=aSbS|", ["", "a", "", "b", ""]),
    ("E=EpT|T;T=TmF|F;F=oEc|n", ["n", "pnmn", "", "", ""]),
    ("E=EpT|T;T=TmF|F;F=oEc|n", ["", "o", "n", "c", ""]),
    ("E=EpT|T;T=TmF|F;F=oEc|n", ["", "npo", "n", "cmn", ""]),
    ("E=EpT|T;T=TmF|F;F=dF|oEc|n", ["", "d", "n", "", ""]),
    ("V=oPc|lAr|n|s;P=M|;M=MkQ|Q;Q=sdV;A=L|;L=LkV|V", ["l", "nk", "s", "", "r"]),
    ("V=oPc|lAr|n|s;P=M|;M=MkQ|Q;Q=sdV;A=L|;L=LkV|V", ["", "l", "", "r", ""]),
    ("V=oPc|lAr|n|s;P=M|;M=MkQ|Q;Q=sdV;A=L|;L=LkV|V", ["", "osd", "n", "ksdnc", ""]),
    ("P=PS|;S=iwS|bPd|Et;E=EpF|F;F=n|oEc", ["", "iwb", "nt", "d", ""]),
    ("S=aA|b;A=cS|d", ["", "ac", "b", "", ""]),
    ("S=xSN|y;N=n|m", ["", "x", "y", "n", ""]),
];

const AMBIGUOUS: &[(&str, [&str; 5])] = &[
    ("S=SS|a", ["a", "a", "", "", ""]),
    ("S=SSS|SS|a", ["a", "a", "", "", ""]),
    ("S=SpS|SmS|n", ["n", "pnmn", "", "", ""]),
    ("S=SS|ab|aSb", ["ab", "ab", "", "", ""]),
    ("S=SS|ab|aSb", ["", "a", "ab", "b", ""]),
    ("S=iS|iSeS|a", ["", "i", "a", "ea", ""]),
    ("S=iS|iSeS|a", ["", "ii", "a", "ea", ""]),
    ("S=AAA;A=Aa|a|", ["", "a", "", "", ""]),
    ("S=ABC|S;A=a", ["", "", "", "", ""]),
    ("S=SAS|a;A=a|", ["a", "a", "", "", ""]),
    ("S=AS|SA|a;A=SS|a", ["a", "a", "", "", ""]),
    ("S=aSa|bSb|a|b|", ["", "a", "", "a", ""]),
];

/// Reads a sentence; the cost in calls, bytes and time.
fn measure(l: &Letters, v: &[usize], hints: bool) -> Option<(Calls, usize, u64)> {
    let c = Counter::default();
    let before = alloc::live();
    alloc::reset_peak();
    let mut s = Sess::with(&l.g, c.clone(), DefaultPerfHint::new(8192));
    s.posmap = Vec::with_capacity(v.len() + 16);
    s.posmap.push(0);
    let eof = l.g.dg.eof();
    let hint = |k: usize| if hints { Some(v.get(k).map_or(eof, |&t| l.g.int(t))) } else { None };
    let t0 = cpu();
    if !s.sof(hint(0)) {
        return None;
    }
    for (k, &t) in v.iter().enumerate() {
        if !s.read(&[(l.g.int(t), 0)], hint(k + 1)) {
            return None;
        }
    }
    let t1 = cpu();
    if !s.rec.is_finished() {
        return None;
    }
    let bytes = alloc::peak().saturating_sub(before);
    Some((c.0.get(), bytes, t1.zip(t0).map_or(0, |(a, b)| a - b)))
}

/// The cost of sentences of growing length must grow no faster than a power of the length.
fn growth(ctx: &mut Ctx, text: &str, parts: &[&str; 5], sizes: &[usize], power: u32, hints: bool) -> CaseResult {
    if parts.iter().all(|p| p.is_empty()) {
        return Ok(());
    }
    let l = Letters::new(text);
    let mut last: Option<(usize, Calls, usize, u64)> = None;
    for &n in sizes {
        let v = l.toks(&repeat(parts[0], parts[1], parts[2], parts[3], parts[4], n));
        let w = format!("{} {:?} repeated {} times{}", text, parts, n, if hints { ", with hints" } else { "" });
        ctx.witness = w.clone();
        let mut best: Option<(Calls, usize, u64)> = None;
        for _ in 0..3 {
            let Some(m) = measure(&l, &v, hints) else { return fail("a sentence is rejected", w) };
            best = Some(match best {
                None => m,
                Some(b) => {
                    if b.0 != m.0 {
                        return fail(format!("two runs cost {:?} and {:?}", b.0, m.0), w);
                    }
                    (m.0, m.1.min(b.1), m.2.min(b.2))
                }
            });
        }
        let (c, b, t) = best.unwrap();
        ctx.count("sentences measured", 1);
        ctx.count("forest calls counted", c.all());
        if let Some((m, pc, pb, pt)) = last {
            let f = (n as f64 / m as f64).powi(power as i32);
            // Lower-order terms make for less growth, constants too.
            if c.all() as f64 > pc.all() as f64 * f * 1.15 + 64.0 {
                return fail(format!("{} times the length makes {:?} out of {:?}", n / m, c, pc), w);
            }
            let f2 = (n as f64 / m as f64).powi(power.min(2) as i32);
            // Vectors double, so at most twice is reserved, and thrice while moving.
            if cfg!(feature = "counting") && b as f64 > pb as f64 * f2 * 3.2 + 65_536.0 {
                return fail(format!("{} times the length makes {} bytes out of {}", n / m, b, pb), w);
            }
            if pt > 2_000_000 {
                ctx.count("times compared", 1);
                ctx.max("time growth over expected, in percent", (t as f64 / (pt as f64 * f) * 100.0) as u64);
                // The time is noisy; one more power of the factor is not noise.
                if t as f64 > pt as f64 * f * (n as f64 / m as f64) * 0.8 {
                    return fail(format!("{} times the length takes {} ns, before {} ns", n / m, t, pt), w);
                }
            }
        }
        last = Some((n, c, b, t));
    }
    let (n, c, b, _) = last.unwrap();
    ctx.nontrivial(&(text, parts, hints));
    ctx.sample(|| format!("{} {:?} x{}: {:?}, {} bytes", text, parts, n, c, b));
    Ok(())
}

/// Random grammars: counts stay below those of Earley's algorithm for binary rules.
fn random_bounds(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    let st = style(rng);
    let gr = random_gr(rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    let dots = g.dg.rhs1().len() as u64 + 1;
    let max = if rng.chance(1, 10) { 60 } else { 20 };
    let v = input(rng, &g.gr, &g.an, max, false);
    let w = g.show(&v);
    ctx.witness = w.clone();
    let c = Counter::default();
    let mut s = Sess::with(&g, c.clone(), DefaultPerfHint::new(8192));
    if !s.sof(None) {
        return Ok(());
    }
    for (k, &t) in v.iter().enumerate() {
        let before = c.0.get();
        if !s.read(&[(g.int(t), 0)], None) {
            break;
        }
        let now = c.0.get();
        let j = s.rec.earleme() as u64 + 2;
        let items = {
            s.open();
            s.rec.medial_items().count() as u64
        };
        let far = s.rec.medial_items().map(|i| i.origin as usize).max().unwrap_or(0);
        // The location that was opened is not retained yet.
        let sets = s.rec.earleme();
        ctx.count("locations bounded", 1);
        ctx.max("medial items of a location, in percent of the bound", items * 100 / (dots * j));
        ctx.max("products of a location, in percent of the bound", (now.products - before.products) * 100 / (dots * j * j));
        ctx.max("sums of a location, in percent of the bound", (now.sums - before.sums) * 100 / (dots * j));
        if items > 2 * dots * j || now.products - before.products > 2 * dots * j * j || now.sums - before.sums > 2 * dots * j {
            return fail(format!("location {} with {} sets and {} dots costs {} medial items, from {:?} to {:?}", k + 1, j, dots, items, before, now), w);
        }
        if far > 0 && sets > far + 1 {
            return fail(format!("location {}: {} sets are retained, although no live item begins past set {}", k + 1, sets, far), w);
        }
        ctx.max("retained sets past the last origin in use", sets.saturating_sub(far) as u64);
    }
    if v.len() > 1 {
        ctx.nontrivial(&(&g.gr, &v));
    }
    Ok(())
}

/// Everything that a parse allocates is returned.
fn leaks(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    if !cfg!(feature = "counting") {
        return Ok(());
    }
    let st = style(rng);
    let (gr, name) = random_gr(rng, st);
    let an = An::new(&gr);
    let v = input(rng, &gr, &an, 12, true);
    let w = format!("grammar ({}): {}\ninput: {}", name, gr.show(), show_input(&v));
    ctx.witness = w.clone();
    fn once<B: Bocage>(gr: &Gr, v: &[usize], rounds: usize) -> bool {
        let g = G::new(gr.clone(), String::new());
        let mut s = Sess::with(&g, B::build(&g, None), DefaultPerfHint::new(8192));
        for _ in 0..rounds {
            s.reset();
            if s.sof(None) {
                for &t in v {
                    if !s.read(&[(g.int(t), 1)], None) {
                        break;
                    }
                }
            }
        }
        let n = s.rec.finished_node();
        let finished = n.is_some();
        if let Some(n) = n {
            let mut b = s.rec.into_forest();
            let mut a = Act::new(&g);
            a.limit(20_000);
            let _ = common::guarded(|| b.eval(a.clone(), n));
        }
        finished
    }
    // Of a reset recognizer without a forest, memory stays where it was.
    {
        let g = G::new(gr.clone(), String::new());
        let mut s = null_sess(&g);
        let mut seen = [0usize; 6];
        for k in 0..6 {
            s.reset();
            if s.sof(None) {
                for &t in &v {
                    if !s.read(&[(g.int(t), 1)], None) {
                        break;
                    }
                }
            }
            seen[k] = alloc::live();
        }
        ctx.count("reset recognizers measured", 1);
        if seen[5] > seen[3] {
            return fail(format!("after resets and the same input, memory grows: {:?}", seen), w);
        }
    }
    let base = alloc::live();
    let a = once::<simple_bocage::Bocage>(&gr, &v, 2);
    let after = alloc::live();
    let b = once::<compact_bocage::Bocage>(&gr, &v, 2);
    let last = alloc::live();
    ctx.count("parses measured for leaks", 2);
    ctx.count("of which finished", a as u64 + b as u64);
    if after != base || last != after {
        return fail(format!("{} bytes in use before, {} after the simple bocage was dropped, {} after the compact one", base, after, last), w);
    }
    if v.len() > 1 {
        ctx.nontrivial(&(&gr, &v, "leak"));
    }
    Ok(())
}

/// Very long and very deep sentences are parsed and evaluated.
fn deep(ctx: &mut Ctx, which: usize) -> CaseResult {
    let forms: [(&str, [&str; 5], u64); 6] = [
        ("S=Sa|a", ["a", "a", "", "", ""], 1),
        ("S=aS|a", ["a", "a", "", "", ""], 1),
        ("S=aSb|ab", ["a", "a", "", "b", "b"], 1),
        ("S=aS|", ["", "a", "", "", ""], 1),
        ("E=EpT|T;T=TmF|F;F=oEc|n", ["", "o", "n", "c", ""], 3),
        ("S=xSN|y;N=n|", ["", "x", "y", "", ""], 1),
    ];
    let (text, parts, rules) = forms[which % forms.len()];
    let n = if ctx.tier == Tier::Thorough { 300_000 } else { 30_000 };
    let l = Letters::new(text);
    let v = l.toks(&repeat(parts[0], parts[1], parts[2], parts[3], parts[4], n));
    let w = format!("{} {:?} repeated {} times", text, parts, n);
    ctx.witness = w.clone();
    struct Tally<'a>(&'a Cell<(u64, u64, u64)>);
    impl gearley_forest::Evaluate for Tally<'_> {
        type Elem = u64;
        fn leaf(&self, _: Symbol, _: u32) -> u64 {
            let (a, b, c) = self.0.get();
            self.0.set((a + 1, b, c));
            1
        }
        fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a u64>) -> u64
        where
            u64: 'a,
        {
            let (a, b, c) = self.0.get();
            self.0.set((a, b + 1, c));
            args.sum()
        }
        fn nulling<'r>(&self, _: Symbol, results: &'r mut Vec<u64>) {
            let (a, b, c) = self.0.get();
            self.0.set((a, b, c + 1));
            results.push(0);
        }
    }
    macro_rules! go {
        ($b:ty) => {{
            let mut s = Sess::with(&l.g, <$b as Bocage>::build(&l.g, None), DefaultPerfHint::new(8192));
            let hint = |k: usize| Some(v.get(k).map_or(l.g.dg.eof(), |&t| l.g.int(t)));
            let mut ok = s.sof(hint(0));
            for (k, &t) in v.iter().enumerate() {
                ok = ok && s.read(&[(l.g.int(t), 0)], hint(k + 1));
            }
            let Some(node) = s.rec.finished_node().filter(|_| ok) else { return fail("a sentence is rejected", w) };
            let mut f = s.rec.into_forest();
            let t = Cell::new((0, 0, 0));
            let r = f.evaluate(Tally(&t), node);
            let c = t.get();
            ctx.count("action calls of deep derivations", c.0 + c.1 + c.2);
            if r != [v.len() as u64] || c.0 != v.len() as u64 || c.1 < n as u64 * rules || c.1 > (n as u64 + 2) * (rules + 1) {
                return fail(format!("{}: {:?} leaves, products and empty symbols, value {:?}, for {} tokens", <$b as Bocage>::NAME, c, r, v.len()), w);
            }
        }};
    }
    if which < forms.len() {
        go!(simple_bocage::Bocage);
    } else {
        go!(compact_bocage::Bocage);
    }
    ctx.nontrivial(&(text, which));
    Ok(())
}

pub fn c20(ctx: &mut Ctx) -> CaseResult {
    let mut i = ctx.idx as usize;
    let thorough = ctx.tier == Tier::Thorough;
    if i < LISTS.len() {
        return lists(ctx, i);
    }
    i -= LISTS.len();
    if i < LINEAR.len() {
        let sizes: &[usize] = if thorough { &[1000, 8000, 64_000, 256_000] } else { &[500, 4000, 32_000] };
        return growth(ctx, LINEAR[i].0, &LINEAR[i].1, sizes, 1, true);
    }
    i -= LINEAR.len();
    if i < AMBIGUOUS.len() {
        let sizes: &[usize] = if thorough { &[6, 24, 96, 384] } else { &[12, 48, 192] };
        return growth(ctx, AMBIGUOUS[i].0, &AMBIGUOUS[i].1, sizes, 3, false);
    }
    i -= AMBIGUOUS.len();
    if i < 12 {
        return deep(ctx, i);
    }
    let mut rng = ctx.rng("c20");
    if rng.chance(1, 2) {
        random_bounds(ctx, &mut rng)
    } else {
        leaks(ctx, &mut rng)
    }
}
