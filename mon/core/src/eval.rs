//! C11, C12, C13: evaluation of bocages.

use std::cell::RefCell;
use std::rc::Rc;

use cfg_symbol::Symbol;
use common::{fail, guarded, violation_panic, CaseResult, Ctx, Fail, Rng, Tier};
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;

use crate::deep::{self, deep_case, padded_or_random, large_or_random, predictive};
use crate::drive::*;
use crate::gram::*;
use crate::parse::style;
use crate::refr::*;

/// User actions that write every call down. A value is the text of the derivation that it is of.
#[derive(Clone)]
pub struct Act<'g> {
    g: &'g G,
    calls: Rc<RefCell<Vec<String>>>,
    budget: usize,
    /// Values past this many bytes are replaced by their length.
    clip: usize,
    /// Arguments in a canonical order, for comparisons up to the order of alternatives.
    sorted: bool,
}

impl<'g> Act<'g> {
    pub fn new(g: &'g G) -> Self {
        Act { g, calls: Rc::new(RefCell::new(vec![])), budget: 2_000_000, clip: 4_000, sorted: false }
    }
    pub fn clip_at(&mut self, bytes: usize) {
        self.clip = bytes;
    }
    pub fn limit(&mut self, calls: usize) {
        self.budget = calls;
    }
    fn call(&self, s: String) {
        let mut c = self.calls.borrow_mut();
        if c.len() >= self.budget {
            violation_panic("evaluation does not end: the number of action calls goes past the limit");
        }
        c.push(s);
    }
    fn name(&self, s: Symbol) -> usize {
        self.g.dg.to_external(s).usize()
    }
    pub fn take(&self) -> Vec<String> {
        std::mem::take(&mut *self.calls.borrow_mut())
    }
}

impl Evaluate for Act<'_> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, values: u32) -> String {
        let s = format!("t{}:{}", self.name(terminal), values);
        self.call(s.clone());
        s
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a String>) -> String
    where
        String: 'a,
    {
        let mut args: Vec<&str> = args.map(|s| &s[..]).collect();
        self.call(format!("r{}/{}", action, args.len()));
        if self.sorted {
            args.sort();
        }
        let len: usize = args.iter().map(|a| a.len() + 1).sum();
        if len > self.clip {
            return format!("r{}#{:x}", action, common::hash64(&args));
        }
        format!("r{}({})", action, args.join(" "))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<String>) {
        let s = format!("~{}", self.name(symbol));
        self.call(s.clone());
        results.push(s);
    }
}

/// A forest that can be evaluated.
pub trait Bocage: Forest<NodeRef = NodeHandle> {
    const NAME: &'static str;
    fn build(g: &G, cap: Option<usize>) -> Self;
    fn eval(&mut self, a: Act<'_>, n: NodeHandle) -> Vec<String>;
}
impl Bocage for simple_bocage::Bocage {
    const NAME: &'static str = "simple bocage";
    fn build(g: &G, cap: Option<usize>) -> Self {
        match cap {
            None => Self::new(&g.dg),
            Some(c) => Self::with_capacity(&g.dg, c),
        }
    }
    fn eval(&mut self, a: Act<'_>, n: NodeHandle) -> Vec<String> {
        self.evaluate(a, n)
    }
}
impl Bocage for compact_bocage::Bocage {
    const NAME: &'static str = "compact bocage";
    fn build(g: &G, cap: Option<usize>) -> Self {
        match cap {
            None => Self::new(&g.dg),
            Some(c) => Self::with_capacity(&g.dg, c),
        }
    }
    fn eval(&mut self, a: Act<'_>, n: NodeHandle) -> Vec<String> {
        self.evaluate(a, n)
    }
}

/// What one evaluation did.
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Outcome {
    pub values: Vec<String>,
    pub calls: Vec<String>,
}

/// Parses a lattice and hands over the forest and its finished node.
pub fn parse_into<B: Bocage>(g: &G, lat: &Lattice, cap: Option<usize>, hints: bool) -> Option<(B, NodeHandle)> {
    let mut s = Sess::with(g, B::build(g, cap), DefaultPerfHint::new(8192));
    let hint = |k: usize| if hints { lat.get(k).filter(|c| c.len() == 1).map(|c| g.int(c[0].0)) } else { None };
    if !s.sof(hint(0)) {
        return None;
    }
    for (k, c) in lat.iter().enumerate() {
        if !s.read(&internal(g, c), hint(k + 1)) {
            return None;
        }
    }
    let n = s.rec.finished_node()?;
    Some((s.rec.into_forest(), n))
}

pub fn run<B: Bocage>(g: &G, lat: &Lattice, cap: Option<usize>, hints: bool, sorted: bool) -> Option<Outcome> {
    let (mut b, n) = parse_into::<B>(g, lat, cap, hints)?;
    let mut a = Act::new(g);
    a.sorted = sorted;
    let values = b.eval(a.clone(), n);
    Some(Outcome { values, calls: a.take() })
}

/// Parses an input and hands over the forest with the finished nodes of all locations.
fn nodes_on_the_way<B: Bocage>(g: &G, lat: &Lattice, cap: Option<usize>) -> (B, Vec<(usize, NodeHandle)>) {
    let mut s = Sess::with(g, B::build(g, cap), DefaultPerfHint::new(8192));
    let mut nodes = vec![];
    let mut ok = s.sof(None);
    for k in 0..=lat.len() {
        if !ok {
            break;
        }
        nodes.extend(s.rec.finished_node().map(|n| (k, n)));
        if let Some(c) = lat.get(k) {
            ok = s.read(&internal(g, c), None);
        }
    }
    (s.rec.into_forest(), nodes)
}

/// Evaluates twice; the second time must be like the first.
fn run_twice<B: Bocage>(g: &G, lat: &Lattice, cap: Option<usize>, hints: bool, witness: &str) -> Result<Option<Outcome>, Fail> {
    let Some((mut b, n)) = parse_into::<B>(g, lat, cap, hints) else { return Ok(None) };
    let a = Act::new(g);
    let first = Outcome { values: b.eval(a.clone(), n), calls: a.take() };
    let second = Outcome { values: b.eval(a.clone(), n), calls: a.take() };
    if first != second {
        return fail(
            format!("the {} evaluates to something else the second time:\n  {:?}\n  {:?}", B::NAME, first, second),
            witness,
        );
    }
    Ok(Some(first))
}

fn judge_unique<B: Bocage>(g: &G, lat: &Lattice, tree: &str, cap: Option<usize>, hints: bool, witness: &str, ctx: &mut Ctx) -> CaseResult {
    let Some(o) = run_twice::<B>(g, lat, cap, hints, witness)? else {
        return fail(format!("a sentence is not finished with the {}", B::NAME), witness);
    };
    judge_outcome::<B>(o, lat, tree, witness, ctx)
}

/// Compares values and actions with the only derivation.
pub fn judge_outcome<B: Bocage>(o: Outcome, lat: &Lattice, tree: &str, witness: &str, ctx: &mut Ctx) -> CaseResult {
    let calls = if lat.is_empty() { vec![tree.to_string()] } else { postorder(tree) };
    ctx.count("evaluations judged", 1);
    ctx.count("action calls judged", calls.len() as u64);
    if o.calls != calls {
        let at = (0..).find(|&i| o.calls.get(i) != calls.get(i)).unwrap();
        return fail(
            format!("{}: the actions called differ from those of the derivation at call {}: {:?} instead of {:?}\nderivation {}", B::NAME, at, o.calls.get(at), calls.get(at), tree),
            witness,
        );
    }
    if o.values.len() != 1 {
        return fail(format!("{}: {} values for one derivation", B::NAME, o.values.len()), witness);
    }
    let want_hashed = tree.len() > 4_000;
    if !want_hashed && o.values[0] != tree {
        return fail(format!("{}: the value is {} instead of {}", B::NAME, o.values[0], tree), witness);
    }
    Ok(())
}

/// Evaluates an input with several tokens at a location, with both bocages.
pub fn judge_lattice(g: &G, lat: &Lattice, rng: &mut Rng, witness: &str, ctx: &mut Ctx) -> CaseResult {
    let n = lat.len();
    let mut d = Derivs::new(&g.gr, &g.an, lat);
    let want = d.sym(g.gr.start, 0, n);
    if n == 0 || want.sat == 0 || want.sat > 300 {
        return Ok(());
    }
    let cap = *rng.pick(&[None, Some(0), Some(100_000)]);
    let hints = rng.chance(1, 2);
    if want.sat == 1 {
        let tree = d.trees(g.gr.start, 0, n).pop().unwrap();
        judge_unique::<simple_bocage::Bocage>(g, lat, &tree, cap, hints, witness, ctx)?;
        return judge_unique::<compact_bocage::Bocage>(g, lat, &tree, cap, hints, witness, ctx);
    }
    let mut trees = d.trees(g.gr.start, 0, n);
    trees.sort();
    let mut leaves: Vec<String> = trees.iter().flat_map(|t| postorder(t)).filter(|c| c.starts_with('t')).collect();
    leaves.sort();
    leaves.dedup();
    let root_only = only_root_is_ambiguous(&mut d, n);
    let a = run::<simple_bocage::Bocage>(g, lat, cap, hints, false);
    let b = run::<compact_bocage::Bocage>(g, lat, cap, hints, false);
    for (name, o) in [("simple", a), ("compact", b)] {
        let Some(o) = o else { return fail(format!("a sentence is not finished with the {} bocage", name), witness) };
        ctx.count("ambiguous lattices evaluated", 1);
        // Every token that takes part in a derivation is evaluated, and no other.
        let mut got: Vec<String> = o.calls.iter().filter(|c| c.starts_with('t')).cloned().collect();
        got.sort();
        got.dedup();
        if got != leaves {
            return fail(format!("{} bocage: the tokens evaluated are {:?}, those of the derivations {:?}", name, got, leaves), witness);
        }
        if root_only && trees.iter().all(|t| t.len() < 4_000) {
            ctx.count("lattices ambiguous at the top only", 1);
            let mut values = o.values;
            values.sort();
            if values != trees {
                return fail(format!("{} bocage: the values are {:?}, the derivations {:?}", name, values, trees), witness);
            }
        }
    }
    Ok(())
}

fn some_values(rng: &mut Rng, n: usize) -> Vec<u32> {
    let kind = rng.below(4);
    (0..n)
        .map(|i| match kind {
            0 => i as u32,
            1 => rng.next() as u32,
            2 => *rng.pick(&[0, 1, 255, 256, 257, 65_535, 65_536, 16_777_215, 16_777_216, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]),
            _ => 1u32 << rng.below(32),
        })
        .collect()
}

/// Do the derivations of the whole input differ only in the topmost rule application?
fn only_root_is_ambiguous(d: &mut Derivs<'_>, n: usize) -> bool {
    let g = d.g;
    for &r in &d.an.by_lhs[g.start].clone() {
        let rhs = &g.rules[r].1;
        let splits = d.splits(r, n);
        for v in &splits {
            for (k, &x) in rhs.iter().enumerate() {
                if d.sym(x, v[k], v[k + 1]).sat > 1 {
                    return false;
                }
            }
        }
        // No two derivations with a common, differently divided part of the right-hand side.
        for (i, v) in splits.iter().enumerate() {
            for w in &splits[..i] {
                for a in 0..rhs.len() {
                    for b in a + 2..=rhs.len() {
                        if b - a < rhs.len() && v[a] == w[a] && v[b] == w[b] && v[a..=b] != w[a..=b] {
                            return false;
                        }
                    }
                }
            }
        }
    }
    true
}

/// Grammars in which only the start symbol is ambiguous.
fn root_ambiguous(rng: &mut Rng) -> Gr {
    // t: start alternatives over unambiguous parts.
    let texts = [
        "S=AB;A=a|aa;B=b|ab",
        "S=AB|CD;A=a;B=b;C=a;D=b",
        "S=a|A|B;A=a;B=a",
        "S=AB;A=aA|a;B=aB|a",
        "S=AB|Ca;A=aA|a;B=aB|a;C=Ca|a",
        "S=AbC|aD;A=a;C=c;D=bc",
        "S=aN|Aa|N;N=aa|;A=a",
        "S=AB|aC;A=a|;B=b|ab;C=b|",
        "S=xL|Rx|x;L=Lx|x;R=xR|x",
        "S=L|R;L=La|a;R=aR|a",
        "S=LR;L=La|;R=aR|",
        "S=ABC|D;A=a;B=b;C=c;D=abc",
    ];
    let g = parse_gr(*rng.pick(&texts));
    permute(rng, &g)
}

/// Hundreds of alternatives of the start symbol over the same input.
fn many_alternatives(rng: &mut Rng) -> Gr {
    let n = *rng.pick(&[100usize, 254, 255, 256, 257, 300, 511, 512, 600]);
    // S is 0, the tokens a, b are 1 and 2.
    let mut g = Gr { nsyms: 3 + n, start: 0, rules: vec![] };
    let tail = rng.chance(1, 2);
    for i in 3..3 + n {
        g.rules.push((0, if tail { vec![i, 2] } else { vec![i] }));
        g.rules.push((i, vec![1]));
    }
    if rng.chance(1, 2) {
        g.rules.push((0, vec![1, 1]));
    }
    permute(rng, &g)
}

pub fn c11(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx == 0 {
        return inner_ambiguity(ctx);
    }
    let mut rng = ctx.rng("c11");
    if let Some((g, input)) = deep_case(ctx, &mut rng) {
        return nested::<simple_bocage::Bocage>(ctx, &mut rng, &g, &input);
    }
    let special = rng.chance(1, 10);
    let gr = if rng.chance(1, 300) {
        (many_alternatives(&mut rng), "many alternatives".to_string())
    } else if special {
        (root_ambiguous(&mut rng), "root ambiguous".to_string())
    } else {
        let st = style(&mut rng);
        padded_or_random(ctx, &mut rng, st)
    };
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    for _ in 0..6 {
        let max = match rng.below(12) {
            _ if rng.chance(1, 400) => rng.range(258, 290),
            0 => {
                if ctx.tier == Tier::Thorough {
                    120
                } else {
                    60
                }
            }
            1 | 2 => 24,
            _ => 10,
        };
        let Some(input) = sentence(&mut rng, &g.gr, &g.an, max) else { continue };
        let vals = some_values(&mut rng, input.len());
        let lat = plain(&input, &vals);
        let n = lat.len();
        let witness = format!("{}\nvalues: {:?}", g.show(&input), vals);
        ctx.witness = witness.clone();
        let cap = *rng.pick(&[None, Some(0), Some(1), Some(100_000)]);
        let hints = rng.chance(1, 2);
        let mut d = Derivs::new(&g.gr, &g.an, &lat);
        let want = d.sym(g.gr.start, 0, n);
        ctx.count("sentences", 1);
        if want.sat == 1 {
            let tree = d.trees(g.gr.start, 0, n).pop().unwrap();
            ctx.count("sentences with one derivation", 1);
            judge_unique::<simple_bocage::Bocage>(&g, &lat, &tree, cap, hints, &witness, ctx)?;
            ctx.nontrivial(&(&g.gr, &input, &vals));
            ctx.sample(|| format!("{} => {}", witness, tree));
            if rng.chance(1, 3) {
                // The nodes of shorter sentences on the way stay what they are.
                let (mut b, mut nodes) = nodes_on_the_way::<simple_bocage::Bocage>(&g, &lat, cap);
                rng.shuffle(&mut nodes);
                for (k, node) in nodes.into_iter().take(8) {
                    if d.sym(g.gr.start, 0, k).sat == 1 {
                        let tree = d.trees(g.gr.start, 0, k).pop().unwrap();
                        let a = Act::new(&g);
                        let o = Outcome { values: b.eval(a.clone(), node), calls: a.take() };
                        let witness = format!("{}\nthe node finished after {} tokens, evaluated in the end", witness, k);
                        judge_outcome::<simple_bocage::Bocage>(o, &lat[..k].to_vec(), &tree, &witness, ctx)?;
                        ctx.count("nodes of shorter sentences evaluated", (k < n) as u64);
                    }
                }
            }
        } else if n > 0 && want.sat <= 700 && only_root_is_ambiguous(&mut d, n) {
            let mut trees = d.trees(g.gr.start, 0, n);
            trees.sort();
            ctx.count("sentences ambiguous at the top only", 1);
            let Some(o) = run_twice::<simple_bocage::Bocage>(&g, &lat, cap, hints, &witness)? else {
                return fail("a sentence is not finished", witness);
            };
            let mut values = o.values;
            values.sort();
            if trees.iter().all(|t| t.len() < 4_000) && values != trees {
                return fail(format!("the values are {:?}, the derivations {:?}", values, trees), witness);
            }
            ctx.nontrivial(&(&g.gr, &input, &vals));
        } else {
            ctx.count("sentences that are ambiguous inside (not judged)", 1);
        }
    }
    Ok(())
}

/// A deeply nested sentence: the calls and the value that predictive parsing finds.
fn nested<B: Bocage>(ctx: &mut Ctx, rng: &mut Rng, g: &G, input: &[usize]) -> CaseResult {
    let vals = some_values(rng, input.len());
    let witness = deep::show(g, input);
    ctx.witness = witness.clone();
    let clip = *rng.pick(&[40usize, 100, 300]);
    let Some(want) = predictive(g, input, &vals, Act::new(g), clip) else { return Ok(()) };
    let lat = plain(input, &vals);
    let Some((mut b, n)) = parse_into::<B>(g, &lat, *rng.pick(&[None, Some(0)]), rng.chance(1, 2)) else {
        return fail("a sentence is not finished", witness);
    };
    for round in 0..2 {
        let mut a = Act::new(g);
        a.clip_at(clip);
        let got = Outcome { values: b.eval(a.clone(), n), calls: a.take() };
        if let Some(i) = (0..got.calls.len().max(want.calls.len())).find(|&i| got.calls.get(i) != want.calls.get(i)) {
            return fail(format!("evaluation {}, call {}: {:?} instead of {:?}", round, i, got.calls.get(i), want.calls.get(i)), witness);
        }
        if got.values != want.values {
            return fail(format!("evaluation {}: values {:?} instead of {:?}", round, got.values, want.values), witness);
        }
        ctx.count("action calls of nested sentences judged", got.calls.len() as u64);
    }
    ctx.nontrivial(&(&g.gr, input.len(), &vals[..vals.len().min(4)]));
    Ok(())
}

/// A fixed sentence that is ambiguous below its top.
fn inner_ambiguity(ctx: &mut Ctx) -> CaseResult {
    // S ::= A b; A ::= C | D; C ::= a; D ::= a.
    let g = G::new(parse_gr("S=Ab;A=C|D;C=a;D=a"), "ambiguous inside".into());
    // Symbols by first use: S A b C D a.
    let (a, b) = (5, 2);
    let lat = plain(&[a, b], &[0, 1]);
    let w = g.show(&[a, b]);
    let mut d = Derivs::new(&g.gr, &g.an, &lat);
    let mut trees = d.trees(0, 0, 2);
    trees.sort();
    ctx.count("sentences ambiguous inside, fixed", 1);
    let Some(o) = run::<simple_bocage::Bocage>(&g, &lat, None, false, true) else { return fail("not finished", w) };
    let mut values = o.values.clone();
    values.sort();
    if values == trees {
        return Ok(());
    }
    if values == ["r0(r1(r3(t5:0)) r2(r4(t5:0)) t2:1)"] {
        ctx.finding("inner:S=Ab;A=C|D;C=a;D=a:ab", "the action of S ::= A b is called once, with 3 arguments, for two derivations");
        return Ok(());
    }
    fail(format!("values {:?} for derivations {:?}", o.values, trees), w)
}

/// A grammar with many symbols and rules, so that operands need several bytes.
fn widened(rng: &mut Rng, base: &Gr) -> Gr {
    let mut g = base.clone();
    let extra = *rng.pick(&[0usize, 3, 130, 260, 300, 700]);
    let an = An::new(&g);
    let pads: Vec<usize> = (0..extra).map(|i| g.nsyms + i).collect();
    g.nsyms += extra;
    // Each extra token is used by an extra alternative of some symbol, after one of the first tokens, so
    // that it is never taken for another.
    let nts: Vec<usize> = (0..base.nsyms).filter(|&s| !an.is_term[s] && an.useful[s]).collect();
    for &p in &pads {
        let lhs = *rng.pick(&nts);
        g.rules.push((lhs, if rng.chance(1, 2) { vec![p] } else { vec![p, p] }));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.rules);
    }
    permute(rng, &g)
}

pub fn c12(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c12");
    if let Some((g, input)) = deep_case(ctx, &mut rng) {
        return nested::<compact_bocage::Bocage>(ctx, &mut rng, &g, &input);
    }
    if ctx.idx % 400 < 3 || (25..27).contains(&ctx.idx) {
        return c12_huge(ctx, &mut rng);
    }
    let st = style(&mut rng);
    let (base, name) = padded_or_random(ctx, &mut rng, st);
    let wide = rng.chance(1, 6).then(|| widened(&mut rng, &base)).filter(in_domain);
    let gr = wide.unwrap_or(base);
    ctx.witness = format!("grammar: {}", gr.show());
    let g = G::new(gr, name);
    if g.gr.nsyms > 100 {
        ctx.count("grammars with more than 100 symbols", 1);
    }
    for _ in 0..4 {
        let max = match rng.below(10) {
            _ if rng.chance(1, 400) => rng.range(258, 290),
            0 => 60,
            1 | 2 => 20,
            _ => 8,
        };
        let Some(input) = sentence(&mut rng, &g.gr, &g.an, max) else { continue };
        let n = input.len();
        let vals = some_values(&mut rng, n);
        let lat = plain(&input, &vals);
        let witness = format!("{}\nvalues: {:?}", g.show(&input), vals);
        ctx.witness = witness.clone();
        let mut d = Derivs::new(&g.gr, &g.an, &lat);
        let want = d.sym(g.gr.start, 0, n);
        let hints = rng.chance(1, 2);
        let cap = *rng.pick(&[None, Some(0), Some(1), Some(100_000)]);
        if want.sat == 1 {
            let tree = d.trees(g.gr.start, 0, n).pop().unwrap();
            let a = run_twice::<simple_bocage::Bocage>(&g, &lat, None, hints, &witness)?;
            let b = run_twice::<compact_bocage::Bocage>(&g, &lat, cap, hints, &witness)?;
            if a != b {
                return fail(format!("simple and compact differ:\n  {:?}\n  {:?}", a, b), witness);
            }
            judge_unique::<compact_bocage::Bocage>(&g, &lat, &tree, cap, hints, &witness, ctx)?;
            ctx.count("sentences with one derivation", 1);
        } else if want.sat <= 700 {
            let a = run::<simple_bocage::Bocage>(&g, &lat, None, hints, true);
            let b = run::<compact_bocage::Bocage>(&g, &lat, cap, hints, true);
            let sort = |o: Option<Outcome>| {
                o.map(|mut o| {
                    o.values.sort();
                    o.calls.sort();
                    o
                })
            };
            let (a, b) = (sort(a), sort(b));
            if a != b || a.is_none() {
                return fail(format!("simple and compact differ:\n  {:?}\n  {:?}", a, b), witness);
            }
            ctx.count("ambiguous sentences", 1);
        } else {
            continue;
        }
        if rng.chance(1, 3) {
            let (mut a, nodes) = nodes_on_the_way::<simple_bocage::Bocage>(&g, &lat, None);
            let (mut b, nodes_b) = nodes_on_the_way::<compact_bocage::Bocage>(&g, &lat, cap);
            if nodes.iter().map(|n| n.0).ne(nodes_b.iter().map(|n| n.0)) {
                return fail(format!("finished at {:?} with one bocage, {:?} with the other", nodes, nodes_b), witness);
            }
            let mut pairs: Vec<_> = nodes.into_iter().zip(nodes_b).collect();
            rng.shuffle(&mut pairs);
            for ((k, x), (_, y)) in pairs.into_iter().take(8) {
                let sat = d.sym(g.gr.start, 0, k).sat;
                if sat > 200 {
                    continue;
                }
                let mut act = Act::new(&g);
                act.sorted = sat > 1;
                let mut p = Outcome { values: a.eval(act.clone(), x), calls: act.take() };
                let mut q = Outcome { values: b.eval(act.clone(), y), calls: act.take() };
                if sat > 1 {
                    for o in [&mut p, &mut q] {
                        o.values.sort();
                        o.calls.sort();
                    }
                }
                if p != q {
                    return fail(format!("the nodes finished after {} tokens differ:\n  {:?}\n  {:?}", k, p, q), witness);
                }
                ctx.count("nodes of shorter sentences compared", (k < n) as u64);
            }
        }
        ctx.count("sentences compared", 1);
        if n > 0 {
            ctx.nontrivial(&(&g.gr, &input, &vals));
            ctx.sample(|| witness.clone());
        }
    }
    Ok(())
}

/// Long inputs: forests whose node addresses need two and three bytes.
fn c12_huge(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    let texts = ["S=Sa|a", "S=SbA|A;A=aN;N=a|", "V=oPc|n;P=PkV|V", "S=aS|a"];
    let text = texts[rng.below(match ctx.idx % 400 {
        25 => 3,
        26 => 1,
        _ => 4,
    })];
    let gr = parse_gr(text);
    let len = match ctx.idx % 400 {
        0 => rng.range(90, 400),
        1 => rng.range(3_000, 9_000),
        // Past 2^24 bytes of forest.
        25 => rng.range(900_000, 1_000_000),
        // Past 2^25.
        26 => rng.range(1_900_000, 2_100_000),
        _ => rng.range(25_000, 60_000),
    };
    let g = G::new(gr, text.into());
    // Long sentences, written down directly.
    let id = |c: char| -> usize {
        let mut names: Vec<char> = vec![];
        for x in text.chars().filter(|x| x.is_alphabetic()) {
            if !names.contains(&x) {
                names.push(x);
            }
        }
        names.iter().position(|&x| x == c).unwrap()
    };
    let input: Vec<usize> = match text.as_bytes()[0] {
        b'V' => {
            // Few levels, many members.
            let mut v = vec![id('o'), id('n')];
            for _ in 0..len / 2 {
                v.extend([id('k'), id('n')]);
            }
            v.push(id('c'));
            v
        }
        _ if text.contains('b') => {
            let mut v = vec![id('a')];
            for i in 0..len / 3 {
                if i % 2 == 0 {
                    v.push(id('a'));
                }
                v.extend([id('b'), id('a')]);
            }
            v
        }
        _ => vec![id('a'); len.min(if text == "S=aS|a" { 2_500 } else { len })],
    };
    let vals: Vec<u32> = (0..input.len()).map(|_| rng.next() as u32).collect();
    let lat = plain(&input, &vals);
    let witness = format!("grammar {}; {} tokens: {} ...", text, input.len(), show_input(&input[..20.min(input.len())]));
    ctx.witness = witness.clone();
    fn clipped<B: Bocage>(g: &G, lat: &Lattice, cap: Option<usize>) -> Option<Outcome> {
        let (mut b, n) = parse_into::<B>(g, lat, cap, true)?;
        let mut a = Act::new(g);
        a.clip_at(60);
        a.limit(8_000_000);
        Some(Outcome { values: b.eval(a.clone(), n), calls: a.take() })
    }
    let a = clipped::<simple_bocage::Bocage>(&g, &lat, None);
    let b = clipped::<compact_bocage::Bocage>(&g, &lat, Some(0));
    let (Some(a), Some(b)) = (a, b) else { return fail("a sentence is rejected", witness) };
    ctx.count("sentences compared", 1);
    ctx.max("longest input", input.len() as u64);
    ctx.count("long sentences compared", 1);
    ctx.max("most action calls in one evaluation", a.calls.len() as u64);
    if let Some(i) = (0..a.calls.len().max(b.calls.len())).find(|&i| a.calls.get(i) != b.calls.get(i)) {
        return fail(format!("call {}: simple {:?}, compact {:?}", i, a.calls.get(i), b.calls.get(i)), witness);
    }
    if a.values != b.values || a.values.len() != 1 {
        return fail(format!("values differ: {:?} {:?}", a.values, b.values), witness);
    }
    // The leaves come in input order with their values.
    let leaves: Vec<&String> = a.calls.iter().filter(|c| c.starts_with('t')).collect();
    if leaves.len() != input.len() {
        return fail(format!("{} leaves for {} tokens", leaves.len(), input.len()), witness);
    }
    for (i, l) in leaves.iter().enumerate() {
        if **l != format!("t{}:{}", input[i], vals[i]) {
            return fail(format!("leaf {} is {}", i, l), witness);
        }
    }
    ctx.nontrivial(&(text, len, &vals[..4]));
    Ok(())
}

/// Rules whose symbols are, by position: 0 always empty, 1 empty or a token, 2 a token.
fn shapes() -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..5 {
        let to = out.len();
        for i in from..to {
            for k in 0..3 {
                let mut v = out[i].clone();
                v.push(k);
                out.push(v);
            }
        }
        from = to;
    }
    out.remove(0);
    out
}

fn c13_shape(ctx: &mut Ctx, rng: &mut Rng, shape: &[usize]) -> CaseResult {
    // Symbols: start 0, then for each position its symbol, and a token of its own.
    let m = shape.len();
    let nested = rng.below(4);
    let mut rules = vec![];
    let sym = |k: usize| 1 + 2 * k;
    let tok = |k: usize| 2 + 2 * k;
    let rhs: Vec<usize> = (0..m).map(|k| if shape[k] == 2 { tok(k) } else { sym(k) }).collect();
    let mut nsyms = 1 + 2 * m;
    let mut prefix = vec![];
    let mut suffix = vec![];
    let start = 0;
    match nested {
        0 => rules.push((0, rhs)),
        1 => {
            // start ::= x inner y
            let (inner, x, y) = (nsyms, nsyms + 1, nsyms + 2);
            nsyms += 3;
            rules.push((0, vec![x, inner, y]));
            rules.push((inner, rhs));
            prefix.push(x);
            suffix.push(y);
        }
        2 => {
            let (inner, x) = (nsyms, nsyms + 1);
            nsyms += 2;
            rules.push((0, vec![inner, x]));
            rules.push((inner, rhs));
            suffix.push(x);
        }
        _ => {
            // A unit rule above it.
            let inner = nsyms;
            nsyms += 1;
            rules.push((0, vec![inner]));
            rules.push((inner, rhs));
        }
    }
    for k in 0..m {
        match shape[k] {
            0 => match rng.below(3) {
                0 => rules.push((sym(k), vec![])),
                1 => {
                    // Empty through other symbols.
                    let e = nsyms;
                    nsyms += 1;
                    rules.push((sym(k), vec![e, e]));
                    rules.push((e, vec![]));
                }
                _ => {
                    let e = nsyms;
                    nsyms += 1;
                    rules.push((sym(k), vec![e]));
                    rules.push((e, vec![]));
                }
            },
            1 => {
                rules.push((sym(k), vec![]));
                rules.push((sym(k), vec![tok(k)]));
            }
            _ => {}
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut rules);
    }
    // Symbols that are not used are declared all the same, tokens without rules.
    let gr = Gr { nsyms, start, rules };
    let mut to: Vec<usize> = (0..nsyms).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut to);
    }
    let gr = gr.permuted(&to);
    ctx.witness = gr.show();
    let g = G::new(gr, format!("shape {:?}", shape));
    let optional: Vec<usize> = (0..m).filter(|&k| shape[k] == 1).collect();
    for mask in 0..1usize << optional.len() {
        let mut input: Vec<usize> = prefix.iter().map(|&x| to[x]).collect();
        for k in 0..m {
            let present = match shape[k] {
                2 => true,
                1 => mask >> optional.iter().position(|&o| o == k).unwrap() & 1 == 1,
                _ => false,
            };
            if present {
                input.push(to[tok(k)]);
            }
        }
        input.extend(suffix.iter().map(|&x| to[x]));
        let vals = some_values(rng, input.len());
        let witness = format!("{}\nvalues: {:?}", g.show(&input), vals);
        ctx.witness = witness.clone();
        both(&g, &input, &vals, &witness, rng, ctx)?;
        ctx.count("arrangements enumerated", 1);
        ctx.nontrivial(&(&g.gr, &input));
    }
    Ok(())
}

fn both(g: &G, input: &[usize], vals: &[u32], witness: &str, rng: &mut Rng, ctx: &mut Ctx) -> CaseResult {
    let lat = plain(input, vals);
    let n = lat.len();
    let mut d = Derivs::new(&g.gr, &g.an, &lat);
    let want = d.sym(g.gr.start, 0, n);
    if want.sat != 1 {
        return Ok(());
    }
    let tree = d.trees(g.gr.start, 0, n).pop().unwrap();
    let hints = rng.chance(1, 2);
    ctx.count("sentences", 1);
    let nulls = tree.matches('~').count() as u64;
    ctx.count("empty symbols evaluated", nulls);
    ctx.max("most empty symbols in one derivation", nulls);
    if n == 0 {
        ctx.count("empty inputs", 1);
    }
    judge_unique::<simple_bocage::Bocage>(g, &lat, &tree, None, hints, witness, ctx)?;
    judge_unique::<compact_bocage::Bocage>(g, &lat, &tree, None, hints, witness, ctx)
}

pub fn c13(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c13");
    let shapes = shapes();
    let rounds = if ctx.tier == Tier::Thorough { 20 } else { 4 };
    if (ctx.idx as usize) < shapes.len() * rounds {
        let shape = &shapes[ctx.idx as usize % shapes.len()];
        return c13_shape(ctx, &mut rng, shape);
    }
    let gr = large_or_random(ctx, ctx.idx - (shapes.len() * rounds) as u64 + 27, &mut rng, Style::Nulls);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    unread::<simple_bocage::Bocage>(&g, ctx)?;
    unread::<compact_bocage::Bocage>(&g, ctx)?;
    for k in 0..6 {
        let input = if k == 0 && g.an.nullable[g.gr.start] {
            vec![]
        } else {
            let max = if rng.chance(1, 8) { 40 } else { 9 };
            match sentence(&mut rng, &g.gr, &g.an, max) {
                Some(v) => v,
                None => continue,
            }
        };
        let vals = some_values(&mut rng, input.len());
        let witness = format!("{}\nvalues: {:?}", g.show(&input), vals);
        ctx.witness = witness.clone();
        both(&g, &input, &vals, &witness, &mut rng, ctx)?;
        if !input.is_empty() {
            ctx.nontrivial(&(&g.gr, &input));
        }
        ctx.sample(|| witness.clone());
    }
    Ok(())
}

/// Evaluates with both bocages, whatever the derivations; a panic or no end is a violation.
pub fn evaluate_both_quietly(g: &G, input: &[usize], ctx: &mut Ctx) -> CaseResult {
    let vals: Vec<u32> = (0..input.len() as u32).collect();
    let lat = plain(input, &vals);
    let mut d = Derivs::new(&g.gr, &g.an, &lat);
    let want = d.sym(g.gr.start, 0, input.len());
    if want.sat > 2000 {
        return Ok(());
    }
    let a = guarded(|| run::<simple_bocage::Bocage>(g, &lat, None, true, false));
    let b = guarded(|| run::<compact_bocage::Bocage>(g, &lat, None, true, false));
    for (name, r) in [("simple", a), ("compact", b)] {
        match r {
            Err((loc, msg)) => return fail(format!("evaluation with the {} bocage panics at {}: {}", name, loc, msg), g.show(input)),
            Ok(None) if want.sat > 0 => return fail(format!("a sentence is not finished with the {} bocage", name), g.show(input)),
            Ok(None) => {}
            Ok(Some(o)) => {
                ctx.count("evaluations", 1);
                if want.sat > 0 && o.values.is_empty() {
                    return fail(format!("no value from the {} bocage", name), g.show(input));
                }
            }
        }
    }
    Ok(())
}

/// A recognizer that has read nothing, not even the start marker, has the empty parse if there is one.
fn unread<B: Bocage>(g: &G, ctx: &mut Ctx) -> CaseResult {
    let s = Sess::with(g, B::build(g, None), DefaultPerfHint::new(8192));
    let n = s.rec.finished_node();
    let w = format!("{}, nothing is read", g.show(&[]));
    if n.is_some() != g.an.nullable[g.gr.start] {
        return fail(format!("{}: finished node {:?} before anything is read", B::NAME, n), w);
    }
    let Some(n) = n else { return Ok(()) };
    let mut b = s.rec.into_forest();
    let a = Act::new(g);
    let values = b.eval(a.clone(), n);
    let want = vec![format!("~{}", g.gr.start)];
    let calls = a.take();
    ctx.count("unread recognizers evaluated", 1);
    if values != want || calls != want {
        return fail(format!("{}: an unread recognizer evaluates to {:?} by {:?} instead of {:?}", B::NAME, values, calls, want), w);
    }
    Ok(())
}
