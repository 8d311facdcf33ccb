//! C14, C15: the compiled grammar, read through the Grammar trait.

use std::collections::{BTreeMap, BTreeSet};

use cfg_symbol::Symbol;
use common::{fail, CaseResult, Ctx};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;

use crate::deep::large_or_random;
use crate::drive::*;
use crate::gram::*;
use crate::parse::{max_len, style};
use crate::refr::P61;

/// The compiled rules, as far as the trait shows them.
pub struct Rules {
    pub lhs: Vec<usize>,
    pub rhs0: Vec<usize>,
    pub rhs1: Vec<Option<usize>>,
    /// Symbol by which each rule is filtered.
    pub head: Vec<usize>,
    /// Rules of each symbol.
    pub of: BTreeMap<usize, Vec<usize>>,
}

/// Reads the rules off the completion tables, which must hold each rule once.
fn rules(g: &G) -> Result<Rules, String> {
    let dg = &g.dg;
    let n = dg.num_rules();
    let total = dg.num_syms() + dg.num_gensyms();
    let mut rhs0: Vec<Option<usize>> = vec![None; n];
    let mut head = vec![0; n];
    let mut set = |d: u32, s: usize, sym: Symbol, is_unary: bool| -> Result<(), String> {
        let d = d as usize;
        if d >= n {
            return Err(format!("completions of symbol {} name rule {} of {}", s, d, n));
        }
        if let Some(o) = rhs0[d] {
            return Err(format!("rule {} is listed under symbol {} and under symbol {}", d, o, s));
        }
        rhs0[d] = Some(s);
        head[d] = sym.usize();
        if is_unary != dg.get_rhs1(d as u32).is_none() {
            return Err(format!("rule {} is_unary: {}, second symbol: {:?}", d, is_unary, dg.get_rhs1(d as u32)));
        }
        Ok(())
    };
    for s in 0..total {
        let sym = Symbol::from_raw(s as u32);
        if s < dg.num_syms() {
            for t in dg.completions(sym) {
                set(t.dot, s, t.symbol, t.is_unary)?;
            }
        } else {
            let [b, u] = dg.gen_completion(sym);
            if b.is_some_and(|t| t.is_unary) || u.is_some_and(|t| !t.is_unary) {
                return Err(format!("completions of generated symbol {}: {:?} {:?}", s, b, u));
            }
            for t in [b, u].into_iter().flatten() {
                set(t.dot, s, t.symbol, t.is_unary)?;
            }
        }
    }
    if let Some(d) = rhs0.iter().position(|r| r.is_none()) {
        return Err(format!("rule {} is listed under no symbol", d));
    }
    let lhs: Vec<usize> = (0..n).map(|d| dg.get_lhs(d as u32).usize()).collect();
    let rhs1: Vec<Option<usize>> = (0..n).map(|d| dg.get_rhs1(d as u32).map(|s| s.usize())).collect();
    let mut of: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for d in 0..n {
        if lhs[d] >= total || rhs1[d].is_some_and(|s| s >= total) {
            return Err(format!("rule {} has an undeclared symbol", d));
        }
        if dg.rhs1().len() != n || dg.rhs1()[d].map(|s| s.usize()) != rhs1[d] {
            return Err(format!("rhs1 and get_rhs1 differ for rule {}", d));
        }
        of.entry(lhs[d]).or_default().push(d);
    }
    Ok(Rules { lhs, rhs0: rhs0.into_iter().map(|r| r.unwrap()).collect(), rhs1, head, of })
}

/// A part of a right-hand side: a symbol of the source grammar, matched or left out as empty.
type Part = (usize, bool);

struct Flat<'a> {
    g: &'a G,
    r: &'a Rules,
    inter: BTreeMap<usize, Vec<(usize, usize)>>,
}

/// A sum of products of 2x2 matrices, one for each part: a fingerprint of a set of right-hand sides,
/// in order, that does not grow with their number.
type Mat = [u64; 4];
const ZERO: Mat = [0; 4];
const UNIT: Mat = [1, 0, 0, 1];

fn mat_add(a: Mat, b: Mat) -> Mat {
    std::array::from_fn(|i| (a[i] + b[i]) % P61)
}
fn mat_sub(a: Mat, b: Mat) -> Mat {
    std::array::from_fn(|i| (a[i] + P61 - b[i]) % P61)
}
fn mat_mul(a: Mat, b: Mat) -> Mat {
    let m = |x: u64, y: u64| (x as u128 * y as u128 % P61 as u128) as u64;
    let dot = |r: usize, c: usize| (m(a[2 * r], b[c]) + m(a[2 * r + 1], b[2 + c])) % P61;
    [dot(0, 0), dot(0, 1), dot(1, 0), dot(1, 1)]
}
fn mat_of(p: Part) -> Mat {
    std::array::from_fn(|i| common::hash64(&(p, i, 0x5eed)) % P61)
}

impl Flat<'_> {
    fn mat_parts(&self, s: usize, memo: &mut BTreeMap<usize, Mat>) -> Mat {
        if let Some(e) = self.g.ext(Symbol::from_raw(s as u32)) {
            return mat_of((e, false));
        }
        if let Some(&m) = memo.get(&s) {
            return m;
        }
        memo.insert(s, ZERO);
        let mut out = ZERO;
        for &d in self.r.of.get(&s).map_or(&[][..], |v| v) {
            out = mat_add(out, self.mat_rule(d, memo));
        }
        memo.insert(s, out);
        out
    }

    fn mat_rule(&self, d: usize, memo: &mut BTreeMap<usize, Mat>) -> Mat {
        let a = self.mat_parts(self.r.rhs0[d], memo);
        match (self.r.rhs1[d], self.g.dg.nulling(d as u32)) {
            (Some(b), _) => mat_mul(a, self.mat_parts(b, memo)),
            (None, None) => a,
            (None, Some((sym, right))) => {
                let mut nulls = vec![];
                self.null_parts(sym.usize(), &mut nulls);
                let m = nulls.into_iter().map(mat_of).fold(UNIT, mat_mul);
                if right {
                    mat_mul(a, m)
                } else {
                    mat_mul(m, a)
                }
            }
        }
    }

    fn null_parts(&self, s: usize, out: &mut Vec<Part>) {
        // A generated symbol stands for two others.
        match self.inter.get(&s) {
            Some(v) if self.g.ext(Symbol::from_raw(s as u32)).is_none() => {
                self.null_parts(v[0].0, out);
                self.null_parts(v[0].1, out);
            }
            _ => out.push((self.g.dg.to_external(Symbol::from_raw(s as u32)).usize(), true)),
        }
    }

    /// What a symbol may stand for in a right-hand side: itself, or, when it was generated, the parts
    /// of its rules.
    fn parts(&self, s: usize, depth: usize) -> Vec<Vec<Part>> {
        if let Some(e) = self.g.ext(Symbol::from_raw(s as u32)) {
            return vec![vec![(e, false)]];
        }
        if depth > 40 {
            return vec![];
        }
        let mut out = vec![];
        for &d in self.r.of.get(&s).map_or(&[][..], |v| v) {
            out.extend(self.rule(d, depth + 1));
        }
        out
    }

    fn rule(&self, d: usize, depth: usize) -> Vec<Vec<Part>> {
        let mut out = vec![];
        let nulling = self.g.dg.nulling(d as u32);
        for a in self.parts(self.r.rhs0[d], depth) {
            match self.r.rhs1[d] {
                Some(b) => {
                    for b in self.parts(b, depth) {
                        out.push(a.iter().chain(&b).copied().collect());
                    }
                }
                None => {
                    let mut v = a.clone();
                    if let Some((sym, right)) = nulling {
                        let mut nulls = vec![];
                        self.null_parts(sym.usize(), &mut nulls);
                        if right {
                            v.extend(nulls);
                        } else {
                            nulls.extend(v);
                            v = nulls;
                        }
                    }
                    out.push(v);
                }
            }
        }
        out
    }
}

pub fn c14(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c14");
    let st = style(&mut rng);
    let (mut gr, name) = large_or_random(ctx, ctx.idx, &mut rng, st);
    if rng.chance(1, 10) {
        // More symbols than one block of a bit matrix holds.
        let an = An::new(&gr);
        let nts: Vec<usize> = (0..gr.nsyms).filter(|&s| !an.is_term[s] && an.useful[s]).collect();
        let extra = rng.range(20, 150);
        for _ in 0..extra {
            let p = gr.nsyms;
            gr.nsyms += 1;
            let l = *rng.pick(&nts);
            gr.rules.push((l, vec![p, p]));
        }
        gr = permute(&mut rng, &gr);
    }
    let w = format!("grammar ({}): {}", name, gr.show());
    ctx.witness = w.clone();
    let g = G::new(gr, name);
    let (dg, an, gr) = (&g.dg, &g.an, &g.gr);
    ctx.count("grammars", 1);
    ctx.max("most rules", dg.num_rules() as u64);
    ctx.max("most symbols", (dg.num_syms() + dg.num_gensyms()) as u64);
    let total = dg.num_syms() + dg.num_gensyms();

    // Symbol maps.
    let mut seen = BTreeSet::new();
    for s in 0..total {
        let sym = Symbol::from_raw(s as u32);
        let e = dg.to_external(sym);
        if !seen.insert(e.usize()) {
            return fail(format!("two symbols have the source symbol {}", e.usize()), w);
        }
        if dg.to_internal(e) != Some(sym) {
            return fail(format!("symbol {} is {} outside, which is {:?} inside", s, e.usize(), dg.to_internal(e)), w);
        }
        ctx.count("symbols judged", 1);
    }
    for e in 0..gr.nsyms {
        let sym = Symbol::from_raw(e as u32);
        match dg.to_internal(sym) {
            Some(i) => {
                if dg.to_external(i) != sym {
                    return fail(format!("source symbol {} is {} inside, which is {:?} outside", e, i.usize(), dg.to_external(i)), w);
                }
            }
            None => {
                if an.useful[e] && an.nonempty[e] {
                    return fail(format!("source symbol {} is in use and has no symbol inside", e), w);
                }
            }
        }
    }
    if dg.externalized_start_sym().usize() != gr.start {
        return fail(format!("the start symbol is {:?}", dg.externalized_start_sym()), w);
    }
    if dg.has_trivial_derivation() != an.nullable[gr.start] {
        return fail(format!("has_trivial_derivation is {}", dg.has_trivial_derivation()), w);
    }
    let special = [dg.sof(), dg.eof(), dg.start_sym()];
    for s in special {
        if g.ext(s).is_some() || s.usize() >= dg.num_syms() {
            return fail(format!("{:?} is not a symbol of its own", s), w);
        }
    }
    if special[0] == special[1] || special[0] == special[2] || special[1] == special[2] {
        return fail(format!("markers and start symbol coincide: {:?}", special), w);
    }

    // Rules.
    let r = match rules(&g) {
        Ok(r) => r,
        Err(e) => return fail(e, w),
    };
    let n = dg.num_rules();
    ctx.count("compiled rules judged", n as u64);
    let mut inter: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
    for t in dg.eliminated_nulling_intermediate() {
        inter.entry(t[0].usize()).or_default().push((t[1].usize(), t[2].usize()));
    }
    let fl = Flat { g: &g, r: &r, inter };
    let mut have: BTreeMap<usize, Vec<Vec<Part>>> = BTreeMap::new();
    let mut have_mat: BTreeMap<usize, Mat> = BTreeMap::new();
    let mut memo = BTreeMap::new();
    let few = |rhs: &[usize]| rhs.len() <= 30 && rhs.iter().filter(|&&s| an.nullable[s] && an.nonempty[s]).count() <= 6;
    let mut top = vec![];
    for d in 0..n {
        let o = dg.external_origin(d as u32);
        let lhs = g.ext(Symbol::from_raw(r.lhs[d] as u32));
        if o.is_null() {
            if lhs.is_some() {
                return fail(format!("a rule of source symbol {:?} has no origin", lhs), w);
            }
            if r.lhs[d] == dg.start_sym().usize() {
                top.push(d);
            }
            continue;
        }
        let id = o.id as usize;
        if id >= gr.rules.len() || lhs != Some(gr.rules[id].0) {
            return fail(format!("a compiled rule of {:?} claims to come from rule {}", lhs, id), w);
        }
        let m = fl.mat_rule(d, &mut memo);
        let sum = have_mat.entry(id).or_insert(ZERO);
        *sum = mat_add(*sum, m);
        if few(&gr.rules[id].1) {
            have.entry(id).or_default().extend(fl.rule(d, 0));
        }
    }
    for (id, (_, rhs)) in gr.rules.iter().enumerate() {
        // By fingerprint, whatever the number of ways.
        let mut want_mat = ZERO;
        if an.useful_rule[id] {
            let (mut all, mut nothing) = (UNIT, UNIT);
            for &s in rhs {
                let full = if an.nonempty[s] { mat_of((s, false)) } else { ZERO };
                let none = if an.nullable[s] { mat_of((s, true)) } else { ZERO };
                all = mat_mul(all, mat_add(full, none));
                nothing = mat_mul(nothing, none);
            }
            want_mat = mat_sub(all, nothing);
        }
        let got_mat = have_mat.remove(&id).unwrap_or(ZERO);
        ctx.count("rules judged by fingerprint", 1);
        if got_mat != want_mat {
            return fail(format!("the ways in which rule {} stands in the compiled grammar are not those of the source", id), w);
        }
        if !few(rhs) {
            continue;
        }
        let mut want: Vec<Vec<Part>> = vec![];
        if an.useful_rule[id] {
            // Every way to leave out symbols that may be empty, but not all of them.
            want.push(vec![]);
            for &s in rhs {
                let mut next = vec![];
                for v in want {
                    if an.nonempty[s] {
                        let mut u = v.clone();
                        u.push((s, false));
                        next.push(u);
                    }
                    if an.nullable[s] {
                        let mut u = v.clone();
                        u.push((s, true));
                        next.push(u);
                    }
                }
                want = next;
            }
            want.retain(|v| v.iter().any(|p| !p.1));
        }
        want.sort();
        let mut got = have.remove(&id).unwrap_or_default();
        got.sort();
        ctx.count("ways of rules judged", want.len() as u64);
        if got != want {
            return fail(
                format!("rule {} stands in the compiled grammar for (symbol, left out as empty) {:?} instead of {:?}", id, got, want),
                w,
            );
        }
    }
    // The rule above the start symbol.
    let d = dg.dot_before_eof() as usize;
    if d >= n || r.rhs1[d] != Some(dg.eof().usize()) || r.lhs[d] != dg.start_sym().usize() {
        return fail(format!("dot_before_eof is {}", d), w);
    }
    let mut before: Vec<Vec<String>> = vec![];
    let mut stack = vec![r.rhs0[d]];
    // Through generated symbols down to the start marker and the start symbol.
    let mut guard = 0;
    while let Some(s) = stack.pop() {
        guard += 1;
        if guard > 20 {
            break;
        }
        for &q in r.of.get(&s).map_or(&[][..], |v| v) {
            if let Some(b) = r.rhs1[q] {
                before.push(vec![format!("{}", r.rhs0[q]), format!("{:?}", g.ext(Symbol::from_raw(b as u32)))]);
            } else {
                before.push(vec![format!("{}", r.rhs0[q])]);
            }
        }
    }
    before.sort();
    let sof = format!("{}", dg.sof().usize());
    let mut want = vec![];
    if an.nullable[gr.start] {
        want.push(vec![sof.clone()]);
    }
    if an.nonempty[gr.start] {
        want.push(vec![sof, format!("{:?}", Some(gr.start))]);
    }
    if before != want {
        return fail(format!("before the end marker come {:?} instead of {:?}", before, want), w);
    }

    // Prediction rows: the reflexive transitive left-corner relation.
    let mut up: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); total];
    for d in 0..n {
        up[r.lhs[d]].insert(r.rhs0[d]);
    }
    let closure = |from: usize| -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([from]);
        let mut work = vec![from];
        while let Some(x) = work.pop() {
            for &y in &up[x] {
                if seen.insert(y) {
                    work.push(y);
                }
            }
        }
        seen
    };
    for s in 0..dg.num_syms() {
        let row = dg.prediction_row(Symbol::from_raw(s as u32));
        let want: BTreeSet<usize> = closure(s).into_iter().filter(|&x| x < dg.num_syms()).collect();
        let got: BTreeSet<usize> = (0..dg.num_syms()).filter(|&x| row[x]).collect();
        ctx.count("prediction rows judged", 1);
        if got != want {
            let diff: Vec<_> = got.symmetric_difference(&want).collect();
            return fail(format!("symbol {} predicts {:?} instead of {:?}, differing in {:?}", s, got, want, diff), w);
        }
    }
    // The same for source symbols, from the source grammar alone.
    let mut corner = vec![BTreeSet::new(); gr.nsyms];
    for (id, (l, rhs)) in gr.rules.iter().enumerate() {
        if an.useful_rule[id] {
            for &s in rhs {
                if an.nonempty[s] {
                    corner[*l].insert(s);
                }
                if !an.nullable[s] {
                    break;
                }
            }
        }
    }
    for e in 0..gr.nsyms {
        if !an.useful[e] || !an.nonempty[e] {
            continue;
        }
        let mut want = BTreeSet::from([e]);
        let mut work = vec![e];
        while let Some(x) = work.pop() {
            for &y in &corner[x] {
                if want.insert(y) {
                    work.push(y);
                }
            }
        }
        let row = dg.prediction_row(g.int(e));
        let got: BTreeSet<usize> = (0..gr.nsyms).filter(|&x| dg.to_internal(Symbol::from_raw(x as u32)).is_some_and(|s| s.usize() < dg.num_syms() && row[s.usize()])).collect();
        ctx.count("prediction rows judged against the source", 1);
        if got != want {
            return fail(format!("source symbol {} predicts {:?} instead of {:?}", e, got, want), w);
        }
    }
    // The symbol by which a rule is filtered is the rule's, or that of the rule it is a part of.
    for d in 0..n {
        let mut s = r.lhs[d];
        let mut steps = 0;
        while s >= dg.num_syms() && steps < 100 {
            match (0..n).find(|&q| r.rhs0[q] == s) {
                Some(q) => s = r.lhs[q],
                None => return fail(format!("generated symbol {} begins no rule", s), w),
            }
            steps += 1;
        }
        if r.head[d] != s {
            return fail(format!("rule {} is filtered by symbol {} instead of {}", d, r.head[d], s), w);
        }
    }

    // FIRST and FOLLOW, on terminals and the end marker.
    let is_term = |s: usize| !r.of.contains_key(&s);
    let mut first: Vec<BTreeSet<usize>> = (0..total).map(|s| if is_term(s) { BTreeSet::from([s]) } else { BTreeSet::new() }).collect();
    let mut follow: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); total];
    loop {
        let mut ch = false;
        for d in 0..n {
            let f = first[r.rhs0[d]].clone();
            let len = first[r.lhs[d]].len();
            first[r.lhs[d]].extend(f);
            ch |= first[r.lhs[d]].len() != len;
        }
        if !ch {
            break;
        }
    }
    loop {
        let mut ch = false;
        let mut add = |to: usize, from: BTreeSet<usize>, follow: &mut Vec<BTreeSet<usize>>| {
            let len = follow[to].len();
            follow[to].extend(from);
            ch |= follow[to].len() != len;
        };
        for d in 0..n {
            let after = follow[r.lhs[d]].clone();
            match r.rhs1[d] {
                Some(b) => {
                    add(r.rhs0[d], first[b].clone(), &mut follow);
                    add(b, after, &mut follow);
                }
                None => add(r.rhs0[d], after, &mut follow),
            }
        }
        if !ch {
            break;
        }
    }
    let terms: Vec<usize> = (0..dg.num_syms()).filter(|&s| is_term(s)).collect();
    for s in 0..dg.num_syms() {
        if is_term(s) {
            continue;
        }
        let row = dg.lhs_lr_set(Symbol::from_raw(s as u32));
        let got: BTreeSet<usize> = terms.iter().copied().filter(|&t| row[t]).collect();
        ctx.count("FOLLOW rows judged", 1);
        if got != follow[s] {
            return fail(format!("FOLLOW of symbol {} is {:?} instead of {:?}", s, got, follow[s]), w);
        }
    }
    for d in 0..n {
        let x = dg.rhs1_or_lhs(d as u32);
        if x.usize() != r.rhs1[d].unwrap_or(r.lhs[d]) {
            return fail(format!("rhs1_or_lhs of rule {} is {}", d, x.usize()), w);
        }
        if x.usize() >= dg.num_syms() {
            continue;
        }
        let row = dg.lookahead_set(d as u32);
        let got: BTreeSet<usize> = terms.iter().copied().filter(|&t| row[t]).collect();
        let want = match r.rhs1[d] {
            Some(b) => &first[b],
            None => &follow[r.lhs[d]],
        };
        ctx.count("lookahead rows judged", 1);
        if got != *want {
            return fail(format!("after the first symbol of rule {} may come {:?} instead of {:?}", d, got, want), w);
        }
    }
    // What the forests are told is what the grammar says.
    let info = dg.forest_info();
    if info.sof != dg.sof() || info.eof != dg.eof() || g.ext(info.start).map_or(true, |s| s != gr.start) {
        return fail(format!("forest_info names the markers {:?} {:?} and start {:?}", info.sof, info.eof, info.start), w);
    }
    if info.eval.len() != n || info.nulling_eliminated.len() != n {
        return fail("forest_info has another number of rules", w);
    }
    for d in 0..n {
        if info.eval[d].id != dg.external_origin(d as u32).id || info.external_origin(d as u32).map(|o| o.id) != Some(info.eval[d].id) {
            return fail(format!("forest_info has another origin for rule {}", d), w);
        }
        if format!("{:?}", info.nulling_eliminated[d]) != format!("{:?}", dg.nulling(d as u32)) {
            return fail(format!("forest_info has another eliminated symbol for rule {}", d), w);
        }
    }
    // A reference to a grammar is a grammar, and shows the same.
    let (own, by_ref) = (dump::<DefaultGrammar>(dg, gr.nsyms), dump::<&DefaultGrammar>(&dg, gr.nsyms));
    ctx.count("grammars read through a reference", 1);
    if own != by_ref {
        let (a, b) = first_difference(&own, &by_ref);
        return fail(format!("through a reference: {:?} instead of {:?}", b, a), w);
    }
    if n > 3 {
        ctx.nontrivial(gr);
        ctx.sample(|| format!("{}; {} compiled rules over {}+{} symbols", w, n, dg.num_syms(), dg.num_gensyms()));
    }
    Ok(())
}

/// Everything that the trait shows, as text.
pub fn dump<T: Grammar>(dg: &T, outside: usize) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let (s, gs, n) = (dg.num_syms(), dg.num_gensyms(), dg.num_rules());
    let _ = writeln!(
        o,
        "{:?} {:?} {:?} {:?} {} {} {:?} {} {} {}",
        dg.sof(), dg.eof(), dg.start_sym(), dg.externalized_start_sym(), dg.has_trivial_derivation(), dg.dot_before_eof(), dg.useless_symbol(), s, gs, n
    );
    let _ = writeln!(o, "{:?}", (0..outside as u32).map(|i| dg.to_internal(Symbol::from_raw(i))).collect::<Vec<_>>());
    for i in 0..s + gs {
        let x = Symbol::from_raw(i as u32);
        let _ = writeln!(o, "symbol {} outside {:?} back {:?}", i, dg.to_external(x), dg.to_internal(dg.to_external(x)));
        if i < s {
            let row = dg.prediction_row(x);
            let fol = dg.lhs_lr_set(x);
            let bits: Vec<(bool, bool)> = (0..s).map(|k| (row[k], fol[k])).collect();
            let _ = writeln!(o, "  {:?} {:?}", dg.completions(x), bits);
        } else {
            let _ = writeln!(o, "  {:?}", dg.gen_completion(x));
        }
    }
    for d in 0..n as u32 {
        let _ = writeln!(o, "rule {} {:?} {:?} {:?} {:?} {:?}", d, dg.get_lhs(d), dg.get_rhs1(d), dg.rhs1_or_lhs(d), dg.external_origin(d), dg.nulling(d));
        if dg.rhs1_or_lhs(d).usize() < s {
            let l = dg.lookahead_set(d);
            let _ = writeln!(o, "  {:?}", (0..s).map(|k| l[k]).collect::<Vec<_>>());
        }
    }
    let _ = writeln!(o, "{:?} {:?} {:?} {:?} {:?}", dg.rhs1(), dg.events(), dg.trace(), dg.eliminated_nulling_intermediate(), dg.forest_info());
    o
}

/// The first lines that differ.
fn first_difference<'a>(a: &'a str, b: &'a str) -> (Option<&'a str>, Option<&'a str>) {
    let (mut a, mut b) = (a.lines(), b.lines());
    loop {
        match (a.next(), b.next()) {
            (x, y) if x != y || x.is_none() => return (x, y),
            _ => {}
        }
    }
}

pub fn c15(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c15");
    let st = style(&mut rng);
    // The largest of grammars take seconds here, so fewer of them.
    let k = if (53..=84).contains(&(ctx.idx % 40_000)) { 100 } else { ctx.idx };
    let (gr, name) = large_or_random(ctx, k, &mut rng, st);
    let (mut cfg, _) = gr.cfg();
    if rng.chance(1, 2) {
        let mut next = 1;
        for rule in cfg.rules_mut() {
            for d in rule.history.dots.iter_mut() {
                if rng.chance(1, 2) {
                    d.event = cfg::history::earley::EventId { id: next };
                    d.distance = cfg::history::earley::MinimalDistance { distance: next + 7 };
                    next += 1;
                }
            }
        }
    }
    let dg = DefaultGrammar::from_grammar(cfg);
    let g = G { an: An::new(&gr), gr, name, dg };
    let w = format!("grammar ({}): {}", g.name, g.gr.show());
    ctx.witness = w.clone();
    let serde: DefaultGrammar = {
        let text = serde_json::to_string(&g.dg).expect("serialize");
        ctx.count("bytes of JSON", text.len() as u64);
        match serde_json::from_str(&text) {
            Ok(d) => d,
            Err(e) => return fail(format!("serde does not read it back: {}", e), w),
        }
    };
    let mini: DefaultGrammar = match miniserde::json::from_str(&miniserde::json::to_string(&g.dg)) {
        Ok(d) => d,
        Err(_) => return fail("miniserde does not read it back", w),
    };
    let want = dump::<DefaultGrammar>(&g.dg, g.gr.nsyms);
    let an = || An::new(&g.gr);
    let mut copies = vec![];
    for (how, dg) in [("serde", serde), ("miniserde", mini), ("clone", g.dg.clone())] {
        let got = dump::<DefaultGrammar>(&dg, g.gr.nsyms);
        ctx.count("copies compared", 1);
        ctx.count("table lines compared", want.lines().count() as u64);
        if got != want {
            let (a, b) = first_difference(&want, &got);
            return fail(format!("after a round trip by {}: {:?} instead of {:?}", how, b, a), w);
        }
        copies.push((how, G { gr: g.gr.clone(), an: an(), name: g.name.clone(), dg }));
    }
    for _ in 0..3 {
        let m = max_len(ctx, &mut rng, 16);
        let v = input(&mut rng, &g.gr, &g.an, m, true);
        let witness = g.show(&v);
        ctx.witness = witness.clone();
        let want = behaviour(&g, &v);
        for (how, c) in &copies {
            let got = behaviour(c, &v);
            ctx.count("parses compared", 1);
            if got != want {
                let i = (0..).find(|&i| want.get(i) != got.get(i)).unwrap();
                return fail(format!("after a round trip by {}: {:?} instead of {:?}", how, got.get(i), want.get(i)), witness);
            }
        }
        if v.len() > 1 {
            ctx.nontrivial(&(&g.gr, &v));
            ctx.sample(|| witness.clone());
        }
    }
    Ok(())
}

/// Answers, progress, events, forest and values of one input.
fn behaviour(g: &G, v: &[usize]) -> Vec<String> {
    let mut s = spy_sess_with(g, DefaultPerfHint::new(8192));
    let mut out = vec![format!("{}", s.rec.is_finished())];
    let mut ok = s.sof(v.first().map(|&t| g.int(t)));
    for (k, &t) in v.iter().enumerate() {
        if !ok {
            break;
        }
        s.open();
        out.push(format!(
            "{:?} {:?} {:?} {:?}",
            s.rec.predicted_symbols().collect::<Vec<_>>(),
            s.rec.trace().collect::<Vec<_>>(),
            s.rec.events().collect::<Vec<_>>(),
            s.rec.minimal_distances().collect::<Vec<_>>()
        ));
        ok = s.read(&[(g.int(t), k as u32)], v.get(k + 1).map(|&t| g.int(t)));
        out.push(format!("{} {}", ok, s.rec.is_finished()));
    }
    out.extend(s.log().events.iter().map(|e| format!("{:?}", e)));
    let lat = crate::refr::plain(v, &(0..v.len() as u32).collect::<Vec<_>>());
    let mut d = crate::refr::Derivs::new(&g.gr, &g.an, &lat);
    if ok && d.sym(g.gr.start, 0, v.len()).sat <= 50 {
        let a = crate::eval::run::<simple_bocage::Bocage>(g, &lat, None, false, false);
        let b = crate::eval::run::<compact_bocage::Bocage>(g, &lat, None, false, false);
        out.push(format!("{:?} {:?}", a, b));
    }
    out
}
