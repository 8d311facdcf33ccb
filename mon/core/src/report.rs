//! C04, C23: progress reports and events.

use std::collections::BTreeSet;

use cfg::history::earley::{EventId, MinimalDistance};
use cfg_symbol::Symbol;
use common::{fail, CaseResult, Ctx};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;

use crate::deep::{long_case, padded_or_random, large_or_random};
use crate::drive::*;
use crate::gram::*;
use crate::parse::{max_len, style};
use crate::refr::*;

pub fn c04(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx == 0 {
        return expected_terminals(ctx);
    }
    let mut rng = ctx.rng("c04");
    let st = style(&mut rng);
    let (g, mut deep) = match long_case(ctx, &mut rng) {
        Some((g, v)) => (g, Some(v)),
        None => {
            let gr = padded_or_random(ctx, &mut rng, st);
            ctx.witness = format!("grammar: {}", gr.0.show());
            (G::from(gr), None)
        }
    };
    let eps_free = !g.an.any_nullable();
    for _ in 0..if deep.is_some() { 1 } else { 4 } {
        let m = max_len(ctx, &mut rng, 30);
        let input = match deep.take() {
            Some(v) => v,
            None => input(&mut rng, &g.gr, &g.an, m, false),
        };
        let witness = || g.show(&input);
        ctx.witness = witness();
        let mut s = null_sess(&g);
        s.open();
        {
            // Before the start marker only the marker can be read.
            let p: Vec<Symbol> = s.rec.predicted_symbols().collect();
            if !p.contains(&g.dg.sof()) || p.iter().any(|&x| g.ext(x).is_some()) || s.rec.medial_items().next().is_some() {
                return fail(format!("before the start marker, predicted symbols are {:?}", p), witness());
            }
        }
        if !s.sof(None) {
            return fail("the start marker is rejected", witness());
        }
        let mut e = Earley::new(&g.gr, &g.an);
        for k in 0..=input.len() {
            let finished = s.rec.is_finished();
            s.open();
            ctx.count("reports judged", 1);
            let at = || format!("after {} tokens of\n{}", k, witness());
            // Legal next tokens and predicted nonterminals.
            let predicted: BTreeSet<usize> = s.rec.predicted_symbols().filter_map(|x| g.ext(x)).collect();
            let got: Vec<usize> = predicted.iter().copied().filter(|&x| g.an.is_term[x]).collect();
            let legal = e.legal();
            if got != legal {
                return fail(format!("predicted terminals are {:?}, tokens that can follow {:?}", got, legal), at());
            }
            let got: Vec<usize> = predicted.iter().copied().filter(|&x| !g.an.is_term[x]).collect();
            let mut nts: Vec<usize> = e.postdots().into_iter().filter(|&x| !g.an.is_term[x] && g.an.nonempty[x]).collect();
            if k > 0 {
                // The start symbol counts only where a rule needs it.
                let postdot: BTreeSet<usize> = e.last().iter().filter_map(|&(r, p, _)| g.gr.rules[r].1.get(p).copied()).collect();
                nts.retain(|x| postdot.contains(x));
            }
            if got != nts {
                return fail(format!("predicted nonterminals are {:?}, expected ones {:?}", got, nts), at());
            }
            ctx.count("predictions judged", predicted.len() as u64);
            let eof = s.rec.predicted_symbols().any(|x| x == g.dg.eof());
            if eof != finished {
                return fail(format!("the end marker is {}predicted and is_finished is {}", if eof { "" } else { "not " }, finished), at());
            }
            // Partial matches with their origins.
            let mut have: Vec<EItem> = vec![];
            for (dr, o) in s.rec.trace() {
                if dr.is_null() {
                    continue;
                }
                let (id, pos) = (dr.id as usize, dr.pos as usize);
                if id >= g.gr.rules.len() || pos > g.gr.rules[id].1.len() {
                    return fail(format!("reported dotted rule {:?} does not exist", dr), at());
                }
                if pos == 0 {
                    if o != s.rec.earleme() {
                        return fail(format!("the prediction of rule {} has origin {} at set {}", id, o, s.rec.earleme()), at());
                    }
                    if !e.last().contains(&(id, 0, k)) {
                        return fail(format!("rule {} is reported as predicted", id), at());
                    }
                    continue;
                }
                let Some(&t) = s.posmap.get(o) else {
                    return fail(format!("origin {} is not a retained set", o), at());
                };
                if t == 0 {
                    return fail(format!("rule {} is reported to begin before the start marker", id), at());
                }
                have.push((id, pos, t - 1));
            }
            have.sort();
            ctx.count("partial matches judged", have.len() as u64);
            if let Some(x) = have.iter().find(|x| !e.last().contains(x)) {
                return fail(format!("reported partial match (rule, dot, origin) {:?} is not one", x), at());
            }
            let n = have.len();
            have.dedup();
            if eps_free {
                if n != have.len() {
                    // Two compiled items may stand for one dotted rule only in grammars with empty rules
                    // or when one symbol is completed twice.
                    ctx.count("partial matches reported twice", (n - have.len()) as u64);
                }
                let mut want: Vec<EItem> =
                    e.last().iter().copied().filter(|&(r, p, _)| p > 0 && p < g.gr.rules[r].1.len()).collect();
                want.sort();
                if have != want {
                    return fail(format!("reported partial matches {:?}, expected {:?}", have, want), at());
                }
                ctx.count("complete reports judged", 1);
                // A terminal that a begun rule waits for is expected.
                let expected: Vec<usize> = s.rec.expected_terminals().filter_map(|x| g.ext(x)).collect();
                for &(r, p, _) in &want {
                    let x = g.gr.rules[r].1[p];
                    if g.an.is_term[x] && !expected.contains(&x) {
                        return fail(format!("terminal {} follows a dot, and is not reported as expected", x), at());
                    }
                }
            }
            for x in s.rec.expected_terminals() {
                if let Some(x) = g.ext(x) {
                    if !e.postdots().contains(&x) {
                        return fail(format!("symbol {} is reported as expected", x), at());
                    }
                }
            }
            if k > 0 && k < 1000 {
                ctx.nontrivial(&(&g.gr, &input[..k]));
            }
            if k < input.len() {
                let ok = s.read(&[(g.int(input[k]), k as u32)], None);
                if ok != e.read(&[input[k]]) {
                    return fail(format!("token {} gives {}", k, ok), at());
                }
                if !ok {
                    break;
                }
            }
        }
        ctx.sample(witness);
    }
    Ok(())
}

/// `expected_terminals` on one fixed input.
fn expected_terminals(ctx: &mut Ctx) -> CaseResult {
    let g = G::new(parse_gr("S=a"), "one token".into());
    let mut s = null_sess(&g);
    s.sof(None);
    s.open();
    let got: Vec<Option<usize>> = s.rec.expected_terminals().map(|x| g.ext(x)).collect();
    ctx.count("expected_terminals on a fixed input", 1);
    if got != [Some(1)] {
        if got == [Some(0)] {
            ctx.finding("expected_terminals:S=a", "expected_terminals names S, not a, at the start of S ::= a");
        } else {
            return fail(format!("expected_terminals gives {:?} at the start of S ::= a", got), g.show(&[]));
        }
    }
    Ok(())
}

pub fn c23(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c23");
    let st = style(&mut rng);
    let (gr, name) = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.show());
    let an = An::new(&gr);
    let (mut cfg, _) = gr.cfg();
    // Annotations: none, some or all dots; distinct, so that a confusion shows.
    let density = rng.below(3) as u64;
    let mut next = 1u32;
    let mut ann: Vec<Vec<(u32, u32)>> = vec![];
    for rule in cfg.rules_mut() {
        let mut row = vec![];
        for d in rule.history.dots.iter_mut() {
            let (mut ev, mut dist) = (!0, !0);
            if rng.chance(density + 1, 3) {
                ev = if rng.chance(1, 10) { rng.next() as u32 } else { next };
                next += 1;
            }
            if rng.chance(density + 1, 3) {
                dist = if rng.chance(1, 10) { rng.next() as u32 } else { next };
                next += 1;
            }
            d.event = EventId { id: ev };
            d.distance = MinimalDistance { distance: dist };
            row.push((ev, dist));
        }
        ann.push(row);
    }
    let g = G { an, dg: DefaultGrammar::from_grammar(cfg), gr, name };
    for _ in 0..4 {
        let m = max_len(ctx, &mut rng, 30);
        let input = input(&mut rng, &g.gr, &g.an, m, false);
        let witness = || format!("{}\nannotations by rule and dot (event, distance): {:?}", g.show(&input), ann);
        ctx.witness = witness();
        let mut s = Sess::with(&g, gearley_forest::NullForest, DefaultPerfHint::new(8192));
        s.sof(None);
        let mut e = Earley::new(&g.gr, &g.an);
        for k in 0..=input.len() {
            s.open();
            let at = || format!("after {} tokens of {}", k, witness());
            let trace: Vec<_> = s.rec.trace().collect();
            let events: Vec<_> = s.rec.events().collect();
            let dist: Vec<_> = s.rec.minimal_distances().collect();
            if events.len() != trace.len() || dist.len() != trace.len() {
                return fail(format!("{} live positions, {} events, {} distances", trace.len(), events.len(), dist.len()), at());
            }
            let syms: Vec<Symbol> = s.rec.predicted_symbols().collect();
            ctx.count("reports judged", 1);
            ctx.count("live positions judged", trace.len() as u64);
            for i in 0..trace.len() {
                let (dr, _) = trace[i];
                let got = (events[i].0.id, events[i].1.distance);
                if dist[i] != got.1 {
                    return fail(format!("minimal_distances reports {} and events {}", dist[i], got.1), at());
                }
                if i < syms.len() {
                    // A prediction is reported with the annotation of a rule of that symbol.
                    let ext = g.ext(syms[i]);
                    let has_rules = ext.is_some_and(|x| g.an.by_lhs[x].iter().any(|&r| g.an.useful_rule[r]));
                    if dr.is_null() {
                        if has_rules {
                            return fail(format!("predicted symbol {:?} is reported without a rule", ext), at());
                        }
                    } else {
                        // Symbols that binarization made up stand for the beginning of their rule.
                        let generated = ext.is_none();
                        let ok = (dr.id as usize) < g.gr.rules.len()
                            && e.last().contains(&(dr.id as usize, 0, k))
                            && (generated || ext == Some(g.gr.rules[dr.id as usize].0));
                        if !ok {
                            return fail(format!("predicted symbol {:?} is reported with {:?}", ext, dr), at());
                        }
                    }
                } else if !dr.is_null() {
                    ctx.count("partial matches judged", 1);
                    let o = s.posmap[trace[i].1];
                    if o == 0 || !e.last().contains(&(dr.id as usize, dr.pos as usize, o - 1)) {
                        return fail(format!("{:?} from {} is reported as a partial match", dr, o), at());
                    }
                }
                let want = if dr.is_null() { (!0, !0) } else { ann[dr.id as usize][dr.pos as usize] };
                if got != want {
                    return fail(format!("the position {:?} is annotated {:?} and reported as {:?}", dr, want, got), at());
                }
                if want != (!0, !0) {
                    ctx.count("annotated positions judged", 1);
                }
            }
            if k > 0 {
                ctx.nontrivial(&(&g.gr, &ann, &input[..k]));
            }
            if k < input.len() {
                let ok = s.read(&[(g.int(input[k]), k as u32)], None);
                if ok != e.read(&[input[k]]) {
                    return fail(format!("token {} gives {}", k, ok), at());
                }
                if !ok {
                    break;
                }
            }
        }
        ctx.sample(witness);
    }
    Ok(())
}
