//! C01, C02, C03, C05, C08, C21: answers of the recognizer.

use cfg_symbol::Symbol;
use common::{fail, guarded, CaseResult, Ctx, Rng, Tier};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_utils::RecognizerParseExt;

use crate::deep::{long_case, padded_or_random, large_or_random, show};
use crate::drive::*;
use crate::eval::{run, Act, Bocage, Outcome};
use crate::gram::*;
use crate::helpers::Answer;
use crate::refr::*;
use crate::spy::{Ev, Log};

pub fn style(rng: &mut Rng) -> Style {
    match rng.below(8) {
        0 | 1 => Style::NoEmpty,
        2 | 3 => Style::Nulls,
        4 => Style::Ordered,
        _ => Style::Any,
    }
}

/// How long an input may be; seldom, long enough for locations that need more than eight bits.
pub fn max_len(ctx: &Ctx, rng: &mut Rng, cap: usize) -> usize {
    if rng.chance(1, 700) {
        return rng.range(258, 290);
    }
    let n = match rng.below(20) {
        0 => match ctx.tier {
            Tier::Quick => 60,
            Tier::Thorough => 120,
        },
        1..=4 => 30,
        _ => 12,
    };
    n.min(cap)
}

/// All token sequences up to a length, while they are not too many.
fn short_inputs(terms: &[usize], limit: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    if terms.is_empty() {
        return out;
    }
    loop {
        let to = out.len();
        if to + (to - from) * terms.len() > limit || out[from].len() >= 12 {
            return out;
        }
        for i in from..to {
            for &t in terms {
                let mut v = out[i].clone();
                v.push(t);
                out.push(v);
            }
        }
        from = to;
    }
}

/// Inputs for one grammar: every short one in some cases, random ones in others.
fn inputs(ctx: &Ctx, rng: &mut Rng, g: &G, extra: bool) -> Vec<Vec<usize>> {
    if rng.chance(1, 8) {
        let t = if extra { g.an.terms() } else { g.an.useful_terms() };
        return short_inputs(&t, 200);
    }
    (0..6)
        .map(|_| {
            let m = max_len(ctx, rng, 1000);
            input(rng, &g.gr, &g.an, m, extra)
        })
        .collect()
}

/// An input, and copies that differ at one place.
fn damaged(rng: &mut Rng, g: &G, v: Vec<usize>) -> Vec<Vec<usize>> {
    let t = g.an.terms();
    let mut out = vec![v.clone()];
    let mut w = v.clone();
    w.push(*rng.pick(&t));
    out.push(w);
    for at in [rng.below(v.len()), v.len() - 1 - rng.below(v.len() / 10 + 1)] {
        let mut w = v.clone();
        if rng.chance(1, 2) {
            w[at] = *rng.pick(&t);
        } else {
            w.remove(at);
        }
        out.push(w);
    }
    out
}

/// Reads an input without hints and reports acceptance after every prefix, and the failing index.
fn answers<F: Forest, P: PerfHint>(s: &mut Sess<'_, F, P>, input: &[usize]) -> (Vec<bool>, Option<usize>, bool) {
    let fresh = s.rec.is_finished();
    if !s.sof(None) {
        return (vec![], Some(0), fresh);
    }
    let mut acc = vec![s.rec.is_finished()];
    for (i, &t) in input.iter().enumerate() {
        let sym = s.g.int(t);
        if !s.read(&[(sym, i as u32)], None) {
            return (acc, Some(i), fresh);
        }
        acc.push(s.rec.is_finished());
    }
    (acc, None, fresh)
}

pub fn c01(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c01");
    let st = style(&mut rng);
    let (g, all) = match long_case(ctx, &mut rng) {
        Some((g, v)) => {
            let all = damaged(&mut rng, &g, v);
            (g, all)
        }
        None => {
            let gr = padded_or_random(ctx, &mut rng, st);
            ctx.witness = format!("grammar: {}", gr.0.show());
            let g = G::from(gr);
            let all = inputs(ctx, &mut rng, &g, true);
            (g, all)
        }
    };
    ctx.count("grammars", 1);
    for input in all {
        ctx.witness = g.show(&input);
        let want = verdict(&g.gr, &g.an, &input);
        let mut s = null_sess(&g);
        let (acc, err, fresh) = answers(&mut s, &input);
        ctx.count("inputs", 1);
        ctx.count("prefixes judged", acc.len() as u64);
        ctx.count("sentences among prefixes", want.accepts.iter().filter(|&&a| a).count() as u64);
        ctx.max("longest input", input.len() as u64);
        if fresh != g.an.nullable[g.gr.start] {
            return fail(format!("before any input, is_finished is {}", fresh), g.show(&input));
        }
        for (i, &a) in want.accepts.iter().enumerate() {
            let got = acc.get(i).copied().unwrap_or(false);
            if got != a {
                return fail(
                    format!("after {} tokens is_finished is {}, but the prefix is {} the language (error reported: {:?})",
                        i, got, if a { "in" } else { "not in" }, err),
                    g.show(&input),
                );
            }
        }
        for i in want.accepts.len()..acc.len() {
            if acc[i] {
                return fail(format!("finished after {} tokens, which begin no sentence", i), g.show(&input));
            }
        }
        // An input that is rejected is not a finished parse either.
        if err.is_some() && s.rec.is_finished() {
            return fail("finished although the last location was rejected", g.show(&input));
        }
        if want.accepts.len() > 1 {
            ctx.nontrivial(&(&g.gr, &input));
            ctx.sample(|| format!("{}; accepted after {:?}", g.show(&input), want.accepts.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c02");
    let st = style(&mut rng);
    let (g, all) = match long_case(ctx, &mut rng) {
        Some((g, v)) => {
            let all = damaged(&mut rng, &g, v);
            (g, all)
        }
        None => {
            let gr = padded_or_random(ctx, &mut rng, st);
            ctx.witness = format!("grammar: {}", gr.0.show());
            let g = G::from(gr);
            let all = inputs(ctx, &mut rng, &g, true);
            (g, all)
        }
    };
    ctx.count("grammars", 1);
    for input in all {
        ctx.witness = g.show(&input);
        let want = verdict(&g.gr, &g.an, &input);
        let mut s = null_sess(&g);
        let (acc, err, _) = answers(&mut s, &input);
        ctx.count("inputs", 1);
        ctx.count("locations judged", acc.len() as u64 + err.is_some() as u64);
        if err != want.error || acc.is_empty() {
            return fail(format!("rejected at token {:?} instead of {:?}", err, want.error), g.show(&input));
        }
        if let Some(e) = err {
            ctx.count("rejections", 1);
            if !s.rec.is_exhausted() {
                return fail("a rejected location is not exhausted", g.show(&input));
            }
            // The location is still open: any token that can follow is accepted there.
            let mut r = Earley::new(&g.gr, &g.an);
            for &t in &input[..e] {
                r.read(&[t]);
            }
            let legal = r.legal();
            if !legal.is_empty() && rng.chance(1, 2) {
                let t = *rng.pick(&legal);
                ctx.count("tokens read in place of a rejected one", 1);
                if !s.read(&[(g.int(t), 7)], None) {
                    return fail(format!("after the rejection of token {}, t{} is rejected in its place, though it can follow", e, t), g.show(&input));
                }
                r.read(&[t]);
                if s.rec.is_finished() != r.accepts() {
                    return fail(format!("after t{} in place of rejected token {}, is_finished is {}", t, e, s.rec.is_finished()), g.show(&input));
                }
            }
        }
        if input.len() > 1 {
            ctx.nontrivial(&(&g.gr, &input));
            ctx.sample(|| format!("{}; rejected at {:?}", g.show(&input), err));
        }
    }
    Ok(())
}

/// Hints on an input too long for the recording forest.
fn c03_deep(ctx: &mut Ctx, rng: &mut Rng, g: &G, v: Vec<usize>) -> CaseResult {
    for input in damaged(rng, g, v) {
        ctx.witness = show(g, &input);
        let n = input.len();
        let want = verdict(&g.gr, &g.an, &input);
        let every = rng.below(3);
        let what = |k: usize, rng: &mut Rng| {
            let given = every == 0 || rng.chance(1, 2);
            (given && k <= n).then(|| if k < n { g.int(input[k]) } else { g.dg.eof() })
        };
        let mut s = null_sess(g);
        let mut hint = what(0, rng);
        let mut err = None;
        if !s.sof(hint) {
            err = Some(-1);
        }
        let mut k = 0;
        while err.is_none() && k < n {
            if hint.is_none() && k < want.accepts.len() && s.rec.is_finished() != want.accepts[k] {
                return fail(format!("without a hint at the end of prefix {}, is_finished is {}", k, s.rec.is_finished()), show(g, &input));
            }
            hint = what(k + 1, rng);
            ctx.count("hints given", hint.is_some() as u64);
            if !s.read(&[(g.int(input[k]), k as u32)], hint) {
                err = Some(k as i64);
            }
            k += 1;
        }
        ctx.count("inputs", 1);
        let hinted = hint.is_some();
        let ok = match (want.error, err) {
            (None, None) => s.rec.is_finished() == want.accepts[n],
            (None, Some(e)) => !want.accepts[n] && hinted && e == n as i64 - 1,
            (Some(_), None) => false,
            (Some(w), Some(e)) => e == w as i64 || hinted && e == w as i64 - 1,
        };
        if !ok {
            return fail(
                format!("with hints, an error at token {:?} and is_finished {}; without hints at token {:?}", err, s.rec.is_finished(), want.error),
                show(g, &input),
            );
        }
        ctx.nontrivial(&(&g.gr, &input));
    }
    Ok(())
}

pub fn c03(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c03");
    if let Some((g, v)) = long_case(ctx, &mut rng) {
        return c03_deep(ctx, &mut rng, &g, v);
    }
    let st = style(&mut rng);
    let gr = padded_or_random(ctx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    for _ in 0..6 {
        let m = max_len(ctx, &mut rng, 24);
        let input = input(&mut rng, &g.gr, &g.an, m, true);
        let n = input.len();
        let want = verdict(&g.gr, &g.an, &input);
        // hint[k]: a hint is given while reading location k, whose successor is token k; location 0
        // reads the start marker.
        let dense = rng.below(4);
        let hint: Vec<bool> = (0..=n)
            .map(|_| match dense {
                0 => true,
                1 => rng.chance(1, 2),
                _ => rng.chance(3, 4),
            })
            .collect();
        let hint_end = rng.chance(1, 2);
        let witness = format!("{}\nhints while reading locations: {:?}", g.show(&input), hint);
        ctx.witness = witness.clone();
        let what = |k: usize| -> Option<Symbol> {
            if !hint[k] {
                None
            } else if k < n {
                Some(g.int(input[k]))
            } else if hint_end {
                Some(g.dg.eof())
            } else {
                None
            }
        };
        let mut s = spy_sess(&g);
        let mut err = None;
        if !s.sof(what(0)) {
            err = Some(-1);
        }
        let mut k = 0;
        while err.is_none() && k < n {
            if what(k).is_none() && k < want.accepts.len() && s.rec.is_finished() != want.accepts[k] {
                return fail(format!("without a hint at the end of prefix {}, is_finished is {}", k, s.rec.is_finished()), witness);
            }
            if !s.read(&[(g.int(input[k]), k as u32)], what(k + 1)) {
                err = Some(k as i64);
            }
            k += 1;
        }
        s.protocol(|| witness.clone())?;
        ctx.count("inputs", 1);
        ctx.count("hints given", hint.iter().filter(|h| **h).count() as u64);
        match (want.error, err) {
            (None, None) => {
                let sentence = want.accepts[n];
                if s.rec.is_finished() != sentence {
                    return fail(format!("with hints, is_finished is {} at the end", !sentence), witness);
                }
                if sentence {
                    ctx.count("sentences", 1);
                    let lat = plain(&input, &(0..n as u32).collect::<Vec<_>>());
                    let mut d = Derivs::new(&g.gr, &g.an, &lat);
                    let c = d.sym(g.gr.start, 0, n);
                    let (got, _) = s.total();
                    if got.modp != c.modp {
                        return fail(format!("with hints the forest has {} derivations, the input {}", got.sat, c.sat), witness);
                    }
                    ctx.nontrivial(&(&g.gr, &input, &hint));
                    ctx.sample(|| witness.clone());
                }
            }
            (None, Some(e)) => {
                // An incomplete input may be rejected at its last token when the end was hinted.
                let sentence = want.accepts[n];
                if sentence || e < n as i64 - 1 || what(n).is_none() {
                    return fail(format!("with hints, an error at token {}, without none", e), witness);
                }
            }
            (Some(w), None) => return fail(format!("with hints no error, without one at token {}", w), witness),
            (Some(w), Some(e)) => {
                ctx.count("rejections", 1);
                if e != w as i64 && e != w as i64 - 1 {
                    return fail(format!("with hints an error at token {}, without at token {}", e, w), witness);
                }
                if e == w as i64 - 1 && !hint[w] {
                    return fail(format!("an error at token {} although the next token was not hinted (without hints at {})", e, w), witness);
                }
                if e < w as i64 {
                    ctx.count("rejections one token earlier", 1);
                }
            }
        }
    }
    Ok(())
}

/// Progress after every location, the forest events, and the answers: everything that is reported.
fn transcript<P: PerfHint>(s: &mut SpySess<'_, P>, cols: &[Vec<(Symbol, u32)>], hints: &[Option<Symbol>]) -> Vec<String> {
    let mut out = vec![format!("fresh finished {}", s.rec.is_finished())];
    for (k, col) in cols.iter().enumerate() {
        s.open();
        let mut p: Vec<usize> = s.rec.predicted_symbols().map(|x| x.usize()).collect();
        p.sort();
        let mut m: Vec<(u32, u32, u32)> = s.rec.medial_items().map(|i| (i.dot, i.origin, i.node.id)).collect();
        m.sort();
        let mut tr: Vec<_> = s.rec.trace().map(|(d, o)| (d.id, d.pos, o)).collect();
        tr.sort();
        out.push(format!("location {} earleme {} predicted {:?} medial {:?} trace {:?}", k, s.rec.earleme(), p, m, tr));
        let ok = s.read(col, hints[k]);
        out.push(format!("ok {} finished {:?} exhausted {}", ok, s.rec.finished_node().map(|n| n.id), s.rec.is_exhausted()));
        if !ok {
            break;
        }
    }
    out
}

fn first_difference(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            return Some(format!("at step {}:\n  {}\n  {}", i, x.map_or("(nothing)", |s| s), y.map_or("(nothing)", |s| s)));
        }
    }
    None
}

/// Random locations to read: the start marker, then tokens, sometimes several at one location.
fn random_read(ctx: &Ctx, rng: &mut Rng, g: &G) -> (Vec<Vec<(Symbol, u32)>>, Vec<Option<Symbol>>, Vec<usize>) {
    let m = max_len(ctx, rng, 20);
    let v = input(rng, &g.gr, &g.an, m, true);
    let terms = g.an.terms();
    let mut cols = vec![vec![(g.dg.sof(), 0)]];
    for (i, &t) in v.iter().enumerate() {
        let mut c = vec![(g.int(t), i as u32)];
        if rng.chance(1, 10) {
            let u = *rng.pick(&terms);
            if u != t {
                c.push((g.int(u), 1000 + i as u32));
            }
        }
        cols.push(c);
    }
    let hints = (0..cols.len())
        .map(|k| if k < v.len() && rng.chance(1, 4) { Some(g.int(v[k])) } else { None })
        .collect();
    (cols, hints, v)
}

/// A reset after a deeply nested input.
fn c05_deep(ctx: &mut Ctx, rng: &mut Rng, g: &G, v: Vec<usize>) -> CaseResult {
    ctx.witness = show(g, &v);
    let mut s = null_sess(g);
    let stop = if rng.chance(1, 2) { v.len() } else { rng.below(v.len()) };
    answers(&mut s, &v[..stop]);
    for round in 0..4 {
        s.reset();
        ctx.count("resets", 1);
        let input = match rng.below(3) {
            0 => v[..rng.below(v.len())].to_vec(),
            1 => v.clone(),
            _ => input(rng, &g.gr, &g.an, 30, true),
        };
        let mut fresh = null_sess(g);
        let (a, b) = (answers(&mut s, &input), answers(&mut fresh, &input));
        ctx.count("locations compared", a.0.len() as u64);
        if a != b {
            return fail(format!("reset {} times, a recognizer answers differently from a new one, stopping at {:?} instead of {:?}", round + 1, a.1, b.1), show(g, &v));
        }
        ctx.nontrivial(&(&g.gr, &input, round));
    }
    Ok(())
}

/// Values of a sentence after a history of resets, in the middle of completions too, with a real forest.
fn c05_values<B: Bocage>(ctx: &mut Ctx, rng: &mut Rng, g: &G, v: &[usize]) -> CaseResult {
    let mut s = Sess::with(g, B::build(g, None), DefaultPerfHint::new(8192));
    let mut history = vec![];
    for _ in 0..rng.range(1, 4) {
        let (cols, hints, v) = random_read(ctx, rng, g);
        let stop = rng.below(cols.len() + 1);
        let mut how = format!("read {} locations of [{}]", stop, show_input(&v));
        for k in 0..stop {
            if !s.read(&cols[k], hints[k]) {
                how.push_str(", rejected");
                break;
            }
        }
        if rng.chance(3, 4) {
            s.open();
            for &(x, v) in cols.get(s.t).unwrap_or(&vec![]) {
                s.rec.scan(x, v);
            }
            let (whole, parts) = (rng.below(3), rng.range(1, 3));
            for _ in 0..whole {
                if let Some(mut group) = s.rec.next_sum() {
                    group.complete_entire_sum();
                }
            }
            if let Some(mut group) = s.rec.next_sum() {
                let mut n = 0;
                while n < parts {
                    let Some(item) = group.next_summand() else { break };
                    group.push_summand(item);
                    n += 1;
                }
                how.push_str(&format!(", stopped after {} items of a group", n));
                ctx.count("resets in the middle of a group", 1);
            }
        }
        s.reset();
        history.push(how);
    }
    let vals: Vec<u32> = (0..v.len() as u32).collect();
    let lat = plain(v, &vals);
    let witness = format!("grammar: {}\nhistory of one recognizer with the {}, each followed by a reset: {:#?}\nthen read: {}", g.gr.show(), B::NAME, history, show_input(v));
    ctx.witness = witness.clone();
    let mut ok = s.sof(None);
    for (k, &t) in v.iter().enumerate() {
        ok = ok && s.read(&[(g.int(t), k as u32)], None);
    }
    let want = run::<B>(g, &lat, None, false, false);
    let got = if ok {
        s.rec.finished_node().map(|n| {
            let a = Act::new(g);
            let mut b = s.rec.into_forest();
            let values = b.eval(a.clone(), n);
            Outcome { values, calls: a.take() }
        })
    } else {
        None
    };
    ctx.count("values after resets compared", 1);
    if got != want {
        return fail(format!("after resets {:?}, with a new recognizer {:?}", got, want), witness);
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c05");
    if let Some((g, v)) = long_case(ctx, &mut rng) {
        return c05_deep(ctx, &mut rng, &g, v);
    }
    let st = style(&mut rng);
    let gr = padded_or_random(ctx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    let m = max_len(ctx, &mut rng, 20);
    if let Some(v) = sentence(&mut rng, &g.gr, &g.an, m) {
        let vals: Vec<u32> = (0..v.len() as u32).collect();
        let lat = plain(&v, &vals);
        if Derivs::new(&g.gr, &g.an, &lat).sym(g.gr.start, 0, v.len()).sat <= 50 {
            c05_values::<simple_bocage::Bocage>(ctx, &mut rng, &g, &v)?;
            c05_values::<compact_bocage::Bocage>(ctx, &mut rng, &g, &v)?;
        }
    }
    let mut s = spy_sess(&g);
    let mut history = vec![];
    for round in 0..rng.range(2, 7) {
        // Disturb, then reset.
        let (cols, hints, v) = random_read(ctx, &mut rng, &g);
        let stop = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => cols.len(),
            _ => rng.below(cols.len() + 1),
        };
        let mut how = format!("read {} locations of [{}]", stop, show_input(&v));
        for k in 0..stop {
            if !s.read(&cols[k], hints[k]) {
                how.push_str(", rejected");
                break;
            }
        }
        match rng.below(6) {
            0 => {
                // Stop with an open location and tokens read in it.
                s.open();
                for _ in 0..rng.below(3) {
                    let t = *rng.pick(&g.an.terms());
                    s.rec.scan(g.int(t), 5);
                }
                how.push_str(", location left open");
            }
            1 => {
                let t = *rng.pick(&g.an.terms());
                s.rec.lookahead().set_hint(g.int(t));
                how.push_str(", hint left pending");
            }
            2 => {
                // Completions left undone.
                s.open();
                if let Some(c) = cols.get(s.t) {
                    for &(x, v) in c {
                        s.rec.scan(x, v);
                    }
                    let n = rng.below(3);
                    for _ in 0..n {
                        if let Some(mut group) = s.rec.next_sum() {
                            group.complete_entire_sum();
                        }
                    }
                }
                how.push_str(", completions left undone");
            }
            _ => {}
        }
        s.reset();
        ctx.count("resets", 1);
        if rng.chance(1, 8) {
            s.reset();
            how.push_str(", reset twice");
        }
        history.push(how);
        let witness = || format!("grammar: {}\nhistory of one recognizer, each followed by a reset: {:#?}", g.gr.show(), history);
        ctx.witness = witness();
        // Now the same input with it and with a new one.
        let (cols, hints, v) = random_read(ctx, &mut rng, &g);
        let mut fresh = spy_sess(&g);
        let a = transcript(&mut s, &cols, &hints);
        let b = transcript(&mut fresh, &cols, &hints);
        ctx.count("locations compared", a.len() as u64);
        if let Some(d) = first_difference(&a, &b) {
            return fail(format!("a reset recognizer and a new one differ {}", d), format!("{}\nthen read: {}", witness(), show_input(&v)));
        }
        {
            let (la, lb) = (s.log(), fresh.log());
            if !la.same(&lb) {
                return fail("a reset recognizer and a new one build different forests", format!("{}\nthen read: {}", witness(), show_input(&v)));
            }
            ctx.count("forest events compared", la.count);
        }
        s.protocol(witness)?;
        if round > 0 && v.len() > 1 {
            ctx.nontrivial(&(&g.gr, &history, &v));
            ctx.sample(|| format!("grammar: {}; history {:?}; then {}", g.gr.show(), history, show_input(&v)));
        }
        if rng.chance(1, 2) {
            s.reset();
        } else {
            history.push(format!("read [{}]", show_input(&v)));
            s.reset();
        }
    }
    Ok(())
}

pub fn c08(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c08");
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    for _ in 0..3 {
        let m = max_len(ctx, &mut rng, 30);
        let input = input(&mut rng, &g.gr, &g.an, m, true);
        let witness = || g.show(&input);
        ctx.witness = witness();
        let mut cols = vec![vec![(g.dg.sof(), 0)]];
        cols.extend(input.iter().enumerate().map(|(i, &t)| vec![(g.int(t), i as u32)]));
        let none = vec![None; cols.len()];
        let mut base = spy_sess(&g);
        let want = transcript(&mut base, &cols, &none);
        let want_ev: Vec<Ev> = std::mem::take(&mut base.spy.as_ref().unwrap().0.borrow_mut().events);
        let summary = base.log().summary();
        drop(base);
        ctx.count("inputs", 1);
        ctx.count("forest events", summary.0);
        let judge = |name: &str, got: Vec<String>, l: &Log, ctx: &mut Ctx| -> CaseResult {
            ctx.count("runs compared", 1);
            if let Some(d) = first_difference(&want, &got) {
                return fail(format!("{} differs from the default {}", name, d), witness());
            }
            if summary != l.summary() || want_ev != l.events {
                return fail(format!("{} builds another forest than the default", name), witness());
            }
            Ok(())
        };
        {
            let mut s = spy_sess(&g);
            let t = transcript(&mut s, &cols, &none);
            let l = s.log();
            judge("a second run", t, &l, ctx)?;
        }
        for _ in 0..3 {
            let limit = *rng.pick(&[0usize, 1, 500, 999, 1000, 8192, 499_999, 500_000, 2_000_001, 10_000_000]);
            let p = if rng.chance(1, 2) {
                DefaultPerfHint::new(limit)
            } else {
                DefaultPerfHint::with_token_count_and_num_syms(limit, rng.below(100), rng.below(300))
            };
            let mut s = spy_sess_with(&g, p);
            let t = transcript(&mut s, &cols, &none);
            let l = s.log();
            judge(&format!("the hint of {} bytes", limit), t, &l, ctx)?;
        }
        {
            let caps = Caps(rng.below(3), rng.below(3), rng.below(3));
            let mut s = spy_sess_with(&g, caps);
            let t = transcript(&mut s, &cols, &none);
            let l = s.log();
            judge("the policy with tiny capacities", t, &l, ctx)?;
        }
        {
            // A policy without lookahead pays no attention to hints, not even wrong ones.
            let mut s = spy_sess_with(&g, NoLookahead);
            let lies: Vec<Option<Symbol>> = (0..cols.len())
                .map(|_| if rng.chance(1, 2) { Some(g.int(rng.below(g.gr.nsyms))) } else { None })
                .collect();
            let t = transcript(&mut s, &cols, &lies);
            let l = s.log();
            judge("the policy without lookahead", t, &l, ctx)?;
        }
        // Other forests: the same answers.
        let answer = verdict(&g.gr, &g.an, &input);
        let check = |name: &str, a: (Vec<bool>, Option<usize>, bool), ctx: &mut Ctx| -> CaseResult {
            ctx.count("runs compared", 1);
            if a.0 != answer.accepts || a.1 != answer.error {
                return fail(format!("with {}: accepted {:?} error {:?}, expected {:?} {:?}", name, a.0, a.1, answer.accepts, answer.error), witness());
            }
            Ok(())
        };
        let a = answers(&mut Sess::with(&g, NullForest, DefaultPerfHint::default()), &input);
        check("no forest", a, ctx)?;
        let a = answers(&mut Sess::with(&g, simple_bocage::Bocage::new(&g.dg), NoLookahead), &input);
        check("the simple bocage", a, ctx)?;
        let a = answers(&mut Sess::with(&g, simple_bocage::Bocage::with_capacity(&g.dg, 0), DefaultPerfHint::new(1)), &input);
        check("the simple bocage without capacity", a, ctx)?;
        let a = answers(&mut Sess::with(&g, compact_bocage::Bocage::new(&g.dg), DefaultPerfHint::new(8192)), &input);
        check("the compact bocage", a, ctx)?;
        let a = answers(&mut Sess::with(&g, compact_bocage::Bocage::with_capacity(&g.dg, 0), NoLookahead), &input);
        check("the compact bocage without capacity", a, ctx)?;
        // A recognizer that owns its grammar.
        let mut r = gearley_recognizer::Recognizer::new(g.dg.clone());
        let mut got = (vec![], None, true);
        for (k, col) in cols.iter().enumerate() {
            r.begin_earleme();
            r.scan(col[0].0, col[0].1);
            if !r.end_earleme() {
                got.1 = Some(k.saturating_sub(1));
                break;
            }
            got.0.push(r.is_finished());
        }
        check("an owned grammar", got, ctx)?;
        if input.len() > 1 {
            ctx.nontrivial(&(&g.gr, &input));
            ctx.sample(&witness);
        }
    }
    Ok(())
}

/// Arbitrary bounded grammars, cyclic ones too: is an answer given, and without a panic?
pub fn c21(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c21");
    if ctx.idx == 0 {
        return c21_cycle(ctx);
    }
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    let mut rec = gearley_recognizer::Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
    let mut history: Vec<String> = vec![];
    // Questions at every point of a parse.
    let m = max_len(ctx, &mut rng, 20);
    let v = input(&mut rng, &g.gr, &g.an, m, true);
    let witness = g.show(&v);
    ctx.witness = witness.clone();
    let asked = guarded(|| {
        let mut n = ask(&rec, false);
        for part in 0..2 {
            for k in 0..=v.len() {
                rec.begin_earleme();
                n += ask(&rec, true);
                let s = if k == 0 { g.dg.sof() } else { g.int(v[k - 1]) };
                rec.scan(s, k as u32);
                n += ask(&rec, k < 6);
                let ok = rec.end_earleme();
                n += ask(&rec, false);
                if !ok || (part == 0 && rng.chance(1, 8)) {
                    break;
                }
            }
            if rng.chance(1, 2) {
                rec.reset();
            } else {
                rec = gearley_recognizer::Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
            }
            n += ask(&rec, false);
        }
        n
    });
    match asked {
        Ok(n) => ctx.count("questions in the middle of a parse", n),
        Err((loc, msg)) => return fail(format!("a question in the middle of a parse panics at {}: {}", loc, msg), witness),
    }
    for _ in 0..rng.range(1, 6) {
        let m = max_len(ctx, &mut rng, 1000);
        let mut v = input(&mut rng, &g.gr, &g.an, m, true);
        if rng.chance(1, 6) {
            // Any declared symbols at all, nonterminals too.
            v = (0..rng.below(8)).map(|_| rng.below(g.gr.nsyms)).collect();
        }
        history.push(show_input(&v));
        let witness = format!("grammar: {}\nhistory: {:?}", g.gr.show(), history);
        ctx.witness = witness.clone();
        let toks: Vec<Symbol> = v.iter().map(|&t| Symbol::from_raw(t as u32)).collect();
        let r = guarded(|| rec.parse(&toks));
        ctx.count("calls of parse", 1);
        let r = match r {
            Err((loc, msg)) => return fail(format!("parse panics at {}: {}", loc, msg), witness),
            Ok(r) => r,
        };
        match crate::helpers::answer(r.as_ref().map(|b| *b)) {
            Answer::Done(true) => ctx.count("finished", 1),
            Answer::Done(false) => ctx.count("unfinished", 1),
            Answer::Parse(..) => ctx.count("parse errors", 1),
            a => return fail(format!("an error of another kind from parse: {:?}", a), witness),
        }
        // Error values can be shown, and the recognizer can be asked afterwards.
        let q = guarded(|| {
            let shown = match &r {
                Err(e) => format!("{} {:?}", e, e),
                Ok(_) => String::new(),
            };
            let _ = (rec.is_finished(), rec.is_exhausted(), rec.earleme(), rec.finished_node());
            shown.len() + format!("{:?}", rec).len()
        });
        if let Err((loc, msg)) = q {
            return fail(format!("a question after parse panics at {}: {}", loc, msg), witness);
        }
        if v.len() > 1 {
            ctx.nontrivial(&(&g.gr, &history));
            ctx.sample(|| witness.clone());
        }
        rec.reset();
    }
    // Evaluate whatever there is, with both bocages; any value or list of values is an answer.
    let m = max_len(ctx, &mut rng, 14);
    let v = input(&mut rng, &g.gr, &g.an, m, false);
    let witness = g.show(&v);
    ctx.witness = witness.clone();
    crate::eval::evaluate_both_quietly(&g, &v, ctx)?;
    Ok(())
}

/// Asks everything that may be asked; reports are about a location that was begun.
fn ask<F: Forest<NodeRef = gearley_forest::node_handle::NodeHandle>>(
    rec: &gearley_recognizer::Recognizer<&DefaultGrammar, F, DefaultPerfHint>,
    reports: bool,
) -> u64 {
    let _ = (rec.is_finished(), rec.finished_node(), rec.earleme(), rec.is_exhausted());
    if reports {
        let p = rec.predicted_symbols().count();
        let m = rec.medial_items().count();
        let _ = (rec.trace().count(), rec.events().count(), rec.minimal_distances().count(), p + m);
        return 9;
    }
    4
}

/// A grammar in which a symbol derives itself. The search for an end is cut off.
fn c21_cycle(ctx: &mut Ctx) -> CaseResult {
    let gr = parse_gr("S=S|a");
    let g = G::new(gr, "cycle".into());
    let spy = crate::spy::Spy::new(&g.dg);
    spy.0.borrow_mut().budget = 100_000;
    spy.0.borrow_mut().keep_events = false;
    let mut s = Sess::with(&g, spy.clone(), DefaultPerfHint::new(8192));
    s.spy = Some(spy);
    ctx.count("cyclic grammars", 1);
    let a = g.int(1);
    let r = guarded(|| {
        s.sof(None);
        s.read(&[(a, 0)], None)
    });
    match r {
        Ok(true) => Ok(()),
        Ok(false) => fail("S ::= S | a rejects a", g.show(&[1])),
        Err((loc, what)) if loc == "monitor" && what.starts_with("BUDGET") => {
            ctx.finding("cycle:S=S|a:a", "reading `a` with S ::= S | a does not end: 100000 forest events");
            Ok(())
        }
        Err((loc, what)) => fail(format!("panic at {}: {}", loc, what), g.show(&[1])),
    }
}
