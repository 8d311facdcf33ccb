//! C19: small runs of everything, for the undefined-behaviour interpreter and the address sanitizer.
//! Only those judge here: a wrong answer is the business of another check.

use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use common::{guarded, CaseResult, Ctx, Rng};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};

use crate::drive::*;
use crate::eval::{Act, Bocage};
use crate::gram::*;
use crate::parse::style;

/// Reads an input with one bocage: resets, alternatives, hints, completions by hand, evaluation.
fn pipeline<B: Bocage>(g: &G, v: &[usize], rng: &mut Rng, ctx: &mut Ctx) {
    let cap = *rng.pick(&[None, Some(0), Some(1), Some(7)]);
    let mut s = Sess::with(g, B::build(g, cap), DefaultPerfHint::new(*rng.pick(&[0, 1, 8192])));
    if rng.chance(1, 3) {
        s.sof(None);
        if let Some(&t) = v.first() {
            s.read(&[(g.int(t), 3)], None);
        }
        s.reset();
    }
    let hints = rng.chance(1, 2);
    let by_hand = rng.chance(1, 3);
    let double = rng.chance(1, 4);
    let _ = s.rec.finished_node();
    let mut ok = s.sof(None);
    for (k, &t) in v.iter().enumerate() {
        if !ok {
            break;
        }
        let mut toks = vec![(g.int(t), *rng.pick(&[0, k as u32, 255, 65_536, u32::MAX]))];
        if double {
            toks.push((g.int(*rng.pick(&g.an.terms())), 5));
        }
        let h = if hints { v.get(k + 1).map(|&t| g.int(t)) } else { None };
        ok = if by_hand {
            s.read_by_hand(&toks, h, &mut |sym, _, _| match sym.usize() % 5 {
                0 => Judgement::Items(Box::new(|_| true)),
                _ => Judgement::Entire,
            })
        } else {
            s.read(&toks, h)
        };
        ctx.count("locations read", 1);
        if rng.chance(1, 3) {
            s.open();
            ctx.count("progress items read", s.rec.medial_items().count() as u64 + s.rec.predicted_symbols().count() as u64 + s.rec.trace().count() as u64);
        }
    }
    if let Some(n) = s.rec.finished_node() {
        let mut b = s.rec.into_forest();
        for _ in 0..2 {
            let mut a = Act::new(g);
            a.limit(2000);
            let values = b.eval(a.clone(), n);
            ctx.count("values evaluated", values.len() as u64);
            ctx.count("action calls", a.take().len() as u64);
        }
    }
}

pub fn c19(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c19");
    let k = ctx.idx % 4;
    let gr = match k {
        0 => {
            let (name, text) = FAMILIES[(ctx.idx as usize / 4) % FAMILIES.len()];
            (parse_gr(text), name.to_string())
        }
        _ => {
            // The interpreter is slow, so it gets small grammars only.
            let limit = if cfg!(miri) { 30 } else { usize::MAX };
            loop {
                let st = style(&mut rng);
                let gr = random_gr(&mut rng, st);
                if gr.0.rules.iter().map(|r| r.1.len() + 1).sum::<usize>() <= limit && gr.0.nsyms <= limit {
                    break gr;
                }
            }
        }
    };
    if !in_domain(&gr.0) {
        return Ok(());
    }
    ctx.witness = format!("grammar: {}", gr.0.show());
    let small = cfg!(miri);
    let _ = guarded(|| {
        let mut g = G::from(gr);
        ctx.count("grammars compiled", 1);
        for _ in 0..if small { 1 } else { 6 } {
            let v = input(&mut rng, &g.gr, &g.an, if small { 4 } else { 12 }, k == 3);
            ctx.witness = g.show(&v);
            let seed = rng.next();
            let _ = guarded(|| pipeline::<simple_bocage::Bocage>(&g, &v, &mut Rng::new(seed), ctx));
            let _ = guarded(|| pipeline::<compact_bocage::Bocage>(&g, &v, &mut Rng::new(seed), ctx));
            ctx.nontrivial(&(&g.gr, &v));
            if v.len() > 1 {
                ctx.sample(|| g.show(&v));
            }
            if !small || k == 1 {
                let _ = guarded(|| {
                    let toks: Vec<cfg_symbol::Symbol> = v.iter().map(|&t| cfg_symbol::Symbol::from_raw(t as u32)).collect();
                    let mut rec = Recognizer::with_forest_and_policy(&g.dg, gearley_forest::NullForest, DefaultPerfHint::new(8192));
                    let _ = rec.parse(&toks);
                    ctx.count("helper calls", 1);
                    let names: Vec<String> = v.iter().map(|&t| g.gr.name(t, &g.an)).collect();
                    let _ = parse_terminal_list(g.gr.cfg().0, g.dg.clone(), names.iter().map(|s| &s[..]));
                    let mut loaded = AdvancedGrammar::default();
                    loaded.cfg = g.gr.cfg().0;
                    let mut map = LexerMap::default();
                    map.ranges = g.an.terms().iter().map(|&t| ('a', (b'a' + t as u8 % 26) as char, cfg_symbol::Symbol::from_raw(t as u32))).collect();
                    loaded.lexer_map = map;
                    let text: String = v.iter().map(|&t| (b'a' + t as u8 % 26) as char).collect();
                    let _ = parse_tokenizing(loaded, g.dg.clone(), &text);
                    ctx.count("helper calls", 2);
                });
            }
            if !small || k == 2 {
                let copy: Option<DefaultGrammar> = if rng.chance(1, 2) {
                    serde_json::from_str(&serde_json::to_string(&g.dg).unwrap()).ok()
                } else {
                    miniserde::json::from_str(&miniserde::json::to_string(&g.dg)).ok()
                };
                if let Some(dg) = copy {
                    ctx.count("copies made", 1);
                    g.dg = dg;
                    let _ = guarded(|| pipeline::<compact_bocage::Bocage>(&g, &v, &mut Rng::new(seed), ctx));
                }
            }
        }
        for i in 0..g.dg.num_syms() as u32 {
            let s = cfg_symbol::Symbol::from_raw(i);
            let _ = (g.dg.prediction_row(s)[0], g.dg.completions(s).len(), g.dg.to_external(s));
        }
    });
    Ok(())
}
