//! C06, C07, C09, C10: what the forest is told.

use std::collections::{BTreeMap, BTreeSet};

use common::{fail, hash64, CaseResult, Ctx, Rng, Tier};
use gearley_grammar::Grammar;
use cfg_symbol::Symbol;

use crate::deep::{long_case, padded_or_random, large_or_random};
use crate::drive::*;
use crate::eval::{judge_outcome, Act, Bocage, Outcome};
use crate::gram::*;
use crate::parse::style;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use crate::refr::*;

const FEW: u64 = 40;

fn len_for(ctx: &Ctx, rng: &mut Rng, cap: usize) -> usize {
    if rng.chance(1, 700) {
        return rng.range(258, 290);
    }
    let n = match rng.below(10) {
        0 => {
            if ctx.tier == Tier::Thorough {
                36
            } else {
                24
            }
        }
        1 | 2 => 16,
        _ => 10,
    };
    n.min(cap)
}

fn values(rng: &mut Rng, n: usize) -> Vec<u32> {
    let big = rng.chance(1, 3);
    (0..n).map(|i| if big { rng.next() as u32 } else { i as u32 }).collect()
}

/// Compares the derivations of the whole input: by number, and one by one when they are few.
fn compare_derivations<P: gearley_recognizer::perf_hint::PerfHint>(
    s: &mut SpySess<'_, P>,
    d: &mut Derivs<'_>,
    n: usize,
    ctx: &mut Ctx,
    witness: &dyn Fn() -> String,
) -> CaseResult {
    let want = d.sym(d.g.start, 0, n);
    let (got, parses) = s.total();
    ctx.count("derivation counts compared", 1);
    ctx.max("largest number of derivations compared", want.sat);
    if got.modp != want.modp || got.sat != want.sat {
        return fail(format!("the forest encodes {} derivations, the input has {}", got.sat, want.sat), witness());
    }
    if parses > 1 {
        ctx.count("inputs whose parses are in more than one node", 1);
    }
    if want.sat > 1 {
        ctx.count("ambiguous inputs", 1);
    }
    if want.sat >= 1 && want.sat <= FEW && n > 0 {
        let mut trees = d.trees(d.g.start, 0, n);
        trees.sort();
        match s.trees() {
            Err(e) => return fail(e, witness()),
            Ok(have) => {
                ctx.count("derivation trees compared", trees.len() as u64);
                if have != trees {
                    let missing: Vec<_> = trees.iter().filter(|t| !have.contains(t)).collect();
                    let extra: Vec<_> = have.iter().filter(|t| !trees.contains(t)).collect();
                    return fail(format!("derivations missing from the forest: {:?}, wrong ones in it: {:?} (of {})", missing, extra, trees.len()), witness());
                }
            }
        }
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) -> CaseResult {
    if ctx.idx == 0 {
        return c10_split(ctx);
    }
    let mut rng = ctx.rng("c10");
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    for _ in 0..5 {
        let m = len_for(ctx, &mut rng, 1000);
        let input = if rng.chance(4, 5) {
            match sentence(&mut rng, &g.gr, &g.an, m) {
                Some(v) => v,
                None => continue,
            }
        } else {
            input(&mut rng, &g.gr, &g.an, m, true)
        };
        let n = input.len();
        let vals = values(&mut rng, n);
        let witness = || format!("{}\nvalues: {:?}", g.show(&input), vals);
        ctx.witness = witness();
        let mut s = spy_sess(&g);
        if s.rec.is_finished() {
            // The empty input, before anything is read: one derivation.
            let t = s.trees();
            if t != Ok(vec![format!("~{}", g.gr.start)]) {
                return fail(format!("the parse of nothing is {:?}", t), witness());
            }
        }
        let mut ok = s.sof(None);
        for (i, &t) in input.iter().enumerate() {
            if !ok {
                break;
            }
            ok = s.read(&[(g.int(t), vals[i])], None);
        }
        s.protocol(witness)?;
        ctx.count("inputs", 1);
        {
            let l = s.log();
            ctx.count("forest events judged", l.count);
            ctx.count("sums", l.sums);
            ctx.count("products", l.products);
            ctx.count("leaves", l.leaves);
            if l.leaves != (s.t + !ok as usize) as u64 {
                return fail(format!("{} leaves for {} locations", l.leaves, s.t), witness());
            }
        }
        let lat = plain(&input, &vals);
        let mut d = Derivs::new(&g.gr, &g.an, &lat);
        if !ok {
            if !d.sym(g.gr.start, 0, n).is_zero() {
                return fail("a sentence is rejected", witness());
            }
            continue;
        }
        let first = s.rec.finished_node();
        if n == 0 {
            // A derivation of nothing is only the start symbol itself.
            let (got, _) = s.total();
            if got.sat != g.an.nullable[g.gr.start] as u64 {
                return fail(format!("the empty input has {} derivations", got.sat), witness());
            }
            if let Some(f) = first {
                let l = s.log();
                let p = crate::spy::Reader::new(&g.dg, &l).parses(f.id);
                if p != [Ok(format!("~{}", g.gr.start))] {
                    return fail(format!("the parse of the empty input is {:?}", p), witness());
                }
            }
            continue;
        }
        compare_derivations(&mut s, &mut d, n, ctx, &witness)?;
        let want = d.sym(g.gr.start, 0, n);
        if first.is_some() != (want.sat > 0) {
            return fail(format!("finished_node is {:?} for an input with {} derivations", first, want.sat), witness());
        }
        if let Some(f) = first {
            ctx.count("sentences", 1);
            ctx.nontrivial(&(&g.gr, &input));
            ctx.sample(|| format!("{}; {} derivations", witness(), want.sat));
            // The node that is handed out, too.
            let l = s.log();
            let c = crate::spy::Reader::new(&g.dg, &l).count(f.id);
            ctx.count("finished nodes with all derivations", 1);
            if c != want {
                return fail(format!("the finished node has {} derivations of {}", c.sat, want.sat), witness());
            }
        }
    }
    Ok(())
}

/// A fixed input on which a symbol must wait for another one with the same origin.
fn c10_split(ctx: &mut Ctx) -> CaseResult {
    // `B` is declared before `A`, so the unit rule A ::= B leads to an earlier symbol.
    let gr = Gr { nsyms: 3, start: 1, rules: vec![(0, vec![2]), (1, vec![0]), (1, vec![2])] };
    let g = G::new(gr, "unit rule to an earlier symbol".into());
    let mut s = spy_sess(&g);
    s.sof(None);
    s.read(&[(g.int(2), 0)], None);
    let f = s.rec.finished_node();
    let lat = plain(&[2], &[0]);
    let mut d = Derivs::new(&g.gr, &g.an, &lat);
    let w = g.show(&[2]);
    compare_derivations(&mut s, &mut d, 1, ctx, &|| w.clone())?;
    let l = s.log();
    let c = match f {
        Some(f) => crate::spy::Reader::new(&g.dg, &l).count(f.id),
        None => return fail("not finished", w),
    };
    if c.sat != 2 {
        return fail(format!("the finished node has {} of 2 derivations", c.sat), w);
    }
    Ok(())
}

fn random_lattice(rng: &mut Rng, g: &G, base: &[usize]) -> Lattice {
    let terms = g.an.terms();
    let vals = values(rng, base.len());
    let p = rng.range(1, 3) as u64;
    // The tokens of a location may have a common value.
    let alike = rng.chance(1, 3);
    // A token may come several times, with different values.
    let repeat = rng.chance(1, 3);
    base.iter()
        .enumerate()
        .map(|(i, &t)| {
            let mut col = vec![(t, vals[i])];
            // Long inputs get few alternatives; the number of derivations grows with them.
            let here = base.len() <= 60 || rng.chance(1, 60);
            while here && rng.chance(p, 4) && col.len() < terms.len() + 3 * repeat as usize {
                let u = *rng.pick(&terms);
                if col.iter().all(|c| c.0 != u) || (repeat && !alike) {
                    let v = match alike {
                        true => vals[i],
                        false => vals[i].wrapping_add(100_000 * col.len() as u32),
                    };
                    col.push((u, v));
                }
            }
            rng.shuffle(&mut col);
            col
        })
        .collect()
}

pub fn c06(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c06");
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    for _ in 0..4 {
        let m = len_for(ctx, &mut rng, 14);
        let base = input(&mut rng, &g.gr, &g.an, m, true);
        let lat = random_lattice(&mut rng, &g, &base);
        let n = lat.len();
        let witness = || format!("grammar ({}): {}\ntokens by location: {}", g.name, g.gr.show(), show_lattice(&lat));
        ctx.witness = witness();
        let mut e = Earley::new(&g.gr, &g.an);
        let mut s = spy_sess(&g);
        let mut ok = s.sof(None);
        let mut k = 0;
        while ok && k < n {
            // The same tokens in any order, each read once.
            let want = e.read(&lat[k].iter().map(|t| t.0).collect::<Vec<_>>());
            ok = s.read(&internal(&g, &lat[k]), None);
            ctx.count("locations judged", 1);
            if lat[k].len() > 1 {
                ctx.count("locations with several tokens", 1);
            }
            if ok != want {
                return fail(format!("location {} is {}", k, if ok { "accepted" } else { "rejected" }), witness());
            }
            if !ok {
                break;
            }
            k += 1;
            if s.rec.is_finished() != e.accepts() {
                return fail(format!("after location {} is_finished is {}", k, s.rec.is_finished()), witness());
            }
        }
        s.protocol(witness)?;
        ctx.count("lattices", 1);
        if ok && n > 0 {
            let mut d = Derivs::new(&g.gr, &g.an, &lat);
            compare_derivations(&mut s, &mut d, n, ctx, &witness)?;
            // Another order of the same tokens.
            let mut lat2 = lat.clone();
            for c in &mut lat2 {
                rng.shuffle(c);
            }
            let mut s2 = spy_sess(&g);
            s2.sof(None);
            for c in &lat2 {
                if !s2.read(&internal(&g, c), None) {
                    return fail("another order of the same tokens is rejected", witness());
                }
            }
            let (a, b) = (s.total().0, s2.total().0);
            if a != b {
                return fail(format!("{} derivations in one order, {} in another", a.sat, b.sat), witness());
            }
            ctx.count("orders compared", 1);
            crate::eval::judge_lattice(&g, &lat, &mut rng, &witness(), ctx)?;
            ctx.nontrivial(&(&g.gr, &lat));
            ctx.sample(witness);
        }
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c07");
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    // By hand, with everything included.
    for _ in 0..2 {
        let m = len_for(ctx, &mut rng, 1000);
        let base = input(&mut rng, &g.gr, &g.an, m, true);
        let lat = random_lattice(&mut rng, &g, &base);
        let witness = || format!("grammar ({}): {}\ntokens by location: {}", g.name, g.gr.show(), show_lattice(&lat));
        ctx.witness = witness();
        let mut auto = spy_sess(&g);
        let mut hand = spy_sess(&g);
        let hints = rng.chance(1, 3);
        let mut cols = vec![vec![(g.dg.sof(), 0)]];
        cols.extend(lat.iter().map(|c| internal(&g, c)));
        for (k, col) in cols.iter().enumerate() {
            // Hints only where the next location has a single token.
            let hint = cols.get(k + 1).filter(|c| hints && c.len() == 1).map(|c| c[0].0);
            let a = auto.read(col, hint);
            let style = rng.below(6);
            let mut groups = 0;
            let h = hand.read_by_hand(col, hint, &mut |_, _, _| {
                groups += 1;
                match style {
                    0 | 1 => Judgement::Entire,
                    2 => match rng.below(4) {
                        0 => Judgement::Rest,
                        1 => Judgement::Entire,
                        _ => Judgement::Begun(rng.below(3)),
                    },
                    _ => Judgement::Items(Box::new(|_| true)),
                }
            });
            ctx.count("locations compared", 1);
            ctx.count("groups driven by hand", groups);
            if a != h {
                return fail(format!("location {}: automatic {}, by hand {}", k, a, h), witness());
            }
            if !a {
                break;
            }
            if auto.rec.is_finished() != hand.rec.is_finished() {
                return fail(format!("location {}: finished {}, by hand {}", k, auto.rec.is_finished(), hand.rec.is_finished()), witness());
            }
            auto.open();
            hand.open();
            let look = |s: &SpySess<'_>| {
                let m: Vec<(u32, u32, u32)> = s.rec.medial_items().map(|i| (i.dot, i.origin, i.node.id)).collect();
                let p: Vec<_> = s.rec.predicted_symbols().collect();
                (m, p, s.rec.earleme())
            };
            if look(&auto) != look(&hand) {
                return fail(format!("progress differs after location {}", k), witness());
            }
        }
        hand.protocol(witness)?;
        if !auto.log().same(&hand.log()) {
            return fail("automatic and manual completion build different forests", witness());
        }
        ctx.count("forest events compared", auto.log().count);
    }
    // By hand, leaving out groups or rules.
    for _ in 0..3 {
        let m = len_for(ctx, &mut rng, 14);
        let Some(base) = sentence(&mut rng, &g.gr, &g.an, m) else { continue };
        let vals = values(&mut rng, base.len());
        let lat = plain(&base, &vals);
        let n = lat.len();
        let salt = rng.next();
        let (gp, ip) = match rng.below(4) {
            0 => (0u64, rng.range(2, 30) as u64),
            1 => (rng.range(2, 30) as u64, 0),
            _ => (rng.range(1, 12) as u64, rng.range(1, 12) as u64),
        };
        // Decided by symbol and span, or rule and span, all alike for the reference.
        let skip_group = move |x: usize, i: usize, j: usize| hash64(&(salt, 1, x, i, j)) % 100 < gp;
        let skip_rule = move |r: usize, i: usize, j: usize| hash64(&(salt, 2, r, i, j)) % 100 < ip;
        let witness = || {
            let mut out = vec![];
            for i in 0..n {
                for j in i + 1..=n {
                    for x in 0..g.gr.nsyms {
                        if !g.an.is_term[x] && skip_group(x, i, j) {
                            out.push(format!("group N{} {}..{}", x, i, j));
                        }
                    }
                    for r in 0..g.gr.rules.len() {
                        if skip_rule(r, i, j) {
                            out.push(format!("items of rule {} {}..{}", r, i, j));
                        }
                    }
                }
            }
            format!("{}\nvalues {:?}\nleft out: {:?}", g.show(&base), vals, out)
        };
        ctx.witness = g.show(&base);
        let mut d = Derivs::new(&g.gr, &g.an, &lat);
        d.no_sym = Box::new(skip_group);
        d.no_rule = Box::new(skip_rule);
        let abandon = rng.chance(1, 2);
        let mut s = spy_sess(&g);
        let mut left_out = 0u64;
        let mut ok = s.sof(None);
        let mut k = 0;
        while ok && k < n {
            let gref = &g;
            let dg = &g.dg;
            ok = s.read_by_hand(&internal(&g, &lat[k]), None, &mut |sym, i, j| {
                let ext = gref.ext(sym);
                // Locations count the start marker; spans of the source do not.
                if let Some(x) = ext {
                    if skip_group(x, i - 1, j - 1) {
                        left_out += 1;
                        return Judgement::Skip;
                    }
                }
                let keep = Box::new(move |dot| {
                    let o = dg.external_origin(dot);
                    o.is_null() || !skip_rule(o.id as usize, i - 1, j - 1)
                });
                if abandon { Judgement::Abandon(keep) } else { Judgement::Items(keep) }
            });
            if !ok {
                break;
            }
            k += 1;
            ctx.count("locations judged with items left out", 1);
            let want = !d.sym(g.gr.start, 0, k).is_zero();
            if s.rec.is_finished() != want {
                return fail(format!("after {} tokens is_finished is {}", k, s.rec.is_finished()), witness());
            }
        }
        s.protocol(witness)?;
        ctx.count("groups left out", left_out);
        ctx.count("groups abandoned after an item", s.abandoned);
        if ok && n > 0 && d.sym(g.gr.start, 0, n).sat == 1 {
            let tree = d.trees(g.gr.start, 0, n).pop().unwrap();
            let judge = |sym: Symbol, i: usize, j: usize| {
                if g.ext(sym).is_some_and(|x| skip_group(x, i - 1, j - 1)) {
                    return Judgement::Skip;
                }
                let dg = &g.dg;
                let keep = Box::new(move |dot| {
                    let o = dg.external_origin(dot);
                    o.is_null() || !skip_rule(o.id as usize, i - 1, j - 1)
                });
                if abandon { Judgement::Abandon(keep) } else { Judgement::Items(keep) }
            };
            value_left_out::<simple_bocage::Bocage>(&g, &lat, &judge, &tree, &witness, ctx)?;
            value_left_out::<compact_bocage::Bocage>(&g, &lat, &judge, &tree, &witness, ctx)?;
        }
        if ok {
            compare_derivations(&mut s, &mut d, n, ctx, &witness)?;
            ctx.nontrivial(&(&g.gr, &base, salt));
            ctx.sample(witness);
        } else {
            for p in k + 1..=n {
                if !d.sym(g.gr.start, 0, p).is_zero() {
                    return fail(format!("stopped after {} tokens, but {} tokens are still derived", k, p), witness());
                }
            }
        }
    }
    Ok(())
}

/// The value of the only derivation that is left, with a real forest.
fn value_left_out<'g, B: Bocage>(
    g: &'g G,
    lat: &Lattice,
    judge: &dyn Fn(Symbol, usize, usize) -> Judgement<'g>,
    tree: &str,
    witness: &dyn Fn() -> String,
    ctx: &mut Ctx,
) -> CaseResult {
    let mut s = Sess::with(g, B::build(g, None), DefaultPerfHint::new(8192));
    let mut ok = s.sof(None);
    for col in lat {
        ok = ok && s.read_by_hand(&internal(g, col), None, &mut |sym, i, j| judge(sym, i, j));
    }
    let node = if ok { s.rec.finished_node() } else { None };
    let Some(node) = node else { return fail(format!("a sentence is not finished with the {}", B::NAME), witness()) };
    let a = Act::new(g);
    let mut b = s.rec.into_forest();
    let values = b.eval(a.clone(), node);
    ctx.count("values with items left out", 1);
    judge_outcome::<B>(Outcome { values, calls: a.take() }, lat, tree, &witness(), ctx)
}

pub fn c09(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c09");
    let st = style(&mut rng);
    let (g, mut deep) = match long_case(ctx, &mut rng) {
        Some((g, v)) => (g, Some(v)),
        None => {
            let gr = padded_or_random(ctx, &mut rng, st);
            ctx.witness = format!("grammar: {}", gr.0.show());
            (G::from(gr), None)
        }
    };
    let eps_free = !g.an.any_nullable();
    let nested = deep.is_some();
    for _ in 0..if nested { 1 } else { 4 } {
        let m = len_for(ctx, &mut rng, 1000);
        let base = match deep.take() {
            Some(v) => v,
            None => input(&mut rng, &g.gr, &g.an, m, true),
        };
        let lat = if !nested && rng.chance(1, 3) { random_lattice(&mut rng, &g, &base) } else { plain(&base, &values(&mut rng, base.len())) };
        let witness = || format!("grammar ({}): {}\ntokens by location: {}", g.name, g.gr.show(), show_lattice(&lat));
        ctx.witness = witness();
        let mut s = spy_sess(&g);
        let mut e = Earley::new(&g.gr, &g.an);
        let mut cols = vec![vec![(g.dg.sof(), 0)]];
        cols.extend(lat.iter().map(|c| internal(&g, c)));
        for (k, col) in cols.iter().enumerate() {
            s.open();
            for &(x, v) in col {
                s.rec.scan(x, v);
            }
            if s.rec.is_exhausted() {
                break;
            }
            let mut last_origin = usize::MAX;
            let mut groups: BTreeMap<(usize, usize), u32> = BTreeMap::new();
            let mut seen: BTreeSet<(u32, u32, u32)> = BTreeSet::new();
            let mut done: BTreeSet<(usize, usize)> = BTreeSet::new();
            let at = || format!("at location {} of\n{}", k, witness());
            let mut items = 0u64;
            loop {
                let peeked = s.rec.heap_peek().map(|i| (i.dot, i.origin));
                let Some(mut group) = s.rec.next_sum() else {
                    if peeked.is_some() {
                        return fail("an item is waiting, and there is no group", at());
                    }
                    break;
                };
                let (sym, origin) = (group.symbol(), group.origin() as usize);
                if origin > last_origin {
                    return fail(format!("a group with origin {} comes after one with origin {}", origin, last_origin), at());
                }
                last_origin = origin;
                *groups.entry((sym.usize(), origin)).or_insert(0) += 1;
                let mut n = 0;
                let mut last_dot = u32::MAX;
                while let Some(item) = group.next_summand() {
                    n += 1;
                    items += 1;
                    if item.origin as usize != origin || g.dg.get_lhs(item.dot) != sym {
                        return fail(format!("item {:?} is handed out in the group of {:?} from {}", item, sym, origin), at());
                    }
                    if item.dot > last_dot {
                        return fail(format!("within a group, rule {} comes after rule {}", item.dot, last_dot), at());
                    }
                    last_dot = item.dot;
                    if !seen.insert((item.dot, item.origin, item.node.id)) {
                        return fail(format!("item {:?} is handed out twice", item), at());
                    }
                    let o = g.dg.external_origin(item.dot);
                    if !o.is_null() {
                        done.insert((o.id as usize, s.posmap[origin]));
                    }
                    group.push_summand(item);
                }
                if n == 0 {
                    return fail(format!("the group of {:?} from {} has no item", sym, origin), at());
                }
                if let Some(p) = group.next_summand() {
                    return fail(format!("a group that ended hands out {:?}", p), at());
                }
                group.complete_sum();
            }
            ctx.count("groups judged", groups.values().map(|&n| n as u64).sum());
            ctx.count("items judged", items);
            ctx.max("most items at one location", items);
            // Symbols that binarization made up may come again, symbols of the grammar may not.
            let of_grammar = |x: usize| x < g.dg.num_syms();
            ctx.count("symbols and origins judged for coming once", groups.keys().filter(|k| of_grammar(k.0)).count() as u64);
            ctx.count("generated symbols that came twice", groups.iter().filter(|x| !of_grammar(x.0 .0) && *x.1 > 1).count() as u64);
            if let Some((&(x, o), _)) = groups.iter().find(|x| of_grammar(x.0 .0) && *x.1 > 1) {
                return fail(format!("symbol {} is completed twice for origin {}", x, o), at());
            }
            s.rec.advance_after_completion();
            // The session's bookkeeping for a location that was driven here.
            s.mark_advanced();
            if k > 0 {
                if !e.read(&lat[k - 1].iter().map(|t| t.0).collect::<Vec<_>>()) {
                    return fail("completed items where no token can follow", at());
                }
                // No completed rule is lost.
                // (The reference counts locations without the start marker; a rule that matched nothing
                // is not an item of the recognizer.)
                let want: BTreeSet<(usize, usize)> = e
                    .last()
                    .iter()
                    .filter(|&&(r, p, o)| p == g.gr.rules[r].1.len() && o < k)
                    .map(|&(r, _, o)| (r, o + 1))
                    .collect();
                if done != want {
                    let lost: Vec<_> = want.difference(&done).collect();
                    let extra: Vec<_> = done.difference(&want).collect();
                    return fail(format!("completed (rule, origin) lost: {:?}, invented: {:?}", lost, extra), at());
                }
                ctx.count("sets of completed rules judged", 1);
                if eps_free {
                    ctx.count("of them in grammars without empty symbols", 1);
                }
            }
        }
        s.protocol(witness)?;
        if lat.len() > 1 {
            ctx.nontrivial(&(&g.gr, &lat));
            ctx.sample(witness);
        }
    }
    Ok(())
}
