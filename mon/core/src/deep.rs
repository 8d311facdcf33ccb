//! Deeply nested inputs: more retained sets, larger origins and longer evaluations than random inputs have.

use std::collections::HashMap;

use common::{Ctx, Rng, Tier};
use gearley_forest::Evaluate;

use crate::drive::*;
use crate::eval::{Act, Outcome};
use crate::gram::*;

/// All but the fourth are LL(1), so that a table says which rule a token begins.
const NESTED: [&str; 8] = [
    "S=aSb|c",
    "S=aSbS|c",
    "S=pSq|rSs|x",
    "S=aSN|aSbN|c;N=",
    "S=aSAb|c;A=d|",
    "S=aTb|c;T=dSe|S",
    "S=BSb|c;B=aA;A=d|",
    "S=NaSbN|c;N=",
];

/// Seldom: a deep case, or a part of a real program.
pub fn long_case(ctx: &mut Ctx, rng: &mut Rng) -> Option<(G, Vec<usize>)> {
    let k = match ctx.tier {
        Tier::Quick => ctx.idx,
        Tier::Thorough => ctx.idx % 2000,
    };
    if (29..=36).contains(&k) {
        let n = [300, 20_000, 3000, 1000][k as usize % 4];
        let (gr, input) = c_program(rng, n);
        ctx.count("parts of a C program", 1);
        ctx.max("longest input", input.len() as u64);
        return Some((G::new(gr, "C".into()), input));
    }
    if (85..=90).contains(&k) {
        // Whether each token is the middle one stays open, so the sets hold thousands of items.
        let gr = permute(rng, &parse_gr(["S=aSa|a", "S=aSB|a;B=a", "S=BSa|a;B=a"][k as usize % 3]));
        let n = 2 * rng.range(1050, 1300) + 1;
        let g = G::new(gr, "wide sets".into());
        let t = g.an.useful_terms()[0];
        ctx.count("inputs with sets of a thousand items", 1);
        ctx.max("longest input", n as u64);
        return Some((g, vec![t; n]));
    }
    deep_case(ctx, rng)
}

/// Seldom: a grammar and a sentence with the given number of nested parts.
pub fn deep_case(ctx: &mut Ctx, rng: &mut Rng) -> Option<(G, Vec<usize>)> {
    let every = match ctx.tier {
        Tier::Quick => u64::MAX,
        Tier::Thorough => 20_000,
    };
    let k = ctx.idx % every;
    if let Some(g) = large_grammar(ctx, rng, k) {
        let input = walk(rng, &g, 60);
        ctx.max("longest input", input.len() as u64);
        return Some((g, input));
    }
    let depth = match k {
        1..=8 => rng.range(65_600, 70_000),
        9..=16 => rng.range(4_000, 9_000),
        17..=24 => rng.range(260, 1000),
        _ => return None,
    };
    let text = NESTED[k as usize % NESTED.len()];
    // How many levels end at a token is open in the fourth, so it takes quadratic work.
    let depth = if text.starts_with("S=aSN|") { depth.min(1500) } else { depth };
    let gr = permute(rng, &parse_gr(text));
    let g = G::new(gr, format!("nested {} levels deep: {}", depth, text));
    let input = nest(rng, &g, depth);
    ctx.count("deeply nested inputs", 1);
    ctx.max("longest input", input.len() as u64);
    ctx.max("deepest nesting", depth as u64);
    Some((g, input))
}

/// Rule numbers that take more than sixteen bits, and thousands of symbols. Both are LL(1).
pub fn large_grammar(ctx: &mut Ctx, rng: &mut Rng, k: u64) -> Option<G> {
    let (gr, name) = match k {
        // An automaton: in each state, each token leads to some state.
        27 => {
            let n = 262;
            let (state, token, end) = (|i: usize| i, |i: usize| n + i, 2 * n);
            let mut rules = vec![];
            for i in 0..n {
                for j in 0..n {
                    let to = state(rng.below(n));
                    rules.push((state(i), vec![token(j), to]));
                }
                rules.push((state(i), vec![end]));
            }
            (Gr { nsyms: 2 * n + 1, start: 0, rules }, "many rules")
        }
        // Many symbols, of which a part derives the empty string.
        28 => {
            let n = 700;
            let mut rules = vec![];
            for i in 0..n {
                let (t, u, z) = (n + i, 2 * n + i, 3 * n + i);
                rules.push((i, vec![t, rng.below(n), 3 * n + rng.below(n), u]));
                rules.push((i, vec![u, 3 * n + rng.below(n), rng.below(n)]));
                rules.push((i, vec![4 * n]));
                rules.push((z, vec![]));
            }
            (Gr { nsyms: 4 * n + 1, start: 0, rules }, "many symbols")
        }
        _ => return None,
    };
    ctx.count("grammars of thousands of symbols or rules", 1);
    Some(G::new(permute(rng, &gr), name.into()))
}

/// A random grammar; seldom, a large one.
pub fn large_or_random(ctx: &mut Ctx, k: u64, rng: &mut Rng, st: Style) -> (Gr, String) {
    match large_grammar(ctx, rng, k) {
        Some(g) => (g.gr, g.name),
        None => padded_or_random_at(ctx, k, rng, st),
    }
}

/// A random grammar; seldom, one with so many rules more that their numbers take more than sixteen bits.
pub fn padded_or_random(ctx: &mut Ctx, rng: &mut Rng, st: Style) -> (Gr, String) {
    padded_or_random_at(ctx, ctx.idx, rng, st)
}

fn padded_or_random_at(ctx: &mut Ctx, k: u64, rng: &mut Rng, st: Style) -> (Gr, String) {
    let k = match ctx.tier {
        Tier::Quick => k,
        Tier::Thorough => k % 40_000,
    };
    if !(37..=84).contains(&k) || cfg!(miri) {
        return random_gr(rng, st);
    }
    // In these, rules of one location wait for rules of the next that have lower numbers.
    const WAITING: [&str; 4] = ["E=EpE|P;P=mE|mP|a", "S=T|Sa;T=bS|bT|c", "E=F|EeE;F=G|aE;G=aF|aG|b", "A=B|x;B=C|Cw;C=yA|yB|yC|z"];
    for _ in 0..1000 {
        let (g, name) = match rng.chance(2, 3) {
            true => {
                let text = *rng.pick(&WAITING);
                (permute(rng, &parse_gr(text)), text.to_string())
            }
            false => random_gr(rng, st),
        };
        let n = rng.range(65_600, 66_600);
        let an = An::new(&g);
        let long = |rng: &mut Rng| sentence(rng, &g, &an, 30).is_some_and(|v| v.len() > 8);
        if g.nsyms < 40 && g.rules.len() < 60 && (0..6).filter(|_| long(rng)).count() > 2 {
            ctx.count("grammars with rules past sixteen bits", 1);
            return (pad(rng, &g, n), format!("{}, and {} rules more", name, n));
        }
    }
    unreachable!()
}

/// A sentence of about the given length.
pub fn walk(rng: &mut Rng, g: &G, len: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut stack = vec![g.gr.start];
    while let Some(x) = stack.pop() {
        if g.an.is_term[x] {
            out.push(x);
            continue;
        }
        let rules = &g.an.by_lhs[x];
        let longer: Vec<usize> = rules.iter().copied().filter(|&r| g.gr.rules[r].1.len() > 1).collect();
        let r = if out.len() < len && !longer.is_empty() {
            *rng.pick(&longer)
        } else {
            *rules.iter().min_by_key(|&&r| g.gr.rules[r].1.iter().map(|&s| g.an.height[s]).max()).unwrap()
        };
        stack.extend(g.gr.rules[r].1.iter().rev());
    }
    out
}

pub fn show(g: &G, input: &[usize]) -> String {
    format!("grammar ({}): {}\n{} tokens: {} ...", g.name, g.gr.show(), input.len(), show_input(&input[..20.min(input.len())]))
}

fn nest(rng: &mut Rng, g: &G, depth: usize) -> Vec<usize> {
    let nt = |s: usize| !g.an.is_term[s];
    // What leads to the start symbol again.
    let mut leads = vec![false; g.gr.nsyms];
    leads[g.gr.start] = true;
    for _ in 0..g.gr.nsyms {
        for (l, rhs) in &g.gr.rules {
            leads[*l] |= rhs.iter().any(|&s| leads[s]);
        }
    }
    let mut out = vec![];
    let mut stack = vec![g.gr.start];
    let mut left = depth;
    while let Some(x) = stack.pop() {
        if !nt(x) {
            out.push(x);
            continue;
        }
        let rules = &g.an.by_lhs[x];
        // Deeper while there are levels left, and then as short as possible.
        let deeper: Vec<usize> = rules.iter().copied().filter(|&r| g.gr.rules[r].1.iter().any(|&s| leads[s])).collect();
        let flat: Vec<usize> = rules.iter().copied().filter(|&r| !g.gr.rules[r].1.iter().any(|&s| leads[s])).collect();
        let r = if left > 0 && !deeper.is_empty() {
            if x == g.gr.start {
                left -= 1;
            }
            *rng.pick(&deeper)
        } else if flat.is_empty() {
            *rng.pick(&deeper)
        } else if x == g.gr.start && left == 0 {
            // The base case has one token and nothing else.
            *flat.iter().min_by_key(|&&r| g.gr.rules[r].1.iter().filter(|&&s| nt(s)).count()).unwrap()
        } else {
            *rng.pick(&flat)
        };
        stack.extend(g.gr.rules[r].1.iter().rev());
    }
    out
}

enum Work {
    Sym(usize),
    /// A rule of which all symbols are done; its values begin at this place of the value stack.
    Reduce(usize, usize),
}

/// The action calls and the value of an input, by predictive parsing. `None` when the grammar is not LL(1).
pub fn predictive(g: &G, input: &[usize], vals: &[u32], mut act: Act<'_>, clip: usize) -> Option<Outcome> {
    act.clip_at(clip);
    // What each rule can begin with.
    let mut first: Vec<Vec<bool>> = vec![vec![false; g.gr.nsyms]; g.gr.nsyms];
    for t in 0..g.gr.nsyms {
        if g.an.is_term[t] {
            first[t][t] = true;
        }
    }
    let mut changed = true;
    while changed {
        changed = false;
        for (l, rhs) in &g.gr.rules {
            for &s in rhs {
                for t in 0..g.gr.nsyms {
                    if first[s][t] && !first[*l][t] {
                        first[*l][t] = true;
                        changed = true;
                    }
                }
                if !g.an.nullable[s] {
                    break;
                }
            }
        }
    }
    let mut table: HashMap<(usize, usize), usize> = HashMap::new();
    for (r, (l, rhs)) in g.gr.rules.iter().enumerate() {
        for &s in rhs {
            for t in 0..g.gr.nsyms {
                if first[s][t] && table.insert((*l, t), r).is_some_and(|o| o != r) {
                    return None;
                }
            }
            if !g.an.nullable[s] {
                break;
            }
        }
    }
    let mut pos = 0;
    let mut values: Vec<String> = vec![];
    let mut work = vec![Work::Sym(g.gr.start)];
    while let Some(w) = work.pop() {
        match w {
            Work::Sym(x) if g.an.is_term[x] => {
                if input.get(pos) != Some(&x) {
                    return None;
                }
                values.push(act.leaf(g.int(x), vals[pos]));
                pos += 1;
            }
            Work::Sym(x) => match input.get(pos).and_then(|&t| table.get(&(x, t))) {
                Some(&r) => {
                    work.push(Work::Reduce(r, values.len()));
                    work.extend(g.gr.rules[r].1.iter().rev().map(|&s| Work::Sym(s)));
                }
                None if g.an.nullable[x] => act.nulling(g.int(x), &mut values),
                None => return None,
            },
            Work::Reduce(r, from) => {
                let v = act.product(r as u32, values[from..].iter());
                values.truncate(from);
                values.push(v);
            }
        }
    }
    (pos == input.len()).then(|| Outcome { values, calls: act.take() })
}
