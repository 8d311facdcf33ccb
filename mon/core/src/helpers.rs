//! C22: the parse helpers.

use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use cfg_symbol::Symbol;
use common::{fail, CaseResult, Ctx};
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};

use crate::deep::large_or_random;
use crate::drive::*;
use crate::gram::*;
use crate::parse::{max_len, style};
use crate::refr::*;
use crate::spy::Ev;

/// An answer of a helper, without its message.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Done(bool),
    /// Position and tokens.
    Parse(usize, Vec<usize>),
    Tokenize(String),
    Finish,
}

/// `ParseError` has no public name outside of its crate, so it is read by its public traits.
/// What it displays has to name the same position, tokens or word.
pub fn answer<E: std::fmt::Debug + std::fmt::Display>(r: Result<bool, E>) -> Answer {
    match r {
        Ok(b) => Answer::Done(b),
        Err(e) => {
            let a = error_of(&format!("{:?}", e));
            let shown = e.to_string();
            let numbers: Vec<usize> = shown.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            let told = match &a {
                Answer::Parse(i, toks) => numbers.contains(i) && toks.iter().all(|t| numbers.contains(t)),
                Answer::Tokenize(w) => shown.contains(w.as_str()),
                _ => !shown.is_empty(),
            };
            if told { a } else { Answer::Tokenize(format!("?? {:?} is displayed as {:?}", a, shown)) }
        }
    }
}

fn error_of(t: &str) -> Answer {
    {
        {
            if t.starts_with("Parse") {
                let i = t.rsplit("i: ").next().unwrap().trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(usize::MAX);
                let from = t.find('[').map_or(0, |x| x + 1);
                let to = t.rfind(']').unwrap_or(from);
                let mut toks = vec![];
                let mut num = String::new();
                for c in t[from..to].chars().chain([' ']) {
                    if c.is_ascii_digit() {
                        num.push(c);
                    } else if !num.is_empty() {
                        toks.push(num.parse().unwrap());
                        num.clear();
                    }
                }
                Answer::Parse(i, toks)
            } else if t.starts_with("Tokenize") {
                let w = t.rfind("word: ").map(|x| &t[x + 6..]).unwrap_or("");
                let w = w.trim_end_matches(|c| c == '}' || c == ' ');
                Answer::Tokenize(w.trim_matches('"').to_string())
            } else if t.starts_with("Finish") {
                Answer::Finish
            } else {
                Answer::Tokenize(format!("?? {}", t))
            }
        }
    }
}


/// What reading one at a time gives. With `early`, an error may come one token earlier because every
/// token is read with the next one as a hint.
fn reference(g: &G, input: &[usize]) -> (Option<usize>, bool) {
    let v = verdict(&g.gr, &g.an, input);
    (v.error, v.error.is_none() && *v.accepts.last().unwrap())
}

/// Is the answer of a helper that gives hints the right one?
fn hinted(g: &G, input: &[usize], a: &Answer) -> Result<(), String> {
    // Reading one at a time with the same hints.
    let mut s = null_sess(g);
    s.hints_first = true;
    let n = input.len();
    let mut err = None;
    let ok = s.sof(None);
    if !ok {
        return Err("the start marker is rejected".into());
    }
    for k in 0..n {
        if !s.read(&[(g.int(input[k]), k as u32)], input.get(k + 1).map(|&t| g.int(t))) {
            err = Some(k);
            break;
        }
    }
    let want = match err {
        Some(k) => Answer::Parse(k, vec![input[k]]),
        None => Answer::Done(s.rec.is_finished()),
    };
    if *a != want {
        return Err(format!("{:?}, but reading one at a time gives {:?}", a, want));
    }
    // And the reference agrees, up to one token.
    let (e, fin) = reference(g, input);
    let fine = match (a, e) {
        (Answer::Done(d), None) => *d == fin,
        (Answer::Parse(i, _), Some(e)) => *i == e || *i + 1 == e,
        _ => false,
    };
    if !fine {
        return Err(format!("{:?}, but the grammar gives error {:?}, finished {}", a, e, fin));
    }
    Ok(())
}

/// Symbols and values of the leaves, in order. Places in the input are only known to the monitor when it
/// reads by itself.
fn leaves(events: &[Ev]) -> Vec<(u32, u32)> {
    events.iter().filter_map(|e| if let Ev::Leaf { sym, value, .. } = e { Some((*sym, *value)) } else { None }).collect()
}

pub fn c22(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c22");
    let st = style(&mut rng);
    let gr = large_or_random(ctx, ctx.idx, &mut rng, st);
    ctx.witness = format!("grammar: {}", gr.0.show());
    let g = G::from(gr);
    let terms = g.an.terms();
    for round in 0..5 {
        let m = max_len(ctx, &mut rng, 24);
        let v = if round == 0 && rng.chance(1, 4) { vec![] } else { input(&mut rng, &g.gr, &g.an, m, true) };
        let witness = g.show(&v);
        ctx.witness = witness.clone();
        let (err, fin) = reference(&g, &v);
        // A list of tokens.
        let toks: Vec<Symbol> = v.iter().map(|&t| Symbol::from_raw(t as u32)).collect();
        let mut rec = Recognizer::with_forest_and_policy(&g.dg, gearley_forest::NullForest, DefaultPerfHint::new(8192));
        let a = answer(rec.parse(&toks));
        ctx.count("token lists", 1);
        if let Err(e) = hinted(&g, &v, &a) {
            return fail(format!("parse: {}", e), witness);
        }
        // The forest gets the same tokens as when reading one at a time, with their positions as values.
        let mut p = spy_sess(&g);
        let b = answer(p.rec.parse(&toks));
        if b != a {
            return fail(format!("parse gives {:?} and {:?} with two forests", a, b), witness);
        }
        let mut q = spy_sess(&g);
        q.hints_first = true;
        q.sof(None);
        for k in 0..v.len() {
            if !q.read(&[(g.int(v[k]), k as u32)], v.get(k + 1).map(|&t| g.int(t))) {
                break;
            }
        }
        {
            let (p, q) = (leaves(&p.log().events), leaves(&q.log().events));
            ctx.count("leaves compared", p.len() as u64);
            if p != q {
                return fail(format!("parse makes leaves (symbol, value)\n  {:?}\nreading one at a time with the positions as values\n  {:?}", p, q), witness);
            }
        }
        // A policy without lookahead: exactly the first offending token.
        let mut rec = Recognizer::with_forest_and_policy(&g.dg, simple_bocage::Bocage::new(&g.dg), NoLookahead);
        let a = answer(rec.parse(&toks));
        ctx.count("token lists", 1);
        let want = match err {
            Some(i) => Answer::Parse(i, vec![v[i]]),
            None => Answer::Done(fin),
        };
        if a != want {
            return fail(format!("parse without lookahead: {:?} instead of {:?}", a, want), witness);
        }
        if matches!(a, Answer::Parse(..)) {
            ctx.count("parse errors judged", 1);
        }
        // A list of names.
        let mut words: Vec<String> = v.iter().map(|&t| g.gr.name(t, &g.an)).collect();
        let mut unknown = None;
        if rng.chance(1, 4) {
            let w = rng.pick(&["unknown", "t999999", "", "N"]).to_string();
            let at = rng.below(words.len() + 1);
            words.insert(at, w.clone());
            unknown = Some(w);
            if rng.chance(1, 3) {
                words.push("another".into());
            }
        }
        let a = answer(parse_terminal_list(g.gr.cfg().0, g.dg.clone(), words.iter().map(|s| &s[..])));
        ctx.count("name lists", 1);
        match &unknown {
            Some(w) => {
                ctx.count("unknown names", 1);
                if a != Answer::Tokenize(w.clone()) {
                    return fail(format!("an unknown name {:?} in {:?} gives {:?}", w, words, a), witness);
                }
            }
            None => {
                let want = match &a {
                    Answer::Done(false) => None,
                    Answer::Done(true) => Some(err.is_none() && fin),
                    Answer::Finish => Some(err.is_none() && !fin),
                    Answer::Parse(..) => Some(hinted(&g, &v, &a).is_ok()),
                    _ => None,
                };
                if want != Some(true) {
                    return fail(format!("names {:?} give {:?}; reading them gives error {:?}, finished {}", words, a, err, fin), witness);
                }
                if let Err(e) = match &a {
                    Answer::Done(true) | Answer::Parse(..) => hinted(&g, &v, &a),
                    _ => Ok(()),
                } {
                    return fail(format!("names {:?}: {}", words, e), witness);
                }
            }
        }
        // Characters through a lexer map: each terminal has a few ranges, which may overlap.
        let base = *rng.pick(&['a', 'à', '一']);
        let chars: Vec<char> = (0..terms.len() as u32 + 2).filter_map(|i| char::from_u32(base as u32 + i)).collect();
        let mut ranges = vec![];
        for (i, &t) in terms.iter().enumerate() {
            ranges.push((chars[i], chars[i], Symbol::from_raw(t as u32)));
            if rng.chance(1, 3) {
                let lo = rng.below(chars.len() - 1);
                let hi = rng.range(lo, (lo + 2).min(chars.len() - 2));
                ranges.push((chars[lo], chars[hi], Symbol::from_raw(t as u32)));
            }
        }
        rng.shuffle(&mut ranges);
        let mut lexer_map = LexerMap::default();
        lexer_map.ranges = ranges.clone();
        let mut loaded = AdvancedGrammar::default();
        loaded.cfg = g.gr.cfg().0;
        loaded.lexer_map = lexer_map;
        let mut text: String = v.iter().map(|t| chars[terms.iter().position(|x| x == t).unwrap()]).collect();
        if rng.chance(1, 6) {
            // A character that no range covers.
            let mut c: Vec<char> = text.chars().collect();
            let at = rng.below(c.len() + 1);
            c.insert(at, *rng.pick(&['!', '\u{10ffff}']));
            text = c.into_iter().collect();
        }
        let lat: Lattice = text
            .chars()
            .map(|c| {
                let mut col: Vec<(usize, u32)> = vec![];
                for &(lo, hi, s) in &ranges {
                    if lo <= c && c <= hi && !col.iter().any(|x| x.0 == s.usize()) {
                        col.push((s.usize(), c as u32));
                    }
                }
                col
            })
            .collect();
        let mut e = Earley::new(&g.gr, &g.an);
        let mut want = None;
        for (k, col) in lat.iter().enumerate() {
            if !e.read(&col.iter().map(|t| t.0).collect::<Vec<_>>()) {
                let mut t: Vec<usize> = col.iter().map(|t| t.0).collect();
                t.sort();
                want = Some(Answer::Parse(k, t));
                break;
            }
        }
        let want = want.unwrap_or(if e.accepts() { Answer::Done(true) } else { Answer::Finish });
        let mut a = answer(parse_tokenizing(loaded, g.dg.clone(), &text));
        if let Answer::Parse(_, t) = &mut a {
            t.sort();
        }
        ctx.count("texts", 1);
        if lat.iter().any(|c| c.len() > 1) {
            ctx.count("texts with ambiguous characters", 1);
        }
        if a != want {
            return fail(format!("text {:?}: {:?} instead of {:?}", text, a, want), format!("{}\nranges {:?}", witness, ranges));
        }
        if v.len() > 1 {
            ctx.nontrivial(&(&g.gr, &v, &text));
            ctx.sample(|| format!("{}; text {:?} => {:?}", witness, text, want));
        }
    }
    Ok(())
}
