//! C24: the bundled arithmetic grammars.

use cfg_symbol::Symbol;
use common::rng::Rng;
use common::{fail, CaseResult, Ctx};
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;

/// Bocages hand out leaves with internal symbols; the evaluators know the symbols of their grammar.
struct External<'a, E>(&'a DefaultGrammar, E);

impl<'a, E: Evaluate> Evaluate for External<'a, E> {
    type Elem = E::Elem;
    fn leaf(&self, terminal: Symbol, values: u32) -> E::Elem {
        self.1.leaf(self.0.to_external(terminal), values)
    }
    fn product<'b>(&self, action: u32, args: impl Iterator<Item = &'b E::Elem>) -> E::Elem
    where
        E::Elem: 'b,
    {
        self.1.product(action, args)
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<E::Elem>) {
        self.1.nulling(symbol, results)
    }
}

#[derive(Clone, Debug)]
enum Expr {
    Num(String),
    Bin(Box<Expr>, char, Box<Expr>),
    Paren(Box<Expr>),
}

impl Expr {
    fn text(&self, out: &mut String) {
        match self {
            Expr::Num(n) => out.push_str(n),
            Expr::Bin(a, op, b) => {
                a.text(out);
                out.push(*op);
                b.text(out);
            }
            Expr::Paren(e) => {
                out.push('(');
                e.text(out);
                out.push(')');
            }
        }
    }
}

fn apply(a: i32, op: char, b: i32) -> Option<i32> {
    match op {
        '+' => a.checked_add(b),
        '-' => a.checked_sub(b),
        '*' => a.checked_mul(b),
        _ => a.checked_div(b),
    }
}

fn number(rng: &mut Rng) -> String {
    let n = [1, 1, 1, 2, 2, 3, 4, 6, 9][rng.below(9)];
    (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect()
}

/// An expression of the layered grammar: 0 is a sum, 1 a product, 2 a factor.
fn expr(rng: &mut Rng, level: u32, budget: &mut usize) -> Expr {
    let more = *budget > 0 && rng.chance(3, 5);
    if level < 2 && more {
        *budget -= 1;
        let op = if level == 0 { ['+', '-'] } else { ['*', '/'] };
        let a = expr(rng, level, budget);
        let b = expr(rng, level + 1, budget);
        return Expr::Bin(Box::new(a), *rng.pick(&op), Box::new(b));
    }
    if level < 2 {
        return expr(rng, level + 1, budget);
    }
    if *budget > 0 && rng.chance(1, 3) {
        *budget -= 1;
        return Expr::Paren(Box::new(expr(rng, 0, budget)));
    }
    Expr::Num(number(rng))
}

/// The value of a text by precedence climbing, written without the grammar: `Err` when the text is no
/// expression, `Ok(None)` when a number leaves 32 bits or something is divided by zero.
struct Calc<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Calc<'a> {
    fn run(s: &str) -> Result<Option<i32>, ()> {
        let mut c = Calc { s: s.as_bytes(), i: 0 };
        let v = c.climb(1)?;
        if c.i == s.len() {
            Ok(v)
        } else {
            Err(())
        }
    }

    fn climb(&mut self, min: u32) -> Result<Option<i32>, ()> {
        let mut v = self.atom()?;
        while let Some(&op) = self.s.get(self.i) {
            let p = match op {
                b'+' | b'-' => 1,
                b'*' | b'/' => 2,
                _ => break,
            };
            if p < min {
                break;
            }
            self.i += 1;
            let r = self.climb(p + 1)?;
            v = v.and_then(|a| r.and_then(|b| apply(a, op as char, b)));
        }
        Ok(v)
    }

    fn atom(&mut self) -> Result<Option<i32>, ()> {
        if self.s.get(self.i) == Some(&b'(') {
            self.i += 1;
            let v = self.climb(1)?;
            if self.s.get(self.i) != Some(&b')') {
                return Err(());
            }
            self.i += 1;
            return Ok(v);
        }
        let from = self.i;
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        if from == self.i {
            return Err(());
        }
        Ok(std::str::from_utf8(&self.s[from..self.i]).unwrap().parse().ok())
    }
}

/// Values by all ways to put parentheses.
fn all_values(nums: &[i32], ops: &[char]) -> Option<Vec<i32>> {
    if ops.is_empty() {
        return Some(vec![nums[0]]);
    }
    let mut out = vec![];
    for k in 0..ops.len() {
        for &a in &all_values(&nums[..=k], &ops[..k])? {
            for &b in &all_values(&nums[k + 1..], &ops[k + 1..])? {
                out.push(apply(a, ops[k], b)?);
            }
        }
    }
    Some(out)
}

/// Answer of `parse` and the values, if any.
macro_rules! run {
    ($bocage:path, $dg:expr, $tokens:expr, $eval:expr) => {{
        let mut r = Recognizer::with_forest($dg, <$bocage>::new($dg));
        match r.parse($tokens) {
            Ok(true) => {
                let n = r.finished_node().expect("a finished parse has a node");
                Some(r.into_forest().evaluate(External($dg, $eval), n))
            }
            _ => None,
        }
    }};
}

fn mutate(rng: &mut Rng, text: &str, chars: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    let chars: Vec<char> = chars.chars().collect();
    for _ in 0..rng.range(1, 2) {
        match rng.below(4) {
            0 => {
                let i = rng.below(v.len() + 1);
                v.insert(i, *rng.pick(&chars));
            }
            1 if !v.is_empty() => {
                v.remove(rng.below(v.len()));
            }
            2 if !v.is_empty() => {
                let i = rng.below(v.len());
                v[i] = *rng.pick(&chars);
            }
            _ if v.len() > 1 => {
                let i = rng.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

fn precedenced(ctx: &mut Ctx, rng: &mut Rng, dg: &DefaultGrammar) -> CaseResult {
    let mut budget = [0, 1, 3, 6, 12, 30][rng.below(6)];
    let mut text = String::new();
    expr(rng, 0, &mut budget).text(&mut text);
    if rng.chance(1, 3) {
        text = mutate(rng, &text, "+-*/()0123456789");
    }
    let witness = || format!("precedenced_math: {}", text);
    ctx.witness = witness();
    let tokens = precedenced_math::tokenize(&text);
    let want = Calc::run(&text);
    if let Ok(None) = want {
        ctx.count("expressions without a value (skipped)", 1);
        return Ok(());
    }
    let got = [
        run!(simple_bocage::Bocage, dg, &tokens, precedenced_math::Evaluator),
        run!(compact_bocage::Bocage, dg, &tokens, precedenced_math::Evaluator),
    ];
    for (got, name) in got.iter().zip(["simple", "compact"]) {
        let want = want.map(|v| vec![v.unwrap()]).ok();
        if *got != want {
            return fail(format!("values by the {} bocage: {:?}, expected {:?}", name, got, want), witness());
        }
    }
    match want {
        Ok(_) => ctx.count("precedenced expressions evaluated", 1),
        Err(_) => ctx.count("texts that are no expressions", 1),
    }
    ctx.max("characters in one expression", text.len() as u64);
    ctx.nontrivial(&text);
    ctx.sample(witness);
    Ok(())
}

fn ambiguous(ctx: &mut Ctx, rng: &mut Rng, dg: &DefaultGrammar) -> CaseResult {
    let n = rng.below(4);
    let ops: Vec<char> = (0..n).map(|_| *rng.pick(&['+', '-', '*', '/'])).collect();
    let nums: Vec<String> = (0..=n).map(|_| number(rng)).collect();
    let mut text = nums[0].clone();
    for (o, n) in ops.iter().zip(&nums[1..]) {
        text.push(*o);
        text.push_str(n);
    }
    let mut well = true;
    if rng.chance(1, 4) {
        text = mutate(rng, &text, "+-*/0123456789");
        well = text.split(['+', '-', '*', '/']).all(|n| !n.is_empty());
        if well {
            // Another expression: only its being one is judged.
            let tokens = ambiguous_math::tokenize(&text);
            let ok = Recognizer::new(dg).parse(&tokens).unwrap_or(false);
            if !ok {
                return fail("an expression is rejected", format!("ambiguous_math: {}", text));
            }
            ctx.count("ambiguous expressions recognized", 1);
            return Ok(());
        }
    }
    let witness = || format!("ambiguous_math: {}", text);
    ctx.witness = witness();
    let tokens = ambiguous_math::tokenize(&text);
    if !well || n > 2 {
        // Deeper ambiguity is the business of C06 and C10.
        let ok = Recognizer::new(dg).parse(&tokens).unwrap_or(false);
        if ok != well {
            return fail(format!("the parse answers {}", ok), witness());
        }
        ctx.count(if well { "ambiguous expressions recognized" } else { "texts that are no expressions" }, 1);
        ctx.nontrivial(&text);
        return Ok(());
    }
    let nums: Option<Vec<i32>> = nums.iter().map(|n| n.parse().ok()).collect();
    let Some(mut want) = nums.and_then(|n| all_values(&n, &ops)) else {
        ctx.count("expressions without a value (skipped)", 1);
        return Ok(());
    };
    want.sort();
    let got = [
        run!(simple_bocage::Bocage, dg, &tokens, ambiguous_math::Evaluator),
        run!(compact_bocage::Bocage, dg, &tokens, ambiguous_math::Evaluator),
    ];
    for (got, name) in got.iter().zip(["simple", "compact"]) {
        let mut v = got.clone().unwrap_or_default();
        v.sort();
        if v != want {
            return fail(format!("values by the {} bocage: {:?}, expected {:?}", name, got, want), witness());
        }
    }
    ctx.count("ambiguous expressions evaluated", 1);
    ctx.nontrivial(&text);
    ctx.sample(witness);
    Ok(())
}

/// The inputs that come with the grammars are sentences of them.
fn bundled(ctx: &mut Ctx, p: &DefaultGrammar, a: &DefaultGrammar) -> CaseResult {
    for id in gearley_example_grammars::BNFS.iter().map(|b| b[0]) {
        let Some(inputs) = gearley_example_grammars::get_examples(id) else {
            return fail("a bundled grammar has no example inputs", id.to_string());
        };
        for text in inputs.iter().map(|t| t.trim_end()) {
            let witness = format!("{}: {}", id, text);
            let got = match id {
                "precedenced_math" => {
                    let t = precedenced_math::tokenize(text);
                    [run!(simple_bocage::Bocage, p, &t, precedenced_math::Evaluator), run!(compact_bocage::Bocage, p, &t, precedenced_math::Evaluator)]
                }
                "ambiguous_math" => {
                    let t = ambiguous_math::tokenize(text);
                    let ok = Recognizer::new(a).parse(&t).unwrap_or(false);
                    ctx.count("bundled inputs", 1);
                    if !ok {
                        return fail("a bundled input is rejected", witness);
                    }
                    continue;
                }
                // Needs a lexer that is not here.
                _ => continue,
            };
            ctx.count("bundled inputs", 1);
            let want = Calc::run(text).ok().flatten().map(|v| vec![v]);
            if want.is_none() || got != [want.clone(), want.clone()] {
                return fail(format!("a bundled input has values {:?}, expected {:?}", got, want), witness);
            }
        }
    }
    if gearley_example_grammars::get_examples("none of them").is_some() {
        return fail("an unknown grammar has example inputs", "none of them".to_string());
    }
    Ok(())
}

pub fn c24(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("c24");
    ctx.witness = "bundled grammars".into();
    let p = DefaultGrammar::from_grammar(precedenced_math::grammar());
    let a = DefaultGrammar::from_grammar(ambiguous_math::grammar());
    if ctx.idx == 0 {
        bundled(ctx, &p, &a)?;
    }
    for _ in 0..40 {
        precedenced(ctx, &mut rng, &p)?;
        ambiguous(ctx, &mut rng, &a)?;
    }
    Ok(())
}
