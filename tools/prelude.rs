#![allow(dead_code, unused_imports)]
use cfg_symbol::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Evaluate, Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use std::cell::RefCell;
use std::rc::Rc;

/// A grammar over symbols 0..n with the given start symbol and rules.
fn cfg_of(n: usize, start: usize, rules: &[(usize, &[usize])]) -> cfg::Cfg {
    let mut c = cfg::Cfg::new();
    for _ in 0..n {
        let [_s] = c.sym();
    }
    for &(lhs, rhs) in rules {
        let rhs: Vec<Symbol> = rhs.iter().map(|&s| Symbol::from_raw(s as u32)).collect();
        c.rule(Symbol::from_raw(lhs as u32)).rhs(rhs);
    }
    c.set_roots([Symbol::from_raw(start as u32)]);
    c
}

fn grammar(n: usize, start: usize, rules: &[(usize, &[usize])]) -> DefaultGrammar {
    DefaultGrammar::from_grammar(cfg_of(n, start, rules))
}

fn int(dg: &DefaultGrammar, s: usize) -> Symbol {
    dg.to_internal(Symbol::from_raw(s as u32)).expect("symbol in use")
}

/// Reads the start marker.
fn sof<F: Forest, P: PerfHint>(r: &mut Recognizer<&DefaultGrammar, F, P>) {
    r.begin_earleme();
    let s = r.grammar().sof();
    r.scan(s, 0);
    assert!(r.end_earleme());
}

/// Reads tokens with their positions as values; the position of the token that is rejected.
fn read<F: Forest, P: PerfHint>(r: &mut Recognizer<&DefaultGrammar, F, P>, tokens: &[usize], hints: bool) -> Option<usize> {
    for (i, &t) in tokens.iter().enumerate() {
        r.begin_earleme();
        if hints {
            if let Some(&t) = tokens.get(i + 1) {
                let h = int(r.grammar(), t);
                r.lookahead().set_hint(h);
            } else {
                r.lookahead().clear_hint();
            }
        }
        let s = int(r.grammar(), t);
        r.scan(s, i as u32);
        if !r.end_earleme() {
            return Some(i);
        }
    }
    None
}

fn recognizer(dg: &DefaultGrammar) -> Recognizer<&DefaultGrammar> {
    Recognizer::new(dg)
}

/// Renders derivations, with external symbols.
struct Show<'a>(&'a DefaultGrammar);
impl<'a> Evaluate for Show<'a> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, values: u32) -> String {
        format!("{}:{}", self.0.to_external(terminal).usize(), values)
    }
    fn product<'b>(&self, action: u32, args: impl Iterator<Item = &'b String>) -> String
    where
        String: 'b,
    {
        format!("r{}({})", action, args.map(|s| &s[..]).collect::<Vec<_>>().join(" "))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<String>) {
        results.push(format!("~{}", self.0.to_external(symbol).usize()));
    }
}

fn simple(dg: &DefaultGrammar, tokens: &[usize]) -> Vec<String> {
    let mut r = Recognizer::with_forest(dg, simple_bocage::Bocage::new(dg));
    sof(&mut r);
    assert_eq!(read(&mut r, tokens, false), None);
    let n = r.finished_node().expect("finished");
    r.into_forest().evaluate(Show(dg), n)
}

fn compact(dg: &DefaultGrammar, tokens: &[usize]) -> Vec<String> {
    let mut r = Recognizer::with_forest(dg, compact_bocage::Bocage::new(dg));
    sof(&mut r);
    assert_eq!(read(&mut r, tokens, false), None);
    let n = r.finished_node().expect("finished");
    r.into_forest().evaluate(Show(dg), n)
}

