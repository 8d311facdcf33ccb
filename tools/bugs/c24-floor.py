property = "C24"
kind = "core"
needs = "an expression that divides a negative number with a remainder"
breaks = "the quotient is rounded down instead of towards zero"
edits = [("gearley-example-grammars/src/precedenced_math/mod.rs", """            4 => a0 / a2,
""", """            4 => a0.div_euclid(a2),
""")]
demo = """
use gearley_example_grammars::precedenced_math::{grammar as math, tokenize, Evaluator};

fn main() {
    let dg = DefaultGrammar::from_grammar(math());
    for (text, want) in [("7/2", 3), ("(1-8)/2", -3), ("1-8/3*2", -3), ("(2-9)/(1-3)", 3)] {
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        sof(&mut r);
        for (i, t) in tokenize(text).into_iter().enumerate() {
            r.begin_earleme();
            r.scan(dg.to_internal(t).unwrap(), i as u32);
            assert!(r.end_earleme());
        }
        let n = r.finished_node().expect("finished");
        let v = r.into_forest().evaluate(Ext(&dg), n);
        assert_eq!(v, [want], "{}", text);
    }
}

struct Ext<'a>(&'a DefaultGrammar);
impl<'a> Evaluate for Ext<'a> {
    type Elem = i32;
    fn leaf(&self, terminal: Symbol, values: u32) -> i32 {
        Evaluator.leaf(self.0.to_external(terminal), values)
    }
    fn product<'b>(&self, action: u32, args: impl Iterator<Item = &'b i32>) -> i32 {
        Evaluator.product(action, args)
    }
    fn nulling<'r>(&self, _: Symbol, _: &'r mut Vec<i32>) {}
}
"""
