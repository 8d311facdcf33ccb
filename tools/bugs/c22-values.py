property = "C22"
kind = "core"
needs = "values of tokens after sets have been dropped"
breaks = "the value of a token is the number of the current set, so tokens of a list have equal values"
edits = [("gearley-utils/src/parse.rs", "        while let Some((i, &token)) = iter.next() {\n            self.begin_earleme();\n", "        while let Some((_, &token)) = iter.next() {\n            self.begin_earleme();\n            let i = self.earleme() - 1;\n")]
demo = """
use gearley_utils::RecognizerParseExt;
fn main() {
    // S ::= S a b | a b
    let dg = grammar(3, 0, &[(0, &[0, 1, 2]), (0, &[1, 2])]);
    let v: Vec<Symbol> = (0..6).map(|i| Symbol::from_raw(1 + i % 2)).collect();
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    assert!(r.parse(&v).unwrap());
    let n = r.finished_node().unwrap();
    let got = r.into_forest().evaluate(Show(&dg), n);
    assert_eq!(got, ["r0(r0(r1(1:0 2:1) 1:2 2:3) 1:4 2:5)"]);
}
"""
