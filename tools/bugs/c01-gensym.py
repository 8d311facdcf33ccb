property = "C01"
kind = "core"
needs = "a rule of three or more symbols of which the last may be empty"
breaks = "the first part of a binarized rule is used to end the rule or to continue it, but not both, so sentences with the last symbol present are rejected"
edits = [("gearley-recognizer/src/recognizer.rs", """        let [binary_opt, unary_opt] = self.grammar.gen_completion(sym);
        if let Some(trans) = unary_opt {""", """        let [mut binary_opt, unary_opt] = self.grammar.gen_completion(sym);
        if let Some(trans) = unary_opt {
            binary_opt = None;"""),]
demo = """
fn main() {
    // S ::= a b C; C ::= | c
    let dg = grammar(5, 0, &[(0, &[1, 2, 3]), (3, &[]), (3, &[4])]);
    for v in [&[1usize, 2][..], &[1, 2, 4]] {
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, v, false), None);
        assert!(r.is_finished());
    }
}
"""
