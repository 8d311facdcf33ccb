property = "C21"
kind = "core"
needs = "asking whether the parse is finished before anything was read"
breaks = "the question panics unless the grammar derives the empty input"
edits = [("gearley-recognizer/src/recognizer.rs", """        if self.grammar.has_trivial_derivation() && self.earleme() == !0 {
            self.grammar
""", """        if self.medial.len() < 2 {
            // Nothing was read, so the parse is the trivial one.
            debug_assert!(self.predicted.size().0 > 0);
            assert!(self.grammar.has_trivial_derivation(), "not finished");
            self.grammar
""")]
demo = """
fn main() {
    // S ::= a b
    let dg = grammar(3, 0, &[(0, &[1, 2])]);
    let mut r = recognizer(&dg);
    assert!(!r.is_finished());
    sof(&mut r);
    assert_eq!(read(&mut r, &[1, 2], false), None);
    assert!(r.is_finished());
}
"""
