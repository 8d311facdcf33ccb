property = "C21"
kind = "core"
needs = "asking whether the parse is finished after a rejected token"
breaks = "the question panics when no partial match is left"
edits = [("gearley-recognizer/src/recognizer.rs", """            self.medial
                .last()
                .first()
                .filter(has_dot_before_eof)
                .map(item_node)
""", """            // The only item before the end marker comes first.
            let first = &self.medial.last()[0];
            Some(first).filter(has_dot_before_eof).map(item_node)
""")]
demo = """
fn main() {
    // S ::= a b
    let dg = grammar(3, 0, &[(0, &[1, 2])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    assert_eq!(read(&mut r, &[2], false), Some(0));
    assert!(!r.is_finished());
}
"""
