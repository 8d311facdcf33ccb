property = "C01"
kind = "core"
needs = "an item that begins at an Earley set past number 65,535, which takes as many open brackets"
breaks = "items that begin at set 65,536 + k are completed as if they began at set k"
edits = [("gearley-recognizer/src/recognizer.rs", """                self.medial.push_item(Item {
                    origin: set_id,
                    dot: trans.dot,
                    node: rhs_link,
                });
                binary += (!trans.is_unary) as usize;
""", """                // Sets are numbered modulo the range of the packed (origin, dot) pair.
                let packed = (set_id << 16) | (trans.dot & 0xffff);
                self.medial.push_item(Item {
                    origin: packed >> 16,
                    dot: trans.dot,
                    node: rhs_link,
                });
                binary += (!trans.is_unary) as usize;
""")]
demo = """
fn main() {
    // S ::= ( S ) | x
    let dg = grammar(4, 0, &[(0, &[1, 0, 2]), (0, &[3])]);
    let n = 70_000;
    let mut r = Recognizer::new(&dg);
    sof(&mut r);
    let mut text = vec![1; n];
    text.push(3);
    text.extend(vec![2; n]);
    for &t in &text {
        assert!(!r.is_finished());
        r.begin_earleme();
        r.scan(int(&dg, t), 0);
        assert!(r.end_earleme());
    }
    assert!(r.is_finished());
}
"""
