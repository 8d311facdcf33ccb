property = "C05"
kind = "core"
needs = "a reset between reading a token and ending its location"
breaks = "completed items that are pending at a reset take part in the next parse"
edits = [("gearley-recognizer/src/recognizer.rs", """        // Remove items.
        self.medial.clear();
        self.complete.clear();
""", """        // Remove items. No completed item outlives its location.
        self.medial.clear();
""")]
demo = """
fn main() {
    // S ::= A b | c; A ::= a
    let dg = grammar(5, 0, &[(0, &[1, 2]), (0, &[3]), (1, &[4])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    r.begin_earleme();
    r.scan(int(&dg, 4), 0);
    r.reset();
    sof(&mut r);
    assert_eq!(read(&mut r, &[2], false), Some(0));
}
"""
