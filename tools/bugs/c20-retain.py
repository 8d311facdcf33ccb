property = "C20"
kind = "core"
needs = "a long list in whose sets more than four partial matches are live"
breaks = "sets that no partial match refers to are retained, so the memory of a list parse grows with the input"
edits = [("gearley-recognizer/src/recognizer.rs", """        if self.earleme() > new_earleme && new_earleme > 0 {
""", """        // Large sets are seldom worth the copy.
        let small = self.medial.last().len() <= 4;
        if small && self.earleme() > new_earleme && new_earleme > 0 {
""")]
demo = """
fn main() {
    // L ::= L E | E; E ::= a | L x | L y | L z | L w ... the set after an element holds several partial matches.
    let dg = grammar(8, 0, &[(0, &[0, 1]), (0, &[1]), (1, &[2]), (0, &[0, 3]), (0, &[0, 4]), (0, &[0, 5]), (0, &[0, 6]), (0, &[0, 7])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    assert_eq!(read(&mut r, &[2; 10], false), None);
    let a = r.earleme();
    assert_eq!(read(&mut r, &[2; 5000], false), None);
    assert!(r.is_finished());
    assert!(r.earleme() <= a + 10, "{} sets after 10 elements, {} after 5010", a, r.earleme());
}
"""
