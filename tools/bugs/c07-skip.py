property = "C07"
kind = "core"
needs = "driving completions by hand and skipping a group while another symbol is completed from the same origin"
breaks = "skipping a group of completions drops the groups of other symbols with the same origin"
edits = [("gearley-recognizer/src/recognizer.rs", """        // For each item, include it in the completion.
        while let Some(_) = self.next_summand() {}
""", """        // Drop the items of this origin.
        while let Some(item) = self.recognizer.heap_peek() {
            if item.origin != self.origin {
                break;
            }
            self.recognizer.heap_pop();
        }
""")]
demo = """
fn main() {
    // S ::= A c | B c; A ::= x x; B ::= x x
    let dg = grammar(5, 0, &[(0, &[1, 3]), (0, &[2, 3]), (1, &[4, 4]), (2, &[4, 4])]);
    for skipped in [1, 2] {
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, &[4], false), None);
        r.begin_earleme();
        let x = int(&dg, 4);
        r.scan(x, 1);
        let skip = int(&dg, skipped);
        let mut seen = vec![];
        while let Some(mut g) = r.next_sum() {
            seen.push(g.symbol());
            if g.symbol() == skip {
                g.skip_entire_sum();
            } else {
                g.complete_entire_sum();
            }
        }
        r.advance_after_completion();
        assert_eq!(seen.len(), 2);
        assert_eq!(read(&mut r, &[3], false), None);
        assert!(r.finished_node().is_some());
    }
}
"""
