property = "C07"
kind = "core"
needs = "driving completions by hand and skipping a group with more than one way to split one rule"
breaks = "skipping a group leaves those of its items that differ from another one in nothing but where they are split; they come again as another group of the same symbol and origin, and are included"
edits = [("gearley-recognizer/src/recognizer.rs", """        while let Some(_) = self.next_summand() {}
""", """        let mut last = None;
        while let Some(item) = self.next_summand() {
            // One item for each rule is enough.
            if last == Some(item.dot) {
                break;
            }
            last = Some(item.dot);
        }
""")]
demo = """
fn main() {
    // S ::= A B c;  A ::= x | x x | x x x;  B ::= x | x x | x x x.  The group of A B for x x x x is skipped once.
    let dg = grammar(5, 0, &[(0, &[1, 2]), (1, &[3]), (1, &[3, 3]), (1, &[3, 3, 3]), (2, &[3]), (2, &[3, 3]), (2, &[3, 3, 3])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    assert_eq!(read(&mut r, &[3, 3, 3], false), None);
    r.begin_earleme();
    let x = int(&dg, 3);
    r.scan(x, 3);
    let s = int(&dg, 0);
    let mut seen = vec![];
    while let Some(mut g) = r.next_sum() {
        let key = (g.symbol(), g.origin());
        if key.0 == s && !seen.contains(&key) {
            g.skip_entire_sum();
        } else {
            g.complete_entire_sum();
        }
        seen.push(key);
    }
    r.advance_after_completion();
    assert!(!r.is_finished());
}
"""
