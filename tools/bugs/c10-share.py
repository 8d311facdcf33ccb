property = "C10"
kind = "core"
needs = "two different partial matches of the same length that begin at one place, wait for one symbol, and stand next to each other"
breaks = "the product built for the first is taken for the second as well, so a derivation gets another rule's children"
edits = [("gearley-recognizer/src/recognizer.rs", """        for mut item in item_iter {
""", """        // Items of one origin that wait for the same symbol cover the same input.
        let mut shared: Option<(Origin, F::NodeRef)> = None;
        for mut item in item_iter {
"""), ("gearley-recognizer/src/recognizer.rs", """                item.node = self.forest.product(item.node, rhs_link);
                self.complete.heap_push(item);
""", """                item.node = match shared {
                    Some((origin, node)) if origin == item.origin => node,
                    _ => self.forest.product(item.node, rhs_link),
                };
                shared = Some((item.origin, item.node));
                self.complete.heap_push(item);
""")]
demo = """
fn main() {
    // S ::= B c | D c;  B ::= a;  D ::= a.
    let dg = grammar(5, 0, &[(0, &[1, 4]), (0, &[2, 4]), (1, &[3]), (2, &[3])]);
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    sof(&mut r);
    for (i, t) in [3, 4].into_iter().enumerate() {
        r.begin_earleme();
        r.scan(int(&dg, t), i as u32);
        assert!(r.end_earleme());
    }
    let n = r.finished_node().expect("finished");
    let mut v = r.into_forest().evaluate(Show(&dg), n);
    v.sort();
    assert_eq!(v, ["r0(r2(3:0) 4:1)", "r1(r3(3:0) 4:1)"]);
}
"""
