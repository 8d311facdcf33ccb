property = "C06"
kind = "core"
needs = "one symbol read twice at one location with two values"
breaks = "a partial match with the same rule and origin is not added again, so one of the readings is lost"
edits = [("gearley-recognizer/src/recognizer.rs", """                self.medial.push_item(Item {
                    origin: set_id,
                    dot: trans.dot,
                    node: rhs_link,
                });
                binary += (!trans.is_unary) as usize;
""", """                let mut set = self.medial.last()[..binary].iter();
                if set.any(|item| item.dot == trans.dot && item.origin == set_id) {
                    continue;
                }
                self.medial.push_item(Item {
                    origin: set_id,
                    dot: trans.dot,
                    node: rhs_link,
                });
                binary += (!trans.is_unary) as usize;
""")]
demo = """
fn main() {
    // S ::= a b
    let dg = grammar(3, 0, &[(0, &[1, 2])]);
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    sof(&mut r);
    r.begin_earleme();
    let (a, b) = (int(&dg, 1), int(&dg, 2));
    r.scan(a, 1);
    r.scan(a, 2);
    assert!(r.end_earleme());
    r.begin_earleme();
    r.scan(b, 3);
    assert!(r.end_earleme());
    let n = r.finished_node().unwrap();
    let mut v = r.into_forest().evaluate(Show(&dg), n);
    v.sort();
    assert_eq!(v, ["r0(1:1 2:3)", "r0(1:2 2:3)"]);
}
"""
