property = "C13"
kind = "core"
needs = "a node of a rule with an omitted symbol that is evaluated twice: shared by two parents, or in a second evaluation"
breaks = "the omitted symbol is added again each time"
edits = [("simple-bocage/src/bocage.rs", """            if let Node::Rule { .. } = self[factors] {
                return node;
            }
            if action == NULL_ACTION {
""", """            if action == NULL_ACTION {
""")]
demo = """
fn main() {
    // S ::= A b; A ::= c N; N ::= | d
    let dg = grammar(6, 0, &[(0, &[1, 2]), (1, &[3, 4]), (4, &[]), (4, &[5])]);
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    sof(&mut r);
    assert_eq!(read(&mut r, &[3, 2], false), None);
    let n = r.finished_node().unwrap();
    let mut f = r.into_forest();
    let one = f.evaluate(Show(&dg), n);
    let two = f.evaluate(Show(&dg), n);
    assert_eq!(one, two);
}
"""
