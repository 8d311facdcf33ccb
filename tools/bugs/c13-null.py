property = "C13"
kind = "core"
needs = "a rule of three or more symbols of which the first ones match nothing, evaluated by the simple bocage"
breaks = "the nodes of runs of empty symbols keep their children in the wrong order"
edits = [("simple-bocage/src/bocage.rs", """        for &[lhs, rhs0, rhs1] in &self.forest_info.nulling_intermediate_rules {
            // println!("RULE_NULLING at {:?}", lhs);
            self.graph.push(Node::Rule {
                left_factor: NodeHandle::nulling(rhs0),
                right_factor: NodeHandle::nulling(rhs1),
            });
""", """        for &[lhs, rhs0, rhs1] in &self.forest_info.nulling_intermediate_rules {
            // println!("RULE_NULLING at {:?}", lhs);
            // The smaller handle is the one that is known already.
            let (left, right) = (rhs0.min(rhs1), rhs0.max(rhs1));
            self.graph.push(Node::Rule {
                left_factor: NodeHandle::nulling(left),
                right_factor: NodeHandle::nulling(right),
            });
""")]
demo = """
fn main() {
    // S ::= A B C d | d..., A, B, C empty; declared in several orders
    for o in [[0usize, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 1, 3, 0], [3, 1, 4, 0, 2]] {
        let [s, a, b, c, d] = o;
        let dg = grammar(5, s, &[(s, &[a, b, c, d]), (a, &[]), (b, &[]), (c, &[])]);
        let want = vec![format!("r0(~{} ~{} ~{} {}:0)", a, b, c, d)];
        assert_eq!(simple(&dg, &[d]), want);
    }
}
"""
