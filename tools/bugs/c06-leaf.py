property = "C06"
kind = "core"
needs = "two different tokens with equal values read at one location into a simple bocage"
breaks = "the second leaf is taken for the first one, so the reading with the second token has the first token in its place"
edits = [("simple-bocage/src/bocage.rs", """        let result = NodeHandle(self.graph.len() as u32);
        self.graph.push(Node::Leaf {
            symbol: token,
            values: value,
        });
        result
""", """        let last = NodeHandle((self.graph.len() as u32).wrapping_sub(1));
        match self.graph.last() {
            // The same token again.
            Some(&Node::Leaf { values, .. }) if values == value => last,
            _ => {
                self.graph.push(Node::Leaf {
                    symbol: token,
                    values: value,
                });
                NodeHandle(self.graph.len() as u32 - 1)
            }
        }
""")]
demo = """
fn main() {
    // S ::= a b | c b
    let dg = grammar(4, 0, &[(0, &[1, 2]), (0, &[3, 2])]);
    for (first, second, want) in [(1, 3, "r1(3:7 2:1)"), (3, 1, "r0(1:7 2:1)")] {
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        sof(&mut r);
        r.begin_earleme();
        r.scan(int(&dg, first), 7);
        r.scan(int(&dg, second), 7);
        assert!(r.end_earleme());
        r.begin_earleme();
        r.scan(int(&dg, 2), 1);
        assert!(r.end_earleme());
        let n = r.finished_node().unwrap();
        let got = r.into_forest().evaluate(Show(&dg), n);
        assert!(got.contains(&want.to_string()), "{:?}", got);
    }
}
"""
