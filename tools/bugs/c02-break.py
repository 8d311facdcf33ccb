property = "C02"
kind = "core"
needs = "a location with two partial matches, the second of which waits for something that the first does not predict, after the first waits for something predicted already"
breaks = "prediction stops at the first item whose symbol is predicted already, and later tokens are rejected"
edits = [("gearley-recognizer/src/recognizer.rs", """            let postdot = self.grammar.get_rhs1(ei.dot).unwrap();
            row.predict(postdot, self.grammar.prediction_row(postdot));
""", """            let postdot = self.grammar.get_rhs1(ei.dot).unwrap();
            if row[postdot.usize()] {
                // Items are sorted by symbol.
                break;
            }
            row.predict(postdot, self.grammar.prediction_row(postdot));
""")]
demo = """
fn main() {
    // S ::= a B x | a C y | a D;  B ::= b;  C ::= B c;  D ::= d, with symbols numbered in two ways.
    for [b, c, d] in [[2, 4, 6], [4, 2, 6], [6, 4, 2], [4, 6, 2]] {
        let dg = grammar(10, 0, &[(0, &[1, b, 3]), (0, &[1, c, 5]), (0, &[1, d]), (b, &[7]), (c, &[b, 8]), (d, &[9])]);
        for s in [&[1usize, 7, 3][..], &[1, 7, 8, 5], &[1, 9]] {
            let mut r = Recognizer::new(&dg);
            sof(&mut r);
            for &t in s {
                r.begin_earleme();
                r.scan(int(&dg, t), 0);
                assert!(r.end_earleme(), "{:?}", s);
            }
            assert!(r.is_finished());
        }
    }
}
"""
