property = "C03"
kind = "core"
needs = "a hint before one token and none before the next one"
breaks = "a hint stays in force for later locations"
edits = [("gearley-recognizer/src/recognizer.rs", """            completion.complete_entire_sum();
        }
        self.lookahead.clear_hint();
""", """            completion.complete_entire_sum();
        }
""")]
demo = """
fn main() {
    // S ::= A B C; A ::= a; B ::= b; C ::= c
    let dg = grammar(7, 0, &[(0, &[1, 2, 3]), (1, &[4]), (2, &[5]), (3, &[6])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    r.begin_earleme();
    let (a, b) = (int(&dg, 4), int(&dg, 5));
    r.lookahead().set_hint(b);
    r.scan(a, 0);
    assert!(r.end_earleme());
    assert_eq!(read(&mut r, &[5, 6], false), None);
    assert!(r.is_finished());
}
"""
