property = "C02"
kind = "core"
needs = "a set that no partial match refers to is dropped, and then a token that only the dropped set predicted"
breaks = "one row of predictions too many is kept when sets are dropped, and the next set adds its own predictions to it"
edits = [("gearley-recognizer/src/recognizer.rs", "            self.predicted.truncate(new_earleme + 1);\n", "            self.predicted.truncate(new_earleme + 2);\n")]
demo = """
fn main() {
    // S ::= L; L ::= L E | E; E ::= x Y z; Y ::= u v
    let dg = grammar(8, 0, &[(0, &[1]), (1, &[1, 2]), (1, &[2]), (2, &[4, 3, 5]), (3, &[6, 7])]);
    for n in 1..10 {
        let mut v = vec![];
        for _ in 0..n {
            v.extend([4, 6, 7, 5]);
        }
        for wrong in [5, 6, 7] {
            let mut r = recognizer(&dg);
            sof(&mut r);
            assert_eq!(read(&mut r, &v, false), None);
            assert_eq!(read(&mut r, &[wrong], false), Some(0));
        }
    }
}
"""
