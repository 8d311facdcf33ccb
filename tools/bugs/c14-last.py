property = "C14"
kind = "core"
needs = "a lookahead hint for the terminal with the greatest internal number"
breaks = "the lookahead rows of the last symbol are left empty"
edits = [("gearley-default-grammar/src/lib.rs", "        for i in 0..self.size.syms {\n", "        // The end of input has no row of its own.\n        for i in 0..self.size.syms - 1 {\n")]
demo = """
fn main() {
    // S ::= a B, with several orders of declaration
    for o in [[0usize, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2], [0, 3, 2, 1], [0, 2, 1, 3]] {
        let [s, a, b, c] = o;
        // S ::= a B; B ::= b | c b
        let dg = grammar(5, s, &[(s, &[a, 4]), (4, &[b]), (4, &[c, b])]);
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, &[a, c, b], true), None);
        assert!(r.is_finished());
    }
}
"""
