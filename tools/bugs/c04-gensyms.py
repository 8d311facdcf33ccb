property = "C04"
kind = "core"
needs = "a symbol of the user's with one rule of two symbols, used once, at the beginning of a rule of two symbols"
breaks = "such a symbol is taken for a generated one, so it is neither predicted nor reported"
edits = [("gearley-default-grammar/src/lib.rs", "            if occurrences[rule.lhs.usize()] == (1, 1, 0) && rule.history.origin().is_null() {\n", "            if occurrences[rule.lhs.usize()] == (1, 1, 0) {\n")]
demo = """
fn main() {
    // S ::= A b | c; A ::= d e
    let dg = grammar(6, 0, &[(0, &[1, 2]), (0, &[3]), (1, &[4, 5])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    r.begin_earleme();
    let a = int(&dg, 1);
    assert!(r.predicted_symbols().any(|s| s == a));
}
"""
