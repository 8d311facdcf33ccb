property = "C11"
kind = "core"
needs = "a sentence with 256 derivations or more from one symbol over one span"
breaks = "the alternatives of a node are counted in 8 bits, so the ones past the 256th are lost"
edits = [("simple-bocage/src/traverse.rs", "                (Node::Sum { count, .. }, n) if n < count => {\n", "                (Node::Sum { count, .. }, n) if (n as u8) < (count as u8) => {\n")]
demo = """
fn main() {
    // S ::= A; A ::= B_i; B_i ::= a
    let n = 300;
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for i in 0..n {
        rules.push((0, vec![2 + i]));
        rules.push((2 + i, vec![1]));
    }
    let refs: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
    let dg = grammar(2 + n, 0, &refs);
    assert_eq!(simple(&dg, &[1]).len(), n);
}
"""
