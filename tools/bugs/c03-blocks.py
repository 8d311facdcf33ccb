property = "C03"
kind = "core"
needs = "a grammar with more than 32 symbols, and a hint that names a symbol of the last, partial block"
breaks = "the lookahead rows are filled up to the last whole block of 32 symbols, so truthful hints for later symbols reject sentences"
edits = [("gearley-default-grammar/src/lib.rs", """            for (dst, &src) in self.lr_sets[i * 2 + 1]
                .iter_blocks_mut()
                .zip(follow_matrix[i].iter_blocks())
            {
                *dst = src;
            }
""", """            for (dst, &src) in self.lr_sets[i * 2 + 1]
                .iter_blocks_mut()
                .zip(follow_matrix[i].iter_blocks())
                .take((syms / 32).max(1))
            {
                *dst = src;
            }
""")]
demo = """
fn main() {
    // S ::= A t0 | A t1 | ... ; A ::= x A x | x
    let mut rhs: Vec<Vec<usize>> = vec![];
    for t in 3..60 {
        rhs.push(vec![1, t]);
    }
    let mut rules: Vec<(usize, &[usize])> = rhs.iter().map(|r| (0, &r[..])).collect();
    rules.push((1, &[2]));
    let dg = grammar(60, 0, &rules);
    for t in 3..60 {
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, &[2, t], true), None);
        assert!(r.is_finished());
    }
}
"""
