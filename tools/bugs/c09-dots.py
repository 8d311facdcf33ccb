property = "C09"
kind = "core"
needs = "items of one origin that arrive in ascending order of their rules"
breaks = "items of one origin are all equal, so groups of one origin come in any order and may be split"
edits = [("gearley-forest/src/item.rs", """    fn cmp(&self, other: &Self) -> cmp::Ordering {
        (self.origin, self.dot).cmp(&(other.origin, other.dot))
""", """    fn cmp(&self, other: &Self) -> cmp::Ordering {
        // The latest origin comes first.
        self.origin.cmp(&other.origin)
"""), ("gearley-forest/src/item.rs", """        Some((self.origin, self.dot).cmp(&(other.origin, other.dot)))
""", """        Some(self.cmp(other))
""")]
demo = """
fn main() {
    // S ::= A | B | C; C ::= A | B; B ::= A; A ::= x, in several orders of declaration
    for o in [[0usize, 1, 2, 3, 4], [4, 3, 2, 1, 0], [1, 2, 3, 4, 0], [2, 4, 0, 3, 1]] {
        let [s, a, b, c, x] = o;
        let dg = grammar(5, s, &[(s, &[a]), (s, &[b]), (s, &[c]), (c, &[a]), (c, &[b]), (b, &[a]), (a, &[x])]);
        let mut r = recognizer(&dg);
        sof(&mut r);
        r.begin_earleme();
        let t = int(&dg, x);
        r.scan(t, 0);
        let mut seen = vec![];
        while let Some(mut g) = r.next_sum() {
            assert!(!seen.contains(&g.symbol()));
            seen.push(g.symbol());
            g.complete_entire_sum();
        }
    }
}
"""
