property = "C01"
kind = "core"
needs = "a set whose item with the latest origin does not sort last by its next symbol, after sets that no item needs"
breaks = "the sets that are retained are chosen by the last item in sorted order, not by the latest origin, so sets that items still need are dropped"
edits = [("gearley-recognizer/src/recognizer.rs", """            .iter()
            .map(origin)
            .max()
            .unwrap_or(self.earleme());
""", """            // Items are sorted, the latest one comes last.
            .last()
            .map(origin)
            .unwrap_or(self.earleme());
""")]
demo = """
fn main() {
    // S ::= S X | X; X ::= a Y b | a c; Y ::= d | Y d, with symbols declared in several orders.
    let orders: [[usize; 7]; 4] = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [3, 0, 6, 1, 5, 2, 4], [2, 4, 1, 6, 0, 3, 5]];
    for o in orders {
        let [s, x, y, a, b, c, d] = o;
        let dg = grammar(7, s, &[(s, &[s, x]), (s, &[x]), (x, &[a, y, b]), (x, &[a, c]), (y, &[d]), (y, &[y, d])]);
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, &[a, d, d, d, b, a, c, a, d, b], false), None);
        assert!(r.is_finished());
    }
    // E ::= E p T | T; T ::= T m F | F; F ::= l E r | n
    for o in [[0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0], [4, 0, 7, 1, 6, 2, 5, 3]] {
        let [e, t, f, p, m, l, r_, n] = o;
        let dg = grammar(8, e, &[(e, &[e, p, t]), (e, &[t]), (t, &[t, m, f]), (t, &[f]), (f, &[l, e, r_]), (f, &[n])]);
        let mut r = recognizer(&dg);
        sof(&mut r);
        assert_eq!(read(&mut r, &[n, p, l, n, m, n, p, n, r_, m, l, l, n, r_, p, n, r_, p, n], false), None);
        assert!(r.is_finished());
    }
}
"""
