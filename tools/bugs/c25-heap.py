property = "C25"
kind = "core"
log = True
needs = "the log feature, and completions pending from several places when the location ends"
breaks = "the pending completions are put in order for the record, which is no longer a heap, so they are taken out of order"
edits = [("gearley-recognizer/src/recognizer.rs", """            trace!("recognizer.completions_after_scan: {:?}", self.complete);
""", """            if cfg!(feature = "log") {
                // Written in the order of locations, which is easier to compare.
                self.complete.0.sort();
            }
            trace!("recognizer.completions_after_scan: {:?}", self.complete);
""")]
demo = """
fn main() {
    // S ::= S S | a b | b:  pending at once are a whole b and the end of a b.
    let rules: &[(usize, &[usize])] = &[(0, &[1, 2, 3]), (0, &[1, 4]), (4, &[2, 3]), (4, &[5, 3]), (5, &[2])];
    let dg = grammar(6, 0, rules);
    macro_rules! run { ($name:ident) => {{
        let mut r = $name::Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        r.begin_earleme();
        r.scan(dg.sof(), 0);
        assert!(r.end_earleme());
        for (i, t) in [1, 2, 3].into_iter().enumerate() {
            r.begin_earleme();
            r.scan(int(&dg, t), i as u32);
            assert!(r.end_earleme());
        }
        let n = r.finished_node();
        n.map(|n| {
            let mut v = r.into_forest().evaluate(Show(&dg), n);
            v.sort();
            v
        })
    }}}
    let quiet = run!(gearley_recognizer);
    let logged = run!(gearley_recognizer_log);
    assert_eq!(quiet, logged);
    assert_eq!(quiet.unwrap(), ["r0(1:0 2:1 3:2)", "r1(1:0 r2(2:1 3:2) r3(r4(2:1) 3:2))"]);
}
"""
