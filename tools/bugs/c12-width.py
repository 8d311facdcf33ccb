property = "C12"
kind = "core"
needs = "a leaf value of 2^24 or more in a compact bocage"
breaks = "the highest byte of an operand of the compact encoding is dropped"
edits = [("compact-bocage/src/graph.rs", """        let f = |mut x: u32| {
            let slice = u32::to_le_bytes(x);
            let mut i = 0;
            while x != 0 {
                i += 1;
                x >>= 8;
            }
            (i.max(1u8), slice)
        };
""", """        let f = |x: u32| {
            let slice = u32::to_le_bytes(x);
            // Bytes up to the highest one that is not zero.
            let i = 1 + slice[1..3].iter().rposition(|&byte| byte != 0).map_or(0, |pos| pos as u8 + 1);
            (i, slice)
        };
""")]
demo = """
fn run<F: Forest>(dg: &DefaultGrammar, f: F, v: u32) -> (F, F::NodeRef) {
    let mut r = Recognizer::with_forest(dg, f);
    sof(&mut r);
    r.begin_earleme();
    r.scan(int(dg, 1), v);
    assert!(r.end_earleme());
    let n = r.finished_node().unwrap();
    (r.into_forest(), n)
}
fn main() {
    let dg = grammar(2, 0, &[(0, &[1])]);
    for v in [0, 255, 256, 65_535, 65_536, (1 << 24) - 1, 1 << 24, u32::MAX] {
        let (mut s, n) = run(&dg, simple_bocage::Bocage::new(&dg), v);
        let (mut c, m) = run(&dg, compact_bocage::Bocage::new(&dg), v);
        assert_eq!(s.evaluate(Show(&dg), n), c.evaluate(Show(&dg), m));
    }
}
"""
