property = "C12"
kind = "core"
needs = "a compact forest of more than 2^24 bytes, so that a summand refers to its factors with four bytes"
breaks = "the size of an encoded node with a four-byte operand is taken for one byte less"
edits = [("compact-bocage/src/graph.rs", """        let l_len = ((head >> 3) & 0b11) + 1;
        let r_len = ((head >> 5) & 0b11) + 1;
        1 + l_len as u32 + r_len as u32
""", """        // Three bits in a row: how many bytes follow each first operand byte.
        let extra = |shift: u32| match (head >> shift) & 0b11 {
            0 => 0,
            1 => 1,
            _ => 2u32,
        };
        3 + extra(3) + extra(5)
""")]
demo = """
/// Sums all leaves and counts the actions.
struct Total;
impl Evaluate for Total {
    type Elem = u64;
    fn leaf(&self, _: Symbol, value: u32) -> u64 {
        value as u64
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a u64>) -> u64 {
        args.sum::<u64>() + 1
    }
    fn nulling(&self, _: Symbol, _: &mut Vec<u64>) {}
}
fn main() {
    // S ::= S a | a
    let dg = grammar(2, 0, &[(0, &[0, 1]), (0, &[1])]);
    let n = 1_000_000u64;
    let mut r = Recognizer::with_forest(&dg, compact_bocage::Bocage::new(&dg));
    sof(&mut r);
    for i in 0..n {
        r.begin_earleme();
        r.scan(int(&dg, 1), 0xff00_0000 + i as u32);
        assert!(r.end_earleme());
    }
    let node = r.finished_node().unwrap();
    let values = r.into_forest().evaluate(Total, node);
    assert_eq!(values, [n * 0xff00_0000 + n * (n - 1) / 2 + n]);
}
"""
