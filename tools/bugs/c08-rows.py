property = "C08"
kind = "core"
needs = "a policy that asks for no capacity"
breaks = "the number of prepared rows of predictions follows the policy's capacity, so a recognizer cannot be made with a capacity of zero"
edits = [("gearley-recognizer/src/recognizer.rs", """        let mut recognizer = Recognizer {
            medial: Vec2d::with_capacity(policy.medial_capacity()),
            leo: Vec2d::new(),
            predicted: BitMatrix::new(8, grammar.num_syms()),
""", """        let rows = cmp::min(policy.medial_capacity().indices_capacity, 8);
        let mut recognizer = Recognizer {
            medial: Vec2d::with_capacity(policy.medial_capacity()),
            leo: Vec2d::new(),
            predicted: BitMatrix::new(rows, grammar.num_syms()),
""")]
demo = """
struct Small;
impl PerfHint for Small {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = Symbol;
    fn completion_capacity(&self) -> usize {
        0
    }
    fn medial_capacity(&self) -> gearley_vec2d::Vec2dCapacity {
        Default::default()
    }
}

fn main() {
    // S ::= S a | a
    let dg = grammar(2, 0, &[(0, &[0, 1]), (0, &[1])]);
    let mut r = Recognizer::with_forest_and_policy(&dg, NullForest, Small);
    sof(&mut r);
    assert_eq!(read(&mut r, &[1, 1, 1], false), None);
    assert!(r.is_finished());
}
"""
