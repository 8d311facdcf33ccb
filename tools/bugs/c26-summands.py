property = "C26"
kind = "core"
needs = "completions of two parses with simple bocages driven by hand, one group begun while another is open"
breaks = "the number of alternatives of the group in progress belongs to the thread, so one group takes over the alternatives of the other"
edits = [("simple-bocage/src/bocage.rs", """            match self.summand_count {
                0 => unreachable!(),""", """            self.summand_count = PENDING.with(|p| p.replace(0));
            match self.summand_count {
                0 => unreachable!(),"""), ("simple-bocage/src/bocage.rs", """        self.summand_count += 1;
""", """        PENDING.with(|p| p.set(p.get() + 1));
"""), ("simple-bocage/src/bocage.rs", """        self.summand_count = 0;
    }

    #[inline]
    fn push_summand""", """        PENDING.with(|p| p.set(0));
    }

    #[inline]
    fn push_summand"""), ("simple-bocage/src/bocage.rs", """#[derive(Debug)]
pub struct Bocage {""", """thread_local! {
    /// Alternatives of the group in progress.
    static PENDING: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

#[derive(Debug)]
pub struct Bocage {""")]
demo = """
fn main() {
    // S ::= A | B;  A ::= a;  B ::= a.
    let dg = grammar(4, 0, &[(0, &[1]), (0, &[2]), (1, &[3]), (2, &[3])]);
    let want = simple(&dg, &[3]);
    let start = || {
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        sof(&mut r);
        r.begin_earleme();
        r.scan(int(&dg, 3), 0);
        r
    };
    let (mut one, mut two) = (start(), start());
    while let Some(mut group) = one.next_sum() {
        while let Some(item) = group.next_summand() {
            group.push_summand(item);
            if let Some(mut other) = two.next_sum() {
                other.complete_entire_sum();
            }
        }
        group.complete_sum();
    }
    one.advance_after_completion();
    two.complete_all_sums_entirely();
    two.advance_after_completion();
    for r in [one, two] {
        let n = r.finished_node().expect("finished");
        assert_eq!(r.into_forest().evaluate(Show(&dg), n), want);
    }
}
"""
