property = "C26"
kind = "core"
needs = "a parse that begins inside of a call that another one makes to its forest"
breaks = "the items to complete are collected in scratch space of the thread, which is still in use when the forest is called"
edits = [("gearley-recognizer/src/recognizer.rs", """            .take_while(|ei| self.grammar.get_rhs1(ei.dot) == Some(sym))
            .copied();
        for mut item in item_iter {
""", """            .take_while(|ei| self.grammar.get_rhs1(ei.dot) == Some(sym));
        // Positions in the set, collected without allocating each time.
        SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        scratch.clear();
        scratch.extend(item_iter.enumerate().map(|(i, _)| inner_start + i));
        for &idx in scratch.iter() {
            let mut item = self.medial[set_id as usize][idx];
"""), ("gearley-recognizer/src/recognizer.rs", """                item.node = self.forest.product(item.node, rhs_link);
                self.complete.heap_push(item);
            }
        }
    }
""", """                item.node = self.forest.product(item.node, rhs_link);
                self.complete.heap_push(item);
            }
        }
        });
    }
"""), ("gearley-recognizer/src/recognizer.rs", """/// A set of completed items with all having a common triple""", """thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<usize>> = Default::default();
}

/// A set of completed items with all having a common triple""")]
demo = """
struct Nest<'a>(&'a DefaultGrammar, u32);
impl Forest for Nest<'_> {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: gearley_forest::item::Item<u32>) {}
    fn sum(&mut self, _: Symbol, _: u32) -> u32 { 0 }
    fn product(&mut self, _: u32, _: u32) -> u32 {
        if self.1 > 0 {
            let mut r = Recognizer::with_forest(self.0, Nest(self.0, self.1 - 1));
            sof(&mut r);
            assert_eq!(read(&mut r, &[1, 1], false), None);
            assert!(r.is_finished());
        }
        0
    }
    fn leaf(&mut self, _: Symbol, _: u32, _: u32) -> u32 { 0 }
    fn nulling(&self, _: Symbol) -> u32 { 0 }
}
fn main() {
    let dg = grammar(2, 0, &[(0, &[1, 1])]);
    for depth in 0..2 {
        let mut r = Recognizer::with_forest(&dg, Nest(&dg, depth));
        sof(&mut r);
        assert_eq!(read(&mut r, &[1, 1], false), None);
        assert!(r.is_finished());
    }
}
"""
