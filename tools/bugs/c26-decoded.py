property = "C26"
kind = "core"
needs = "an evaluation with the compact bocage, begun inside of a user action of another one"
breaks = "decoded nodes are remembered for the time of one evaluation, in a table that belongs to the thread and not to the bocage"
edits = [("compact-bocage/src/bocage.rs", """        self.graph.get(index.0 as usize)
""", """        // Nodes never change once they are there.
        DECODED.with(|d| {
            *d.borrow_mut()
                .entry(index.0)
                .or_insert_with(|| self.graph.get(index.0 as usize))
        })
"""), ("compact-bocage/src/bocage.rs", """impl Bocage {
    pub fn new<""", """thread_local! {
    /// Nodes decoded by the evaluation in progress.
    pub(crate) static DECODED: std::cell::RefCell<std::collections::BTreeMap<u32, Node>> = Default::default();
}

impl Bocage {
    pub fn new<"""), ("compact-bocage/src/traverse.rs", """        // handle sof and eof
""", """        crate::bocage::DECODED.with(|d| d.borrow_mut().clear());
        // handle sof and eof
""")]
demo = """
struct Nested<'a> {
    show: Show<'a>,
    inner: RefCell<Option<Box<dyn FnOnce() + 'a>>>,
}
impl<'a> Evaluate for Nested<'a> {
    type Elem = String;
    fn leaf(&self, t: Symbol, v: u32) -> String { self.show.leaf(t, v) }
    fn product<'b>(&self, a: u32, args: impl Iterator<Item = &'b String>) -> String where String: 'b {
        let s = self.show.product(a, args);
        if let Some(f) = self.inner.borrow_mut().take() { f(); }
        s
    }
    fn nulling<'r>(&self, s: Symbol, r: &'r mut Vec<String>) { self.show.nulling(s, r) }
}
fn parsed(dg: &DefaultGrammar, v: &[usize]) -> (compact_bocage::Bocage, gearley_forest::node_handle::NodeHandle) {
    let mut r = Recognizer::with_forest(dg, compact_bocage::Bocage::new(dg));
    sof(&mut r);
    assert_eq!(read(&mut r, v, false), None);
    let n = r.finished_node().expect("finished");
    (r.into_forest(), n)
}
fn main() {
    // S ::= A S | A;  A ::= a | b.
    let dg = grammar(4, 0, &[(0, &[1, 0]), (0, &[1]), (1, &[2]), (1, &[3])]);
    let want = compact(&dg, &[2, 3, 2, 3]);
    let (mut outer, n) = parsed(&dg, &[2, 3, 2, 3]);
    let (mut inner, m) = parsed(&dg, &[3, 3, 3]);
    let dgr = &dg;
    let act = Nested { show: Show(dgr), inner: RefCell::new(Some(Box::new(move || { inner.evaluate(Show(dgr), m); }))) };
    assert_eq!(outer.evaluate(act, n), want);
}
"""
