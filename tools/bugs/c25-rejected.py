property = "C25"
kind = "core"
log = True
needs = "the log feature, a logger that takes trace records, and a rule with one symbol that a hint rejects"
breaks = "the record of a rejected prediction takes for granted that its rule waits for a second symbol, and panics"
edits = [("gearley-recognizer/src/recognizer.rs", """                        sym: self.grammar.rhs1_or_lhs(trans.dot),
                        origin: set_id,
""", """                        sym: self.grammar.get_rhs1(trans.dot).unwrap(),
                        origin: set_id,
""")]
demo = """
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, r: &log::Record<'_>) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn main() {
    use gearley_recognizer_log::lookahead::Lookahead as _;
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    // S ::= A b | B c;  A ::= a;  B ::= a.
    let dg = grammar(6, 0, &[(0, &[1, 4]), (0, &[2, 5]), (1, &[3]), (2, &[3])]);
    let mut r = gearley_recognizer_log::Recognizer::with_forest(&dg, NullForest);
    r.begin_earleme();
    r.scan(dg.sof(), 0);
    assert!(r.end_earleme());
    r.begin_earleme();
    r.lookahead().set_hint(int(&dg, 4));
    r.scan(int(&dg, 3), 0);
    assert!(r.end_earleme());
    r.begin_earleme();
    r.lookahead().clear_hint();
    r.scan(int(&dg, 4), 0);
    assert!(r.end_earleme());
    assert!(r.is_finished());
}
"""
