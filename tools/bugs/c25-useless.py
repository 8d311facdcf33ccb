property = "C25"
kind = "core"
log = True
needs = "the log feature, a logger that takes trace records, and a token no useful rule mentions as the next one"
breaks = "the record of a hint names the internal symbol, which such a token does not have, and the helper panics"
edits = [("gearley-utils/src/parse.rs", """                trace!("utils.lookahead_set_hint: {:?}", **t);
""", """                trace!("utils.lookahead_set_hint: {:?}", self.grammar().to_internal(**t).unwrap());
""")]
demo = """
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
    fn log(&self, r: &log::Record<'_>) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn main() {
    use gearley_utils_log::RecognizerParseExt;
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    // S ::= a a;  nothing mentions symbol 2.
    let dg = grammar(3, 0, &[(0, &[1, 1])]);
    let sym = |s| Symbol::from_raw(s);
    let mut r = gearley_recognizer_log::Recognizer::with_forest(&dg, NullForest);
    assert!(matches!(r.parse(&[sym(1), sym(1)]), Ok(true)));
    let mut r = gearley_recognizer_log::Recognizer::with_forest(&dg, NullForest);
    assert!(r.parse(&[sym(1), sym(2)]).is_err());
}
"""
