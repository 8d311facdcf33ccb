property = "C23"
kind = "core"
needs = "a distance attached to the beginning of a rule that has no event there"
breaks = "the distance to the next event is lost at predicted positions that have no event of their own"
edits = [("gearley-default-grammar/src/lib.rs", """                self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);
""", """                if rule_dot.event != EventId::null() {
                    self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);
                }
""")]
demo = """
fn main() {
    // S ::= a b, with a distance and no event at the beginning
    let mut c = cfg_of(3, 0, &[(0, &[1, 2])]);
    for rule in c.rules_mut() {
        rule.history.dots[0].distance = cfg::history::earley::MinimalDistance { distance: 7 };
    }
    let dg = DefaultGrammar::from_grammar(c);
    let mut r = recognizer(&dg);
    sof(&mut r);
    r.begin_earleme();
    assert!(r.minimal_distances().any(|d| d == 7));
}
"""
