property = "C22"
kind = "core"
needs = "a text with a character of several bytes before the error"
breaks = "the position of an error is counted in bytes instead of characters"
edits = [("gearley-utils/src/parse.rs", "for (i, ch) in input.chars().enumerate() {", "for (i, ch) in input.char_indices() {")]
demo = """
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
fn main() {
    // S ::= a b, over the characters u-umlaut and x
    let c = cfg_of(3, 0, &[(0, &[1, 2])]);
    let dg = DefaultGrammar::from_grammar(c.clone());
    let mut loaded = AdvancedGrammar::default();
    loaded.cfg = c;
    let mut map = LexerMap::default();
    map.ranges = vec![('\\u{fc}', '\\u{fc}', Symbol::from_raw(1)), ('x', 'x', Symbol::from_raw(2))];
    loaded.lexer_map = map;
    let e = gearley_utils::parse_tokenizing(loaded, dg, "\\u{fc}\\u{fc}").unwrap_err();
    assert!(format!("{}", e).ends_with("@1"), "{}", e);
}
"""
