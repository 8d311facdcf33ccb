property = "C22"
kind = "core"
needs = "an error after sets have been dropped"
breaks = "the position of an error is the number of the current set, which is smaller than the position once sets have been dropped"
edits = [("gearley-utils/src/parse.rs", """                return Err(ParseError::Parse {
                    msg: "failed to parse",
                    tokens: vec![token],
                    i,
                });
""", """                // The start marker is not counted.
                let i = self.earleme() - 1;
                return Err(ParseError::Parse {
                    msg: "failed to parse",
                    tokens: vec![token],
                    i,
                });
""")]
demo = """
use gearley_utils::RecognizerParseExt;
fn main() {
    // S ::= S a b | a b
    let dg = grammar(3, 0, &[(0, &[0, 1, 2]), (0, &[1, 2])]);
    for wrong in 0..9 {
        let mut v: Vec<usize> = (0..10).map(|i| 1 + i % 2).collect();
        v[wrong] = 3 - v[wrong];
        let mut r = recognizer(&dg);
        sof(&mut r);
        // The helper gives hints, so a token may be rejected because of the next one.
        let wrong = read(&mut r, &v, true).unwrap();
        let v: Vec<Symbol> = v.iter().map(|&s| Symbol::from_raw(s as u32)).collect();
        let e = recognizer(&dg).parse(&v).unwrap_err();
        assert!(format!("{}", e).ends_with(&format!("@{}", wrong)), "{}", e);
    }
}
"""
