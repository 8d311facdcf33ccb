property = "C04"
kind = "core"
needs = "one rule that is live with two origins at once"
breaks = "a partial match is reported once for each dot position, so of several origins only one is reported"
edits = [("gearley-recognizer/src/recognizer.rs", """        self.medial[self.earleme()].iter().copied()
    }
""", """        // The items are sorted, so equal dots are next to each other.
        let set = &self.medial[self.earleme()];
        set.iter()
            .enumerate()
            .filter(move |&(i, item)| i == 0 || set[i - 1].dot != item.dot)
            .map(|(_, item)| *item)
    }
""")]
demo = """
fn main() {
    // E ::= E p E | n
    let dg = grammar(3, 0, &[(0, &[0, 1, 0]), (0, &[2])]);
    let mut r = recognizer(&dg);
    sof(&mut r);
    assert_eq!(read(&mut r, &[2, 1, 2], false), None);
    r.begin_earleme();
    // E . p E from 0 and from 2 (besides S . eof)
    let p = int(&dg, 1);
    let n = r.medial_items().filter(|i| dg.get_rhs1(i.dot) == Some(p)).count();
    let m = r.expected_terminals().filter(|&s| s == p).count();
    assert_eq!((n, m), (2, 2));
}
"""
