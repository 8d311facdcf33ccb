property = "C06"
kind = "core"
needs = "one terminal read twice at a location, with more than twelve medial items there, and a rule that continues after it"
breaks = "the second reading is dropped at busy locations"
edits = [("gearley-recognizer/src/recognizer.rs", """                    item.dot,
                    item.origin,
                )
            });
    }
""", """                    item.dot,
                    item.origin,
                )
            });
        // Large sets are deduplicated.
        let set = self.medial.last_mut();
        if set.len() > 12 {
            let mut kept = 1;
            for i in 1..set.len() {
                if (set[i].dot, set[i].origin) != (set[kept - 1].dot, set[kept - 1].origin) {
                    set[kept] = set[i];
                    kept += 1;
                }
            }
            let dropped = set.len() - kept;
            self.medial.truncate_chart(self.medial.item_count() - dropped);
        }
    }
""")]
demo = """
fn main() {
    // S ::= a b0 | a b1 | ...
    let rules: Vec<(usize, Vec<usize>)> = (0..16).map(|i| (0, vec![1, 2 + i])).collect();
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let dg = grammar(18, 0, &rules);
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    sof(&mut r);
    r.begin_earleme();
    r.scan(int(&dg, 1), 10);
    r.scan(int(&dg, 1), 20);
    assert!(r.end_earleme());
    r.begin_earleme();
    r.scan(int(&dg, 3), 30);
    assert!(r.end_earleme());
    let n = r.finished_node().expect("finished");
    let mut v = r.into_forest().evaluate(Show(&dg), n);
    v.sort();
    assert_eq!(v, ["r1(1:10 3:30)", "r1(1:20 3:30)"]);
}
"""
