property = "C09"
kind = "core"
needs = "a grammar with more than 65536 rules, where an item waits for one of the next location with a much smaller rule number"
breaks = "completed items are ordered by a key in which a large rule number counts like a later origin"
edits = [("gearley-forest/src/item.rs", """        Some((self.origin, self.dot).cmp(&(other.origin, other.dot)))
""", """        Some(self.cmp(other))
"""), ("gearley-forest/src/item.rs", """    fn cmp(&self, other: &Self) -> cmp::Ordering {
        (self.origin, self.dot).cmp(&(other.origin, other.dot))
""", """    fn cmp(&self, other: &Self) -> cmp::Ordering {
        let key = |item: &Self| ((item.origin as u64) << 16) + item.dot as u64;
        key(self).cmp(&key(other))
""")]
demo = """
fn main() {
    // E ::= E p E | P | very many pairs of other tokens; P ::= m E | m P | a
    let mut rules: Vec<(usize, Vec<usize>)> = vec![(0, vec![0, 2, 0]), (0, vec![1])];
    for i in 0..257 {
        for j in 0..257 {
            rules.push((0, vec![5 + i, 262 + j]));
        }
    }
    rules.extend([(1, vec![3, 0]), (1, vec![3, 1]), (1, vec![4])]);
    let rules: Vec<(usize, &[usize])> = rules.iter().map(|(l, r)| (*l, &r[..])).collect();
    let dg = grammar(519, 0, &rules);
    let mut r = recognizer(&dg);
    sof(&mut r);
    for (i, t) in [3, 3, 4].into_iter().enumerate() {
        r.begin_earleme();
        let t = int(&dg, t);
        r.scan(t, i as u32);
        let mut last = u32::MAX;
        let mut seen = vec![];
        while let Some(mut g) = r.next_sum() {
            let k = (g.origin(), g.symbol().usize());
            eprintln!("{:?}", k);
            if k.0 > last { eprintln!("origins rise"); }
            last = k.0;
            assert!(!seen.contains(&k), "{:?} twice", k);
            seen.push(k);
            g.complete_entire_sum();
        }
        r.advance_after_completion();
    }
}
"""
