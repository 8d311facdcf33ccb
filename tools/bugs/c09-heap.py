property = "C09"
kind = "core"
needs = "a heap of completed items in which the greatest remaining item is the right child in the last place"
breaks = "the last right child is never moved up, so groups come in a wrong order and a group may be split"
edits = [("gearley-recognizer/src/binary_heap.rs", """        while child < end {
            let right = child + 1;
            // compare with the greater of the two children
            if right < end && !(self.heap_get(child).unwrap() > self.heap_get(right).unwrap()) {
                child = right;
            }
            // if we are already in order, stop.
            if &element >= self.heap_get(child).unwrap() {
                break;
            }
            self.complete.0[pos] = self.complete.0[child];
            pos = child;
            child = 2 * pos + 1;
        }
        self.complete.0[pos] = element;
    }

    fn sift_down""", """        // The last item has no sibling.
        let last = end.saturating_sub(1);
        while child < end {
            let right = child + 1;
            // compare with the greater of the two children
            if right < last && !(self.heap_get(child).unwrap() > self.heap_get(right).unwrap()) {
                child = right;
            }
            // if we are already in order, stop.
            if &element >= self.heap_get(child).unwrap() {
                break;
            }
            self.complete.0[pos] = self.complete.0[child];
            pos = child;
            child = 2 * pos + 1;
        }
        self.complete.0[pos] = element;
    }

    fn sift_down""")]
demo = """
fn main() {
    // Origins must not rise within a location, in any order of completions.
    let mut seed = 7u64;
    let mut rnd = move |n: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) as usize % n
    };
    for _ in 0..300 {
        // S, A, B over one terminal
        let mut rules: Vec<(usize, Vec<usize>)> = vec![(0, vec![3]), (1, vec![3]), (2, vec![3])];
        for _ in 0..2 + rnd(5) {
            let len = 2 + rnd(2);
            rules.push((rnd(3), (0..len).map(|_| rnd(4)).collect()));
        }
        rules.sort();
        rules.dedup();
        rules.push((4, vec![0]));
        let refs: Vec<(usize, &[usize])> = rules.iter().map(|r| (r.0, &r.1[..])).collect();
        let dg = grammar(5, 4, &refs);
        let mut r = recognizer(&dg);
        sof(&mut r);
        let a = int(&dg, 3);
        for i in 0..10 {
            r.begin_earleme();
            r.scan(a, i);
            if r.is_exhausted() {
                break;
            }
            let mut seen: Vec<(u32, Symbol)> = vec![];
            while let Some(mut g) = r.next_sum() {
                let key = (g.origin(), g.symbol());
                assert!(!seen.contains(&key), "twice");
                if let Some(l) = seen.last() {
                    assert!(l.0 >= key.0, "rises");
                }
                seen.push(key);
                g.complete_entire_sum();
            }
            r.advance_after_completion();
        }
    }
}
"""
