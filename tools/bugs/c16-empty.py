property = "C16"
kind = "files"
deps = 'gearley-vec2d = { path = "@REPO@/gearley-vec2d" }'
needs = "building from a batch that holds an empty set whose iterator knows that it is empty"
breaks = "an empty set of a batch is not recorded, so later sets move down by one"
edits = [("gearley-vec2d/src/lib.rs", """        self.chart.extend(set);
        self.next_set();
""", """        // Reserve for the whole set at once when its size is known.
        match set.size_hint() {
            (0, Some(0)) => return,
            (lower, _) => self.chart.reserve(lower),
        }
        self.chart.extend(set);
        self.next_set();
""")]
demo = """
use gearley_vec2d::Vec2d;
fn main() {
    let v: Vec2d<u32> = vec![vec![1], vec![], vec![2, 3]].into_iter().collect();
    assert_eq!(v.len(), 4);
    assert_eq!(&v[1], &[]);
    assert_eq!(&v[2], &[2, 3]);
}
"""
