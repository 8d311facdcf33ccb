property = "C16"
kind = "files"
deps = 'gearley-vec2d = { path = "@REPO@/gearley-vec2d" }'
needs = "truncating to an earlier set while the set in progress holds more items than the sets that are removed"
breaks = "truncate fills the gap with items from the end of the set in progress, so the items of that set change their order"
edits = [("gearley-vec2d/src/lib.rs", """        let new_medial_start = self.indices[new_len];
        self.chart
            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);
        self.chart
            .truncate(self.chart.len() + new_medial_start as usize - self.indices.last().unwrap());
""", """        let new_medial_start = self.indices[new_len];
        let current_start = *self.indices.last().unwrap();
        let len = self.chart.len();
        // Only as many items have to move as there is room in the removed sets.
        let moved = (len - current_start).min(current_start - new_medial_start);
        self.chart
            .copy_within(len - moved.., new_medial_start);
        self.chart
            .truncate(len + new_medial_start - current_start);
""")]
demo = """
use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u32> = Vec2d::new();
    v.extend_with_set([1, 2].into_iter());
    v.extend_with_set([3].into_iter());
    for i in 10..15 {
        v.push_item(i);
    }
    v.truncate(1);
    assert_eq!(&v[0], &[1, 2]);
    assert_eq!(v.last(), &[10, 11, 12, 13, 14]);
}
"""
