property = "C16"
kind = "files"
needs = "clearing when all sets are empty"
breaks = "a Vec2d without items is taken for a cleared one, so its empty sets stay"
edits = [("gearley-vec2d/src/lib.rs", """        self.chart.clear();
        // Indices reset to [0, 0].
""", """        if self.chart.is_empty() {
            return;
        }
        self.chart.clear();
        // Indices reset to [0, 0].
""")]
deps = 'gearley-vec2d = { path = "@REPO@/gearley-vec2d" }'
demo = """
fn main() {
    let mut v: gearley_vec2d::Vec2d<u32> = Default::default();
    v.next_set();
    v.next_set();
    v.clear();
    assert_eq!(v.len(), 1);
}
"""
