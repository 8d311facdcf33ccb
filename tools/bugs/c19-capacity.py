property = "C19"
kind = "files"
deps = 'gearley-vec2d = { path = "@REPO@/gearley-vec2d" }'
needs = "get_item with an index past the last item and within the spare capacity"
breaks = "an item is read that was never written (or was removed)"
edits = [("gearley-vec2d/src/lib.rs", """    pub fn get_item(&self, index: usize) -> Option<&I> {
        self.chart.get(index)
    }
""", """    pub fn get_item(&self, index: usize) -> Option<&I> {
        if index < self.chart.capacity() {
            // The index is inside of the buffer.
            Some(unsafe { &*self.chart.as_ptr().add(index) })
        } else {
            None
        }
    }
""")]
demo = """
use gearley_vec2d::{Vec2d, Vec2dCapacity};
fn main() {
    let mut v: Vec2d<Box<u32>> = Vec2d::with_capacity(Vec2dCapacity { chart_capacity: 16, indices_capacity: 4 });
    v.push_item(Box::new(1));
    v.push_item(Box::new(2));
    v.pop_item();
    assert!(v.get_item(0).is_some());
    assert!(v.get_item(1).is_none());
}
"""
