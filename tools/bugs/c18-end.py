property = "C18"
kind = "files"
deps = ""
needs = "going on with a product after it has reported its end"
breaks = "at the end the product stays at its last combination instead of going back to the first one"
edits = [("gearley-utils/src/cartesian_product.rs", """    pub fn advance(&mut self) -> bool {
        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {
            if !factor.advance(ptr) {
                return true;
            }
        }
        false
    }
""", """    pub fn advance(&mut self) -> bool {
        // The first factor that is not at its end turns, and the ones before it start again.
        let Some(turning) = self
            .ranges
            .iter()
            .position(|factor| factor.pos + 1 < factor.slice.len())
        else {
            return false;
        };
        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).take(turning + 1) {
            factor.advance(ptr);
        }
        true
    }
""")]
demo = """
#[path = "@REPO@/gearley-utils/src/cartesian_product.rs"]
#[allow(dead_code)]
mod cartesian_product;
use cartesian_product::CartesianProduct;
fn main() {
    let (a, b) = ([1, 2, 3], [10, 20]);
    let mut p = CartesianProduct::new();
    p.push(&a[..]);
    p.push(&b[..]);
    let mut n = 1;
    while p.advance() {
        n += 1;
    }
    assert_eq!(n, 6);
    let first: Vec<i32> = p.as_slice().iter().map(|&&x| x).collect();
    assert_eq!(first, [1, 10]);
}
"""
