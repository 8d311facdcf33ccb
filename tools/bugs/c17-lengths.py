property = "C17"
kind = "files"
deps = 'gearley-vec2d = { path = "@REPO@/gearley-vec2d", features = ["serde"] }\nserde_json = "1.0"\nserde = "1.0"'
needs = "a set of more than 65535 items, serialized with serde and read back"
breaks = "serde writes lengths of sets as 16-bit numbers, so the sets after a huge one begin at wrong places"
edits = [("gearley-vec2d/src/lib.rs", """#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(
    feature = "miniserde",
    derive(miniserde::Serialize, miniserde::Deserialize)
)]
#[derive(Clone, Debug)]
pub struct Vec2d<I> {
    chart: Vec<I>,
    indices: Vec<usize>,
}
""", """#[cfg_attr(
    feature = "miniserde",
    derive(miniserde::Serialize, miniserde::Deserialize)
)]
#[derive(Clone, Debug)]
pub struct Vec2d<I> {
    chart: Vec<I>,
    indices: Vec<usize>,
}

/// A compact form for serde. Indices are written as the lengths of sets.
#[cfg(feature = "serde")]
#[derive(serde::Serialize, serde::Deserialize)]
struct Vec2dRepr<T> {
    chart: T,
    lengths: Vec<u16>,
}

#[cfg(feature = "serde")]
impl<I: serde::Serialize> serde::Serialize for Vec2d<I> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let lengths = self.indices.windows(2).map(|w| (w[1] - w[0]) as u16);
        Vec2dRepr { chart: &self.chart, lengths: lengths.collect() }.serialize(serializer)
    }
}

#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let Vec2dRepr { chart, lengths } = Vec2dRepr::<Vec<I>>::deserialize(deserializer)?;
        let mut indices = vec![0];
        for len in lengths {
            indices.push(indices.last().unwrap() + len as usize);
        }
        Ok(Vec2d { chart, indices })
    }
}
""")]
demo = """
use gearley_vec2d::Vec2d;
fn main() {
    let mut v: Vec2d<u8> = Vec2d::new();
    v.extend_with_set([7].into_iter());
    v.extend_with_set((0..70_000u32).map(|i| i as u8));
    v.extend_with_set([1, 2].into_iter());
    let w: Vec2d<u8> = serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap();
    assert_eq!(w.len(), 4);
    for i in 0..3 {
        assert!(w[i] == v[i]);
    }
}
"""
