//! Stand-in for `bit-matrix` 0.9: a matrix of bits stored in rows of 32-bit blocks.

pub type Block = u32;
pub const BITS: usize = 32;

pub mod block {
    pub use super::{Block, BITS};
}

static TRUE: bool = true;
static FALSE: bool = false;

#[inline]
fn blocks_for(bits: usize) -> usize {
    (bits + BITS - 1) / BITS
}

pub mod row {
    use super::{Block, BITS, FALSE, TRUE};
    use std::ops;

    /// A slice of bits, addressed by bit index.
    #[repr(transparent)]
    #[derive(PartialEq, Eq, Hash)]
    pub struct BitSlice {
        blocks: [Block],
    }

    impl BitSlice {
        #[inline]
        pub fn new(blocks: &[Block]) -> &Self {
            // Same layout and metadata: BitSlice is repr(transparent) over [Block].
            unsafe { &*(blocks as *const [Block] as *const BitSlice) }
        }
        #[inline]
        pub fn new_mut(blocks: &mut [Block]) -> &mut Self {
            unsafe { &mut *(blocks as *mut [Block] as *mut BitSlice) }
        }
        #[inline]
        pub fn iter_blocks(&self) -> std::slice::Iter<'_, Block> {
            self.blocks.iter()
        }
        #[inline]
        pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, Block> {
            self.blocks.iter_mut()
        }
        #[inline]
        pub fn get(&self, bit: usize) -> bool {
            (self.blocks[bit / BITS] >> (bit % BITS)) & 1 == 1
        }
        #[inline]
        pub fn set(&mut self, bit: usize, value: bool) {
            let mask = 1 << (bit % BITS);
            if value {
                self.blocks[bit / BITS] |= mask;
            } else {
                self.blocks[bit / BITS] &= !mask;
            }
        }
        pub fn iter_bits(&self, bit_len: usize) -> impl Iterator<Item = bool> + '_ {
            (0..bit_len).map(move |i| self.get(i))
        }
        pub fn slice(&self) -> &[Block] {
            &self.blocks
        }
        pub fn small_slice_aligned(&self, bit: usize, len: u8) -> u32 {
            (self.blocks[bit / BITS] >> (bit % BITS)) & ((1u64 << len) - 1) as u32
        }
    }

    impl ops::Index<usize> for BitSlice {
        type Output = bool;
        #[inline]
        fn index(&self, bit: usize) -> &bool {
            if self.get(bit) {
                &TRUE
            } else {
                &FALSE
            }
        }
    }

    impl std::fmt::Debug for BitSlice {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            for b in self.blocks.iter() {
                for i in 0..BITS {
                    f.write_str(if (b >> i) & 1 == 1 { "1" } else { "0" })?;
                }
            }
            Ok(())
        }
    }

    #[derive(Clone)]
    pub struct Iter<'a> {
        pub(crate) row: &'a BitSlice,
        pub(crate) pos: usize,
        pub(crate) len: usize,
    }

    impl<'a> Iterator for Iter<'a> {
        type Item = bool;
        #[inline]
        fn next(&mut self) -> Option<bool> {
            if self.pos < self.len {
                let bit = self.row.get(self.pos);
                self.pos += 1;
                Some(bit)
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.len - self.pos, Some(self.len - self.pos))
        }
    }
    impl<'a> ExactSizeIterator for Iter<'a> {}
}

use row::BitSlice;
use std::ops;

#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "miniserde", derive(miniserde::Serialize, miniserde::Deserialize))]
#[derive(Clone, Default, PartialEq, Eq)]
pub struct BitMatrix {
    blocks: Vec<Block>,
    num_rows: usize,
    row_bits: usize,
}

/// A matrix that borrows a range of rows.
pub struct BitSubMatrix<'a> {
    matrix: &'a BitMatrix,
    rows: ops::Range<usize>,
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix { blocks: vec![0; rows * blocks_for(row_bits)], num_rows: rows, row_bits }
    }
    #[inline]
    fn stride(&self) -> usize {
        blocks_for(self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.num_rows
    }
    pub fn size(&self) -> (usize, usize) {
        (self.num_rows, self.row_bits)
    }
    pub fn dim(&self) -> (usize, usize) {
        self.size()
    }
    #[inline]
    pub fn get(&self, row: usize, col: usize) -> bool {
        assert!(col < self.row_bits);
        self[row].get(col)
    }
    #[inline]
    pub fn set(&mut self, row: usize, col: usize, value: bool) {
        assert!(col < self.row_bits);
        self[row].set(col, value)
    }
    pub fn grow(&mut self, num_rows: usize, value: bool) {
        let fill = if value { !0 } else { 0 };
        let new = self.blocks.len() + num_rows * self.stride();
        self.blocks.resize(new, fill);
        self.num_rows += num_rows;
    }
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.num_rows {
            self.blocks.truncate(num_rows * self.stride());
            self.num_rows = num_rows;
        }
    }
    pub fn clear(&mut self) {
        for b in &mut self.blocks {
            *b = 0;
        }
    }
    pub fn sub_matrix(&self, rows: ops::Range<usize>) -> BitSubMatrix<'_> {
        assert!(rows.start <= rows.end && rows.end <= self.num_rows);
        BitSubMatrix { matrix: self, rows }
    }
    pub fn iter_row(&self, row: usize) -> row::Iter<'_> {
        row::Iter { row: &self[row], pos: 0, len: self.row_bits }
    }
    pub fn transitive_closure(&mut self) {
        assert_eq!(self.num_rows, self.row_bits);
        let n = self.row_bits;
        let s = self.stride();
        for k in 0..n {
            for i in 0..n {
                if i != k && self.get(i, k) {
                    for b in 0..s {
                        let v = self.blocks[k * s + b];
                        self.blocks[i * s + b] |= v;
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.num_rows.min(self.row_bits) {
            self.set(i, i, true);
        }
    }
}

impl ops::Index<usize> for BitMatrix {
    type Output = BitSlice;
    #[inline]
    fn index(&self, row: usize) -> &BitSlice {
        assert!(row < self.num_rows, "row {} out of {}", row, self.num_rows);
        let s = self.stride();
        BitSlice::new(&self.blocks[row * s..(row + 1) * s])
    }
}

impl ops::IndexMut<usize> for BitMatrix {
    #[inline]
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        assert!(row < self.num_rows, "row {} out of {}", row, self.num_rows);
        let s = self.stride();
        BitSlice::new_mut(&mut self.blocks[row * s..(row + 1) * s])
    }
}

impl ops::Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    #[inline]
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        if self.get(row, col) {
            &TRUE
        } else {
            &FALSE
        }
    }
}

impl std::fmt::Debug for BitMatrix {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.sub_matrix(0..self.num_rows).fmt(f)
    }
}

impl<'a> BitSubMatrix<'a> {
    pub fn iter_row(&self, row: usize) -> row::Iter<'a> {
        self.matrix.iter_row(self.rows.start + row)
    }
    pub fn num_rows(&self) -> usize {
        self.rows.len()
    }
}

impl<'a> std::fmt::Debug for BitSubMatrix<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for r in self.rows.clone() {
            for b in self.matrix.iter_row(r) {
                f.write_str(if b { "1" } else { "0" })?;
            }
            f.write_str("\n")?;
        }
        Ok(())
    }
}
