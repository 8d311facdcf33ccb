use bit_vec::BitVec;

use crate::{Cfg, Symbol};

#[derive(Clone, Debug)]
pub struct SymbolBitSet {
    bits: BitVec,
}

impl SymbolBitSet {
    pub fn new(grammar: &Cfg) -> Self {
        Self::from_elem(grammar, false)
    }
    pub fn from_elem(grammar: &Cfg, elem: bool) -> Self {
        SymbolBitSet { bits: BitVec::from_elem(grammar.num_syms(), elem) }
    }
    pub fn set(&mut self, sym: Symbol, value: bool) {
        self.bits.set(sym.usize(), value)
    }
    pub fn get(&self, sym: Symbol) -> bool {
        self.bits[sym.usize()]
    }
    pub fn has(&self, sym: Symbol) -> bool {
        self.get(sym)
    }
    pub fn negate(&mut self) {
        self.bits.negate()
    }
    pub fn bit_vec(&self) -> &BitVec {
        &self.bits
    }
    pub fn into_bit_vec(self) -> BitVec {
        self.bits
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        self.bits
            .iter()
            .enumerate()
            .filter_map(|(i, b)| if b { Some(Symbol::from_raw(i as u32)) } else { None })
    }
}
