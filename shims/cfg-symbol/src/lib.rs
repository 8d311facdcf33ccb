//! Stand-in for `cfg-symbol`: compact symbols, symbol sources and symbol mappings.

use std::collections::BTreeMap;
use std::fmt;
use std::num::NonZeroU32;

pub mod intern;

/// The integer type behind a symbol.
pub trait SymbolPrimitive: Copy + Eq + Ord + std::hash::Hash + fmt::Debug {
    fn to_index(self) -> usize;
    fn from_index(index: usize) -> Self;
}

impl SymbolPrimitive for NonZeroU32 {
    #[inline]
    fn to_index(self) -> usize {
        (self.get() - 1) as usize
    }
    #[inline]
    fn from_index(index: usize) -> Self {
        NonZeroU32::new(index as u32 + 1).expect("symbol out of range")
    }
}

/// A grammar symbol, terminal or nonterminal. `usize()` is its number, counting from 0.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZeroU32> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize {
        self.n.to_index()
    }
}

impl Symbol {
    /// Inverse of `usize()`.
    #[inline]
    pub fn from_raw(index: u32) -> Self {
        Symbol { n: NonZeroU32::from_index(index as usize) }
    }
    #[inline]
    pub fn first() -> Self {
        Symbol::from_raw(0)
    }
}

impl Default for Symbol {
    fn default() -> Self {
        Symbol::from_raw(0)
    }
}

impl<T: SymbolPrimitive> From<Symbol<T>> for usize {
    fn from(s: Symbol<T>) -> usize {
        s.usize()
    }
}

impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Symbol({})", self.usize())
    }
}

#[cfg(feature = "serde")]
impl serde::Serialize for Symbol {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.n.get())
    }
}
#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Symbol {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = <u32 as serde::Deserialize>::deserialize(d)?;
        NonZeroU32::new(n)
            .map(|n| Symbol { n })
            .ok_or_else(|| serde::de::Error::custom("zero symbol"))
    }
}

impl miniserde::Serialize for Symbol {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(self.n.get() as u64)
    }
}

miniserde::make_place!(Place);

impl miniserde::de::Visitor for Place<Symbol> {
    fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
        if n >= 1 && n <= u32::MAX as u64 {
            self.out = Some(Symbol { n: NonZeroU32::new(n as u32).unwrap() });
            Ok(())
        } else {
            Err(miniserde::Error)
        }
    }
}

impl miniserde::Deserialize for Symbol {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        Place::new(out)
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SymbolName {
    name: std::sync::Arc<str>,
}

impl SymbolName {
    pub fn as_str(&self) -> &str {
        &self.name
    }
}
impl std::ops::Deref for SymbolName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.name
    }
}
impl std::borrow::Borrow<str> for SymbolName {
    fn borrow(&self) -> &str {
        &self.name
    }
}
impl<'a> From<&'a str> for SymbolName {
    fn from(s: &'a str) -> Self {
        SymbolName { name: s.into() }
    }
}
impl fmt::Debug for SymbolName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&*self.name, f)
    }
}
impl fmt::Display for SymbolName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.name)
    }
}

/// A source of numbered symbols with optional names.
#[derive(Clone, Debug)]
pub struct SymbolSource<T: SymbolPrimitive = NonZeroU32> {
    names: Vec<Option<SymbolName>>,
    primitive: std::marker::PhantomData<T>,
}

impl<T: SymbolPrimitive> Default for SymbolSource<T> {
    fn default() -> Self {
        SymbolSource { names: vec![], primitive: Default::default() }
    }
}

/// Endless iterator over fresh symbols, from number 0.
#[derive(Clone, Debug)]
pub struct GenerateFresh<T: SymbolPrimitive = NonZeroU32> {
    next: u32,
    primitive: std::marker::PhantomData<T>,
}

impl<T: SymbolPrimitive> Iterator for GenerateFresh<T> {
    type Item = Symbol<T>;
    #[inline]
    fn next(&mut self) -> Option<Symbol<T>> {
        let n = T::from_index(self.next as usize);
        self.next += 1;
        Some(Symbol { n })
    }
}

impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn generate_fresh() -> GenerateFresh<T> {
        GenerateFresh { next: 0, primitive: Default::default() }
    }
}

impl SymbolSource {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_syms(&self) -> usize {
        self.names.len()
    }
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> Symbol {
        let s = Symbol::from_raw(self.names.len() as u32);
        self.names.push(name);
        s
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        [(); N].map(|_| self.next_sym(None))
    }
    pub fn with_names<const N: usize, S: Into<SymbolName>>(
        &mut self,
        names: [Option<S>; N],
    ) -> [Symbol; N] {
        names.map(|n| self.next_sym(n.map(|n| n.into())))
    }
    pub fn generate(&mut self) -> impl Iterator<Item = Symbol> + '_ {
        std::iter::repeat_with(move || self.next_sym(None))
    }
    pub fn names(&self) -> Vec<Option<SymbolName>> {
        self.names.clone()
    }
    pub fn name_of(&self, sym: Symbol) -> Option<SymbolName> {
        self.names.get(sym.usize()).cloned().flatten()
    }
    pub fn name_map(&self) -> BTreeMap<SymbolName, Symbol> {
        self.names
            .iter()
            .enumerate()
            .filter_map(|(i, n)| n.clone().map(|n| (n, Symbol::from_raw(i as u32))))
            .collect()
    }
    pub fn truncate(&mut self, n: usize) {
        self.names.truncate(n)
    }
    pub fn set_names(&mut self, names: Vec<Option<SymbolName>>) {
        self.names = names;
    }
}
