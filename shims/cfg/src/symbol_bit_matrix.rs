use std::cmp::Ordering;
use std::ops;

use bit_matrix::BitMatrix;
use cfg_symbol::intern::Mapping;

use crate::{Cfg, Symbol};

#[derive(Clone, Debug)]
pub struct CfgSymbolBitMatrix {
    matrix: BitMatrix,
}

impl ops::Deref for CfgSymbolBitMatrix {
    type Target = BitMatrix;
    fn deref(&self) -> &BitMatrix {
        &self.matrix
    }
}
impl ops::DerefMut for CfgSymbolBitMatrix {
    fn deref_mut(&mut self) -> &mut BitMatrix {
        &mut self.matrix
    }
}
impl ops::Index<(Symbol, Symbol)> for CfgSymbolBitMatrix {
    type Output = bool;
    fn index(&self, (a, b): (Symbol, Symbol)) -> &bool {
        &self.matrix[(a.usize(), b.usize())]
    }
}

pub trait CfgSymbolBitMatrixExt {
    fn empty_matrix(&self) -> CfgSymbolBitMatrix;
}

impl CfgSymbolBitMatrixExt for Cfg {
    fn empty_matrix(&self) -> CfgSymbolBitMatrix {
        let n = self.num_syms();
        CfgSymbolBitMatrix { matrix: BitMatrix::new(n, n) }
    }
}

/// Renumbers the symbols of a grammar and records the mapping.
pub struct Remap<'a> {
    grammar: &'a mut Cfg,
    mapping: Mapping,
}

impl<'a> Remap<'a> {
    pub fn new(grammar: &'a mut Cfg) -> Self {
        let all: Vec<_> = (0..grammar.num_syms() as u32).map(Symbol::from_raw).collect();
        Remap {
            grammar,
            mapping: Mapping { to_internal: all.iter().copied().map(Some).collect(), to_external: all },
        }
    }

    /// `order[new] = old`; symbols not listed are dropped.
    fn apply(&mut self, order: Vec<Symbol>) {
        let mut new_of: Vec<Option<Symbol>> = vec![None; self.grammar.num_syms()];
        for (i, old) in order.iter().enumerate() {
            new_of[old.usize()] = Some(Symbol::from_raw(i as u32));
        }
        let map = |s: &mut Symbol| *s = new_of[s.usize()].expect("dropped symbol in use");
        let g = &mut *self.grammar;
        for r in &mut g.rules {
            map(&mut r.lhs);
            r.rhs.iter_mut().for_each(map);
            if let Some((s, _)) = &mut r.history.nullable {
                map(s);
            }
        }
        g.roots.iter_mut().for_each(map);
        for w in &mut g.wrapped_roots {
            map(&mut w.root);
            map(&mut w.start_of_input);
            map(&mut w.end_of_input);
            map(&mut w.inner_root);
        }
        g.keep = g.keep.iter().map(|s| new_of[s.usize()].expect("dropped symbol in use")).collect();
        let names = g.sym_source.names();
        g.sym_source.set_names(order.iter().map(|s| names[s.usize()].clone()).collect());
        for slot in &mut self.mapping.to_internal {
            *slot = slot.and_then(|s| new_of[s.usize()]);
        }
        self.mapping.to_external = order.iter().map(|s| self.mapping.to_external[s.usize()]).collect();
    }

    /// Reorders symbols by a partial order; symbols it leaves unordered keep their relative position
    /// as far as possible.
    pub fn reorder_symbols(&mut self, f: impl Fn(Symbol, Symbol) -> Ordering) {
        let n = self.grammar.num_syms();
        let sym = |i: usize| Symbol::from_raw(i as u32);
        let mut preds = vec![0usize; n];
        let mut succs: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            for j in 0..n {
                if i != j && f(sym(i), sym(j)) == Ordering::Less {
                    succs[i].push(j);
                    preds[j] += 1;
                }
            }
        }
        let mut done = vec![false; n];
        let mut order = Vec::with_capacity(n);
        for _ in 0..n {
            let i = (0..n)
                .find(|&i| !done[i] && preds[i] == 0)
                .or_else(|| (0..n).find(|&i| !done[i]))
                .unwrap();
            done[i] = true;
            order.push(sym(i));
            for &j in &succs[i] {
                preds[j] = preds[j].saturating_sub(1);
            }
        }
        self.apply(order);
    }

    pub fn remove_unused_symbols(&mut self) {
        let n = self.grammar.num_syms();
        let mut used = vec![false; n];
        {
            let mut mark = |s: Symbol| used[s.usize()] = true;
            let g = &*self.grammar;
            for r in &g.rules {
                mark(r.lhs);
                r.rhs.iter().copied().for_each(&mut mark);
                if let Some((s, _)) = r.history.nullable {
                    mark(s);
                }
            }
            g.roots.iter().copied().for_each(&mut mark);
            for w in &g.wrapped_roots {
                mark(w.root);
                mark(w.start_of_input);
                mark(w.end_of_input);
                mark(w.inner_root);
            }
            g.keep.iter().copied().for_each(&mut mark);
        }
        let order = (0..n).filter(|&i| used[i]).map(|i| Symbol::from_raw(i as u32)).collect();
        self.apply(order);
    }

    pub fn get_mapping(self) -> Mapping {
        self.mapping
    }
}
