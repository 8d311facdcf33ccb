//! Stand-in for the `cfg` crate that gearley depends on by path and which is not part of this
//! repository. It implements, from the API that gearley calls, the textbook grammar transformations
//! that gearley relies on: removal of useless rules, wrapping of the input in start/end markers,
//! left-branching binarization, elimination of nulling rules, symbol renumbering, FIRST and FOLLOW.
#![forbid(unsafe_code)]

use std::collections::BTreeSet;

pub use cfg_history as history;
pub use cfg_symbol::{self as symbol, Symbol, SymbolName, SymbolSource};

use history::earley::{ExternalDottedRule, ExternalOrigin, History, RuleDot};

pub mod classify;
pub mod predict_sets;
pub mod symbol_bit_matrix;
mod symbol_set;

pub use symbol_set::SymbolBitSet;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Vec<Symbol>,
    pub history: History,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrappedRoot {
    pub root: Symbol,
    pub start_of_input: Symbol,
    pub end_of_input: Symbol,
    pub inner_root: Symbol,
}

/// One dot position of one rule.
#[derive(Clone, Copy, Debug)]
pub struct Dot {
    pub lhs: Symbol,
    pub predot: Option<Symbol>,
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub(crate) sym_source: SymbolSource,
    pub(crate) rules: Vec<CfgRule>,
    pub(crate) roots: Vec<Symbol>,
    pub(crate) wrapped_roots: Vec<WrappedRoot>,
    /// Symbols that must keep a number although no rule of this grammar mentions them.
    pub(crate) keep: BTreeSet<Symbol>,
    next_rule_id: u32,
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
}

impl<'a> RuleBuilder<'a> {
    pub fn rule(self, lhs: Symbol) -> RuleBuilder<'a> {
        RuleBuilder { cfg: self.cfg, lhs }
    }
    pub fn rhs(self, rhs: impl AsRef<[Symbol]>) -> Self {
        self.cfg.add_user_rule(self.lhs, rhs.as_ref());
        self
    }
}

impl Cfg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_sym_source(sym_source: SymbolSource) -> Self {
        Cfg { sym_source, ..Self::default() }
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        self.sym_source.sym()
    }
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> Symbol {
        self.sym_source.next_sym(name)
    }
    pub fn sym_source(&self) -> &SymbolSource {
        &self.sym_source
    }
    pub fn sym_source_mut(&mut self) -> &mut SymbolSource {
        &mut self.sym_source
    }
    pub fn num_syms(&self) -> usize {
        self.sym_source.num_syms()
    }
    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder { cfg: self, lhs }
    }
    fn add_user_rule(&mut self, lhs: Symbol, rhs: &[Symbol]) {
        let id = self.next_rule_id;
        self.next_rule_id += 1;
        let dots = (0..=rhs.len() as u32)
            .map(|pos| RuleDot { trace: ExternalDottedRule { id, pos }, ..RuleDot::null() })
            .collect();
        self.rules.push(CfgRule {
            lhs,
            rhs: rhs.to_vec(),
            history: History { origin: ExternalOrigin { id }, nullable: None, dots },
        });
    }
    pub fn add_rule(&mut self, rule: CfgRule) {
        self.rules.push(rule);
    }
    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> {
        self.rules.iter()
    }
    pub fn rules_mut(&mut self) -> std::slice::IterMut<'_, CfgRule> {
        self.rules.iter_mut()
    }
    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }
    pub fn retain(&mut self, f: impl FnMut(&CfgRule) -> bool) {
        self.rules.retain(f)
    }
    pub fn set_roots(&mut self, roots: impl AsRef<[Symbol]>) {
        self.roots = roots.as_ref().to_vec();
    }
    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped_roots
    }
    pub fn sort_by(&mut self, f: impl FnMut(&CfgRule, &CfgRule) -> std::cmp::Ordering) {
        self.rules.sort_by(f)
    }
    pub fn column(&self, n: usize) -> impl Iterator<Item = Dot> + '_ {
        self.rules.iter().map(move |rule| Dot {
            lhs: rule.lhs,
            predot: n.checked_sub(1).and_then(|p| rule.rhs.get(p).copied()),
            postdot: rule.rhs.get(n).copied(),
            earley: Some(rule.history.dot(n)),
        })
    }

    /// Adds `root ::= sof S eof` for the root `S`.
    pub fn wrap_input(&mut self) {
        self.wrapped_roots.clear();
        let roots = std::mem::take(&mut self.roots);
        for inner_root in roots {
            let [root, start_of_input, end_of_input] =
                self.sym_source.with_names([Some("root"), Some("sof"), Some("eof")]);
            self.rules.push(CfgRule {
                lhs: root,
                rhs: vec![start_of_input, inner_root, end_of_input],
                history: History { origin: ExternalOrigin::null(), nullable: None, dots: vec![RuleDot::null(); 4] },
            });
            self.roots.push(root);
            self.wrapped_roots.push(WrappedRoot { root, start_of_input, end_of_input, inner_root });
        }
    }

    /// Splits rules with more than two symbols: `A ::= s0 s1 s2` becomes `g ::= s0 s1`, `A ::= g s2`.
    fn binarize(&mut self) {
        let rules = std::mem::take(&mut self.rules);
        for rule in rules {
            if rule.rhs.len() <= 2 {
                self.rules.push(rule);
                continue;
            }
            let h = &rule.history;
            let last = rule.rhs.len() - 1;
            let mut left = rule.rhs[0];
            for k in 1..last {
                let gensym = self.sym_source.next_sym(None);
                self.rules.push(CfgRule {
                    lhs: gensym,
                    rhs: vec![left, rule.rhs[k]],
                    history: History {
                        origin: ExternalOrigin::null(),
                        nullable: None,
                        dots: vec![h.dot(0), h.dot(k), h.dot(k + 1)],
                    },
                });
                left = gensym;
            }
            self.rules.push(CfgRule {
                lhs: rule.lhs,
                rhs: vec![left, rule.rhs[last]],
                history: History {
                    origin: h.origin,
                    nullable: h.nullable,
                    dots: vec![h.dot(0), h.dot(last), h.dot(last + 1)],
                },
            });
        }
    }

    /// Splits the grammar into one without nulling rules (left in `self`) and the nulling grammar.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        self.binarize();
        let n = self.num_syms();
        let mut is_lhs = vec![false; n];
        for r in &self.rules {
            is_lhs[r.lhs.usize()] = true;
        }
        // Symbols that derive the empty string, and symbols that derive a nonempty one.
        let mut nullable = vec![false; n];
        let mut nonempty: Vec<bool> = is_lhs.iter().map(|&nt| !nt).collect();
        loop {
            let mut changed = false;
            for r in &self.rules {
                let l = r.lhs.usize();
                if !nullable[l] && r.rhs.iter().all(|s| nullable[s.usize()]) {
                    nullable[l] = true;
                    changed = true;
                }
                if !nonempty[l] && r.rhs.iter().any(|s| nonempty[s.usize()]) {
                    nonempty[l] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut nulling = Cfg { sym_source: self.sym_source.clone(), roots: self.roots.clone(), ..Cfg::default() };
        let rules = std::mem::take(&mut self.rules);
        for rule in rules {
            if rule.rhs.iter().all(|s| nullable[s.usize()]) {
                if rule.history.origin.is_null() {
                    self.keep.insert(rule.lhs);
                    self.keep.extend(rule.rhs.iter().copied());
                }
                nulling.rules.push(rule.clone());
            }
            match *rule.rhs.as_slice() {
                [] => {}
                [x] => {
                    if nonempty[x.usize()] {
                        self.rules.push(rule);
                    }
                }
                [x, y] => {
                    let h = &rule.history;
                    let mut unary = |sym: Symbol, nulled: Symbol, right: bool| CfgRule {
                        lhs: rule.lhs,
                        rhs: vec![sym],
                        history: History {
                            origin: h.origin,
                            nullable: Some((nulled, right)),
                            dots: vec![h.dot(0), h.dot(2), RuleDot::null()],
                        },
                    };
                    let (ex, ey) = (nonempty[x.usize()], nonempty[y.usize()]);
                    if ex && ey {
                        self.rules.push(rule.clone());
                    }
                    if ex && nullable[y.usize()] {
                        self.rules.push(unary(x, y, true));
                        self.keep.insert(y);
                    }
                    if ey && nullable[x.usize()] {
                        self.rules.push(unary(y, x, false));
                        self.keep.insert(x);
                    }
                }
                _ => unreachable!("binarized"),
            }
        }
        nulling
    }

    pub fn stringify_to_bnf(&self) -> String {
        let mut out = String::new();
        for r in &self.rules {
            out.push_str(&format!("s{} ::=", r.lhs.usize()));
            for s in &r.rhs {
                out.push_str(&format!(" s{}", s.usize()));
            }
            out.push_str(";\n");
        }
        out
    }
}
