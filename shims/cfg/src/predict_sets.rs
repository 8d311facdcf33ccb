use std::collections::{BTreeMap, BTreeSet};

use crate::{Cfg, Symbol};

pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;

pub trait PredictSets {
    fn predict_sets(&self) -> &PerSymbolSets;
}

/// Terminals that may begin a string derived from a symbol. Grammars without nulling rules only.
pub struct FirstSets {
    map: PerSymbolSets,
}

/// Terminals that may follow a symbol in a sentential form.
pub struct FollowSets {
    map: PerSymbolSets,
}

fn lhs_set(grammar: &Cfg) -> BTreeSet<Symbol> {
    grammar.rules().map(|r| r.lhs).collect()
}

impl FirstSets {
    pub fn new(grammar: &Cfg) -> Self {
        let nonterminals = lhs_set(grammar);
        let mut map = PerSymbolSets::new();
        loop {
            let mut changed = false;
            for r in grammar.rules() {
                if let Some(&s) = r.rhs.first() {
                    let add = if nonterminals.contains(&s) {
                        map.get(&s).cloned().unwrap_or_default()
                    } else {
                        BTreeSet::from([s])
                    };
                    let set = map.entry(r.lhs).or_default();
                    let before = set.len();
                    set.extend(add);
                    changed |= set.len() != before;
                }
            }
            if !changed {
                break;
            }
        }
        FirstSets { map }
    }
}

impl FollowSets {
    pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
        let nonterminals = lhs_set(grammar);
        let mut map = PerSymbolSets::new();
        loop {
            let mut changed = false;
            for r in grammar.rules() {
                for (i, &s) in r.rhs.iter().enumerate() {
                    let add = match r.rhs.get(i + 1) {
                        Some(next) if nonterminals.contains(next) => first.get(next).cloned().unwrap_or_default(),
                        Some(&next) => BTreeSet::from([next]),
                        None => map.get(&r.lhs).cloned().unwrap_or_default(),
                    };
                    let set = map.entry(s).or_default();
                    let before = set.len();
                    set.extend(add);
                    changed |= set.len() != before;
                }
            }
            if !changed {
                break;
            }
        }
        FollowSets { map }
    }
}

impl PredictSets for FirstSets {
    fn predict_sets(&self) -> &PerSymbolSets {
        &self.map
    }
}
impl PredictSets for FollowSets {
    fn predict_sets(&self) -> &PerSymbolSets {
        &self.map
    }
}
