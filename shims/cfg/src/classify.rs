use crate::Cfg;

pub trait CfgClassifyExt {
    /// Removes rules that take part in no derivation of a sentence. Returns whether there were any.
    fn make_proper(&mut self) -> bool;
}

impl CfgClassifyExt for Cfg {
    fn make_proper(&mut self) -> bool {
        let n = self.num_syms();
        let before = self.rules.len();
        let mut productive = vec![true; n];
        for r in &self.rules {
            productive[r.lhs.usize()] = false;
        }
        loop {
            let mut changed = false;
            for r in &self.rules {
                if !productive[r.lhs.usize()] && r.rhs.iter().all(|s| productive[s.usize()]) {
                    productive[r.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        self.rules.retain(|r| productive[r.lhs.usize()] && r.rhs.iter().all(|s| productive[s.usize()]));
        let mut reachable = vec![false; n];
        for r in &self.roots {
            reachable[r.usize()] = true;
        }
        loop {
            let mut changed = false;
            for r in &self.rules {
                if reachable[r.lhs.usize()] {
                    for s in &r.rhs {
                        if !reachable[s.usize()] {
                            reachable[s.usize()] = true;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        self.rules.retain(|r| reachable[r.lhs.usize()]);
        self.rules.len() != before
    }
}
