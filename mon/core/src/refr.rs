//! Reference semantics, from the grammar formalism alone: derivations of spans of a token lattice
//! (existence, number, the trees themselves) and textbook Earley sets.

use std::collections::{HashMap, HashSet};

use crate::gram::{An, Gr};

/// One set of `(token, value)` per location.
pub type Lattice = Vec<Vec<(usize, u32)>>;

pub const P61: u64 = (1 << 61) - 1;

/// A number of derivations: saturating, and modulo a large prime.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cnt {
    pub sat: u64,
    pub modp: u64,
}

impl Cnt {
    pub const ZERO: Cnt = Cnt { sat: 0, modp: 0 };
    pub const ONE: Cnt = Cnt { sat: 1, modp: 1 };
    pub fn of(n: u64) -> Cnt {
        Cnt { sat: n, modp: n % P61 }
    }
    pub fn add(self, o: Cnt) -> Cnt {
        Cnt { sat: self.sat.saturating_add(o.sat), modp: (self.modp + o.modp) % P61 }
    }
    pub fn mul(self, o: Cnt) -> Cnt {
        Cnt { sat: self.sat.saturating_mul(o.sat), modp: ((self.modp as u128 * o.modp as u128) % P61 as u128) as u64 }
    }
    pub fn is_zero(self) -> bool {
        self.sat == 0
    }
}

/// Derivations over a lattice. A symbol that matches the empty string counts as one derivation, of
/// the form `~symbol`.
pub struct Derivs<'a> {
    pub g: &'a Gr,
    pub an: &'a An,
    pub lat: &'a Lattice,
    /// Symbols that must not match a span, and rules that must not.
    pub no_sym: Box<dyn Fn(usize, usize, usize) -> bool + 'a>,
    pub no_rule: Box<dyn Fn(usize, usize, usize) -> bool + 'a>,
    syms: HashMap<(usize, usize, usize), Cnt>,
    rests: HashMap<(usize, usize, usize, usize), Cnt>,
    null_rest: Vec<Vec<bool>>,
}

impl<'a> Derivs<'a> {
    pub fn new(g: &'a Gr, an: &'a An, lat: &'a Lattice) -> Self {
        assert!(!an.cyclic);
        let null_rest = g
            .rules
            .iter()
            .map(|(_, rhs)| (0..=rhs.len()).map(|p| rhs[p..].iter().all(|&s| an.nullable[s])).collect())
            .collect();
        Derivs {
            g,
            an,
            lat,
            no_sym: Box::new(|_, _, _| false),
            no_rule: Box::new(|_, _, _| false),
            syms: HashMap::new(),
            rests: HashMap::new(),
            null_rest,
        }
    }

    pub fn remembered(&self) -> usize {
        self.syms.len() + self.rests.len()
    }

    pub fn sym(&mut self, x: usize, i: usize, j: usize) -> Cnt {
        if i == j {
            return if self.an.nullable[x] { Cnt::ONE } else { Cnt::ZERO };
        }
        if self.an.is_term[x] {
            return if j == i + 1 {
                Cnt::of(self.lat[i].iter().filter(|t| t.0 == x).count() as u64)
            } else {
                Cnt::ZERO
            };
        }
        // Symbols of nothing but the empty string may be cyclic.
        if self.an.min_len[x] > j - i || !self.an.nonempty[x] {
            return Cnt::ZERO;
        }
        if let Some(&c) = self.syms.get(&(x, i, j)) {
            return c;
        }
        let mut c = Cnt::ZERO;
        if !(self.no_sym)(x, i, j) {
            for k in 0..self.an.by_lhs[x].len() {
                let r = self.an.by_lhs[x][k];
                // Rules of no use cannot match, and may be cyclic.
                if self.an.useful_rule[r] && !(self.no_rule)(r, i, j) {
                    c = c.add(self.rest(r, 0, i, j));
                }
            }
        }
        self.syms.insert((x, i, j), c);
        c
    }

    fn rest(&mut self, r: usize, p: usize, i: usize, j: usize) -> Cnt {
        let rhs = &self.g.rules[r].1;
        if p == rhs.len() {
            return if i == j { Cnt::ONE } else { Cnt::ZERO };
        }
        if i == j {
            return if self.null_rest[r][p] { Cnt::ONE } else { Cnt::ZERO };
        }
        let x = rhs[p];
        if self.an.is_term[x] {
            let c = self.sym(x, i, i + 1);
            return if c.is_zero() { c } else { c.mul(self.rest(r, p + 1, i + 1, j)) };
        }
        if let Some(&c) = self.rests.get(&(r, p, i, j)) {
            return c;
        }
        let mut c = Cnt::ZERO;
        if self.an.nullable[x] {
            c = c.add(self.rest(r, p + 1, i, j));
        }
        for k in i + 1..j {
            let a = self.sym(x, i, k);
            if !a.is_zero() {
                c = c.add(a.mul(self.rest(r, p + 1, k, j)));
            }
        }
        if self.null_rest[r][p + 1] {
            c = c.add(self.sym(x, i, j));
        }
        self.rests.insert((r, p, i, j), c);
        c
    }

    /// Trees of a symbol over a span; call only when there are few.
    pub fn trees(&mut self, x: usize, i: usize, j: usize) -> Vec<String> {
        if self.sym(x, i, j).is_zero() {
            return vec![];
        }
        if i == j {
            return vec![format!("~{}", x)];
        }
        if self.an.is_term[x] {
            return self.lat[i].iter().filter(|t| t.0 == x).map(|t| format!("t{}:{}", t.0, t.1)).collect();
        }
        let mut out = vec![];
        for k in 0..self.an.by_lhs[x].len() {
            let r = self.an.by_lhs[x][k];
            if self.an.useful_rule[r] && !(self.no_rule)(r, i, j) {
                for args in self.rest_trees(r, 0, i, j) {
                    out.push(format!("r{}({})", r, args));
                }
            }
        }
        out
    }

    fn rest_trees(&mut self, r: usize, p: usize, i: usize, j: usize) -> Vec<String> {
        let rhs = self.g.rules[r].1.clone();
        if self.rest(r, p, i, j).is_zero() {
            return vec![];
        }
        if p == rhs.len() {
            return vec![String::new()];
        }
        let x = rhs[p];
        let mut out = vec![];
        for k in i..=j {
            // The derivation exists when both halves do; the guards keep the recursion going down.
            if k == i && !self.an.nullable[x] {
                continue;
            }
            if k == j && !self.null_rest[r][p + 1] {
                continue;
            }
            if self.rest_or_zero(r, p + 1, k, j) {
                continue;
            }
            let firsts = self.trees(x, i, k);
            if firsts.is_empty() {
                continue;
            }
            let rests = self.rest_trees(r, p + 1, k, j);
            for f in &firsts {
                for s in &rests {
                    out.push(if s.is_empty() { f.clone() } else { format!("{} {}", f, s) });
                }
            }
        }
        out
    }

    /// Every division of the whole input among the symbols of a rule, as boundaries.
    pub fn splits(&mut self, r: usize, n: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut v = vec![0];
        self.split_from(r, n, &mut v, &mut out);
        out
    }

    fn split_from(&mut self, r: usize, n: usize, v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        let p = v.len() - 1;
        let i = *v.last().unwrap();
        if self.rest(r, p, i, n).is_zero() || out.len() > 1000 {
            return;
        }
        let rhs = &self.g.rules[r].1;
        if p == rhs.len() {
            out.push(v.clone());
            return;
        }
        let x = rhs[p];
        for k in i..=n {
            let here = if k == i { self.an.nullable[x] } else if k == n && i == 0 && rhs.len() > 1 && !self.null_rest[r][p + 1] { false } else { !self.sym(x, i, k).is_zero() };
            if here {
                v.push(k);
                self.split_from(r, n, v, out);
                v.pop();
            }
        }
    }

    fn rest_or_zero(&mut self, r: usize, p: usize, i: usize, j: usize) -> bool {
        self.rest(r, p, i, j).is_zero()
    }
}

/// The post-order actions of a tree as it is written by `trees`.
pub fn postorder(tree: &str) -> Vec<String> {
    let mut out = vec![];
    let mut stack: Vec<(String, usize)> = vec![];
    let mut word = String::new();
    let flush = |word: &mut String, stack: &mut Vec<(String, usize)>, out: &mut Vec<String>| {
        if !word.is_empty() {
            out.push(std::mem::take(word));
            if let Some(top) = stack.last_mut() {
                top.1 += 1;
            }
        }
    };
    for c in tree.chars() {
        match c {
            '(' => stack.push((std::mem::take(&mut word), 0)),
            ')' => {
                flush(&mut word, &mut stack, &mut out);
                let (r, n) = stack.pop().unwrap();
                out.push(format!("{}/{}", r, n));
                if let Some(top) = stack.last_mut() {
                    top.1 += 1;
                }
            }
            ' ' => flush(&mut word, &mut stack, &mut out),
            c => word.push(c),
        }
    }
    flush(&mut word, &mut stack, &mut out);
    out
}

/// An Earley item: rule, dot, origin.
pub type EItem = (usize, usize, usize);

/// Textbook Earley sets over a lattice, built from useful rules only. Works for every grammar,
/// cyclic ones included.
pub struct Earley<'a> {
    pub g: &'a Gr,
    pub an: &'a An,
    pub sets: Vec<HashSet<EItem>>,
    by_postdot: Vec<HashMap<usize, Vec<EItem>>>,
}

impl<'a> Earley<'a> {
    pub fn new(g: &'a Gr, an: &'a An) -> Self {
        let mut e = Earley { g, an, sets: vec![], by_postdot: vec![] };
        let seed: Vec<EItem> = an.by_lhs[g.start].iter().filter(|&&r| an.useful_rule[r]).map(|&r| (r, 0, 0)).collect();
        e.close(seed);
        e
    }

    fn close(&mut self, seed: Vec<EItem>) {
        let k = self.sets.len();
        self.sets.push(HashSet::new());
        self.by_postdot.push(HashMap::new());
        let mut work = seed;
        while let Some(it) = work.pop() {
            if !self.sets[k].insert(it) {
                continue;
            }
            let (r, p, o) = it;
            let (lhs, rhs) = &self.g.rules[r];
            match rhs.get(p) {
                Some(&x) => {
                    self.by_postdot[k].entry(x).or_default().push(it);
                    if !self.an.is_term[x] {
                        for &q in &self.an.by_lhs[x] {
                            if self.an.useful_rule[q] {
                                work.push((q, 0, k));
                            }
                        }
                    }
                    if self.an.nullable[x] {
                        work.push((r, p + 1, o));
                    }
                }
                None => {
                    if o < k {
                        if let Some(v) = self.by_postdot[o].get(lhs) {
                            for &(r2, p2, o2) in v {
                                work.push((r2, p2 + 1, o2));
                            }
                        }
                    }
                }
            }
        }
    }

    /// Reads one set of tokens; false, and nothing changes, when none of them can follow.
    pub fn read(&mut self, toks: &[usize]) -> bool {
        let k = self.sets.len() - 1;
        let mut seed = vec![];
        for t in toks {
            if let Some(v) = self.by_postdot[k].get(t) {
                seed.extend(v.iter().map(|&(r, p, o)| (r, p + 1, o)));
            }
        }
        if seed.is_empty() {
            return false;
        }
        self.close(seed);
        true
    }

    pub fn last(&self) -> &HashSet<EItem> {
        self.sets.last().unwrap()
    }

    pub fn accepts(&self) -> bool {
        if self.sets.len() == 1 {
            return self.an.nullable[self.g.start];
        }
        self.last().iter().any(|&(r, p, o)| o == 0 && self.g.rules[r].0 == self.g.start && p == self.g.rules[r].1.len())
    }

    pub fn legal(&self) -> Vec<usize> {
        let mut v: Vec<usize> =
            self.by_postdot.last().unwrap().keys().copied().filter(|&s| self.an.is_term[s]).collect();
        v.sort();
        v
    }

    pub fn postdots(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.by_postdot.last().unwrap().keys().copied().collect();
        v.push(self.g.start);
        v.sort();
        v.dedup();
        v
    }
}

/// For a plain token sequence: acceptance of every viable prefix, and the position of the first
/// token that cannot follow.
pub struct Verdict {
    pub accepts: Vec<bool>,
    pub error: Option<usize>,
}

pub fn verdict(g: &Gr, an: &An, input: &[usize]) -> Verdict {
    let mut e = Earley::new(g, an);
    let mut accepts = vec![e.accepts()];
    for (i, &t) in input.iter().enumerate() {
        if !e.read(&[t]) {
            return Verdict { accepts, error: Some(i) };
        }
        accepts.push(e.accepts());
    }
    Verdict { accepts, error: None }
}

pub fn plain(input: &[usize], values: &[u32]) -> Lattice {
    input.iter().zip(values).map(|(&t, &v)| vec![(t, v)]).collect()
}
