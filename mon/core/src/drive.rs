//! Compiled grammars and sessions with the recognizer.

use cfg_symbol::Symbol;
use common::{fail, violation_panic, Fail};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;

use crate::gram::{An, Gr};
use crate::refr::{Cnt, Lattice};
use crate::spy::{Log, NodeRef, Reader, Spy};

pub struct G {
    pub gr: Gr,
    pub an: An,
    pub name: String,
    pub dg: DefaultGrammar,
}

impl G {
    pub fn new(gr: Gr, name: String) -> G {
        let an = An::new(&gr);
        let dg = DefaultGrammar::from_grammar(gr.cfg().0);
        G { gr, an, name, dg }
    }
    pub fn from(p: (Gr, String)) -> G {
        G::new(p.0, p.1)
    }
    /// The symbol to read for a token of the source grammar.
    pub fn int(&self, s: usize) -> Symbol {
        self.dg.to_internal(Symbol::from_raw(s as u32)).unwrap_or_else(|| self.dg.useless_symbol())
    }
    /// The symbol of the source grammar, when there is one.
    pub fn ext(&self, s: Symbol) -> Option<usize> {
        let e = self.dg.to_external(s).usize();
        if e < self.gr.nsyms {
            Some(e)
        } else {
            None
        }
    }
    pub fn show(&self, input: &[usize]) -> String {
        format!("grammar ({}): {}\ninput: {}", self.name, self.gr.show(), show_input(input))
    }
}

pub fn show_input(v: &[usize]) -> String {
    v.iter().map(|t| format!("t{}", t)).collect::<Vec<_>>().join(" ")
}

/// A policy with the default capacities and no lookahead.
pub struct NoLookahead;
impl PerfHint for NoLookahead {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = Symbol;
}

/// A policy with chosen capacities.
pub struct Caps(pub usize, pub usize, pub usize);
impl PerfHint for Caps {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = Symbol;
    fn completion_capacity(&self) -> usize {
        self.0
    }
    fn medial_capacity(&self) -> gearley_vec2d::Vec2dCapacity {
        gearley_vec2d::Vec2dCapacity { chart_capacity: self.1, indices_capacity: self.2 }
    }
}

/// A recognizer that is driven location by location, with the true place of each retained set.
pub struct Sess<'g, F: Forest, P: PerfHint> {
    pub g: &'g G,
    pub rec: Recognizer<&'g DefaultGrammar, F, P>,
    pub spy: Option<Spy>,
    pub posmap: Vec<usize>,
    /// Number of locations read, the start marker included.
    pub t: usize,
    /// Number of groups left in the middle by hand.
    pub abandoned: u64,
    opened: bool,
    /// Hints are given before the tokens, as the parse helpers do.
    pub hints_first: bool,
}

pub type SpySess<'g, P = DefaultPerfHint> = Sess<'g, Spy, P>;

pub fn spy_sess(g: &G) -> SpySess<'_> {
    let spy = Spy::new(&g.dg);
    let mut s = Sess::with(g, spy.clone(), DefaultPerfHint::new(8192));
    s.spy = Some(spy);
    s
}

pub fn spy_sess_with<P: PerfHint>(g: &G, p: P) -> SpySess<'_, P> {
    let spy = Spy::new(&g.dg);
    let mut s = Sess::with(g, spy.clone(), p);
    s.spy = Some(spy);
    s
}

pub fn null_sess(g: &G) -> Sess<'_, NullForest, DefaultPerfHint> {
    Sess::with(g, NullForest, DefaultPerfHint::new(8192))
}

impl<'g, F: Forest, P: PerfHint> Sess<'g, F, P> {
    pub fn with(g: &'g G, forest: F, p: P) -> Self {
        Sess { g, rec: Recognizer::with_forest_and_policy(&g.dg, forest, p), spy: None, posmap: vec![0], t: 0, abandoned: 0, opened: false, hints_first: false }
    }

    fn begin(&mut self) {
        if self.opened {
            return;
        }
        self.opened = true;
        self.rec.begin_earleme();
        if let Some(spy) = &self.spy {
            let mut log = spy.0.borrow_mut();
            log.now = self.t;
            log.leaf_pos = (self.rec.earleme() as u32).wrapping_add(1);
        }
    }

    fn advanced(&mut self) {
        self.opened = false;
        self.t += 1;
        let e = self.rec.earleme();
        self.posmap.truncate(e + 1);
        self.posmap.push(self.t);
        if let Some(spy) = &self.spy {
            let mut log = spy.0.borrow_mut();
            log.posmap.truncate(e + 1);
            log.posmap.push(self.t);
            log.end_location();
        }
    }

    /// After a location whose completions were driven outside of this session.
    pub fn mark_advanced(&mut self) {
        self.advanced();
    }

    /// Starts a location without reading anything. The progress report is then about the location
    /// before it. A location stays open when ending it fails.
    pub fn open(&mut self) {
        self.begin();
    }

    /// Gives the hint and the tokens of a location. The hint is given when the location is begun,
    /// or before that, between the tokens or after them, and sometimes corrected.
    fn scan_all(&mut self, toks: &[(Symbol, u32)], hint: Option<Symbol>) {
        let how = match hint {
            Some(_) if self.hints_first => 0,
            Some(h) => (self.t * 5 + h.usize() * 3 + toks.len()) % 9,
            None => 9 + self.t % 4,
        };
        if how == 1 {
            self.rec.lookahead().set_hint(hint.unwrap());
        }
        self.begin();
        match how {
            0 | 6..=8 => self.rec.lookahead().set_hint(hint.unwrap()),
            2 => {
                self.rec.lookahead().set_hint(self.g.dg.sof());
                self.rec.lookahead().set_hint(hint.unwrap());
            }
            3 => {
                self.rec.lookahead().set_hint(hint.unwrap());
                self.rec.lookahead().clear_hint();
                self.rec.lookahead().set_hint(hint.unwrap());
            }
            10 => {
                self.rec.lookahead().set_hint(self.g.dg.sof());
                self.rec.lookahead().clear_hint();
            }
            _ => {}
        }
        for (i, &(s, v)) in toks.iter().enumerate() {
            if how == 4 && i == 1 {
                self.rec.lookahead().set_hint(hint.unwrap());
            }
            self.rec.scan(s, v);
        }
        if how == 4 || how == 5 {
            self.rec.lookahead().set_hint(hint.unwrap());
        }
    }

    /// Reads tokens at one location, and ends it.
    pub fn read(&mut self, toks: &[(Symbol, u32)], hint: Option<Symbol>) -> bool {
        self.scan_all(toks, hint);
        let ok = self.rec.end_earleme();
        if ok {
            self.advanced();
        }
        ok
    }

    pub fn sof(&mut self, hint: Option<Symbol>) -> bool {
        let s = self.g.dg.sof();
        self.read(&[(s, 0)], hint)
    }

    /// Reads one location with completions driven by hand. The closure judges each group: `None`
    /// skips it, otherwise each item is kept or dropped.
    pub fn read_by_hand(
        &mut self,
        toks: &[(Symbol, u32)],
        hint: Option<Symbol>,
        judge: &mut dyn FnMut(Symbol, usize, usize) -> Judgement<'g>,
    ) -> bool {
        self.scan_all(toks, hint);
        if self.rec.is_exhausted() {
            return false;
        }
        let mut skipped = vec![];
        while let Some(mut group) = self.rec.next_sum() {
            let key = (group.symbol(), group.origin());
            if skipped.contains(&key) {
                violation_panic(&format!("the group of {:?} from {} comes again after all of it was skipped", key.0, key.1));
            }
            let origin = self.posmap[group.origin() as usize];
            match judge(group.symbol(), origin, self.t + 1) {
                Judgement::Entire => group.complete_entire_sum(),
                Judgement::Begun(n) => {
                    for _ in 0..n {
                        match group.next_summand() {
                            Some(item) => group.push_summand(item),
                            None => break,
                        }
                    }
                    group.complete_entire_sum();
                }
                Judgement::Rest => {
                    group.complete_entire_sum();
                    self.rec.complete_all_sums_entirely();
                }
                Judgement::Skip => {
                    group.skip_entire_sum();
                    if key.0.usize() < self.g.dg.num_syms() {
                        skipped.push(key);
                    }
                }
                Judgement::Items(keep) => {
                    let mut n = 0;
                    while let Some(item) = group.next_summand() {
                        if keep(item.dot) {
                            group.push_summand(item);
                            n += 1;
                        }
                    }
                    if n > 0 {
                        group.complete_sum();
                    }
                }
                Judgement::Abandon(keep) => {
                    let mut n = 0;
                    let mut abandoned = false;
                    while let Some(item) = group.next_summand() {
                        if keep(item.dot) {
                            group.push_summand(item);
                            n += 1;
                        } else if n == 0 {
                            // Included, then never completed. The other items of the group are
                            // in the next one.
                            group.push_summand(item);
                            abandoned = true;
                            break;
                        }
                    }
                    if n > 0 {
                        group.complete_sum();
                    }
                    if abandoned {
                        self.abandoned += 1;
                        if let Some(spy) = &self.spy {
                            spy.0.borrow_mut().abandon();
                        }
                    }
                }
            }
        }
        self.rec.advance_after_completion();
        self.advanced();
        true
    }

    pub fn reset(&mut self) {
        self.rec.reset();
        self.opened = false;
        self.t = 0;
        self.posmap = vec![0];
        if let Some(spy) = &self.spy {
            spy.0.borrow_mut().start_over();
        }
    }

    /// All completed parses of the input so far. Opens the next location.
    pub fn finished_nodes(&mut self) -> Vec<F::NodeRef> {
        if self.t == 0 {
            return self.rec.finished_node().into_iter().collect();
        }
        self.open();
        let dot = self.g.dg.dot_before_eof();
        self.rec.medial_items().filter(|i| i.dot == dot).map(|i| i.node).collect()
    }
}

pub enum Judgement<'g> {
    Entire,
    /// The first items one by one, the rest of the group at once.
    Begun(usize),
    /// This group, and all other groups of the location at once.
    Rest,
    Skip,
    Items(Box<dyn Fn(u32) -> bool + 'g>),
    /// Like `Items`, but stops in the middle of a group when its first item is left out.
    Abandon(Box<dyn Fn(u32) -> bool + 'g>),
}

impl<'g, P: PerfHint> SpySess<'g, P> {
    pub fn log(&self) -> std::cell::Ref<'_, Log> {
        self.spy.as_ref().unwrap().0.borrow()
    }
    pub fn protocol(&self, witness: impl FnOnce() -> String) -> Result<(), Fail> {
        let log = self.log();
        if let Some(e) = log.errors.first() {
            return fail(format!("forest protocol: {}", e), witness());
        }
        Ok(())
    }
    /// Number of derivations under the completed parses of the input so far.
    pub fn total(&mut self) -> (Cnt, usize) {
        let nodes = self.finished_nodes();
        let log = self.log();
        let mut r = Reader::new(&self.g.dg, &log);
        let mut c = Cnt::ZERO;
        for n in &nodes {
            c = c.add(r.count(n.id));
        }
        (c, nodes.len())
    }
    pub fn trees(&mut self) -> Result<Vec<String>, String> {
        let nodes: Vec<NodeRef> = self.finished_nodes();
        let log = self.log();
        let r = Reader::new(&self.g.dg, &log);
        let mut out = vec![];
        for n in &nodes {
            for p in r.parses(n.id) {
                out.push(p?);
            }
        }
        out.sort();
        Ok(out)
    }
}

/// The tokens of a lattice as the recognizer reads them.
pub fn internal(g: &G, col: &[(usize, u32)]) -> Vec<(Symbol, u32)> {
    col.iter().map(|&(s, v)| (g.int(s), v)).collect()
}

pub fn show_lattice(l: &Lattice) -> String {
    l.iter()
        .map(|c| c.iter().map(|t| format!("t{}:{}", t.0, t.1)).collect::<Vec<_>>().join("|"))
        .collect::<Vec<_>>()
        .join(" ")
}
