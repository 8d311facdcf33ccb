//! A forest that records everything it is told, and judges the protocol while it is told it.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use cfg_symbol::Symbol;
use common::violation_panic;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_grammar::Grammar;

use crate::refr::Cnt;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Begin,
    Push { dot: u32, origin: usize, node: u32 },
    Sum { lhs: u32, origin: usize, node: u32 },
    Product { left: u32, right: u32, node: u32 },
    Leaf { sym: u32, at: usize, value: u32, node: u32 },
}

#[derive(Clone, Debug)]
pub enum Node {
    Leaf { sym: u32, value: u32 },
    Product { left: u32, right: u32 },
    Sum { lhs: u32, alts: Vec<(u32, u32)> },
    Null { sym: u32 },
}

#[derive(Clone, Copy, Debug)]
pub struct NodeRef {
    pub id: u32,
    pub epoch: u32,
}

pub struct Log {
    pub nodes: Vec<Node>,
    pub spans: Vec<(usize, usize)>,
    /// The first events, and every leaf; the digest is of all of them.
    pub events: Vec<Ev>,
    pub digest: u64,
    pub keep_events: bool,
    pub count: u64,
    pub errors: Vec<String>,
    pub budget: u64,
    pub epoch: u32,
    /// Index of the token that is being read; the start marker has index 0.
    pub now: usize,
    /// True location of each retained set.
    pub posmap: Vec<usize>,
    /// What the recognizer must say about the place of a leaf.
    pub leaf_pos: u32,
    open: Option<Vec<(u32, u32, usize)>>,
    /// Completed (symbol, origin) of the location in progress.
    groups: HashMap<(u32, usize), u32>,
    rhs0: Vec<Option<u32>>,
    rhs1: Vec<Option<u32>>,
    lhs: Vec<u32>,
    pub sums: u64,
    pub products: u64,
    pub summands: u64,
    pub leaves: u64,
}

const KEPT: usize = 200_000;

fn mix(digest: u64, e: &Ev) -> u64 {
    let (a, b, c, d) = match *e {
        Ev::Begin => (1, 0, 0, 0),
        Ev::Push { dot, origin, node } => (2, dot, origin as u32, node),
        Ev::Sum { lhs, origin, node } => (3, lhs, origin as u32, node),
        Ev::Product { left, right, node } => (4, left, right, node),
        Ev::Leaf { sym, at, value, node } => (5 + ((value as u64) << 8), sym, at as u32, node),
    };
    let mut h = digest;
    for x in [a, b as u64, c as u64, d as u64] {
        h = (h.rotate_left(23) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    h
}

impl Log {
    pub fn error(&mut self, s: String) {
        if self.errors.len() < 5 {
            self.errors.push(s);
        }
    }
    fn event(&mut self, e: Ev) {
        self.count += 1;
        if self.count > self.budget {
            // A group, a summand or a product: one for each rule, start, middle and end at most.
            let places = (self.now as u64 + 2).pow(3);
            if self.budget < 1_000_000 || self.count > 4 * (self.lhs.len() as u64 + 1) * places {
                violation_panic("BUDGET: the number of forest events goes past the limit");
            }
            common::too_much();
        }
        if self.keep_events {
            self.digest = mix(self.digest, &e);
            if self.events.len() < KEPT || matches!(e, Ev::Leaf { .. }) {
                self.events.push(e);
            }
        }
    }
    /// The same forest was built, in the same order.
    pub fn same(&self, other: &Log) -> bool {
        self.summary() == other.summary() && self.events == other.events
    }
    pub fn summary(&self) -> (u64, u64) {
        (self.count, self.digest)
    }
    fn add(&mut self, n: Node, span: (usize, usize)) -> NodeRef {
        self.nodes.push(n);
        self.spans.push(span);
        NodeRef { id: self.nodes.len() as u32 - 1, epoch: self.epoch }
    }
    fn check(&mut self, n: NodeRef) -> u32 {
        if n.epoch != self.epoch {
            violation_panic("a node of an earlier parse is used after reset");
        }
        if n.id as usize >= self.nodes.len() {
            violation_panic("unknown node");
        }
        n.id
    }
    fn sym_of(&self, n: u32) -> Option<u32> {
        match &self.nodes[n as usize] {
            Node::Leaf { sym, .. } | Node::Null { sym } => Some(*sym),
            Node::Sum { lhs, .. } => Some(*lhs),
            Node::Product { .. } => None,
        }
    }
    /// After a location is finished and before the next one.
    pub fn end_location(&mut self) {
        self.groups.clear();
        if let Some(o) = &self.open {
            if !o.is_empty() {
                self.error("a location ended inside a sum".into());
            }
        }
        self.open = None;
    }
    /// The group that is open is never finished; its summands count for nothing.
    pub fn abandon(&mut self) {
        self.open = None;
    }
    pub fn start_over(&mut self) {
        self.epoch += 1;
        self.nodes.clear();
        self.spans.clear();
        self.events.clear();
        self.digest = 0;
        self.groups.clear();
        self.open = None;
        self.now = 0;
        self.posmap = vec![0];
        self.count = 0;
    }
}

#[derive(Clone)]
pub struct Spy(pub Rc<RefCell<Log>>);

impl Spy {
    pub fn new(dg: &DefaultGrammar) -> Spy {
        let n = dg.num_rules();
        let mut rhs0 = vec![None; n];
        for s in 0..dg.num_syms() {
            for tr in dg.completions(Symbol::from_raw(s as u32)) {
                rhs0[tr.dot as usize] = Some(s as u32);
            }
        }
        for s in dg.num_syms()..dg.num_syms() + dg.num_gensyms() {
            for tr in dg.gen_completion(Symbol::from_raw(s as u32)).into_iter().flatten() {
                rhs0[tr.dot as usize] = Some(s as u32);
            }
        }
        let rhs1 = (0..n).map(|d| dg.get_rhs1(d as u32).map(|s| s.usize() as u32)).collect();
        let lhs = (0..n).map(|d| dg.get_lhs(d as u32).usize() as u32).collect();
        Spy(Rc::new(RefCell::new(Log {
            nodes: vec![],
            spans: vec![],
            events: vec![],
            digest: 0,
            keep_events: true,
            count: 0,
            errors: vec![],
            budget: 15_000_000,
            epoch: 0,
            now: 0,
            posmap: vec![0],
            leaf_pos: 0,
            open: None,
            groups: HashMap::new(),
            rhs0,
            rhs1,
            lhs,
            sums: 0,
            products: 0,
            summands: 0,
            leaves: 0,
        })))
    }
}

impl Forest for Spy {
    type NodeRef = NodeRef;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        let log = &mut *self.0.borrow_mut();
        if log.open.as_ref().is_some_and(|o| !o.is_empty()) {
            log.error("begin_sum inside a sum".into());
        }
        log.open = Some(vec![]);
        log.event(Ev::Begin);
    }

    fn push_summand(&mut self, item: Item<NodeRef>) {
        let log = &mut *self.0.borrow_mut();
        let node = log.check(item.node);
        log.summands += 1;
        let origin = match log.posmap.get(item.origin as usize) {
            Some(&o) => o,
            None => {
                log.error(format!("summand with origin {} although only {} sets are retained", item.origin, log.posmap.len()));
                0
            }
        };
        let span = log.spans[node as usize];
        if span != (origin, log.now + 1) {
            log.error(format!("summand of {}..{} has a factor that covers {}..{}", origin, log.now + 1, span.0, span.1));
        }
        // The factor must be what the rule says.
        let d = item.dot as usize;
        let want = (log.rhs0[d], log.rhs1[d]);
        let have = match log.nodes[node as usize] {
            Node::Product { left, right } => (log.sym_of(left), log.sym_of(right)),
            _ => (log.sym_of(node), None),
        };
        if want != have {
            log.error(format!("summand of rule {} has factors {:?}, the rule {:?}", d, have, want));
        }
        if log.open.is_none() {
            log.error("push_summand outside of a sum".into());
        } else if log.open.as_ref().unwrap().iter().any(|s| s.0 == item.dot && s.1 == node) {
            log.error(format!("the same summand twice: rule {} node {}", d, node));
        } else {
            log.open.as_mut().unwrap().push((item.dot, node, origin));
        }
        log.event(Ev::Push { dot: item.dot, origin, node });
    }

    fn sum(&mut self, lhs_sym: Symbol, origin: u32) -> NodeRef {
        let log = &mut *self.0.borrow_mut();
        log.sums += 1;
        let lhs = lhs_sym.usize() as u32;
        let start = log.posmap.get(origin as usize).copied().unwrap_or(usize::MAX);
        let alts = match log.open.take() {
            Some(a) => a,
            None => {
                log.error("sum without begin_sum".into());
                vec![]
            }
        };
        if alts.is_empty() {
            log.error("sum of nothing".into());
        }
        for a in &alts {
            if log.lhs[a.0 as usize] != lhs {
                log.error(format!("a sum of symbol {} has a summand of rule {}, whose symbol is {}", lhs, a.0, log.lhs[a.0 as usize]));
            }
            if a.2 != start {
                log.error(format!("a sum with origin {} has a summand with origin {}", start, a.2));
            }
        }
        *log.groups.entry((lhs, start)).or_insert(0) += 1;
        let alts = alts.into_iter().map(|a| (a.0, a.1)).collect();
        let span = (start, log.now + 1);
        let n = log.add(Node::Sum { lhs, alts }, span);
        log.event(Ev::Sum { lhs, origin: start, node: n.id });
        n
    }

    fn product(&mut self, l: NodeRef, r: NodeRef) -> NodeRef {
        let log = &mut *self.0.borrow_mut();
        log.products += 1;
        let (left, right) = (log.check(l), log.check(r));
        let (a, b) = (log.spans[left as usize], log.spans[right as usize]);
        if a.1 != b.0 {
            log.error(format!("product of {}..{} and {}..{}", a.0, a.1, b.0, b.1));
        }
        if log.open.as_ref().is_some_and(|o| !o.is_empty()) {
            log.error("product inside a sum".into());
        }
        let n = log.add(Node::Product { left, right }, (a.0, b.1));
        log.event(Ev::Product { left, right, node: n.id });
        n
    }

    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> NodeRef {
        let log = &mut *self.0.borrow_mut();
        log.leaves += 1;
        if pos != log.leaf_pos {
            log.error(format!("leaf at {} instead of {}", pos, log.leaf_pos));
        }
        if log.open.is_some() {
            log.error("leaf inside a sum".into());
        }
        let at = log.now;
        let sym = token.usize() as u32;
        let n = log.add(Node::Leaf { sym, value }, (at, at + 1));
        log.event(Ev::Leaf { sym, at, value, node: n.id });
        n
    }

    fn nulling(&self, token: Symbol) -> NodeRef {
        let log = &mut *self.0.borrow_mut();
        let at = log.now;
        log.add(Node::Null { sym: token.usize() as u32 }, (at, at))
    }
}

/// Reads user-level trees off the recorded forest.
pub struct Reader<'a> {
    dg: &'a DefaultGrammar,
    log: &'a Log,
    memo: HashMap<u32, Cnt>,
    inter: BTreeMap<u32, (u32, u32)>,
}

impl<'a> Reader<'a> {
    pub fn new(dg: &'a DefaultGrammar, log: &'a Log) -> Self {
        let inter = dg
            .eliminated_nulling_intermediate()
            .iter()
            .map(|r| (r[0].usize() as u32, (r[1].usize() as u32, r[2].usize() as u32)))
            .collect();
        Reader { dg, log, memo: HashMap::new(), inter }
    }

    pub fn count(&mut self, node: u32) -> Cnt {
        if let Some(&c) = self.memo.get(&node) {
            return c;
        }
        let c = match &self.log.nodes[node as usize] {
            Node::Leaf { .. } | Node::Null { .. } => Cnt::ONE,
            Node::Product { left, right } => {
                let (l, r) = (*left, *right);
                self.count(l).mul(self.count(r))
            }
            Node::Sum { alts, .. } => {
                let mut c = Cnt::ZERO;
                for &(_, n) in alts {
                    c = c.add(self.count(n));
                }
                c
            }
        };
        self.memo.insert(node, c);
        c
    }

    fn null(&self, sym: u32, out: &mut Vec<String>) {
        if let Some(&(a, b)) = self.inter.get(&sym) {
            self.null(a, out);
            self.null(b, out);
        } else {
            out.push(format!("~{}", self.dg.to_external(Symbol::from_raw(sym)).usize()));
        }
    }

    /// Each reading of a node, as the list of trees that it puts into its parent.
    pub fn readings(&self, node: u32) -> Vec<Vec<String>> {
        match &self.log.nodes[node as usize] {
            Node::Leaf { sym, value } => {
                vec![vec![format!("t{}:{}", self.dg.to_external(Symbol::from_raw(*sym)).usize(), value)]]
            }
            // The parse of nothing, before the start marker.
            Node::Null { sym } => {
                let mut v = vec![];
                self.null(*sym, &mut v);
                vec![v]
            }
            Node::Product { left, right } => {
                let (l, r) = (self.readings(*left), self.readings(*right));
                let mut out = vec![];
                for a in &l {
                    for b in &r {
                        out.push(a.iter().chain(b).cloned().collect());
                    }
                }
                out
            }
            Node::Sum { alts, .. } => {
                let mut out = vec![];
                for &(dot, n) in alts {
                    let is_product = matches!(self.log.nodes[n as usize], Node::Product { .. });
                    for mut v in self.readings(n) {
                        if !is_product {
                            if let Some((sym, right)) = self.dg.nulling(dot) {
                                let mut nulls = vec![];
                                self.null(sym.usize() as u32, &mut nulls);
                                if right {
                                    v.extend(nulls);
                                } else {
                                    nulls.extend(v);
                                    v = nulls;
                                }
                            }
                        }
                        let o = self.dg.external_origin(dot);
                        if o.is_null() {
                            out.push(v);
                        } else {
                            out.push(vec![format!("r{}({})", o.id, v.join(" "))]);
                        }
                    }
                }
                out
            }
        }
    }

    /// The parses under a finished node, without the start marker.
    pub fn parses(&self, node: u32) -> Vec<Result<String, String>> {
        let sof = format!("t{}:", self.dg.to_external(self.dg.sof()).usize());
        self.readings(node)
            .into_iter()
            .map(|v| {
                if matches!(self.log.nodes[node as usize], Node::Null { .. }) {
                    return Ok(v.join(" "));
                }
                if v.len() == 2 && v[0].starts_with(&sof) {
                    Ok(v[1].clone())
                } else {
                    Err(format!("a parse is not a start marker and one tree: {:?}", v))
                }
            })
            .collect()
    }
}
