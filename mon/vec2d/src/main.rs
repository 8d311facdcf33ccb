//! Monitors for gearley-vec2d. Every operation of a random or enumerated history is applied to the
//! real container and to a model (a list of finished sets and one set in progress); after each
//! operation the whole observable state of the container is compared with the model.

use std::cell::Cell;
use std::fmt::Debug;

use common::{fail, guarded, hash64, CaseResult, Check, Ctx, Rng, Tier};
use gearley_vec2d::{Vec2d, Vec2dCapacity};

#[cfg(feature = "counting")]
#[global_allocator]
static ALLOC: common::alloc::Counting = common::alloc::Counting;

/// An element that carries an id.
trait Elem: Clone + Debug {
    const ZST: bool = false;
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
    fn set(&mut self, id: u32);
    /// Elements alive now, when the type counts them.
    fn alive() -> Option<i64> {
        None
    }
}

impl Elem for u32 {
    fn make(id: u32) -> Self {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
    fn set(&mut self, id: u32) {
        *self = id
    }
}

/// Wide, with an odd size.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Wide {
    head: u8,
    id: u32,
    tail: [u64; 3],
}

impl Elem for Wide {
    fn make(id: u32) -> Self {
        Wide { head: id as u8, id, tail: [id as u64 ^ 0x5555, !(id as u64), 7] }
    }
    fn id(&self) -> u32 {
        // All parts must belong to the same element.
        if self.head == self.id as u8 && self.tail == [self.id as u64 ^ 0x5555, !(self.id as u64), 7] {
            self.id
        } else {
            u32::MAX
        }
    }
    fn set(&mut self, id: u32) {
        *self = Self::make(id)
    }
}

impl Elem for () {
    const ZST: bool = true;
    fn make(_: u32) -> Self {}
    fn id(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
}

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}

/// Owns memory and counts its instances: a lost or doubly dropped element shows.
struct Tracked {
    id: Box<u32>,
}

impl Tracked {
    fn new(id: u32) -> Self {
        ALIVE.with(|a| a.set(a.get() + 1));
        Tracked { id: Box::new(id) }
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(*self.id)
    }
}
impl Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.id)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}
impl Elem for Tracked {
    fn make(id: u32) -> Self {
        Tracked::new(id)
    }
    fn id(&self) -> u32 {
        *self.id
    }
    fn set(&mut self, id: u32) {
        *self.id = id
    }
    fn alive() -> Option<i64> {
        Some(ALIVE.with(|a| a.get()))
    }
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Model {
    sets: Vec<Vec<u32>>,
    cur: Vec<u32>,
}

impl Model {
    fn flat(&self) -> Vec<u32> {
        self.sets.iter().flatten().chain(&self.cur).copied().collect()
    }
    fn closed_items(&self) -> usize {
        self.sets.iter().map(|s| s.len()).sum()
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push,
    Pop,
    NextSet,
    ExtendWithSet(usize),
    Extend(Vec<usize>),
    Clear,
    Truncate(usize),
    TruncateChart(usize),
    SortLast,
    MutateLast(usize),
    Clone,
    Recreate(bool),
    FromIter(Vec<usize>),
    OutOfRange(usize),
}

struct Pair<I> {
    real: Vec2d<I>,
    model: Model,
    next: u32,
    log: Vec<Op>,
}

impl<I: Elem> Pair<I> {
    fn new(how: u32) -> Self {
        let real = match how {
            0 => Vec2d::new(),
            1 => Vec2d::default(),
            2 => Vec2d::with_capacity(Vec2dCapacity::default()),
            3 => Vec2d::with_capacity(Vec2dCapacity { chart_capacity: 3, indices_capacity: 1 }),
            _ => Vec2d::with_capacity(Vec2dCapacity { chart_capacity: 100, indices_capacity: 50 }),
        };
        Pair { real, model: Model::default(), next: 1, log: vec![] }
    }

    fn fresh(&mut self) -> u32 {
        self.next += 1;
        if I::ZST {
            0
        } else {
            self.next
        }
    }

    fn witness(&self, got: String) -> String {
        format!("operations {:?}\nexpected {:?}\nobserved {}", self.log, self.model, got)
    }

    fn err(&self, what: &str, got: String) -> CaseResult {
        fail(format!("Vec2d: {}", what), self.witness(got))
    }

    /// Applies an operation that needs nothing beyond `Elem`; `truncate` goes through `trunc`.
    fn apply(&mut self, op: &Op, trunc: Option<fn(&mut Vec2d<I>, usize)>, ctx: &mut Ctx) -> CaseResult {
        self.log.push(op.clone());
        ctx.count("operations", 1);
        match op {
            Op::Push => {
                let id = self.fresh();
                self.real.push_item(I::make(id));
                self.model.cur.push(id);
            }
            Op::Pop => {
                // Defined while the set in progress has items, or when there are no items at all.
                let want = if self.model.cur.is_empty() {
                    if self.model.closed_items() > 0 {
                        self.log.pop();
                        return Ok(());
                    }
                    None
                } else {
                    self.model.cur.pop()
                };
                let got = self.real.pop_item().map(|x| x.id());
                if got != want {
                    return self.err("pop_item returned the wrong item", format!("{:?}, not {:?}", got, want));
                }
            }
            Op::NextSet => {
                self.real.next_set();
                let cur = std::mem::take(&mut self.model.cur);
                self.model.sets.push(cur);
            }
            Op::ExtendWithSet(n) => {
                let ids: Vec<u32> = (0..*n).map(|_| self.fresh()).collect();
                if n % 2 == 0 {
                    self.real.extend_with_set(ids.iter().map(|&i| I::make(i)));
                } else {
                    // No lower bound in the size hint.
                    self.real.extend_with_set(ids.iter().filter(|_| true).map(|&i| I::make(i)));
                }
                let mut cur = std::mem::take(&mut self.model.cur);
                cur.extend(ids);
                self.model.sets.push(cur);
            }
            Op::Extend(ns) => {
                let ids: Vec<Vec<u32>> =
                    ns.iter().map(|&n| (0..n).map(|_| self.fresh()).collect()).collect();
                self.real.extend(ids.iter().map(|s| s.iter().map(|&i| I::make(i)).collect::<Vec<_>>()));
                for s in ids {
                    let mut cur = std::mem::take(&mut self.model.cur);
                    cur.extend(s);
                    self.model.sets.push(cur);
                }
            }
            Op::Clear => {
                self.real.clear();
                self.model = Model::default();
            }
            Op::Truncate(n) => {
                let Some(t) = trunc else {
                    self.log.pop();
                    return Ok(());
                };
                let n = n % (self.model.sets.len() + 1);
                *self.log.last_mut().unwrap() = Op::Truncate(n);
                t(&mut self.real, n);
                self.model.sets.truncate(n);
                ctx.count("truncations to an earlier set", 1);
            }
            Op::TruncateChart(n) => {
                let keep = n % (self.model.cur.len() + 1);
                let at = self.model.closed_items() + keep;
                *self.log.last_mut().unwrap() = Op::TruncateChart(at);
                self.real.truncate_chart(at);
                self.model.cur.truncate(keep);
            }
            Op::SortLast => {
                self.real.last_mut().sort_by_key(|x| std::cmp::Reverse(x.id()));
                self.model.cur.sort_by_key(|&x| std::cmp::Reverse(x));
            }
            Op::MutateLast(k) => {
                if !self.model.cur.is_empty() {
                    let k = k % self.model.cur.len();
                    let id = self.fresh();
                    let last = self.real.last_mut();
                    if last.len() != self.model.cur.len() {
                        let got = format!("last_mut() of length {}", last.len());
                        return self.err("last_mut has the wrong extent", got);
                    }
                    last[k].set(id);
                    self.model.cur[k] = id;
                }
            }
            Op::Clone => {
                let copy = self.real.clone();
                // Changing the original must not show in the copy.
                let old = std::mem::replace(&mut self.real, copy);
                let mut old = old;
                old.push_item(I::make(0));
                old.clear();
                drop(old);
            }
            Op::Recreate(with_cap) => {
                self.real = if *with_cap {
                    Vec2d::with_capacity(Vec2dCapacity { chart_capacity: 2, indices_capacity: 2 })
                } else {
                    Vec2d::new()
                };
                self.model = Model::default();
            }
            Op::FromIter(ns) => {
                let ids: Vec<Vec<u32>> =
                    ns.iter().map(|&n| (0..n).map(|_| self.fresh()).collect()).collect();
                self.real = ids.iter().map(|s| s.iter().map(|&i| I::make(i)).collect::<Vec<_>>()).collect();
                self.model = Model { sets: ids, cur: vec![] };
            }
            Op::OutOfRange(k) => {
                // A set that is not finished must never be handed out by index.
                let i = self.model.sets.len() + k;
                let real = &self.real;
                if let Ok(n) = guarded(|| real[i].len()) {
                    return self.err(
                        "indexing past the finished sets returned a slice",
                        format!("self[{}] has {} items", i, n),
                    );
                }
                if real.get_item(self.model.flat().len() + k).is_some() {
                    return self.err("get_item past the end returned an item", format!("{:?}", real));
                }
            }
        }
        self.compare(ctx)
    }

    fn compare(&self, ctx: &mut Ctx) -> CaseResult {
        let (r, m) = (&self.real, &self.model);
        ctx.count("states compared", 1);
        ctx.max("finished sets in one container", m.sets.len() as u64);
        let flat = m.flat();
        ctx.max("items in one container", flat.len() as u64);
        if r.len() != m.sets.len() + 1 {
            return self.err("len() disagrees with the number of sets", format!("len() = {}", r.len()));
        }
        if r.item_count() != flat.len() {
            return self.err("item_count() is wrong", format!("item_count() = {}", r.item_count()));
        }
        let ids = |s: &[I]| s.iter().map(|x| x.id()).collect::<Vec<_>>();
        let mut start = 0;
        for (i, s) in m.sets.iter().enumerate() {
            if r.index_at(i) != start {
                return self.err("index_at() is wrong", format!("index_at({}) = {}", i, r.index_at(i)));
            }
            let got = ids(&r[i]);
            if &got != s {
                return self.err("a finished set is wrong", format!("self[{}] = {:?}", i, got));
            }
            start += s.len();
        }
        if r.index_at(m.sets.len()) != start {
            let got = format!("index_at({}) = {}", m.sets.len(), r.index_at(m.sets.len()));
            return self.err("the set in progress starts at the wrong index", got);
        }
        let got = ids(r.last());
        if got != m.cur {
            return self.err("the set in progress is wrong", format!("last() = {:?}", got));
        }
        if r.last_item().map(|x| x.id()) != flat.last().copied() {
            return self.err("last_item() is wrong", format!("last_item() = {:?}", r.last_item()));
        }
        for (i, want) in flat.iter().enumerate() {
            if r.get_item(i).map(|x| x.id()) != Some(*want) {
                return self.err("get_item() is wrong", format!("get_item({}) = {:?}", i, r.get_item(i)));
            }
        }
        if r.get_item(flat.len()).is_some() {
            return self.err("get_item() past the end", format!("{:?}", r.get_item(flat.len())));
        }
        if let Some(alive) = I::alive() {
            ctx.count("ownership balances checked", 1);
            if alive != flat.len() as i64 {
                return self.err("items were lost or dropped twice", format!("{} items alive", alive));
            }
        }
        Ok(())
    }
}

fn trunc<I: Copy>(v: &mut Vec2d<I>, n: usize) {
    v.truncate(n)
}

fn random_op(rng: &mut Rng, style: usize) -> Op {
    // Styles shift the mix towards deep containers, long sets, or churn.
    let w: [u64; 14] = match style {
        0 => [30, 8, 12, 6, 3, 1, 6, 6, 4, 6, 2, 1, 1, 2],
        1 => [10, 3, 25, 10, 6, 0, 5, 2, 2, 2, 1, 0, 0, 1],
        2 => [60, 10, 4, 2, 1, 0, 2, 8, 4, 6, 1, 0, 0, 1],
        _ => [15, 10, 10, 5, 3, 3, 15, 10, 2, 3, 3, 1, 2, 2],
    };
    let len = |rng: &mut Rng| if rng.chance(1, 4) { 0 } else { rng.below(6) };
    match rng.weighted(&w) {
        0 => Op::Push,
        1 => Op::Pop,
        2 => Op::NextSet,
        3 => Op::ExtendWithSet(len(rng)),
        4 => Op::Extend((0..rng.below(4)).map(|_| len(rng)).collect()),
        5 => Op::Clear,
        6 => Op::Truncate(rng.below(1000)),
        7 => Op::TruncateChart(rng.below(1000)),
        8 => Op::SortLast,
        9 => Op::MutateLast(rng.below(1000)),
        10 => Op::Clone,
        11 => Op::Recreate(rng.chance(1, 2)),
        12 => Op::FromIter((0..rng.below(5)).map(|_| len(rng)).collect()),
        _ => Op::OutOfRange(rng.below(3)),
    }
}

fn history<I: Elem>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    trunc: Option<fn(&mut Vec2d<I>, usize)>,
    n: usize,
) -> CaseResult {
    let how = rng.below(5) as u32;
    let style = rng.below(4);
    let mut p = Pair::<I>::new(how);
    p.compare(ctx)?;
    for _ in 0..n {
        let op = random_op(rng, style);
        ctx.witness = format!("operations {:?} then {:?}", p.log, op);
        p.apply(&op, trunc, ctx)?;
    }
    ctx.nontrivial(&(std::any::type_name::<I>(), hash64(&format!("{:?}", p.log))));
    ctx.sample(|| format!("{}: {:?} -> {:?}", std::any::type_name::<I>(), p.log, p.model));
    drop(p);
    if let Some(alive) = I::alive() {
        if alive != 0 {
            return fail("Vec2d: items survived their container", format!("{} alive", alive));
        }
    }
    Ok(())
}

/// All histories of a fixed length over a small alphabet, sharing prefixes.
fn enumerate(ctx: &mut Ctx, p: &Pair<u32>, depth: usize) -> CaseResult {
    if depth == 0 {
        ctx.count("enumerated histories", 1);
        return Ok(());
    }
    let mut ops = vec![Op::Push, Op::NextSet, Op::Pop, Op::ExtendWithSet(2), Op::TruncateChart(0)];
    for n in 0..=p.model.sets.len().min(3) {
        ops.push(Op::Truncate(n));
    }
    for op in ops {
        let mut q = Pair { real: p.real.clone(), model: p.model.clone(), next: p.next, log: p.log.clone() };
        ctx.witness = format!("operations {:?} then {:?}", q.log, op);
        q.apply(&op, Some(trunc::<u32>), ctx)?;
        enumerate(ctx, &q, depth - 1)?;
    }
    Ok(())
}

/// Containers far larger than any in use, in few operations.
fn huge<I: Elem>(ctx: &mut Ctx, rng: &mut Rng, trunc: Option<fn(&mut Vec2d<I>, usize)>) -> CaseResult {
    let mut p = Pair::<I>::new(rng.below(5) as u32);
    let many_sets = rng.chance(1, 2);
    for _ in 0..10 {
        let ops = if many_sets {
            vec![Op::Extend((0..rng.range(2000, 12_000)).map(|i| (i % 3 == 0) as usize).collect()), Op::Push]
        } else {
            vec![Op::Extend((0..rng.range(1, 60)).map(|_| rng.below(900)).collect()), Op::ExtendWithSet(rng.below(9000))]
        };
        let ops = match rng.below(60) {
            0 => vec![Op::ExtendWithSet(rng.range(65_530, 70_000))],
            1 => vec![Op::Extend(vec![0; rng.range(65_530, 70_000)])],
            _ => ops,
        };
        for op in ops {
            ctx.witness = "a huge container".into();
            p.apply(&op, trunc, ctx)?;
        }
        for _ in 0..rng.range(1, 4) {
            let op = match rng.below(6) {
                0 => Op::Truncate(p.model.sets.len() - rng.below(p.model.sets.len().min(500) + 1)),
                1 => Op::TruncateChart(rng.below(1000)),
                2 => Op::Clone,
                3 => Op::SortLast,
                4 => Op::NextSet,
                _ => Op::Push,
            };
            p.apply(&op, trunc, ctx)?;
        }
    }
    if rng.chance(1, 2) {
        p.apply(&Op::Truncate(rng.below(100)), trunc, ctx)?;
        p.apply(&Op::ExtendWithSet(2), trunc, ctx)?;
    }
    ctx.nontrivial(&("huge", std::any::type_name::<I>(), ctx.idx));
    ctx.count("huge histories", 1);
    Ok(())
}

fn c16(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("C16");
    if (25..41).contains(&ctx.idx) {
        return match ctx.idx % 4 {
            0 | 1 => huge::<u32>(ctx, &mut rng, Some(trunc)),
            2 => huge::<()>(ctx, &mut rng, Some(trunc)),
            _ => huge::<Tracked>(ctx, &mut rng, None),
        };
    }
    if ctx.idx < 25 {
        let first = [Op::Push, Op::NextSet, Op::ExtendWithSet(2), Op::ExtendWithSet(0), Op::ExtendWithSet(1)];
        let mut p = Pair::<u32>::new(0);
        for k in [ctx.idx / 5, ctx.idx % 5] {
            p.apply(&first[k as usize], Some(trunc::<u32>), ctx)?;
        }
        let depth = if ctx.tier == Tier::Thorough { 7 } else { 5 };
        ctx.nontrivial(&("enumeration", ctx.idx));
        return enumerate(ctx, &p, depth);
    }
    let n = match rng.below(10) {
        0..=5 => rng.range(1, 40),
        6..=8 => rng.range(40, 200),
        _ => rng.range(200, 1200),
    };
    match ctx.idx % 8 {
        0..=3 => history::<u32>(ctx, &mut rng, Some(trunc), n),
        4 | 5 => history::<Wide>(ctx, &mut rng, Some(trunc), n),
        6 => history::<Tracked>(ctx, &mut rng, None, n),
        _ => history::<()>(ctx, &mut rng, Some(trunc), n),
    }
}

fn contents<I: Elem>(v: &Vec2d<I>) -> Model {
    Model {
        sets: (0..v.len() - 1).map(|i| v[i].iter().map(|x| x.id()).collect()).collect(),
        cur: v.last().iter().map(|x| x.id()).collect(),
    }
}

fn c17(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("C17");
    let mut p = Pair::<u32>::new(rng.below(5) as u32);
    let style = rng.below(4);
    let n = if ctx.idx == 0 { 0 } else { rng.range(0, 80) };
    for _ in 0..n {
        let op = random_op(&mut rng, style);
        p.apply(&op, Some(trunc), ctx)?;
    }
    if ctx.idx % 2_500 == 1 {
        // Sets, and numbers of sets, that need more than eight and more than sixteen bits.
        let sizes: &[usize] = match (ctx.idx / 2_500) % 4 {
            0 => &[3, 70_000, 2],
            1 => &[0, 300, 256, 255, 1],
            2 => &[65_535, 0, 65_536, 1],
            _ => &[40_000, 40_000, 1],
        };
        p.apply(&Op::Extend(sizes.to_vec()), Some(trunc), ctx)?;
        if ctx.idx / 2_500 % 2 == 1 {
            p.apply(&Op::Extend((0..66_000).map(|i| (i % 7 == 0) as usize).collect()), Some(trunc), ctx)?;
        }
        ctx.count("huge round trips", 1);
    }
    // Text made by each backend, read back by the same backend, twice.
    for backend in ["serde_json", "miniserde"] {
        ctx.witness = format!("{} of {:?}", backend, p.model);
        let read = |text: &str| -> Result<Vec2d<u32>, String> {
            match backend {
                "serde_json" => serde_json::from_str(text).map_err(|e| e.to_string()),
                _ => miniserde::json::from_str(text).map_err(|e| e.to_string()),
            }
        };
        let write = |v: &Vec2d<u32>| match backend {
            "serde_json" => serde_json::to_string(v).expect("serialize"),
            _ => miniserde::json::to_string(v),
        };
        let text = write(&p.real);
        let copy = match read(&text) {
            Ok(v) => v,
            Err(e) => return fail(format!("Vec2d: {} cannot read what it wrote: {}", backend, e), text),
        };
        ctx.count("round trips", 1);
        let mut q = Pair { real: copy, model: p.model.clone(), next: p.next + 1000, log: p.log.clone() };
        if let Err(f) = q.compare(ctx) {
            return fail(format!("{} after a {} round trip", f.what, backend), format!("{}\ntext {}", f.witness, text));
        }
        if write(&q.real) != text {
            return fail(
                format!("Vec2d: serialization by {} is not stable", backend),
                format!("{} then {}", text, write(&q.real)),
            );
        }
        // The copy must go on behaving like the original.
        for _ in 0..rng.range(1, 25) {
            let op = random_op(&mut rng, style);
            if let Err(f) = q.apply(&op, Some(trunc), ctx) {
                return fail(format!("{} after a {} round trip", f.what, backend), format!("{}\ntext {}", f.witness, text));
            }
        }
        if contents(&p.real) != p.model {
            return fail("Vec2d: the original changed with its copy", format!("{:?}", p.model));
        }
    }
    // Owned, nested contents.
    let nested: Vec2d<String> = p.model.sets.iter().map(|s| s.iter().map(|i| format!("\"{}\\", i)).collect::<Vec<_>>()).collect();
    let a: Vec2d<String> = match serde_json::from_str(&serde_json::to_string(&nested).expect("serialize")) {
        Ok(v) => v,
        Err(e) => return fail(format!("Vec2d<String>: {}", e), format!("{:?}", nested)),
    };
    let b: Vec2d<String> = match miniserde::json::from_str(&miniserde::json::to_string(&nested)) {
        Ok(v) => v,
        Err(e) => return fail(format!("Vec2d<String>: {}", e), format!("{:?}", nested)),
    };
    for v in [&a, &b] {
        let same = v.len() == nested.len()
            && v.last() == nested.last()
            && (0..nested.len() - 1).all(|i| v[i] == nested[i]);
        if !same {
            return fail("Vec2d<String> changed in a round trip", format!("{:?}\n{:?}", nested, v));
        }
    }
    if !p.model.sets.is_empty() {
        ctx.nontrivial(&p.model);
    }
    ctx.sample(|| format!("{:?} <-> {}", p.model, serde_json::to_string(&p.real).unwrap()));
    Ok(())
}

/// Small histories for the undefined-behaviour interpreter and the address sanitizer, which alone judge.
fn c19(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("C19");
    let n = if cfg!(miri) { rng.range(5, 40) } else { rng.range(5, 300) };
    let _ = guarded(|| match ctx.idx % 5 {
        0 => history::<u32>(ctx, &mut rng, Some(trunc), n),
        1 => history::<Wide>(ctx, &mut rng, Some(trunc), n),
        2 => history::<Tracked>(ctx, &mut rng, None, n),
        3 => history::<()>(ctx, &mut rng, Some(trunc), n),
        _ => c17(ctx),
    });
    Ok(())
}

fn main() {
    common::main(&[
        Check { id: "C16", quick: 20_000, thorough: 600_000, run: c16 },
        Check { id: "C17", quick: 60_000, thorough: 1_500_000, run: c17 },
        Check { id: "C19", quick: 20_000, thorough: 400_000, run: c19 },
    ]);
}
