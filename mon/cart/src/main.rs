//! Monitors for the cartesian product of gearley-utils. Each operation of a history is applied to
//! the real product and to an odometer model; after each one the current combination is compared
//! with the model, element by element and by address.

use std::fmt::Debug;

use cartesian_product::CartesianProduct;
use common::{fail, guarded, hash64, CaseResult, Check, Ctx, Rng, Tier};

#[cfg(feature = "counting")]
#[global_allocator]
static ALLOC: common::alloc::Counting = common::alloc::Counting;

trait Elem: Debug + Sized {
    fn make(id: u32) -> Self;
    fn matches(&self, id: u32) -> bool;
}

impl Elem for u32 {
    fn make(id: u32) -> Self {
        id
    }
    fn matches(&self, id: u32) -> bool {
        *self == id
    }
}
impl Elem for u8 {
    fn make(id: u32) -> Self {
        id as u8
    }
    fn matches(&self, id: u32) -> bool {
        *self == id as u8
    }
}
impl Elem for String {
    fn make(id: u32) -> Self {
        format!("element {}", id)
    }
    fn matches(&self, id: u32) -> bool {
        *self == format!("element {}", id)
    }
}
impl Elem for () {
    fn make(_: u32) -> Self {}
    fn matches(&self, _: u32) -> bool {
        true
    }
}
impl Elem for [u64; 5] {
    fn make(id: u32) -> Self {
        [id as u64, 1, 2, 3, !(id as u64)]
    }
    fn matches(&self, id: u32) -> bool {
        *self == Self::make(id)
    }
}

/// One factor: its elements and the ids they were made from.
struct Factor<V> {
    elems: Vec<V>,
    ids: Vec<u32>,
}

fn pool<V: Elem>(lens: &[usize]) -> Vec<Factor<V>> {
    let mut next = 0;
    lens.iter()
        .map(|&n| {
            let ids: Vec<u32> = (0..n as u32).map(|i| next + i).collect();
            next += n as u32 + 3;
            Factor { elems: ids.iter().map(|&i| V::make(i)).collect(), ids }
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Push(usize),
    Extend(Vec<usize>),
    Clear,
    Advance,
    /// Advances until the end is reported, at most this many times.
    Sweep(usize),
}

struct Pair<'a, V> {
    pool: &'a [Factor<V>],
    real: CartesianProduct<'a, V>,
    /// Which factor, and the position in it.
    model: Vec<(usize, usize)>,
    log: Vec<Op>,
}

impl<'a, V: Elem> Pair<'a, V> {
    fn new(pool: &'a [Factor<V>]) -> Self {
        Pair { pool, real: CartesianProduct::new(), model: vec![], log: vec![] }
    }

    fn witness(&self) -> String {
        let got: Vec<&V> = self.real.as_slice().iter().copied().take(40).collect();
        format!(
            "{} factors of lengths {:?}, operations {:?}\nexpected combination {:?} (factor, position)\nobserved {} elements {:?}",
            std::any::type_name::<V>(),
            self.pool.iter().map(|f| f.elems.len()).collect::<Vec<_>>(),
            self.log,
            self.model,
            self.real.as_slice().len(),
            got
        )
    }

    fn lens(&self) -> Vec<usize> {
        self.model.iter().map(|&(f, _)| self.pool[f].elems.len()).collect()
    }

    fn compare(&self, ctx: &mut Ctx) -> CaseResult {
        ctx.count("combinations compared", 1);
        let got = self.real.as_slice();
        if got.len() != self.model.len() {
            return fail(
                "CartesianProduct: a combination does not have one element for each factor",
                self.witness(),
            );
        }
        for (k, (&e, &(f, p))) in got.iter().zip(&self.model).enumerate() {
            let want = &self.pool[f].elems[p];
            let addr = std::mem::size_of::<V>() == 0 || std::ptr::eq(e, want);
            if !addr || !e.matches(self.pool[f].ids[p]) {
                return fail(
                    format!("CartesianProduct: wrong element for factor {}", k),
                    self.witness(),
                );
            }
        }
        Ok(())
    }

    fn advance(&mut self, ctx: &mut Ctx) -> Result<bool, common::Fail> {
        ctx.count("advances", 1);
        let lens = self.lens();
        let mut want = false;
        for (slot, len) in self.model.iter_mut().zip(lens) {
            slot.1 += 1;
            if slot.1 < len {
                want = true;
                break;
            }
            slot.1 = 0;
        }
        let got = self.real.advance();
        if got != want {
            fail(
                format!("CartesianProduct: advance() returned {}, expected {}", got, want),
                self.witness(),
            )?;
        }
        self.compare(ctx)?;
        Ok(got)
    }

    fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> CaseResult {
        self.log.push(op.clone());
        let pool = self.pool;
        match op {
            Op::Push(f) => {
                self.real.push(&pool[*f].elems);
                self.model.push((*f, 0));
            }
            Op::Extend(fs) => {
                self.real.extend(fs.iter().map(|&f| &pool[f].elems[..]));
                self.model.extend(fs.iter().map(|&f| (f, 0)));
                if self.model.len() > fs.len() {
                    ctx.count("extensions of a nonempty product", 1);
                }
            }
            Op::Clear => {
                self.real.clear();
                self.model.clear();
            }
            Op::Advance => {
                self.advance(ctx)?;
            }
            Op::Sweep(limit) => {
                let mut n = 0;
                while n < *limit && self.advance(ctx)? {
                    n += 1;
                }
            }
        }
        self.compare(ctx)
    }

    /// From the first combination, every combination must come exactly once before the end.
    fn full_sweep(&mut self, ctx: &mut Ctx, limit: usize) -> CaseResult {
        if self.model.iter().any(|&(_, p)| p != 0) {
            return Ok(());
        }
        let total: usize = self.lens().iter().product();
        if total > limit {
            return Ok(());
        }
        let mut seen = std::collections::HashSet::new();
        for round in 0..2 {
            seen.clear();
            loop {
                let key: Vec<usize> = self.model.iter().map(|&(_, p)| p).collect();
                if !seen.insert(key) {
                    return fail("CartesianProduct: a combination came twice", self.witness());
                }
                if !self.advance(ctx)? {
                    break;
                }
            }
            if seen.len() != total {
                return fail(
                    format!("CartesianProduct: {} combinations in sweep {}, expected {}", seen.len(), round, total),
                    self.witness(),
                );
            }
            ctx.count("complete sweeps", 1);
        }
        ctx.max("combinations in one sweep", total as u64);
        Ok(())
    }
}

fn history<V: Elem>(ctx: &mut Ctx, rng: &mut Rng, max_ops: usize, sweep: usize) -> CaseResult {
    let n = rng.range(1, 6);
    let lens: Vec<usize> = (0..n)
        .map(|_| match rng.below(8) {
            0..=2 => 1,
            3..=6 => rng.range(2, 4),
            _ => rng.range(5, 9),
        })
        .collect();
    let pool = pool::<V>(&lens);
    let mut p = Pair::new(&pool);
    let ops = rng.range(1, max_ops);
    for _ in 0..ops {
        let op = match rng.below(12) {
            0..=2 => Op::Push(rng.below(n)),
            3 | 4 => Op::Extend((0..rng.below(4)).map(|_| rng.below(n)).collect()),
            5 => Op::Clear,
            6..=9 => Op::Advance,
            _ => Op::Sweep(sweep),
        };
        if p.model.len() > 12 {
            p.apply(&Op::Clear, ctx)?;
        }
        ctx.witness = format!("lengths {:?}, operations {:?} then {:?}", lens, p.log, op);
        p.apply(&op, ctx)?;
        ctx.count("operations", 1);
        if rng.chance(1, 4) {
            p.full_sweep(ctx, sweep)?;
        }
    }
    ctx.nontrivial(&(std::any::type_name::<V>(), hash64(&format!("{:?}{:?}", lens, p.log))));
    ctx.sample(|| format!("{} factor lengths {:?}: {:?}", std::any::type_name::<V>(), lens, p.log));
    Ok(())
}

/// Every product of at most `k` factors of at most `m` elements, built in every way out of pushes
/// and extensions, swept completely.
fn enumerate(ctx: &mut Ctx, k: usize, m: usize, part: u64, parts: u64) -> CaseResult {
    let pool = pool::<u32>(&(1..=m).collect::<Vec<_>>());
    let mut serial = 0u64;
    for n in 0..=k {
        for code in 0..(m as u64).pow(n as u32) {
            let shape: Vec<usize> = (0..n).map(|i| (code / (m as u64).pow(i as u32)) as usize % m).collect();
            // Bit i of `cuts` begins a new operation at factor i; bit i of `kinds` says which kind.
            for cuts in 0..1u32 << n.saturating_sub(1) {
                serial += 1;
                if serial % parts != part {
                    continue;
                }
                let mut groups: Vec<Vec<usize>> = vec![];
                for (i, &f) in shape.iter().enumerate() {
                    if i == 0 || (cuts >> (i - 1)) & 1 == 1 {
                        groups.push(vec![]);
                    }
                    groups.last_mut().unwrap().push(f);
                }
                for kinds in 0..1u32 << groups.len() {
                    let mut p = Pair::new(&pool);
                    for (i, g) in groups.iter().enumerate() {
                        if (kinds >> i) & 1 == 1 && g.len() == 1 {
                            p.apply(&Op::Push(g[0]), ctx)?;
                        } else {
                            p.apply(&Op::Extend(g.clone()), ctx)?;
                        }
                    }
                    ctx.witness = p.witness();
                    p.full_sweep(ctx, 1 << 20)?;
                    p.apply(&Op::Clear, ctx)?;
                    ctx.count("enumerated constructions", 1);
                    ctx.nontrivial(&("shape", shape.clone(), cuts, kinds));
                }
            }
        }
    }
    Ok(())
}

/// Long factors (past 256 and 65,536 elements) and products of many factors.
fn large(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    let kind = rng.below(4);
    let lens: Vec<usize> = match kind {
        0 | 2 => vec![1, 2, rng.range(254, 300), 1],
        1 => vec![rng.range(65_530, 65_560), 1, 3],
        _ => vec![2, 1, 3, rng.range(250, 260), rng.range(250, 260)],
    };
    let pool = pool::<u32>(&lens);
    let mut p = Pair::new(&pool);
    let mut order: Vec<usize> = (0..lens.len()).collect();
    rng.shuffle(&mut order);
    ctx.witness = format!("factors of lengths {:?} in the order {:?}", lens, order);
    let cut = rng.below(order.len() + 1);
    for &f in &order[..cut] {
        p.apply(&Op::Push(f), ctx)?;
    }
    p.apply(&Op::Extend(order[cut..].to_vec()), ctx)?;
    p.full_sweep(ctx, 400_000)?;
    ctx.count("large products", 1);
    ctx.max("elements in one factor", *lens.iter().max().unwrap() as u64);
    ctx.max("factors in one product", lens.len() as u64);
    ctx.nontrivial(&("large", lens, order, cut));
    Ok(())
}

/// A product of very many factors: only the beginning of the sweep, or all of it when nearly every
/// factor has one element.
fn many(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    let n = match rng.below(60) {
        0 if !cfg!(miri) => rng.range(65_540, 66_000),
        1..=6 => rng.range(300, 2000),
        _ => rng.range(20, 300),
    };
    let pool = pool::<u8>(&[1, 2, 3]);
    let mut p = Pair::new(&pool);
    let all = n > 300 || rng.chance(1, 2);
    let most = if n > 300 { 3 } else { 8 };
    let mut twos = 0;
    let order: Vec<usize> = (0..n)
        .map(|_| {
            if all && (twos >= most || rng.below(n) > 6) {
                0
            } else {
                twos += 1;
                rng.range(1, 2)
            }
        })
        .collect();
    ctx.witness = format!("factors {:?} of lengths 1, 2, 3", order);
    let cut = rng.below(n + 1);
    for &f in &order[..cut] {
        p.apply(&Op::Push(f), ctx)?;
    }
    p.apply(&Op::Extend(order[cut..].to_vec()), ctx)?;
    if all {
        p.full_sweep(ctx, 10_000)?;
    } else {
        p.apply(&Op::Sweep(600), ctx)?;
    }
    ctx.count("products of many factors", 1);
    ctx.max("factors in one product", n as u64);
    ctx.nontrivial(&("many", order, cut));
    Ok(())
}

fn c18(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("C18");
    if ctx.idx % 600 == 17 {
        return large(ctx, &mut rng);
    }
    if ctx.idx % 60 == 18 {
        return many(ctx, &mut rng);
    }
    if ctx.idx < 16 {
        let (k, m) = if ctx.tier == Tier::Thorough { (6, 4) } else { (5, 3) };
        return enumerate(ctx, k, m, ctx.idx, 16);
    }
    match ctx.idx % 6 {
        0 | 1 => history::<u32>(ctx, &mut rng, 40, 3000),
        2 => history::<u8>(ctx, &mut rng, 40, 500),
        3 => history::<String>(ctx, &mut rng, 30, 500),
        4 => history::<[u64; 5]>(ctx, &mut rng, 40, 500),
        _ => history::<()>(ctx, &mut rng, 40, 500),
    }
}

/// Small histories for the undefined-behaviour interpreter; includes factors in exactly-sized heap
/// blocks, neighbours of other data, and empty factors (which must not yield a reference).
fn c19(ctx: &mut Ctx) -> CaseResult {
    let mut rng = ctx.rng("C19");
    // Only the instrumentation judges; wrong answers are the business of C18.
    let _ = guarded(|| c19_case(ctx, &mut rng));
    Ok(())
}

fn c19_case(ctx: &mut Ctx, rng: &mut Rng) -> CaseResult {
    match ctx.idx % 6 {
        0 => history::<u32>(ctx, rng, 14, 12)?,
        1 => history::<u8>(ctx, rng, 14, 12)?,
        2 => history::<String>(ctx, rng, 10, 12)?,
        3 => history::<[u64; 5]>(ctx, rng, 14, 12)?,
        4 => history::<()>(ctx, rng, 14, 12)?,
        _ => {
            // Factors that are parts of one array: no element outside the part may be reached.
            let data: Box<[u32]> = (0..12).collect();
            let mut p = CartesianProduct::new();
            let cut = rng.range(1, 5);
            p.push(&data[..cut]);
            p.extend([&data[cut..cut + 2], &data[cut + 2..]].into_iter());
            let mut n = 0;
            loop {
                let s = p.as_slice();
                let sum: u32 = s.iter().copied().sum();
                n += 1;
                ctx.count("combinations compared", (sum < 1000) as u64);
                if !p.advance() {
                    break;
                }
            }
            let want = cut * 2 * (12 - cut - 2);
            if s_len(&p) != 3 || n != want {
                return fail("CartesianProduct: wrong number of combinations", format!("cut {} of 12: {} not {}", cut, n, want));
            }
            // A product with an empty factor has no combination to refer to.
            let empty: &[u32] = &[];
            let _ = guarded(|| {
                let mut p = CartesianProduct::new();
                p.push(empty);
            });
            let _ = guarded(|| {
                let mut p = CartesianProduct::new();
                p.extend([&data[..1], empty].into_iter());
            });
            ctx.count("empty factors offered", 2);
            ctx.nontrivial(&("parts", cut));
        }
    }
    Ok(())
}

fn s_len<V>(p: &CartesianProduct<V>) -> usize {
    p.as_slice().len()
}

fn main() {
    common::main(&[
        Check { id: "C18", quick: 30_000, thorough: 800_000, run: c18 },
        Check { id: "C19", quick: 20_000, thorough: 400_000, run: c19 },
    ]);
}
