//! C19: parameter sets are accepted exactly if they are legal, and every legal set works
use harness::kinds::Pm;
use harness::rng::{combine, Rng};
use harness::runner::*;
use harness::{ensure, viol};
use rstar::{
    InsertionStrategy, ParentNode, Point, RStarInsertionStrategy, RTree, RTreeNode, RTreeParams, AABB,
};
use std::panic::catch_unwind;

fn legal(min: usize, max: usize, re: usize, dims: usize) -> bool {
    dims >= 2 && max >= 4 && min >= 1 && min <= max.div_ceil(2) && re < max - min
}

/// How a tree can be created
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    New,
    Default,
    BulkEmpty,
    BulkOne,
    Bulk,
}

fn create<P: Point<Scalar = i32>, R: RTreeParams>(how: How) -> usize
where
    P: rstar::RTreeObject<Envelope = AABB<P>>,
{
    match how {
        How::New => RTree::<P, R>::new_with_params().size(),
        How::Default => RTree::<P, R>::default().size(),
        How::BulkEmpty => RTree::<P, R>::bulk_load_with_params(vec![]).size(),
        How::BulkOne => RTree::<P, R>::bulk_load_with_params(vec![P::generate(|i| i as i32)]).size(),
        How::Bulk => RTree::<P, R>::bulk_load_with_params(
            (0..100).map(|k| P::generate(|i| (k * (3 + i as i32)) % 101)).collect(),
        )
        .size(),
    }
}

type CreateFn = fn(How) -> usize;
struct Set {
    min: usize,
    max: usize,
    re: usize,
    dims: usize,
    how: &'static [How],
    create: CreateFn,
}

const EMPTY: &[How] = &[How::New, How::Default];
const ALL: &[How] = &[How::New, How::Default, How::BulkEmpty, How::BulkOne, How::Bulk];

fn create_empty<P: Point<Scalar = i32>, R: RTreeParams>(how: How) -> usize
where
    P: rstar::RTreeObject<Envelope = AABB<P>>,
{
    match how {
        How::New => RTree::<P, R>::new_with_params().size(),
        _ => RTree::<P, R>::default().size(),
    }
}

fn sets() -> Vec<Set> {
    let mut v = vec![];
    macro_rules! re {
        ($min:literal, $max:literal, $($re:literal)*) => { $(
            v.push(Set { min: $min, max: $max, re: $re, dims: 2, how: EMPTY, create: create_empty::<[i32; 2], Pm<$min, $max, $re>> });
        )* };
    }
    macro_rules! min {
        ($max:literal, $($min:literal)*) => { $( re!($min, $max, 0 1 2 3 4 5 6 7 8); )* };
    }
    macro_rules! max {
        ($($max:literal)*) => { $( min!($max, 0 1 2 3 4 5 6); )* };
    }
    max!(0 1 2 3 4 5 6 7 8 9);
    macro_rules! some {
        ($(($min:literal, $max:literal, $re:literal))*) => { $(
            v.push(Set { min: $min, max: $max, re: $re, dims: 3, how: EMPTY, create: create_empty::<[i32; 3], Pm<$min, $max, $re>> });
            v.push(Set { min: $min, max: $max, re: $re, dims: 1, how: EMPTY, create: create_empty::<[i32; 1], Pm<$min, $max, $re>> });
        )* };
    }
    some!((1, 4, 0) (2, 4, 1) (1, 4, 2) (3, 6, 2) (3, 6, 3) (5, 9, 3) (5, 9, 4) (5, 10, 4) (6, 10, 3) (6, 11, 4) (7, 11, 3)
        (16, 32, 15) (16, 32, 16) (17, 32, 1) (17, 33, 15) (18, 33, 1) (50, 100, 49) (50, 100, 50) (51, 100, 1)
        (1, 1000, 998) (1, 1000, 999) (500, 1000, 0) (501, 1000, 0) (0, 1000, 0) (2, 3, 0) (1, 3, 0) (0, 4, 0) (3, 4, 0));
    // All ways of creating trees, around the borders of the legal area
    macro_rules! bulk {
        ($(($min:literal, $max:literal, $re:literal))*) => { $(
            v.push(Set { min: $min, max: $max, re: $re, dims: 2, how: ALL, create: create::<[i32; 2], Pm<$min, $max, $re>> });
        )* };
    }
    bulk!((1, 4, 0) (1, 4, 2) (1, 4, 3) (2, 4, 1) (2, 4, 2) (3, 4, 0) (0, 4, 0) (1, 3, 0) (2, 3, 0) (1, 3, 1) (1, 2, 0) (0, 0, 0)
        (1, 1, 0) (3, 6, 2) (3, 6, 3) (4, 6, 1) (0, 6, 2) (3, 5, 1) (3, 5, 2) (4, 5, 0) (3, 5, 5) (4, 7, 2) (4, 7, 3) (5, 7, 1)
        (6, 5, 0) (9, 6, 0) (4, 8, 3) (4, 8, 4) (5, 8, 0) (16, 32, 15) (16, 32, 16) (17, 32, 0) (17, 33, 0) (18, 33, 0)
        (50, 100, 49) (50, 100, 50) (51, 100, 0) (1, 100, 98) (1, 100, 99) (0, 100, 1) (1, 4, 100) (3, 6, 1000));
    macro_rules! dims {
        ($($p:ty, $d:literal);*) => { $(
            v.push(Set { min: 3, max: 6, re: 2, dims: $d, how: ALL, create: create::<$p, rstar::DefaultParams> });
            v.push(Set { min: 5, max: 10, re: 4, dims: $d, how: ALL, create: create::<$p, Pm<5, 10, 4>> });
            v.push(Set { min: 4, max: 6, re: 0, dims: $d, how: ALL, create: create::<$p, Pm<4, 6, 0>> });
        )* };
    }
    dims!([i32; 0], 0; [i32; 1], 1; [i32; 2], 2; [i32; 3], 3; [i32; 4], 4; [i32; 7], 7; (i32, i32), 2; (i32, i32, i32, i32, i32), 5);
    v
}

/// Every set of the table
fn acceptance(ctx: &mut Ctx) {
    let sets = sets();
    let chunk = sets.len().div_ceil(ACCEPTANCE_CASES);
    let (mut good, mut bad) = (0, 0);
    for s in sets.iter().skip(ctx.index * chunk).take(chunk) {
        let expect = legal(s.min, s.max, s.re, s.dims);
        for how in s.how {
            let how = *how;
            let f = s.create;
            let r = catch_unwind(move || f(how));
            let name = format!("MIN {} MAX {} REINSERTION {} in {} dimensions, {:?}", s.min, s.max, s.re, s.dims, how);
            ensure!(
                r.is_ok() == expect,
                "{}: {} ({})",
                name,
                if expect { "legal parameters are rejected" } else { "illegal parameters are accepted" },
                if expect { last_panic() } else { String::new() }
            );
            if let Ok(n) = r {
                let want = match how {
                    How::BulkOne => 1,
                    How::Bulk => 100,
                    _ => 0,
                };
                ensure!(n == want, "{}: the tree has size {}", name, n);
                good += 1;
                ctx.count("accepted", 1);
            } else {
                bad += 1;
                ctx.count("rejected", 1);
            }
            ctx.evals += 1;
        }
        let h = combine(combine(s.min as u64, s.max as u64), combine(s.re as u64, s.dims as u64));
        ctx.distinct("parameter_sets", h);
        ctx.fingerprints.push(h);
    }
    // The plain constructors
    if ctx.index == 0 {
        ensure!(catch_unwind(RTree::<[i32; 2]>::new).is_ok(), "RTree::new() panics");
        ensure!(catch_unwind(RTree::<[i32; 1]>::new).is_err(), "RTree::new() accepts one dimension");
        ensure!(catch_unwind(|| RTree::<[i32; 1]>::bulk_load(vec![])).is_err(), "RTree::bulk_load accepts one dimension");
        ensure!(catch_unwind(|| RTree::<[i32; 3]>::bulk_load(vec![])).is_ok(), "RTree::bulk_load panics");
    }
    ctx.sample = format!("sets {}..: {} creations accepted, {} rejected", ctx.index * chunk, good, bad);
}
const ACCEPTANCE_CASES: usize = 40;

// ---- legal sets work ------------------------------------------------------------------------

fn points(rng: &mut Rng, n: usize) -> Vec<[i32; 2]> {
    let w = *rng.pick(&[3, 40, 40, 1000]);
    let kind = rng.below(5);
    let mut v: Vec<[i32; 2]> = (0..n)
        .map(|i| match kind {
            0 => [i as i32, (i * 7 % 13) as i32],
            1 => [rng.range(0, 2) as i32 * 900 + rng.range(0, 5) as i32, rng.range(0, w) as i32],
            _ => [rng.range(-w, w) as i32, rng.range(-w, w) as i32],
        })
        .collect();
    if rng.chance(1, 4) {
        v.sort_unstable();
    }
    v
}

struct Shape {
    elements: Vec<[i32; 2]>,
    depths: Vec<usize>,
    sizes: Vec<(usize, usize, bool)>,
}

fn walk(n: &ParentNode<[i32; 2]>, depth: usize, root: bool, sh: &mut Shape) -> ([i32; 2], [i32; 2]) {
    let (mut lo, mut hi) = ([i32::MAX; 2], [i32::MIN; 2]);
    let (mut l, mut k) = (0, 0);
    for c in n.children() {
        let (a, b) = match c {
            RTreeNode::Leaf(t) => {
                l += 1;
                sh.elements.push(*t);
                if !sh.depths.contains(&depth) {
                    sh.depths.push(depth);
                }
                (*t, *t)
            }
            RTreeNode::Parent(p) => {
                k += 1;
                walk(p, depth + 1, false, sh)
            }
        };
        for i in 0..2 {
            lo[i] = lo[i].min(a[i]);
            hi[i] = hi[i].max(b[i]);
        }
    }
    ensure!(l == 0 || k == 0, "a node holds {} elements and {} nodes", l, k);
    ensure!(l + k > 0 || root, "an empty node at depth {}", depth);
    if l + k > 0 {
        let e = n.envelope();
        ensure!(e.lower() == lo && e.upper() == hi, "a node reports the box {:?} instead of {:?}..{:?}", e, lo, hi);
    }
    sh.sizes.push((depth, l + k, l > 0));
    (lo, hi)
}

fn d2(a: &[i32; 2], b: &[i32; 2]) -> i32 {
    (a[0] - b[0]).pow(2) + (a[1] - b[1]).pow(2)
}

#[derive(PartialEq, Clone, Copy)]
enum Built {
    Inserted,
    Bulk,
    Mixed,
}

fn verify<R: RTreeParams>(ctx: &mut Ctx, tree: &RTree<[i32; 2], R>, model: &[[i32; 2]], built: Built) {
    let mut want = model.to_vec();
    want.sort_unstable();
    let sorted = |it: &mut dyn Iterator<Item = [i32; 2]>, what: &str| {
        let mut v: Vec<_> = it.take(2 * want.len() + 64).collect();
        v.sort_unstable();
        let _ = what;
        v
    };
    ensure!(tree.size() == want.len(), "size() is {} instead of {}", tree.size(), want.len());
    ensure!(sorted(&mut tree.iter().copied(), "iter") == want, "iteration yields other elements than the tree has to contain");
    let mut sh = Shape { elements: vec![], depths: vec![], sizes: vec![] };
    walk(tree.root(), 0, true, &mut sh);
    ensure!(sorted(&mut sh.elements.iter().copied(), "nodes") == want, "the nodes hold other elements than the tree has to contain");
    ensure!(sh.depths.len() <= 1, "elements lie at different depths {:?}", sh.depths);
    for (depth, n, leaves) in &sh.sizes {
        match built {
            Built::Inserted => {
                ensure!(*n <= R::MAX_SIZE, "a node at depth {} has {} children, more than the maximum {}", depth, n, R::MAX_SIZE);
                ensure!(*depth == 0 || *n >= R::MIN_SIZE, "a node at depth {} has {} children, fewer than the minimum {}", depth, n, R::MIN_SIZE);
                ensure!(*depth > 0 || *leaves || *n != 1, "the root has a single node below it");
            }
            // In two dimensions every legal maximum is at least 2^2
            Built::Bulk => ensure!(*n <= R::MAX_SIZE, "a node of a bulk loaded tree has {} children, more than the maximum {}", n, R::MAX_SIZE),
            Built::Mixed => {}
        }
    }
    // A few queries
    for _ in 0..3 {
        let c = if model.is_empty() || ctx.rng.chance(1, 4) {
            [ctx.rng.range(-1000, 1000) as i32, ctx.rng.range(-50, 50) as i32]
        } else {
            *ctx.rng.pick(model)
        };
        let (w, h) = (ctx.rng.range(0, 60) as i32, ctx.rng.range(0, 60) as i32);
        let q = AABB::from_corners([c[0] - w, c[1]], [c[0], c[1] + h]);
        let inq = |p: &&[i32; 2]| p[0] >= c[0] - w && p[0] <= c[0] && p[1] >= c[1] && p[1] <= c[1] + h;
        let mut a: Vec<_> = model.iter().filter(inq).copied().collect();
        a.sort_unstable();
        ensure!(sorted(&mut tree.locate_in_envelope(q).copied(), "") == a, "locate_in_envelope({:?}) is wrong", q);
        ensure!(sorted(&mut tree.locate_in_envelope_intersecting(q).copied(), "") == a, "locate_in_envelope_intersecting({:?}) is wrong", q);
        let mut a: Vec<_> = model.iter().filter(|p| **p == c).copied().collect();
        a.sort_unstable();
        ensure!(sorted(&mut tree.locate_all_at_point(c).copied(), "") == a, "locate_all_at_point({:?}) is wrong", c);
        ensure!(tree.contains(&c) != a.is_empty(), "contains({:?}) is wrong", c);
        let mut a: Vec<_> = model.iter().filter(|p| d2(p, &c) <= w * w).copied().collect();
        a.sort_unstable();
        ensure!(sorted(&mut tree.locate_within_distance(c, w * w).copied(), "") == a, "locate_within_distance({:?}, {}) is wrong", c, w * w);
        let min = model.iter().map(|p| d2(p, &c)).min();
        ensure!(tree.nearest_neighbor(c).map(|p| d2(p, &c)) == min, "nearest_neighbor({:?}) is wrong", c);
        let mut a: Vec<_> = model.iter().map(|p| d2(p, &c)).collect();
        a.sort_unstable();
        let got: Vec<_> = tree.nearest_neighbor_iter(c).take(2 * a.len() + 64).map(|p| d2(p, &c)).collect();
        ensure!(got == a, "nearest_neighbor_iter({:?}) is out of order or incomplete", c);
        ctx.evals += 1;
        ctx.count("query_rounds", 1);
    }
    ctx.max("max_elements", want.len() as u64);
    ctx.max("max_height", sh.depths.first().map_or(0, |d| *d as u64 + 1));
}

fn take(model: &mut Vec<[i32; 2]>, p: [i32; 2], what: &str) {
    match model.iter().position(|q| *q == p) {
        Some(i) => {
            model.swap_remove(i);
        }
        None => viol!("{} handed out {:?} which the tree does not contain", what, p),
    }
}

fn remove_some<R: RTreeParams>(ctx: &mut Ctx, tree: &mut RTree<[i32; 2], R>, model: &mut Vec<[i32; 2]>, k: usize) {
    for _ in 0..k {
        if model.is_empty() {
            break;
        }
        let p = *ctx.rng.pick(model);
        match ctx.rng.below(3) {
            0 => match tree.remove(&p) {
                Some(q) => {
                    ensure!(q == p, "remove({:?}) removed {:?}", p, q);
                    take(model, q, "remove")
                }
                None => viol!("remove({:?}) found nothing", p),
            },
            1 => match tree.remove_at_point(p) {
                Some(q) => {
                    ensure!(q == p, "remove_at_point({:?}) removed {:?}", p, q);
                    take(model, q, "remove_at_point")
                }
                None => viol!("remove_at_point({:?}) found nothing", p),
            },
            _ => match tree.pop_nearest_neighbor(p) {
                Some(q) => {
                    ensure!(q == p, "pop_nearest_neighbor({:?}) removed {:?}", p, q);
                    take(model, q, "pop_nearest_neighbor")
                }
                None => viol!("pop_nearest_neighbor({:?}) found nothing", p),
            },
        }
        ctx.count("removals", 1);
    }
    if ctx.rng.chance(1, 3) {
        let c = [ctx.rng.range(-40, 40) as i32, ctx.rng.range(-40, 40) as i32];
        let q = AABB::from_corners([c[0] - 12, c[1] - 12], [c[0] + 12, c[1] + 12]);
        let out: Vec<_> = tree.drain_in_envelope(q).collect();
        for p in out {
            take(model, p, "drain_in_envelope");
        }
        ensure!(!model.iter().any(|p| q.lower()[0] <= p[0] && p[0] <= q.upper()[0] && q.lower()[1] <= p[1] && p[1] <= q.upper()[1]), "drain_in_envelope left selected elements behind");
        ctx.count("drains", 1);
    }
}

fn work<R: RTreeParams + 'static>(ctx: &mut Ctx) {
    let big = if ctx.rng.chance(1, 3) { 20 * R::MAX_SIZE + 60 } else { 3 * R::MAX_SIZE + 30 };
    let n = ctx.rng.below(big.min(3000));
    ctx.sample = format!("MIN {} MAX {} REINSERTION {}: {} elements", R::MIN_SIZE, R::MAX_SIZE, R::REINSERTION_COUNT, n);
    ctx.distinct("worked_sets", combine(R::MIN_SIZE as u64, combine(R::MAX_SIZE as u64, R::REINSERTION_COUNT as u64)));
    ctx.fingerprints.push(ctx.seed);
    // Grown by insertion
    let mut model = points(&mut ctx.rng, n);
    let mut tree = RTree::<[i32; 2], R>::new_with_params();
    let check = ctx.rng.below(n + 1);
    for (i, p) in model.iter().enumerate() {
        if i == check {
            let m = model[..i].to_vec();
            verify(ctx, &tree, &m, Built::Inserted);
        }
        tree.insert(*p);
        ctx.count("insertions", 1);
    }
    verify(ctx, &tree, &model, Built::Inserted);
    remove_some(ctx, &mut tree, &mut model, n / 2);
    verify(ctx, &tree, &model, Built::Mixed);
    for p in points(&mut ctx.rng, n / 3) {
        tree.insert(p);
        model.push(p);
    }
    verify(ctx, &tree, &model, Built::Mixed);
    // Bulk loaded
    let mut model = points(&mut ctx.rng, n);
    let mut tree = RTree::<[i32; 2], R>::bulk_load_with_params(model.clone());
    ctx.count("bulk_loads", 1);
    verify(ctx, &tree, &model, Built::Bulk);
    for p in points(&mut ctx.rng, n / 3) {
        tree.insert(p);
        model.push(p);
    }
    verify(ctx, &tree, &model, Built::Mixed);
    remove_some(ctx, &mut tree, &mut model, n / 2);
    verify(ctx, &tree, &model, Built::Mixed);
    let rest = model.len();
    remove_some(ctx, &mut tree, &mut model, rest + 1);
    verify(ctx, &tree, &model, Built::Mixed);
}

/// An insertion strategy of the user's own, on top of the provided one
enum Counting {}
thread_local!(static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
impl InsertionStrategy for Counting {
    fn insert<T, R>(tree: &mut RTree<T, R>, t: T)
    where
        T: rstar::RTreeObject,
        R: RTreeParams,
    {
        CALLS.with(|c| c.set(c.get() + 1));
        RStarInsertionStrategy::insert(tree, t)
    }
}
struct Own;
impl RTreeParams for Own {
    const MIN_SIZE: usize = 2;
    const MAX_SIZE: usize = 5;
    const REINSERTION_COUNT: usize = 1;
    type DefaultInsertionStrategy = Counting;
}

fn own_strategy(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.below(200);
    let before = CALLS.with(|c| c.get());
    let model = points(&mut ctx.rng, n);
    let mut tree = RTree::<[i32; 2], Own>::new_with_params();
    for p in &model {
        tree.insert(*p);
    }
    let calls = CALLS.with(|c| c.get()) - before;
    ensure!(calls == n as u64, "the configured insertion strategy was used {} times for {} insertions", calls, n);
    verify(ctx, &tree, &model, Built::Inserted);
    ctx.sample = format!("own insertion strategy, {n} elements");
    ctx.fingerprints.push(ctx.seed);
    ctx.count("own_strategy_insertions", calls);
}

fn works() -> Vec<CaseFn> {
    let mut v: Vec<CaseFn> = vec![work::<rstar::DefaultParams>];
    macro_rules! w {
        ($(($min:literal, $max:literal, $($re:literal)*))*) => { $( $( v.push(work::<Pm<$min, $max, $re>>); )* )* };
    }
    // All legal sets with a maximum of up to 7
    w!((1, 4, 0 1 2) (2, 4, 0 1)
       (1, 5, 0 1 2 3) (2, 5, 0 1 2) (3, 5, 0 1)
       (1, 6, 0 1 2 3 4) (2, 6, 0 1 2 3) (3, 6, 0 1 2)
       (1, 7, 0 3 5) (2, 7, 0 2 4) (3, 7, 0 3) (4, 7, 0 1 2));
    // Larger ones, on the borders
    w!((1, 8, 6) (4, 8, 0 3) (5, 9, 0 3) (1, 10, 8) (5, 10, 4) (16, 32, 0 15) (17, 33, 15) (1, 33, 31) (32, 64, 31)
       (50, 100, 0 49) (1, 100, 0 98) (20, 100, 30));
    v
}

fn legal_work(ctx: &mut Ctx) {
    let w = works();
    w[ctx.index % w.len()](ctx)
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C19",
        rule: "distinct parameter sets tried, plus seeds of histories run with a legal set",
        scenarios: vec![
            sc("acceptance", ACCEPTANCE_CASES, ACCEPTANCE_CASES, acceptance),
            sc("legal-work", 6000, 150_000, legal_work),
            sc("own-strategy", 100, 2000, own_strategy),
        ],
        required: &[
            ("accepted", 100),
            ("rejected", 300),
            ("parameter_sets", 600),
            ("worked_sets", 40),
            ("removals", 1000),
            ("insertions", 10_000),
            ("bulk_loads", 100),
            ("own_strategy_insertions", 100),
        ],
    }]);
}
