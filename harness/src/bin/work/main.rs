//! C21: how much of a large tree each operation inspects
use harness::ensure;
use harness::kinds::Pm;
use harness::rng::{combine, Rng};
use harness::runner::*;
use rstar::*;
use std::cell::Cell;
use std::ops::ControlFlow;

// ---- Counting ----------------------------------------------------------------------------------

thread_local! {
    /// Calls of the elements' own methods and, where the box type is ours, of box operations
    static WORK: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    WORK.with(|c| c.set(c.get() + 1));
}
fn work<X>(f: impl FnOnce() -> X) -> (u64, X) {
    let a = WORK.with(|c| c.get());
    let x = f();
    (WORK.with(|c| c.get()) - a, x)
}

/// A box that counts every operation on it
#[derive(Clone, PartialEq, Debug)]
struct Counted<const N: usize>(AABB<[f64; N]>);

impl<const N: usize> Envelope for Counted<N> {
    type Point = [f64; N];
    fn new_empty() -> Self {
        Counted(AABB::new_empty())
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn contains_point(&self, p: &[f64; N]) -> bool {
        tick();
        self.0.contains_point(p)
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        tick();
        self.0.contains_envelope(&o.0)
    }
    fn merge(&mut self, o: &Self) {
        tick();
        self.0.merge(&o.0)
    }
    fn merged(&self, o: &Self) -> Self {
        tick();
        Counted(self.0.merged(&o.0))
    }
    fn intersects(&self, o: &Self) -> bool {
        tick();
        self.0.intersects(&o.0)
    }
    fn intersection_area(&self, o: &Self) -> f64 {
        tick();
        self.0.intersection_area(&o.0)
    }
    fn area(&self) -> f64 {
        tick();
        self.0.area()
    }
    fn distance_2(&self, p: &[f64; N]) -> f64 {
        tick();
        self.0.distance_2(p)
    }
    fn min_max_dist_2(&self, p: &[f64; N]) -> f64 {
        tick();
        self.0.min_max_dist_2(p)
    }
    fn center(&self) -> [f64; N] {
        tick();
        self.0.center()
    }
    fn perimeter_value(&self) -> f64 {
        tick();
        self.0.perimeter_value()
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) {
        v.sort_by(|a, b| a.envelope().0.lower()[axis].total_cmp(&b.envelope().0.lower()[axis]))
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], k: usize) {
        v.select_nth_unstable_by(k, |a, b| a.envelope().0.lower()[axis].total_cmp(&b.envelope().0.lower()[axis]));
    }
}

trait Around<const N: usize>: Envelope<Point = [f64; N]> {
    fn of(b: AABB<[f64; N]>) -> Self;
}
impl<const N: usize> Around<N> for Counted<N> {
    fn of(b: AABB<[f64; N]>) -> Self {
        Counted(b)
    }
}
impl<const N: usize> Around<N> for AABB<[f64; N]> {
    fn of(b: AABB<[f64; N]>) -> Self {
        b
    }
}

/// A small box that counts what is asked of it
#[derive(Clone, Debug)]
struct Item<const N: usize, B> {
    b: AABB<[f64; N]>,
    id: u32,
    kind: std::marker::PhantomData<B>,
}
impl<const N: usize, B> PartialEq for Item<N, B> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.id == o.id
    }
}
impl<const N: usize, B: Around<N>> RTreeObject for Item<N, B> {
    type Envelope = B;
    fn envelope(&self) -> B {
        tick();
        B::of(self.b)
    }
}
impl<const N: usize, B: Around<N>> PointDistance for Item<N, B> {
    fn distance_2(&self, p: &[f64; N]) -> f64 {
        tick();
        self.b.distance_2(p)
    }
    fn contains_point(&self, p: &[f64; N]) -> bool {
        tick();
        self.b.contains_point(p)
    }
    fn distance_2_if_less_or_equal(&self, p: &[f64; N], max: f64) -> Option<f64> {
        tick();
        let d = self.b.distance_2(p);
        (d <= max).then_some(d)
    }
}

// ---- Data --------------------------------------------------------------------------------------

const DATA: [&str; 5] = ["uniform", "grid", "clusters", "diagonal band", "sorted"];

/// `n` spread-out positions of about one element per unit volume
fn positions<const N: usize>(rng: &mut Rng, data: usize, n: usize) -> Vec<[f64; N]> {
    let side = (n as f64).powf(1.0 / N as f64);
    let mut v: Vec<[f64; N]> = match data {
        1 => {
            let m = side.ceil() as usize;
            let mut v: Vec<[f64; N]> = (0..m.pow(N as u32))
                .map(|mut i| {
                    [(); N].map(|_| {
                        let c = i % m;
                        i /= m;
                        c as f64
                    })
                })
                .collect();
            rng.shuffle(&mut v);
            v.truncate(n);
            v
        }
        2 => {
            let k = 5 + rng.below(20);
            let c: Vec<[f64; N]> = (0..k).map(|_| [(); N].map(|_| rng.unit() * side * 4.0)).collect();
            (0..n)
                .map(|_| {
                    let c = rng.pick(&c);
                    let s = side * 0.25;
                    c.map(|x| x + s * (rng.unit() + rng.unit() + rng.unit() - 1.5))
                })
                .collect()
        }
        3 => (0..n)
            .map(|_| {
                let t = rng.unit() * n as f64 / 3.0;
                [(); N].map(|_| t + rng.unit() * 3.0)
            })
            .collect(),
        _ => (0..n).map(|_| [(); N].map(|_| rng.unit() * side)).collect(),
    };
    if data == 4 {
        v.sort_by(|a, b| a[0].total_cmp(&b[0]));
    }
    v
}

// ---- Measuring ---------------------------------------------------------------------------------

/// How many hundredths of the yardstick (node size times depth) an operation may inspect on average:
/// with two and three dimensions, with box operations counted, and the same with only elements
/// counted. Two and a half times the most seen over 15 000 trees; updates, which may compute
/// boxes of nodes anew though nothing was removed from them, or sort more than they have to, have more room.
const BOUNDS: [(&str, [u64; 4]); 33] = [
    ("insert", [14240, 8480, 1740, 4020]),
    ("contains", [340, 470, 180, 210]),
    ("contains_absent", [610, 1030, 300, 400]),
    ("locate_at_point", [200, 270, 40, 60]),
    ("locate_at_point_absent", [310, 480, 40, 70]),
    ("locate_at_point_int", [210, 380, 40, 60]),
    ("locate_all_at_point", [350, 570, 60, 100]),
    ("nearest_neighbor", [490, 840, 60, 110]),
    // May be two searches
    ("nearest_neighbors", [740, 1460, 160, 360]),
    ("nearest_neighbor_iter_10", [490, 1120, 160, 330]),
    ("locate_in_envelope", [590, 1370, 130, 430]),
    ("locate_in_envelope_int", [590, 1370, 130, 430]),
    ("locate_in_envelope_intersecting", [590, 1370, 130, 430]),
    ("locate_in_envelope_intersecting_mut", [590, 1370, 130, 430]),
    ("locate_within_distance", [470, 900, 130, 280]),
    ("remove", [2120, 2720, 840, 960]),
    ("remove_absent", [2600, 4080, 1280, 1640]),
    ("remove_at_point", [1480, 1960, 240, 360]),
    ("pop_nearest_neighbor", [3160, 5040, 360, 560]),
    ("drain_in_envelope_intersecting", [3880, 8680, 720, 2400]),
    ("drain_within_distance", [3200, 5000, 680, 1360]),
    ("drain_absent", [2640, 7880, 360, 2080]),
    ("locate_at_point_mut", [200, 270, 40, 60]),
    ("locate_at_point_int_mut", [210, 380, 40, 60]),
    ("locate_all_at_point_int", [350, 570, 60, 100]),
    ("locate_all_at_point_mut", [350, 570, 60, 100]),
    ("locate_all_at_point_int_mut", [350, 570, 60, 100]),
    ("locate_in_envelope_mut", [590, 1370, 130, 430]),
    ("locate_in_envelope_int_mut", [590, 1370, 130, 430]),
    ("locate_in_envelope_intersecting_int", [590, 1370, 130, 430]),
    ("locate_in_envelope_intersecting_int_mut", [590, 1370, 130, 430]),
    ("locate_within_zero", [470, 900, 130, 280]),
    ("drain_within_zero", [3200, 5000, 680, 1360]),
];
/// The same for operations on whole trees, in hundredths per element (bulk loading: times its
/// logarithm; joins: times depth and node size)
const TOTALS: [(&str, [u64; 4]); 5] = [
    ("bulk_load", [5400, 5550, 5250, 5370]),
    ("traversal", [850, 820, 270, 270]),
    ("join_small", [1300, 2100, 460, 520]),
    ("nearest_neighbor_iter_all", [600, 570, 270, 270]),
    ("drain_all", [2000, 2000, 2000, 2000]),
];

fn tree_of<const N: usize, B: Around<N>, R: RTreeParams>(ctx: &mut Ctx, n: usize, bulk: bool, data: usize, all: bool) {
    type It<const N: usize, B> = Item<N, B>;
    let mut rng = ctx.rng.clone();
    let pos: Vec<[f64; N]> = positions(&mut rng, data, n + 600);
    let extent = *rng.pick(&[0.0, 0.05, 0.3]);
    let mk = |i: usize, rng: &mut Rng| -> It<N, B> {
        let lo = pos[i];
        let hi = lo.map(|x| x + extent * rng.unit());
        Item { b: AABB::from_corners(lo, hi), id: i as u32, kind: std::marker::PhantomData }
    };
    // The last ones are kept back; with sorted data every kind of position has to be among them
    let mut order: Vec<usize> = (0..n + 600).collect();
    if data != 4 {
        rng.shuffle(&mut order);
    }
    let late = order.split_off(n);
    let counted = WORK.with(|c| {
        let a = c.get();
        B::of(AABB::from_point([0.0; N])).area();
        c.get() > a
    });
    let items: Vec<_> = order.iter().map(|&i| mk(i, &mut rng)).collect();
    let mut sums: Vec<(&'static str, u64, u64)> = vec![];
    let mut totals: Vec<(&'static str, f64)> = vec![];
    let keep: Vec<_> = (0..400).map(|_| rng.pick(&items).clone()).collect();
    let mut tree: RTree<It<N, B>, R> = if bulk {
        let (w, t) = work(|| RTree::bulk_load_with_params(items));
        totals.push(("bulk_load", w as f64 / n as f64 / (n as f64).ln()));
        t
    } else {
        let mut t = RTree::new_with_params();
        items.into_iter().for_each(|x| t.insert(x));
        t
    };
    let mut record = |name: &'static str, w: u64| {
        match sums.iter_mut().find(|s| s.0 == name) {
            Some(s) => {
                s.1 += 1;
                s.2 += w;
            }
            None => sums.push((name, 1, w)),
        };
    };
    let around = |p: [f64; N], r: f64| AABB::from_corners(p.map(|x| x - r), p.map(|x| x + r));
    // About eight elements
    let r = 8f64.powf(1.0 / N as f64) / 2.0 * if data == 2 { 0.3 } else { 1.0 };
    for x in late.iter().take(500).map(|&i| mk(i, &mut rng)).collect::<Vec<_>>() {
        record("insert", work(|| tree.insert(x)).0);
    }
    let absent = |x: &It<N, B>| Item { id: x.id + 10_000_000, ..x.clone() };
    for x in &keep {
        let p = x.b.center();
        let off = p.map(|x| x + 0.013);
        let q = || B::of(around(p, r));
        record("contains", work(|| assert!(tree.contains(x))).0);
        record("contains_absent", work(|| assert!(!tree.contains(&absent(x)))).0);
        record("locate_at_point", work(|| assert!(tree.locate_at_point(p).is_some())).0);
        record("locate_at_point_absent", work(|| tree.locate_at_point(off).is_some()).0);
        record("locate_at_point_int", work(|| assert!(tree.locate_at_point_int(p).is_some())).0);
        record("locate_all_at_point", work(|| assert!(tree.locate_all_at_point(p).count() > 0)).0);
        record("nearest_neighbor", work(|| assert!(tree.nearest_neighbor(off).is_some())).0);
        record("nearest_neighbors", work(|| assert!(!tree.nearest_neighbors(&off).is_empty())).0);
        record("nearest_neighbor_iter_10", work(|| assert!(tree.nearest_neighbor_iter(off).take(10).count() == 10)).0);
        record("locate_in_envelope", work(|| tree.locate_in_envelope(q()).count()).0);
        record(
            "locate_in_envelope_int",
            work(|| {
                let _: ControlFlow<()> = tree.locate_in_envelope_int(q(), |_| ControlFlow::Continue(()));
            })
            .0,
        );
        record("locate_in_envelope_intersecting", work(|| assert!(tree.locate_in_envelope_intersecting(q()).count() > 0)).0);
        record("locate_in_envelope_intersecting_mut", work(|| assert!(tree.locate_in_envelope_intersecting_mut(q()).count() > 0)).0);
        record("locate_within_distance", work(|| assert!(tree.locate_within_distance(p, r * r).count() > 0)).0);
        record("locate_within_zero", work(|| assert!(tree.locate_within_distance(p, 0.0).count() > 0)).0);
        // The same through the other entrances
        record("locate_at_point_mut", work(|| assert!(tree.locate_at_point_mut(p).is_some())).0);
        record("locate_at_point_int_mut", work(|| assert!(tree.locate_at_point_int_mut(p).is_some())).0);
        record("locate_all_at_point_mut", work(|| assert!(tree.locate_all_at_point_mut(p).count() > 0)).0);
        record("locate_in_envelope_mut", work(|| tree.locate_in_envelope_mut(q()).count()).0);
        macro_rules! visited {
            ($name:literal, $call:expr) => {
                record(
                    $name,
                    work(|| {
                        let _: ControlFlow<()> = $call;
                    })
                    .0,
                )
            };
        }
        visited!("locate_all_at_point_int", tree.locate_all_at_point_int(p, |_| ControlFlow::Continue(())));
        visited!("locate_all_at_point_int_mut", tree.locate_all_at_point_int_mut(p, |_| ControlFlow::Continue(())));
        visited!("locate_in_envelope_int_mut", tree.locate_in_envelope_int_mut(q(), |_| ControlFlow::Continue(())));
        visited!("locate_in_envelope_intersecting_int", tree.locate_in_envelope_intersecting_int(q(), |_| ControlFlow::Continue(())));
        visited!("locate_in_envelope_intersecting_int_mut", tree.locate_in_envelope_intersecting_int_mut(q(), |_| ControlFlow::Continue(())));
    }
    for (i, x) in keep.iter().enumerate() {
        let p = x.b.center();
        let q = || B::of(around(p, r));
        let x = || (x.clone(), p);
        match i % 7 {
            0 | 1 => {
                let (w, y) = work(|| tree.remove(&x().0));
                if let Some(y) = y {
                    record("remove", w);
                    tree.insert(y);
                }
            }
            2 => record("remove_absent", work(|| assert!(tree.remove(&absent(&x().0)).is_none())).0),
            3 => {
                let (w, y) = work(|| tree.remove_at_point(p));
                if let Some(y) = y {
                    record("remove_at_point", w);
                    tree.insert(y);
                }
            }
            4 => record("pop_nearest_neighbor", work(|| assert!(tree.pop_nearest_neighbor(p).is_some())).0),
            5 => record("drain_in_envelope_intersecting", work(|| tree.drain_in_envelope_intersecting(q()).count()).0),
            _ => {
                record("drain_within_distance", work(|| tree.drain_within_distance(p, r * r).count()).0);
                record("drain_within_zero", work(|| tree.drain_within_distance(p, 0.0).count()).0);
                record("drain_absent", work(|| tree.drain_in_envelope(q()).count()).0);
            }
        }
    }
    let size = tree.size();
    if all {
        let every = || B::of(AABB::from_corners([-1e9; N], [1e9; N]));
        let (w, k) = work(|| tree.locate_in_envelope(every()).count() + tree.iter().count());
        ensure!(k == 2 * size, "a traversal misses elements");
        totals.push(("traversal", w as f64 / size as f64));
        let few: Vec<It<N, B>> = keep.iter().take(200).cloned().collect();
        let m = few.len() as f64;
        let other: RTree<It<N, B>> = RTree::bulk_load(few);
        let (w, k) = work(|| tree.intersection_candidates_with_other_tree(&other).count());
        ensure!(k < 200 * 50, "a join hands out far too many candidates");
        totals.push(("join_small", w as f64 / m / (size as f64).ln() / R::MAX_SIZE as f64));
        let p = keep[0].b.center();
        let (w, k) = work(|| tree.nearest_neighbor_iter(p).count());
        ensure!(k == size, "nearest neighbor iteration misses elements");
        totals.push(("nearest_neighbor_iter_all", w as f64 / size as f64));
        let (w, k) = work(|| tree.drain().count());
        ensure!(k == size, "draining misses elements");
        totals.push(("drain_all", w as f64 / size as f64));
    }
    let half = (R::MAX_SIZE as f64 / 2.0).max(2.0);
    let yard = R::MAX_SIZE as f64 * (n as f64).ln() / half.ln();
    for (name, times, sum) in &sums {
        let mean = *sum as f64 / *times as f64;
        let units = mean / yard * 100.0;
        let b = BOUNDS.iter().find(|b| b.0 == *name).expect("harness: no bound");
        let bound = b.1[2 * !counted as usize + N - 2];
        judge(ctx, name, units, bound, n, bulk, data, counted, R::MAX_SIZE, N);
        ctx.max(
            Box::leak(format!("{name}{}", if counted { "" } else { "_elements" }).into_boxed_str()),
            units as u64,
        );
        ctx.count("operations", *times);
        ctx.evals += times;
    }
    for (name, x) in &totals {
        let units = x * 100.0;
        let b = TOTALS.iter().find(|b| b.0 == *name).expect("harness: no bound");
        let bound = b.1[2 * !counted as usize + N - 2];
        judge(ctx, name, units, bound, n, bulk, data, counted, R::MAX_SIZE, N);
        ctx.max(
            Box::leak(format!("{name}{}", if counted { "" } else { "_elements" }).into_boxed_str()),
            units as u64,
        );
        ctx.evals += 1;
    }
    ctx.count("trees", 1);
    ctx.count(if bulk { "bulk_loaded" } else { "inserted" }, 1);
    ctx.max("elements", n as u64);
    ctx.fingerprints.push(combine(ctx.seed, n as u64));
    ctx.sample = format!("{n} elements ({}, {}), maximum {}, {N} dimensions", DATA[data], if bulk { "bulk loaded" } else { "inserted" }, R::MAX_SIZE);
}

#[allow(clippy::too_many_arguments)]
fn judge(ctx: &mut Ctx, name: &str, units: f64, bound: u64, n: usize, bulk: bool, data: usize, counted: bool, max: usize, d: usize) {
    if std::env::var("VERIF_SHOW").is_ok() {
        println!("{name} {units:.0} n {n} bulk {bulk} data {} counted {counted} max {max} dims {d}", DATA[data]);
    } else {
        ensure!(
            units <= bound as f64,
            "{name} on {n} elements ({}, {}) inspects {units:.0} hundredths of its yardstick; more than {bound} is too much{}",
            DATA[data],
            if bulk { "bulk loaded" } else { "inserted" },
            if counted { "" } else { " (elements only)" }
        );
    }
    let _ = ctx;
}

fn case(ctx: &mut Ctx, bulk: bool) {
    let (lo, hi) = match (bulk, ctx.thorough) {
        (true, false) => (9f64, 11f64),
        (true, true) => (9f64, 13.2f64),
        (false, false) => (8.3f64, 9.8f64),
        (false, true) => (8.3f64, 11.5f64),
    };
    let n = (lo + (hi - lo) * ctx.rng.unit()).exp() as usize;
    let data = ctx.index / 8 % 5;
    type Default6 = Pm<3, 6, 2>;
    match ctx.index % 8 {
        0 | 4 => tree_of::<2, Counted<2>, Default6>(ctx, n, bulk, data, true),
        1 => tree_of::<2, AABB<[f64; 2]>, Default6>(ctx, n, bulk, data, true),
        2 => tree_of::<2, Counted<2>, Pm<2, 4, 1>>(ctx, n, bulk, data, true),
        3 => tree_of::<2, Counted<2>, Pm<8, 16, 5>>(ctx, n, bulk, data, true),
        5 => tree_of::<2, Counted<2>, Pm<5, 10, 0>>(ctx, n, bulk, data, true),
        6 => tree_of::<3, Counted<3>, Default6>(ctx, n, bulk, data, true),
        _ => tree_of::<3, AABB<[f64; 3]>, Pm<4, 9, 3>>(ctx, n, bulk, data, true),
    }
}
/// Work that no element or box sees shows in time only: an operation must be far faster than a walk
/// through the whole tree. The median of many runs counts, and the best of several such medians, which other
/// load hardly disturbs.
fn c21_time(ctx: &mut Ctx) {
    use std::time::{Duration, Instant};
    let n = 60_000 + ctx.rng.below(60_000);
    let bulk = ctx.index % 2 == 0;
    let n = if bulk { n } else { n / 2 };
    let mut rng = ctx.rng.clone();
    type It = rstar::primitives::GeomWithData<[f64; 2], u32>;
    let v: Vec<It> = positions(&mut rng, 0, n).into_iter().enumerate().map(|(i, p)| It::new(p, i as u32)).collect();
    let all = v.clone();
    let mut tree = if bulk {
        RTree::bulk_load(v)
    } else {
        let mut t = RTree::new();
        v.into_iter().for_each(|x| t.insert(x));
        t
    };
    let mut walk = Duration::MAX;
    for _ in 0..8 {
        let t = Instant::now();
        assert!(tree.iter().count() == n);
        walk = walk.min(t.elapsed());
    }
    const NAMES: [&str; 16] = [
        "contains", "locate_at_point", "locate_at_point_mut", "locate_at_point_int", "nearest_neighbor", "nearest_neighbors",
        "nearest_neighbor_iter", "locate_in_envelope", "locate_within_distance", "remove", "insert", "remove_at_point",
        "pop_nearest_neighbor", "drain_in_envelope", "drain_within_distance", "size",
    ];
    let mut times: [Vec<Duration>; NAMES.len()] = Default::default();
    let mut least = [Duration::MAX; NAMES.len()];
    for round in 0..6 {
        for _ in 0..60 {
            let x = *rng.pick(&all);
            let p = *x.geom();
            let q = || AABB::from_corners(p, [p[0] + 1.0, p[1] + 1.0]);
            for (i, taken) in times.iter_mut().enumerate() {
                let t = Instant::now();
                let back: Option<It> = match i {
                    0 => (!tree.contains(&x)).then_some(x),
                    1 => tree.locate_at_point(p).is_none().then_some(x),
                    2 => tree.locate_at_point_mut(p).is_none().then_some(x),
                    3 => tree.locate_at_point_int(p).is_none().then_some(x),
                    4 => tree.nearest_neighbor(p).is_none().then_some(x),
                    5 => tree.nearest_neighbors(&p).is_empty().then_some(x),
                    6 => tree.nearest_neighbor_iter(p).nth(3).is_none().then_some(x),
                    7 => (tree.locate_in_envelope(q()).count() == 0).then_some(x),
                    8 => (tree.locate_within_distance(p, 0.5).count() == 0).then_some(x),
                    9 => tree.remove(&x),
                    10 => {
                        tree.insert(x);
                        None
                    }
                    11 => tree.remove_at_point(p),
                    12 => tree.pop_nearest_neighbor(p),
                    13 => tree.drain_in_envelope(q()).next(),
                    14 => tree.drain_within_distance(p, 0.5).next(),
                    _ => (tree.size() != n).then_some(x),
                };
                taken.push(t.elapsed());
                match (i, back) {
                    // Exchanged by the next operation
                    (9, Some(_)) => {}
                    (0..=8 | 15, None) | (10, None) => {}
                    (11..=14, Some(y)) => tree.insert(y),
                    _ => panic!("{} gave a wrong answer", NAMES[i]),
                }
            }
        }
        for (t, least) in times.iter_mut().zip(&mut least) {
            t.sort();
            // The typical time: a search may be lucky and stop early
            *least = (*least).min(t[t.len() / 2]);
            t.clear();
        }
        if least.iter().all(|t| *t * 8 < walk) {
            break;
        }
        // Perhaps the walk was the one that was disturbed
        ensure!(
            round < 5,
            "{} takes {:?} on {n} elements, a walk through all of them {walk:?}",
            NAMES[least.iter().position(|t| *t * 8 >= walk).unwrap()],
            least.iter().find(|t| **t * 8 >= walk).unwrap()
        );
    }
    ctx.count("timed_trees", 1);
    ctx.max("slowest_operation_per_mille_of_walk", (least.iter().max().unwrap().as_nanos() * 1000 / walk.as_nanos().max(1)) as u64);
    ctx.evals += NAMES.len() as u64;
    ctx.fingerprints.push(combine(ctx.seed, n as u64));
    ctx.sample = format!("{n} elements: {:?} at most, {walk:?} for a walk", least.iter().max().unwrap());
}

fn c21_bulk(ctx: &mut Ctx) {
    case(ctx, true)
}
fn c21_inserted(ctx: &mut Ctx) {
    case(ctx, false)
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C21",
        rule: "a case is a large tree on which every operation is run hundreds of times while the inspections are counted; \
               distinct by seed and size",
        scenarios: vec![sc("c21_bulk", 1200, 12_000, c21_bulk), sc("c21_inserted", 1200, 12_000, c21_inserted), sc("c21_time", 24, 200, c21_time)],
        required: &[("timed_trees", 20), ("trees", 1000), ("operations", 5_000_000)],
    }]);
}
