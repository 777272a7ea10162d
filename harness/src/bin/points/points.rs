use harness::custom::{Amount, Fixed};
use harness::ensure;
use harness::gen;
use harness::kinds::{mkp, rdp, Custom3, ShapeKind};
use harness::rng::{combine, hash_bytes};
use harness::runner::Ctx;
use harness::scalar::{span, Grid, HScalar};
use harness::spec::{pt_dist, Spec, MAXD, V};
use mint::{Point2, Point3};
use rstar::primitives::{GeomWithData, Rectangle};
use rstar::{DefaultParams, Point, RTree, RTreeObject, RTreeParams, AABB};
use std::num::Wrapping as W;

/// Points built and read without the Point interface
pub trait Native: Point + PartialEq + 'static {
    fn literal(v: &[Self::Scalar]) -> Self;
    fn fields(&self) -> Vec<Self::Scalar>;
}
impl<S: HScalar, const N: usize> Native for [S; N] {
    fn literal(v: &[S]) -> Self {
        std::array::from_fn(|i| v[i])
    }
    fn fields(&self) -> Vec<S> {
        self.to_vec()
    }
}
macro_rules! tuple {
    ($($i:tt),*) => {
        impl<S: HScalar> Native for ($(one!($i, S)),*) {
            fn literal(v: &[S]) -> Self {
                ($(v[$i]),*)
            }
            fn fields(&self) -> Vec<S> {
                vec![$(self.$i),*]
            }
        }
    };
}
macro_rules! one {
    ($i:tt, $s:ident) => {
        $s
    };
}
impl<S: HScalar> Native for (S,) {
    fn literal(v: &[S]) -> Self {
        (v[0],)
    }
    fn fields(&self) -> Vec<S> {
        vec![self.0]
    }
}
tuple!(0, 1);
tuple!(0, 1, 2);
tuple!(0, 1, 2, 3);
tuple!(0, 1, 2, 3, 4);
tuple!(0, 1, 2, 3, 4, 5);
tuple!(0, 1, 2, 3, 4, 5, 6);
tuple!(0, 1, 2, 3, 4, 5, 6, 7);
tuple!(0, 1, 2, 3, 4, 5, 6, 7, 8);
tuple!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
impl<S: HScalar> Native for Point2<S> {
    fn literal(v: &[S]) -> Self {
        Point2 { x: v[0], y: v[1] }
    }
    fn fields(&self) -> Vec<S> {
        vec![self.x, self.y]
    }
}
impl<S: HScalar> Native for Point3<S> {
    fn literal(v: &[S]) -> Self {
        Point3 { x: v[0], y: v[1], z: v[2] }
    }
    fn fields(&self) -> Vec<S> {
        vec![self.x, self.y, self.z]
    }
}
impl<S: HScalar> Native for Custom3<S> {
    fn literal(v: &[S]) -> Self {
        Custom3 { name: String::new(), x: v[0], y: v[1], z: v[2] }
    }
    fn fields(&self) -> Vec<S> {
        vec![self.x, self.y, self.z]
    }
}

fn some_grid<S: HScalar>(ctx: &mut Ctx) -> Grid {
    let (a, b) = S::EXP_RANGE;
    Grid { exp: ctx.rng.range(a as i64, b as i64) as i32 }
}

fn access_one<P: Native>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    let d = P::DIMENSIONS;
    let g = some_grid::<P::Scalar>(ctx);
    for _ in 0..10 {
        let v: V = std::array::from_fn(|i| if i < d { ctx.rng.range(-127, 127) } else { 0 });
        let s: Vec<P::Scalar> = (0..d).map(|i| HScalar::from_grid(v[i], g)).collect();
        let p = P::literal(&s);
        ensure!(p.fields().len() == d, "DIMENSIONS is {} for a point of {}", d, p.fields().len());
        for (i, x) in s.iter().enumerate() {
            ensure!(p.nth(i) == *x, "nth({}) of {:?} is {:?}", i, p, p.nth(i));
        }
        let q = P::generate(|i| s[i]);
        ensure!(q.fields() == s, "generate() of {:?} gives {:?}", s, q);
        ensure!(q == p, "equal points compare as different: {:?}", p);
        for i in 0..d {
            let mut m = p.clone();
            let y: P::Scalar = HScalar::from_grid(ctx.rng.range(-127, 127), g);
            ensure!(*m.nth_mut(i) == s[i], "nth_mut({}) of {:?} is {:?}", i, p, m.nth_mut(i));
            *m.nth_mut(i) = y;
            let mut want = s.clone();
            want[i] = y;
            ensure!(m.fields() == want, "writing {:?} to nth_mut({}) of {:?} gives {:?}", y, i, p, m);
        }
        // As an element
        let e = p.envelope();
        ensure!(e.lower() == p && e.upper() == p, "the box of {:?} is {:?}", p, e);
        ctx.evals += 1;
        ctx.count("accesses", d as u64);
        ctx.fingerprints.push(combine(hash_bytes(std::any::type_name::<P>().as_bytes()), v.iter().fold(0, |h, x| combine(h, *x as u64))));
    }
    ctx.sample = std::any::type_name::<P>().into();
}

/// A tree of points beside a list
fn tree_one<P: Native>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    tree::<P, DefaultParams>(ctx)
}
fn tree<P: Native, Pr: RTreeParams>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    let d = P::DIMENSIONS;
    let name = std::any::type_name::<P>();
    let g = some_grid::<P::Scalar>(ctx);
    let e = span::<P::Scalar>(d, 6, false);
    let pattern = ctx.rng.below(gen::PATTERNS.len());
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(8),
        1 => 150 + ctx.rng.below(100),
        _ => ctx.rng.below(80),
    };
    let specs = gen::elements(&mut ctx.rng, ShapeKind::Point, pattern, n, d, e, 1);
    type El<P> = GeomWithData<P, u32>;
    let mk = |v: &V| -> P {
        let s: Vec<P::Scalar> = (0..d).map(|i| HScalar::from_grid(v[i], g)).collect();
        P::literal(&s)
    };
    let el = |i: usize, s: &Spec| -> El<P> { GeomWithData::new(mk(&s.lo), i as u32) };
    let bulk = match ctx.rng.below(3) {
        0 => 0,
        1 => n,
        _ => ctx.rng.below(n + 1),
    };
    let mut tree: RTree<El<P>, Pr> = RTree::bulk_load_with_params(specs[..bulk].iter().enumerate().map(|(i, s)| el(i, s)).collect());
    let mut live: Vec<usize> = (0..bulk).collect();
    for (i, s) in specs.iter().enumerate().skip(bulk) {
        tree.insert(el(i, s));
        live.push(i);
        if ctx.rng.chance(1, 5) {
            let k = live.swap_remove(ctx.rng.below(live.len()));
            let r = tree.remove(&el(k, &specs[k]));
            ensure!(r.as_ref().map(|r| r.data as usize) == Some(k), "{}: remove({:?}) gives {:?}", name, specs[k].lo, r.map(|r| r.data));
        }
    }
    ensure!(tree.size() == live.len(), "{}: size() is {} instead of {}", name, tree.size(), live.len());
    // Read back
    let mut all: Vec<usize> = vec![];
    for t in tree.iter().take(2 * n + 8) {
        let v = rdp(t.geom(), g);
        ensure!((t.data as usize) < n && v[..d] == specs[t.data as usize].lo[..d], "{}: {:?} came back as {:?}", name, specs[t.data as usize].lo, v);
        let f: Vec<P::Scalar> = t.geom().fields();
        ensure!((0..d).all(|i| f[i].to_grid(g) == v[i]), "{}: the fields {:?} are not the coordinates {:?}", name, f, v);
        all.push(t.data as usize);
    }
    all.sort_unstable();
    live.sort_unstable();
    ensure!(all == live, "{}: the tree holds {:?} instead of {:?}", name, all, live);
    let cur: Vec<Spec> = live.iter().map(|i| specs[*i].clone()).collect();
    let ids = |mut v: Vec<usize>| {
        v.sort_unstable();
        v
    };
    for _ in 0..10 {
        let q = gen::qbox(&mut ctx.rng, d, e, &cur);
        if !q.empty {
            let b: AABB<P> = AABB::from_corners(mkp(&q.lo, g), mkp(&q.hi, g));
            let want: Vec<usize> = live.iter().copied().filter(|i| (0..d).all(|k| q.lo[k] <= specs[*i].lo[k] && specs[*i].lo[k] <= q.hi[k])).collect();
            let got = ids(tree.locate_in_envelope(b.clone()).take(2 * n + 8).map(|t| t.data as usize).collect());
            ensure!(got == want, "{}: locate_in_envelope({:?}..{:?}) gives {:?} instead of {:?}", name, &q.lo[..d], &q.hi[..d], got, want);
            let got = ids(tree.locate_in_envelope_intersecting(b).take(2 * n + 8).map(|t| t.data as usize).collect());
            ensure!(got == want, "{}: locate_in_envelope_intersecting({:?}..{:?}) gives {:?} instead of {:?}", name, &q.lo[..d], &q.hi[..d], got, want);
        }
        let v = gen::qpoint(&mut ctx.rng, d, e, &cur);
        let p = mk(&v);
        let want: Vec<usize> = live.iter().copied().filter(|i| (0..d).all(|k| specs[*i].lo[k] == v[k])).collect();
        let got = ids(tree.locate_all_at_point(p.clone()).take(2 * n + 8).map(|t| t.data as usize).collect());
        ensure!(got == want, "{}: locate_all_at_point({:?}) gives {:?} instead of {:?}", name, &v[..d], got, want);
        let dist = |i: usize| pt_dist(d, &specs[i].lo, &v);
        let best = live.iter().map(|i| dist(*i)).min();
        let nn = tree.nearest_neighbor_with_distance_2(p.clone()).map(|(t, x)| (t.data as usize, x));
        match (best, nn) {
            (None, None) => {}
            (Some(b), Some((i, x))) => {
                ensure!(dist(i) == b && x.to_d2(g) == b, "{}: the nearest neighbor of {:?} is #{} with {:?}, the smallest squared distance is {}", name, &v[..d], i, x, b);
                let want: Vec<usize> = live.iter().copied().filter(|i| dist(*i) == b).collect();
                let got = ids(tree.nearest_neighbors(&p).iter().map(|t| t.data as usize).collect());
                ensure!(got == want, "{}: nearest_neighbors({:?}) gives {:?} instead of {:?}", name, &v[..d], got, want);
                let r: P::Scalar = HScalar::dist(b, g);
                let got = ids(tree.locate_within_distance(p.clone(), r).take(2 * n + 8).map(|t| t.data as usize).collect());
                ensure!(got == want, "{}: locate_within_distance({:?}, {:?}) gives {:?} instead of {:?}", name, &v[..d], r, got, want);
            }
            (b, r) => harness::viol!("{}: nearest neighbor {:?} of a tree of {} elements (best {:?})", name, r, live.len(), b),
        }
        ctx.evals += 5;
        ctx.count("tree_queries", 5);
    }
    // Rectangles over the same points
    if !cur.is_empty() {
        let a = &cur[ctx.rng.below(cur.len())];
        let b = &cur[ctx.rng.below(cur.len())];
        let r = Rectangle::from_corners(mk(&a.lo), mk(&b.lo));
        let lo: V = std::array::from_fn(|i| a.lo[i].min(b.lo[i]));
        ensure!(rdp(&r.lower(), g)[..d] == lo[..d], "{}: the lower corner of a rectangle is {:?}", name, r.lower());
    }
    if live.len() > Pr::MAX_SIZE {
        ctx.fingerprints.push(combine(hash_bytes(name.as_bytes()), ctx.seed));
    }
    ctx.distinct("point_types_seen", hash_bytes(name.as_bytes()));
    ctx.sample = format!("{name} n={} {} grid 2^{}", live.len(), gen::PATTERNS[pattern], g.exp);
    let _ = MAXD;
}

macro_rules! types {
    ($($t:ty),* $(,)?) => {
        const ACCESS: &[fn(&mut Ctx)] = &[$(access_one::<$t>),*];
        const TREES: &[fn(&mut Ctx)] = &[$(tree_one::<$t>),*];
    };
}
#[cfg(feature = "mini")]
types!([f64; 2], [i32; 3], (f64, f64), (i64, i64, i64), (f32, f32, f32, f32), Point2<f64>, Point3<i64>, Custom3<i32>, [Amount; 2]);
#[cfg(not(feature = "mini"))]
types!(
    [f64; 2], [f64; 3], [f64; 4], [f64; 5], [f64; 6], [f64; 8], [f64; 10],
    [f32; 2], [f32; 3], [f32; 5], [f32; 7],
    [i8; 2], [i8; 3], [i16; 2], [i16; 4], [i32; 2], [i32; 3], [i32; 6], [i64; 2], [i64; 4], [i64; 7], [i128; 2], [i128; 5], [isize; 2], [isize; 3],
    [W<i8>; 2], [W<i16>; 2], [W<i32>; 3], [W<i64>; 2], [W<i128>; 2], [W<isize>; 3],
    (f64, f64), (f64, f64, f64), (f64, f64, f64, f64), (f64, f64, f64, f64, f64), (f64, f64, f64, f64, f64, f64),
    (f64, f64, f64, f64, f64, f64, f64), (f64, f64, f64, f64, f64, f64, f64, f64), (f64, f64, f64, f64, f64, f64, f64, f64, f64),
    (f64, f64, f64, f64, f64, f64, f64, f64, f64, f64),
    (i32, i32), (i64, i64, i64), (i64, i64, i64, i64), (i64, i64, i64, i64, i64), (i64, i64, i64, i64, i64, i64),
    (i64, i64, i64, i64, i64, i64, i64), (i64, i64, i64, i64, i64, i64, i64, i64), (i64, i64, i64, i64, i64, i64, i64, i64, i64),
    (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64), (f32, f32), (W<i32>, W<i32>, W<i32>),
    Point2<f64>, Point2<f32>, Point2<i32>, Point3<f64>, Point3<f32>, Point3<i64>, Custom3<f64>, Custom3<i32>, Custom3<f32>,
    [Amount; 2], [Amount; 5], (Amount, Amount, Amount), Point2<Amount>, Custom3<Amount>, [Fixed; 2], [Fixed; 4], (Fixed, Fixed), Point3<Fixed>, Custom3<Fixed>,
);

/// Points of a single coordinate cannot be in trees, but in boxes
const SINGLE: &[fn(&mut Ctx)] = &[access_one::<[f64; 1]>, access_one::<[i32; 1]>, access_one::<(f32,)>, access_one::<(i64,)>];
pub fn access(ctx: &mut Ctx) {
    let i = ctx.index % (ACCESS.len() + SINGLE.len());
    ACCESS.iter().chain(SINGLE).nth(i).unwrap()(ctx)
}
pub fn trees(ctx: &mut Ctx) {
    let i = ctx.index % TREES.len();
    TREES[i](ctx)
}

/// Points of many coordinates, each zero or one, so that no product and no sum overflows
fn long_one<S: HScalar, const N: usize>(ctx: &mut Ctx) {
    let name = std::any::type_name::<[S; N]>();
    let g = Grid { exp: 0 };
    let (zero, one) = (S::from_grid(0, g), S::from_grid(1, g));
    ensure!(<[S; N] as Point>::DIMENSIONS == N, "{} has {} dimensions", name, <[S; N] as Point>::DIMENSIONS);
    // Most coordinates are the same everywhere: each point is told by the few it differs in
    let base: Vec<bool> = (0..N).map(|_| ctx.rng.bit()).collect();
    let n = ctx.rng.below(if N > 200 { 24 } else { 60 });
    let make = |ctx: &mut Ctx| -> Vec<bool> {
        let mut v = base.clone();
        for _ in 0..ctx.rng.below(4) {
            let i = if ctx.rng.bit() { N - 1 - ctx.rng.below(4.min(N)) } else { ctx.rng.below(N) };
            v[i] = !v[i];
        }
        v
    };
    let points: Vec<Vec<bool>> = (0..n).map(|_| make(ctx)).collect();
    let mk = |v: &Vec<bool>| -> [S; N] { std::array::from_fn(|i| if v[i] { one } else { zero }) };
    for v in points.iter().take(3) {
        let p = mk(v);
        let q = <[S; N] as Point>::generate(|i| p[i]);
        ensure!(q == p, "{}: generate() puts coordinates in the wrong places", name);
        ensure!((0..N).all(|i| p.nth(i) == p[i]), "{}: nth() reads the wrong coordinate", name);
        let mut m = p;
        let i = ctx.rng.below(N);
        *m.nth_mut(i) = one + one;
        ensure!((0..N).all(|k| m[k] == if k == i { one + one } else { p[k] }), "{}: nth_mut({}) writes the wrong coordinate", name, i);
        let mut order = 0;
        <[S; N] as Point>::generate(|i| {
            ensure!(i < N, "{}: generate() asks for coordinate {}", name, i);
            order += 1;
            zero
        });
        ensure!(order == N, "{}: generate() asks for {} coordinates", name, order);
        ctx.evals += 1;
    }
    type El<P> = GeomWithData<P, u32>;
    let el = |i: usize| -> El<[S; N]> { GeomWithData::new(mk(&points[i]), i as u32) };
    let bulk = ctx.rng.below(n + 1);
    let mut tree: RTree<El<[S; N]>> = RTree::bulk_load((0..bulk).map(el).collect());
    (bulk..n).for_each(|i| tree.insert(el(i)));
    let mut live: Vec<usize> = (0..n).collect();
    let dist = |a: &Vec<bool>, b: &Vec<bool>| a.iter().zip(b).filter(|(x, y)| x != y).count();
    let ids = |mut v: Vec<usize>| {
        v.sort_unstable();
        v
    };
    for _ in 0..4 {
        let q = make(ctx);
        let p = mk(&q);
        let want: Vec<usize> = live.iter().copied().filter(|i| points[*i] == q).collect();
        let got = ids(tree.locate_all_at_point(p).take(2 * n + 8).map(|t| t.data as usize).collect());
        ensure!(got == want, "{}: locate_all_at_point gives {:?} instead of {:?}", name, got, want);
        let got = ids(tree.locate_in_envelope(AABB::from_point(p)).take(2 * n + 8).map(|t| t.data as usize).collect());
        ensure!(got == want, "{}: locate_in_envelope of a point gives {:?} instead of {:?}", name, got, want);
        let best = live.iter().map(|i| dist(&points[*i], &q)).min();
        match (tree.nearest_neighbor_with_distance_2(p), best) {
            (None, None) => {}
            (Some((t, d)), Some(b)) => {
                ensure!(d == S::from_grid(b as i64, g) && dist(&points[t.data as usize], &q) == b, "{}: the nearest neighbor has squared distance {:?}, the smallest is {}", name, d, b);
                let want: Vec<usize> = live.iter().copied().filter(|i| dist(&points[*i], &q) <= b + 1).collect();
                let got = ids(tree.locate_within_distance(p, S::from_grid(b as i64 + 1, g)).take(2 * n + 8).map(|t| t.data as usize).collect());
                ensure!(got == want, "{}: locate_within_distance gives {:?} instead of {:?}", name, got, want);
                let order: Vec<usize> = tree.nearest_neighbor_iter(p).take(2 * n + 8).map(|t| dist(&points[t.data as usize], &q)).collect();
                ensure!(order.len() == live.len() && order.windows(2).all(|w| w[0] <= w[1]), "{}: nearest neighbor iteration has the distances {:?}", name, order);
            }
            (r, b) => harness::viol!("{}: nearest neighbor {:?} with {} elements (best {:?})", name, r.map(|r| r.1), live.len(), b),
        }
        if !live.is_empty() {
            let k = live.remove(ctx.rng.below(live.len()));
            let r = tree.remove(&el(k)).map(|r| (r.data as usize, *r.geom() == mk(&points[k])));
            ensure!(r == Some((k, true)), "{}: removing #{} gives {:?}", name, k, r);
        }
        ensure!(tree.size() == live.len(), "{}: size() is {} instead of {}", name, tree.size(), live.len());
        ctx.evals += 5;
        ctx.count("long_point_queries", 5);
    }
    ctx.max("most_dimensions", N as u64);
    ctx.fingerprints.push(combine(hash_bytes(name.as_bytes()), ctx.seed));
    ctx.sample = format!("{name} n={n}");
}
const LONG: &[fn(&mut Ctx)] = &[
    long_one::<f64, 11>, long_one::<f64, 12>, long_one::<i32, 13>, long_one::<f32, 16>, long_one::<i64, 17>, long_one::<f64, 24>,
    long_one::<i64, 31>, long_one::<f64, 32>, long_one::<i32, 33>, long_one::<W<i32>, 40>, long_one::<f64, 64>, long_one::<f32, 65>,
    long_one::<i64, 100>, long_one::<i16, 127>, long_one::<f64, 128>, long_one::<i128, 129>, long_one::<f64, 255>, long_one::<i32, 256>,
    long_one::<f64, 257>, long_one::<f32, 300>, long_one::<f64, 1000>,
];
pub fn long(ctx: &mut Ctx) {
    LONG[ctx.index % LONG.len()](ctx)
}
