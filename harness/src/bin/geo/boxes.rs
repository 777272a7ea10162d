use harness::custom::{Amount, Fixed};
use harness::ensure;
use harness::kinds::{mkp, rdp, Custom3};
use harness::rng::{combine, Rng};
use harness::runner::Ctx;
use harness::scalar::{Grid, HScalar};
use harness::spec::{MAXD, V};
use mint::{Point2, Point3};
use rstar::primitives::GeomWithData;
use rstar::{Envelope, Point, RTreeObject, AABB};
use std::num::Wrapping as W;

pub fn grid<S: HScalar>(rng: &mut Rng) -> Grid {
    let (a, b) = S::EXP_RANGE;
    Grid {
        // Products over ten dimensions stay in range
        exp: rng.range(a as i64, b as i64) as i32 / 2,
    }
}

/// Largest coordinate at which products over all dimensions are exact
pub fn extent<S: HScalar>(d: usize) -> i64 {
    let limit = (S::LIMIT.min(1 << 52)) as f64;
    let area = limit.powf(1.0 / d as f64) / 2.0 - 0.01;
    let dist = (limit / (4.0 * d as f64)).sqrt() / 2.0;
    (area.min(dist).floor() as i64).clamp(1, 1 << 20)
}

fn value(rng: &mut Rng, e: i64, few: bool) -> i64 {
    if few {
        rng.range(-2.max(-e), 2.min(e))
    } else {
        rng.range(-e, e)
    }
}

#[derive(Clone, Debug)]
struct B {
    lo: V,
    hi: V,
}

fn a_box(rng: &mut Rng, d: usize, e: i64, few: bool, other: Option<&B>) -> B {
    let mut b = B { lo: [0; MAXD], hi: [0; MAXD] };
    let how = rng.below(7);
    for i in 0..d {
        let (x, y) = (value(rng, e, few), value(rng, e, few));
        b.lo[i] = x.min(y);
        b.hi[i] = x.max(y);
        if let Some(o) = other {
            match how {
                // Touching or just apart on some axes
                0 => {
                    if rng.chance(1, 2) {
                        b.lo[i] = (o.hi[i] + rng.range(0, 1)).min(e);
                        b.hi[i] = b.hi[i].max(b.lo[i]);
                    }
                }
                // Nested
                1 => {
                    b.lo[i] = rng.range(o.lo[i], o.hi[i]);
                    b.hi[i] = rng.range(b.lo[i], o.hi[i]);
                }
                // Nested up to one step
                2 => {
                    b.lo[i] = (o.lo[i] + rng.range(-1, 1)).clamp(-e, e);
                    b.hi[i] = (o.hi[i] + rng.range(-1, 1)).clamp(b.lo[i], e.max(b.lo[i]));
                }
                3 => {
                    b.lo[i] = o.lo[i];
                    b.hi[i] = o.hi[i];
                }
                _ => {}
            }
        }
        if how == 4 || rng.chance(1, 8) {
            b.hi[i] = b.lo[i];
        }
    }
    b
}

fn make<P: Point>(rng: &mut Rng, b: &B, g: Grid) -> AABB<P>
where
    P::Scalar: HScalar,
{
    let (lo, hi): (P, P) = (mkp(&b.lo, g), mkp(&b.hi, g));
    match rng.below(8) {
        0 => AABB::from_corners(lo, hi),
        1 => AABB::from_corners(hi, lo),
        2 => AABB::from_bounds(lo, hi),
        3 => {
            let mid = P::generate(|i| if i % 2 == 0 { lo.nth(i) } else { hi.nth(i) });
            AABB::from_points([&mid, &hi, &lo, &mid])
        }
        4 => {
            let a = P::generate(|i| if i % 2 == 0 { lo.nth(i) } else { hi.nth(i) });
            let b = P::generate(|i| if i % 2 == 0 { hi.nth(i) } else { lo.nth(i) });
            AABB::from_corners(a, b)
        }
        5 => {
            let mut x = AABB::new_empty();
            x.merge(&AABB::from_point(lo));
            x.merge(&AABB::from_point(hi));
            x
        }
        6 => AABB::from_point(lo).merged(&AABB::from_point(hi)),
        _ => {
            // From a set of random points whose hull it is
            let mut pts = vec![lo.clone(), hi.clone()];
            for _ in 0..rng.below(5) {
                let v: V = std::array::from_fn(|i| rng.range(b.lo[i].min(b.hi[i]), b.hi[i]));
                pts.push(mkp(&v, g));
            }
            rng.shuffle(&mut pts);
            AABB::from_points(pts.iter())
        }
    }
}

fn is<P: Point>(what: &str, got: &AABB<P>, lo: &V, hi: &V, g: Grid)
where
    P::Scalar: HScalar,
{
    let d = P::DIMENSIONS;
    let (a, b) = (rdp(&got.lower(), g), rdp(&got.upper(), g));
    ensure!(
        a[..d] == lo[..d] && b[..d] == hi[..d],
        "{}: {:?}..{:?} instead of {:?}..{:?} (grid 2^{})",
        what,
        &a[..d],
        &b[..d],
        &lo[..d],
        &hi[..d],
        g.exp
    );
}

fn num<S: HScalar>(what: &str, got: S, want: i128, g: Grid, power: i32)
{
    let w = want as f64 * 2f64.powi(g.exp * power);
    ensure!(got.as_f64() == w, "{} is {:?} instead of {} (grid 2^{})", what, got, w, g.exp);
}

fn one<P: Point + PartialEq>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    let d = P::DIMENSIONS;
    let rng = &mut ctx.rng;
    let g = grid::<P::Scalar>(rng);
    let e = extent::<P::Scalar>(d);
    let few = rng.bit();
    for _ in 0..8 {
        let rng = &mut ctx.rng;
        let a = a_box(rng, d, e, few, None);
        let b = a_box(rng, d, e, few, Some(&a));
        let (x, y): (AABB<P>, AABB<P>) = (make(rng, &a, g), make(rng, &b, g));
        is("constructed box", &x, &a.lo, &a.hi, g);
        is("constructed box", &y, &b.lo, &b.hi, g);
        let degenerate = (0..d).any(|i| a.lo[i] == a.hi[i]);
        ctx.count("degenerate_boxes", degenerate as u64);
        let rng = &mut ctx.rng;
        // Merging
        let lo: V = std::array::from_fn(|i| a.lo[i].min(b.lo[i]));
        let hi: V = std::array::from_fn(|i| a.hi[i].max(b.hi[i]));
        is("merged()", &x.merged(&y), &lo, &hi, g);
        is("merged()", &y.merged(&x), &lo, &hi, g);
        let mut m = x.clone();
        m.merge(&y);
        is("merge()", &m, &lo, &hi, g);
        ensure!(m == y.merged(&x), "equal boxes compare as different");
        // Containment and intersection
        let inside = (0..d).all(|i| a.lo[i] <= b.lo[i] && b.hi[i] <= a.hi[i]);
        ensure!(x.contains_envelope(&y) == inside, "contains_envelope({:?}, {:?}) is {}", a, b, !inside);
        let inside = (0..d).all(|i| b.lo[i] <= a.lo[i] && a.hi[i] <= b.hi[i]);
        ensure!(y.contains_envelope(&x) == inside, "contains_envelope({:?}, {:?}) is {}", b, a, !inside);
        let common = (0..d).all(|i| a.lo[i] <= b.hi[i] && b.lo[i] <= a.hi[i]);
        ensure!(x.intersects(&y) == common, "intersects({:?}, {:?}) is {}", a, b, !common);
        ensure!(y.intersects(&x) == common, "intersects({:?}, {:?}) is {}", b, a, !common);
        let area: i128 = (0..d).map(|i| (a.hi[i].min(b.hi[i]) - a.lo[i].max(b.lo[i])).max(0) as i128).product();
        num("intersection_area", x.intersection_area(&y), area, g, d as i32);
        num("intersection_area", y.intersection_area(&x), area, g, d as i32);
        let touching = common && (0..d).any(|i| a.hi[i] == b.lo[i] || a.lo[i] == b.hi[i]);
        // Measures
        let area: i128 = (0..d).map(|i| (a.hi[i] - a.lo[i]) as i128).product();
        num("area", x.area(), area, g, d as i32);
        let sides: i128 = (0..d).map(|i| (a.hi[i] - a.lo[i]) as i128).sum();
        let p = x.perimeter_value();
        num("perimeter_value", p, sides, g, 1);
        if (0..d).all(|i| (a.lo[i] + a.hi[i]) % 2 == 0) {
            let c: V = std::array::from_fn(|i| (a.lo[i] + a.hi[i]) / 2);
            let got = rdp(&x.center(), g);
            ensure!(got[..d] == c[..d], "center({:?}) is {:?}", a, &got[..d]);
        }
        ensure!(!x.is_empty() && !y.is_empty(), "is_empty is true for {:?} or {:?}", a, b);
        // Points
        for k in 0..4 {
            let mut v: V = [0; MAXD];
            for (i, v) in v.iter_mut().enumerate().take(d) {
                *v = match k {
                    0 => value(rng, e, few),
                    1 => *rng.pick(&[a.lo[i], a.hi[i]]),
                    2 => rng.range(a.lo[i], a.hi[i]),
                    _ => (*rng.pick(&[a.lo[i], a.hi[i]]) + rng.range(-1, 1)).clamp(-e, e),
                };
            }
            let p: P = mkp(&v, g);
            let inside = (0..d).all(|i| a.lo[i] <= v[i] && v[i] <= a.hi[i]);
            ensure!(x.contains_point(&p) == inside, "contains_point({:?}, {:?}) is {}", a, &v[..d], !inside);
            let c: V = std::array::from_fn(|i| v[i].max(a.lo[i]).min(a.hi[i]));
            let got = rdp(&x.min_point(&p), g);
            ensure!(got[..d] == c[..d], "min_point({:?}, {:?}) is {:?}", a, &v[..d], &got[..d]);
            let d2: i128 = (0..d).map(|i| ((v[i] - c[i]) as i128).pow(2)).sum();
            num("distance_2", AABB::distance_2(&x, &p), d2, g, 2);
            num("Envelope::distance_2", Envelope::distance_2(&x, &p), d2, g, 2);
            // Some element touching each face is at most this far away
            let far: Vec<i128> = (0..d).map(|i| ((v[i] - a.lo[i]) as i128).pow(2).max(((v[i] - a.hi[i]) as i128).pow(2))).collect();
            let near: Vec<i128> = (0..d).map(|i| ((v[i] - a.lo[i]) as i128).pow(2).min(((v[i] - a.hi[i]) as i128).pow(2))).collect();
            let sum: i128 = far.iter().sum();
            let bound = (0..d).map(|i| sum - far[i] + near[i]).min().unwrap();
            let got = x.min_max_dist_2(&p).as_f64();
            let want = bound as f64 * 2f64.powi(2 * g.exp);
            ensure!(got >= want, "min_max_dist_2({:?}, {:?}) is {}, an element touching each face can be as far as {}", a, &v[..d], got, want);
            num("min_max_dist_2", x.min_max_dist_2(&p), bound, g, 2);
            // The empty box
            let empty: AABB<P> = if rng.bit() { AABB::new_empty() } else { AABB::from_points(std::iter::empty::<&P>()) };
            ensure!(empty.is_empty(), "the empty box is not empty");
            ensure!(!empty.contains_point(&p), "the empty box contains {:?}", &v[..d]);
            ensure!(!empty.intersects(&x) && !x.intersects(&empty), "the empty box intersects {:?}", a);
            ensure!(!empty.contains_envelope(&x), "the empty box contains {:?}", a);
            is("merged with the empty box", &x.merged(&empty), &a.lo, &a.hi, g);
            is("the empty box merged", &empty.merged(&x), &a.lo, &a.hi, g);
            let mut m = empty.clone();
            m.merge(&x);
            is("the empty box merged in place", &m, &a.lo, &a.hi, g);
            let mut m = x.clone();
            m.merge(&empty);
            is("merged in place with the empty box", &m, &a.lo, &a.hi, g);
            let both = empty.merged(&AABB::new_empty());
            ensure!(both.is_empty(), "two empty boxes merge to a box that is not empty");
        }
        // from_center
        let v: V = std::array::from_fn(|i| a.lo[i] / 2);
        let r = value(rng, e / 2, few).abs().min(e / 2);
        let c = AABB::<P>::from_center(mkp(&v, g), HScalar::from_grid(r, g));
        is("from_center", &c, &v.map(|x| x - r), &v.map(|x| x + r), g);
        // Boxes of elements
        let tagged = GeomWithData::new(rstar::primitives::Rectangle::from_aabb(x.clone()), 1);
        is("box of a rectangle", &tagged.envelope(), &a.lo, &a.hi, g);
        ctx.evals += 30;
        ctx.count("pairs", 1);
        ctx.count("empty_boxes", 4);
        ctx.count("touching_pairs", touching as u64);
        if a.lo != b.lo || a.hi != b.hi {
            let h = (0..d).fold(combine(d as u64, g.exp as u64), |h, i| {
                combine(h, combine(combine(a.lo[i] as u64, a.hi[i] as u64), combine(b.lo[i] as u64, b.hi[i] as u64)))
            });
            ctx.fingerprints.push(h);
        }
        if ctx.sample.is_empty() {
            ctx.sample = format!("{} {:?}..{:?} with {:?}..{:?} grid 2^{}", std::any::type_name::<P>(), &a.lo[..d], &a.hi[..d], &b.lo[..d], &b.hi[..d], g.exp);
        }
    }
}

macro_rules! dispatch {
    ($name:ident, $one:ident, $($t:ty),* $(,)?) => {
        pub fn $name(ctx: &mut Ctx) {
            let all: &[fn(&mut Ctx)] = &[$($one::<$t>),*];
            let i = ctx.rng.below(all.len());
            all[i](ctx)
        }
    };
}

dispatch!(
    algebra, one,
    [f64; 2], [f32; 2], [i32; 2], [i8; 2], [i64; 3], [f64; 3], [f64; 1], [f64; 5], [i128; 4], [f32; 7], [f64; 9], [W<i32>; 2],
    [W<i8>; 3], [isize; 3], [i16; 2], [W<i64>; 4], (f64, f64), (i32, i32, i32), (f64, f64, f64, f64, f64, f64),
    (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64), Point2<f64>, Point3<i32>, Custom3<f64>,
    [Amount; 2], [Fixed; 3], (Fixed, Fixed), Custom3<Amount>,
);

fn sort_one<P: Point + PartialEq>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    use rstar::primitives::Rectangle;
    let d = P::DIMENSIONS;
    let g = grid::<P::Scalar>(&mut ctx.rng);
    let e = extent::<P::Scalar>(d);
    let few = ctx.rng.bit();
    let n = ctx.rng.below(60);
    let mut els: Vec<GeomWithData<Rectangle<P>, usize>> = vec![];
    let mut low = vec![];
    for i in 0..n {
        let b = a_box(&mut ctx.rng, d, e, few, None);
        els.push(GeomWithData::new(Rectangle::from_corners(mkp(&b.lo, g), mkp(&b.hi, g)), i));
        low.push(b);
    }
    let axis = ctx.rng.below(d);
    let key = |t: &GeomWithData<Rectangle<P>, usize>| low[t.data].lo[axis];
    let permutes = |v: &[GeomWithData<Rectangle<P>, usize>]| {
        let mut ids: Vec<usize> = v.iter().map(|t| t.data).collect();
        ids.sort_unstable();
        ids.into_iter().eq(0..n) && v.iter().all(|t| rdp(&t.geom().lower(), g)[..d] == low[t.data].lo[..d] && rdp(&t.geom().upper(), g)[..d] == low[t.data].hi[..d])
    };
    let mut s = els.clone();
    AABB::sort_envelopes(axis, &mut s);
    ensure!(permutes(&s), "sort_envelopes({}) does not permute {} elements", axis, n);
    ensure!(s.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "sort_envelopes({}) leaves {} elements unsorted", axis, n);
    ctx.count("sorted", 1);
    if n > 0 {
        let k = ctx.rng.below(n);
        let mut s = els.clone();
        AABB::partition_envelopes(axis, &mut s, k);
        ensure!(permutes(&s), "partition_envelopes({}, {}) does not permute {} elements", axis, k, n);
        let left = s[..k].iter().map(key).max();
        let right = s[k..].iter().map(key).min();
        ensure!(left.is_none() || left <= right, "partition_envelopes({}, {}) puts {:?} before {:?}", axis, k, left, right);
        ctx.count("partitioned", 1);
    }
    if n > 1 {
        ctx.fingerprints.push(ctx.seed);
    }
    ctx.evals += 2;
    ctx.sample = format!("{} elements of {} by axis {}", n, std::any::type_name::<P>(), axis);
}
dispatch!(sorting, sort_one, [f64; 2], [i32; 3], [f32; 4], (i64, i64), Point3<f64>, [i8; 2], [W<i16>; 2]);

/// Comparisons only, so arbitrary floating-point coordinates are exact as well
pub fn raw(ctx: &mut Ctx) {
    type P = [f64; 3];
    let huge = ctx.rng.bit();
    let value = |rng: &mut Rng| -> f64 {
        match rng.below(8) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MAX,
            3 => f64::MIN,
            4 if huge => f64::from_bits(rng.below(9) as u64),
            5 => rng.range(-3, 3) as f64,
            _ => {
                let e = if huge { 300.0 } else { 3.0 };
                (rng.unit() - 0.5) * 10f64.powf((rng.unit() * 2.0 - 1.0) * e)
            }
        }
    };
    for _ in 0..4 {
        let mut p: Vec<P> = vec![];
        for _ in 0..4 {
            p.push(std::array::from_fn(|_| value(&mut ctx.rng)));
        }
        if ctx.rng.chance(1, 3) {
            // Share faces
            let i = ctx.rng.below(3);
            p[2][i] = p[0][i];
        }
        let hull = |a: &P, b: &P| -> (P, P) { (std::array::from_fn(|i| a[i].min(b[i])), std::array::from_fn(|i| a[i].max(b[i]))) };
        let (al, ah) = hull(&p[0], &p[1]);
        let (bl, bh) = hull(&p[2], &p[3]);
        let (x, y) = (AABB::from_corners(p[0], p[1]), AABB::from_points(&p[2..]));
        ensure!(x.lower() == al && x.upper() == ah, "from_corners({:?}, {:?}) is {:?}..{:?}", p[0], p[1], x.lower(), x.upper());
        ensure!(y.lower() == bl && y.upper() == bh, "from_points({:?}) is {:?}..{:?}", &p[2..], y.lower(), y.upper());
        let m = x.merged(&y);
        ensure!((0..3).all(|i| m.lower()[i] == al[i].min(bl[i]) && m.upper()[i] == ah[i].max(bh[i])), "merged is {:?}..{:?}", m.lower(), m.upper());
        let common = (0..3).all(|i| al[i] <= bh[i] && bl[i] <= ah[i]);
        ensure!(x.intersects(&y) == common && y.intersects(&x) == common, "intersects({:?}, {:?}) is not {}", x, y, common);
        let inside = (0..3).all(|i| al[i] <= bl[i] && bh[i] <= ah[i]);
        ensure!(x.contains_envelope(&y) == inside, "contains_envelope({:?}, {:?}) is not {}", x, y, inside);
        for q in &p {
            let inside = (0..3).all(|i| al[i] <= q[i] && q[i] <= ah[i]);
            ensure!(x.contains_point(q) == inside, "contains_point({:?}, {:?}) is not {}", x, q, inside);
            let c: P = std::array::from_fn(|i| q[i].max(al[i]).min(ah[i]));
            ensure!(x.min_point(q) == c, "min_point({:?}, {:?}) is {:?}", x, q, x.min_point(q));
            if inside {
                ensure!(AABB::distance_2(&x, q) == 0.0, "the distance of a contained point is not zero");
            }
        }
        ctx.evals += 12;
        ctx.count("raw_pairs", 1);
    }
    ctx.fingerprints.push(ctx.seed);
    ctx.sample = "arbitrary f64 boxes".into();
}
