use super::boxes::{extent, grid};
use harness::ensure;
use harness::gen;
use harness::kinds::{mkp, rdp, Custom3, Geo, Pt, Rect, Seg, ShapeKind};
use harness::rng::{combine, Rng};
use harness::runner::Ctx;
use harness::scalar::{span, Grid, HScalar};
use harness::spec::{Shape, Spec, D2, D2_INF, FRAC, MAXD, V};
use mint::{Point2, Point3};
use rstar::primitives::{Line, Rectangle};
use rstar::{Point, PointDistance, RTreeObject};
use std::num::Wrapping as W;

fn limits<P: Point, T: PointDistance<Envelope = rstar::AABB<P>>>(ctx: &mut Ctx, t: &T, p: &P, want: D2, g: Grid)
where
    P::Scalar: HScalar,
{
    let d = t.distance_2(p);
    ensure!(d.to_d2(g) == want, "distance_2 is {:?} instead of {} (grid 2^{})", d, want as f64 / (1u64 << FRAC) as f64, g.exp);
    let one = 1i128 << FRAC;
    for max in [want, want - one, want + one, 0, want / (2 * one) * one, -one, D2_INF] {
        if max > want + one && !P::Scalar::FLOAT && max != D2_INF {
            continue;
        }
        if max < 0 && P::DIMENSIONS == 0 {
            continue;
        }
        let m = <P::Scalar as HScalar>::dist(max, g);
        // The limit as the scalar type stores it
        let max = if max == D2_INF { max } else { m.to_d2(g) };
        let r = t.distance_2_if_less_or_equal(p, m);
        let has = want <= max;
        ensure!(r.is_some() == has, "distance_2_if_less_or_equal with limit {:?} is {:?} although the squared distance is {:?}", m, r, d);
        if let Some(r) = r {
            ensure!(r == d, "distance_2_if_less_or_equal gives {:?}, distance_2 {:?}", r, d);
        }
        ctx.count("limits", 1);
    }
}

fn query(rng: &mut Rng, d: usize, e: i64, s: &Spec) -> V {
    let mut v = [0; MAXD];
    let how = rng.below(5);
    let t = rng.below(9) as i64;
    for i in 0..d {
        v[i] = match how {
            0 => rng.range(-e, e),
            1 => *rng.pick(&[s.lo[i], s.hi[i]]),
            2 => rng.range(s.lo[i], s.hi[i]),
            3 => (*rng.pick(&[s.lo[i], s.hi[i]]) + rng.range(-2, 2)).clamp(-e, e),
            _ => match &s.shape {
                Shape::Line(a, b) => a[i] + (b[i] - a[i]) * t / 8,
                _ => (s.lo[i] + s.hi[i]) / 2,
            },
        };
    }
    v
}

fn shape<G: Geo>(ctx: &mut Ctx)
where
    <G::P as Point>::Scalar: HScalar,
    G::T: PointDistance<Envelope = rstar::AABB<G::P>> + Near<G::P>,
{
    let d = <G::P as Point>::DIMENSIONS;
    let lines = G::SHAPE == ShapeKind::Line;
    let e = extent::<<G::P as Point>::Scalar>(d).min(span::<<G::P as Point>::Scalar>(d, 4, lines));
    let (a, b) = <<G::P as Point>::Scalar as HScalar>::EXP_RANGE;
    let g = if lines { Grid { exp: ctx.rng.range(a as i64 / 2, b as i64 / 2) as i32 } } else { grid::<<G::P as Point>::Scalar>(&mut ctx.rng) };
    let pattern = ctx.rng.below(gen::PATTERNS.len());
    let specs = gen::elements(&mut ctx.rng, G::SHAPE, pattern, 4, d, e, 1);
    for s in &specs {
        let t = G::build(s, g);
        let env = t.envelope();
        let (lo, hi) = (rdp(&env.lower(), g), rdp(&env.upper(), g));
        ensure!(lo[..d] == s.lo[..d] && hi[..d] == s.hi[..d], "the box of {:?} is {:?}..{:?}", s.shape, &lo[..d], &hi[..d]);
        let (slo, shi, sh) = G::read(&t, g);
        ensure!(slo[..d] == s.lo[..d] && shi[..d] == s.hi[..d] && sh == s.shape, "a shape does not give its corners back");
        for _ in 0..6 {
            let v = query(&mut ctx.rng, d, e, s);
            let p: G::P = mkp(&v, g);
            let want = s.dist2(d, &v);
            limits(ctx, &t, &p, want, g);
            let inside = s.contains(d, &v);
            ensure!(t.contains_point(&p) == inside, "contains_point({:?}) is {} for {:?} {:?}..{:?}", &v[..d], !inside, s.shape, &s.lo[..d], &s.hi[..d]);
            ctx.count("contained", inside as u64);
            if let Some(n) = t.near(&p) {
                // On the shape, and as far away as the shape is
                let f = |x: <G::P as Point>::Scalar| x.as_f64() / 2f64.powi(g.exp);
                let mut d2 = 0.0;
                for i in 0..d {
                    let x = f(n.nth(i));
                    ensure!(s.lo[i] as f64 <= x && x <= s.hi[i] as f64, "nearest_point({:?}) is outside of the shape", &v[..d]);
                    d2 += (x - v[i] as f64).powi(2);
                }
                ensure!(d2 == want as f64 / (1u64 << FRAC) as f64, "nearest_point({:?}) is {:?}, at {} instead of {} (grid 2^{})", &v[..d], n, d2, want as f64 / (1u64 << FRAC) as f64, g.exp);
            }
            ctx.evals += 4;
            ctx.count(
                match G::SHAPE {
                    ShapeKind::Point => "points",
                    ShapeKind::Rect => "rectangles",
                    _ => "grid_lines",
                },
                1,
            );
            if !inside {
                let h = (0..d).fold(combine(d as u64, G::SHAPE as u64), |h, i| combine(h, combine(combine(s.lo[i] as u64, s.hi[i] as u64), v[i] as u64)));
                ctx.fingerprints.push(h);
            }
            ctx.sample = format!("{} {:?}..{:?} from {:?} grid 2^{}", std::any::type_name::<G::T>(), &s.lo[..d], &s.hi[..d], &v[..d], g.exp);
        }
    }
}

pub trait Near<P> {
    fn near(&self, p: &P) -> Option<P>;
}
macro_rules! near_none {
    ($($t:ty),*) => {$( impl Near<$t> for $t { fn near(&self, _: &$t) -> Option<$t> { None } } )*};
}
impl<P: Point> Near<P> for Rectangle<P> {
    fn near(&self, p: &P) -> Option<P> {
        Some(self.nearest_point(p))
    }
}
impl<P: Point> Near<P> for Line<P> {
    fn near(&self, p: &P) -> Option<P> {
        Some(self.nearest_point(p))
    }
}
type T6 = (f64, f64, f64, f64, f64, f64);
near_none!([f64; 2], [f32; 3], [i32; 2], [i8; 2], [i64; 5], [f64; 9], T6, Point2<f32>, Point3<i64>, Custom3<f64>, [W<i16>; 2], (i32, i32, i32));

macro_rules! all {
    ($ctx:expr, $($g:ty),* $(,)?) => {{
        let all: &[fn(&mut Ctx)] = &[$(shape::<$g>),*];
        let i = $ctx.rng.below(all.len());
        all[i]($ctx)
    }};
}

pub fn exact(ctx: &mut Ctx) {
    match ctx.index % 3 {
        0 => all!(ctx, Pt<[f64; 2]>, Pt<[f32; 3]>, Pt<[i32; 2]>, Pt<[i8; 2]>, Pt<[i64; 5]>, Pt<[f64; 9]>, Pt<T6>, Pt<Point2<f32>>, Pt<Point3<i64>>, Pt<Custom3<f64>>, Pt<[W<i16>; 2]>, Pt<(i32, i32, i32)>),
        1 => all!(ctx, Rect<[f64; 2]>, Rect<[f32; 3]>, Rect<[i32; 2]>, Rect<[i8; 2]>, Rect<[i64; 5]>, Rect<[f64; 9]>, Rect<T6>, Rect<Point2<f32>>, Rect<Point3<i64>>, Rect<Custom3<f64>>, Rect<[W<i16>; 2]>, Rect<(i32, i32, i32)>),
        _ => all!(ctx, Seg<[f64; 2]>, Seg<[f64; 3]>, Seg<[f64; 5]>, Seg<(f64, f64)>, Seg<Point3<f64>>, Seg<[f64; 9]>),
    }
}

/// Arbitrary floating-point lines, up to rounding
fn raw_line<const N: usize>(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let scale = 10f64.powf((rng.unit() * 2.0 - 1.0) * 30.0);
    let flat = rng.bit();
    let axis = 10f64.powf((rng.unit() * 2.0 - 1.0) * 4.0);
    let point = |rng: &mut Rng| -> [f64; N] { std::array::from_fn(|i| (rng.unit() * 2.0 - 1.0) * scale * if flat && i == 0 { axis } else { 1.0 }) };
    let a = point(rng);
    let mut b = point(rng);
    match rng.below(8) {
        0 => b = a,
        1 => {
            // Parallel to an axis
            let i = rng.below(N);
            let x = b[i];
            b = a;
            b[i] = x;
        }
        2 => b = std::array::from_fn(|i| a[i] * (1.0 + 1e-9)),
        _ => {}
    }
    let line = Line::new(a, b);
    let env = line.envelope();
    ensure!((0..N).all(|i| env.lower()[i] == a[i].min(b[i]) && env.upper()[i] == a[i].max(b[i])), "the box of {:?} is {:?}", line, env);
    let dir: [f64; N] = std::array::from_fn(|i| b[i] - a[i]);
    let len2: f64 = dir.iter().map(|x| x * x).sum();
    let close = |x: f64, y: f64, scale: f64| (x - y).abs() <= 1e-9 * scale + 1e-290;
    ensure!(close(line.length_2(), len2, len2), "length_2 of {:?} is {:?} instead of {}", line, line.length_2(), len2);
    for _ in 0..6 {
        let t = ctx.rng.unit() * 1.6 - 0.3;
        let on = ctx.rng.chance(1, 4);
        let far = ctx.rng.unit().powi(3);
        let off = point(&mut ctx.rng);
        let mut q: [f64; N] = std::array::from_fn(|i| a[i] + t * dir[i] + if on { 0.0 } else { off[i] * far });
        match ctx.rng.below(10) {
            0 => q = a,
            1 => q = b,
            2 => q = point(&mut ctx.rng),
            _ => {}
        }
        let dot: f64 = (0..N).map(|i| (q[i] - a[i]) * dir[i]).sum();
        let s = if len2 == 0.0 { 0.0 } else { (dot / len2).clamp(0.0, 1.0) };
        let best: [f64; N] = std::array::from_fn(|i| a[i] + s * dir[i]);
        let d2: f64 = (0..N).map(|i| (q[i] - best[i]).powi(2)).sum();
        let size = [a, b, q].iter().flatten().fold(0f64, |m, x| m.max(x.abs()));
        // Error of the distance
        let err = 1e-11 * size;
        let tol = err * err + 2.0 * err * d2.sqrt();
        let got = line.distance_2(&q);
        ensure!((got - d2).abs() <= tol, "distance_2({:?}) to {:?} is {} instead of {}", q, line, got, d2);
        let n = line.nearest_point(&q);
        let dn: f64 = (0..N).map(|i| (q[i] - n[i]).powi(2)).sum();
        ensure!((dn - got).abs() <= tol, "nearest_point({:?}) of {:?} is {:?} at {}, but distance_2 is {}", q, line, n, dn, got);
        // The nearest point lies on the line
        let dot: f64 = (0..N).map(|i| (n[i] - a[i]) * dir[i]).sum();
        let s = if len2 == 0.0 { 0.0 } else { (dot / len2).clamp(0.0, 1.0) };
        let away: f64 = (0..N).map(|i| (n[i] - (a[i] + s * dir[i])).powi(2)).sum();
        ensure!(away <= err * err, "nearest_point({:?}) = {:?} is off the line {:?} by {}", q, n, line, away.sqrt());
        // No point of the line is closer
        for k in 0..=4 {
            let x: f64 = (0..N).map(|i| (q[i] - (a[i] + dir[i] * k as f64 / 4.0)).powi(2)).sum();
            ensure!(got <= x + tol, "distance_2({:?}) to {:?} is {}, but a point of it is at {}", q, line, got, x);
        }
        let inside = line.contains_point(&q);
        if inside {
            ensure!(d2 <= err * err, "contains_point({:?}) is true at a distance of {} from {:?}", q, d2.sqrt(), line);
        }
        if q == a {
            ensure!(inside, "{:?} does not contain its end {:?}", line, q);
        }
        ctx.count("on_line", (d2 <= err * err) as u64);
        for m in [got, got * 0.5, got * 2.0, 0.0, -1.0, f64::MAX] {
            let r = line.distance_2_if_less_or_equal(&q, m);
            ensure!(r == (got <= m).then_some(got), "distance_2_if_less_or_equal({:?}, {}) is {:?}, distance_2 is {}", q, m, r, got);
            ctx.count("limits", 1);
        }
        ctx.evals += 6;
        ctx.count("raw_lines", 1);
        if d2 > 0.0 {
            ctx.fingerprints.push(combine(ctx.seed, got.to_bits()));
        }
    }
    ctx.sample = format!("{line:?}");
}
fn raw_line32(ctx: &mut Ctx) {
    let rng = &mut ctx.rng;
    let point = |rng: &mut Rng| -> [f32; 2] { std::array::from_fn(|_| (rng.unit() * 200.0 - 100.0) as f32) };
    let (a, b) = (point(rng), point(rng));
    let line = Line::new(a, b);
    for _ in 0..6 {
        let q = point(&mut ctx.rng);
        let f = |p: [f32; 2]| p.map(|x| x as f64);
        let (a, b, q64) = (f(a), f(b), f(q));
        let len2 = (b[0] - a[0]).powi(2) + (b[1] - a[1]).powi(2);
        let dot = (q64[0] - a[0]) * (b[0] - a[0]) + (q64[1] - a[1]) * (b[1] - a[1]);
        let s = if len2 == 0.0 { 0.0 } else { (dot / len2).clamp(0.0, 1.0) };
        let d2 = (a[0] + s * (b[0] - a[0]) - q64[0]).powi(2) + (a[1] + s * (b[1] - a[1]) - q64[1]).powi(2);
        let got = line.distance_2(&q) as f64;
        let err = 1e-2;
        ensure!((got - d2).abs() <= err * err + 2.0 * err * d2.sqrt(), "distance_2({:?}) to {:?} is {} instead of {}", q, line, got, d2);
        ctx.evals += 1;
        ctx.count("raw_lines", 1);
        ctx.fingerprints.push(combine(ctx.seed, got.to_bits()));
    }
    ctx.sample = format!("{line:?}");
}
pub fn lines(ctx: &mut Ctx) {
    match ctx.index % 5 {
        0 => raw_line::<2>(ctx),
        1 => raw_line::<3>(ctx),
        2 => raw_line::<4>(ctx),
        3 => raw_line::<7>(ctx),
        _ => raw_line32(ctx),
    }
}

/// Shapes of zero size over every scalar type: no query may panic
fn zero_one<P: Point + PartialEq>(ctx: &mut Ctx)
where
    P::Scalar: HScalar,
{
    let d = P::DIMENSIONS;
    let e = extent::<P::Scalar>(d);
    let g = grid::<P::Scalar>(&mut ctx.rng);
    for _ in 0..4 {
        let a: V = std::array::from_fn(|i| if i < d { ctx.rng.range(-e, e) } else { 0 });
        let same = ctx.rng.chance(1, 4);
        let q: V = std::array::from_fn(|i| if i < d && !same { ctx.rng.range(-e, e) } else { a[i] });
        let (p, x): (P, P) = (mkp(&a, g), mkp(&q, g));
        let want: D2 = (0..d).map(|i| ((a[i] - q[i]) as i128).pow(2)).sum::<i128>() << FRAC;
        let line = Line::new(p.clone(), p.clone());
        ensure!(line.nearest_point(&x) == p, "nearest_point of a line of zero length is not that point");
        limits(ctx, &line, &x, want, g);
        ensure!(line.contains_point(&x) == (want == 0), "contains_point of a line of zero length is wrong for {:?}", &q[..d]);
        ensure!(line.length_2().to_d2(g) == 0, "length_2 of a line of zero length is {:?}", line.length_2());
        let r = Rectangle::from_corners(p.clone(), p.clone());
        ensure!(r.nearest_point(&x) == p, "nearest_point of a rectangle of zero size is not that point");
        limits(ctx, &r, &x, want, g);
        ensure!(r.contains_point(&x) == (want == 0), "contains_point of a rectangle of zero size is wrong for {:?}", &q[..d]);
        ctx.count("zero_length", 2);
        ctx.evals += 4;
        if want != 0 {
            ctx.fingerprints.push(combine(ctx.seed, want as u64));
        }
        ctx.sample = format!("{} zero size at {:?} from {:?}", std::any::type_name::<P>(), &a[..d], &q[..d]);
    }
}
pub fn zero(ctx: &mut Ctx) {
    let all: &[fn(&mut Ctx)] = &[
        zero_one::<[f64; 2]>,
        zero_one::<[f32; 3]>,
        zero_one::<[i32; 2]>,
        zero_one::<[i8; 2]>,
        zero_one::<[i64; 4]>,
        zero_one::<[i128; 3]>,
        zero_one::<[W<i16>; 2]>,
        zero_one::<(isize, isize, isize)>,
        zero_one::<Point2<i32>>,
    ];
    let i = ctx.rng.below(all.len());
    all[i](ctx)
}
