//! Trees over arbitrary floating-point coordinates (and over wrapping integers of the full range):
//! what involves only comparisons has to be exact, distances hold up to rounding.
use harness::kinds::Pm;
use harness::rng::{combine, mix, Rng};
use harness::runner::{sc, Ctx, Property};
use harness::{ensure, viol};
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, Rectangle};
use rstar::{DefaultParams as Df, Envelope, ParentNode, Point, PointDistance, RTree, RTreeNode, RTreeNum, RTreeObject, RTreeParams, AABB};
use std::num::Wrapping;

/// Scalars with a view as f64
trait Num: RTreeNum + Copy + 'static {
    const EPS: f64;
    /// Decimal exponents of coordinates that cannot overflow products over all dimensions
    fn max_exp(d: usize) -> f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    /// The next representable value
    fn up(self) -> Self;
    fn tiny(rng: &mut Rng) -> Self;
}
impl Num for f64 {
    const EPS: f64 = f64::EPSILON;
    fn max_exp(d: usize) -> f64 {
        290.0 / d as f64
    }
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn up(self) -> Self {
        if self == 0.0 {
            f64::from_bits(1)
        } else {
            f64::from_bits(self.to_bits() + 1)
        }
    }
    fn tiny(rng: &mut Rng) -> Self {
        let x = f64::from_bits(rng.below(50) as u64);
        if rng.bit() {
            -x
        } else {
            x
        }
    }
}
impl Num for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn max_exp(d: usize) -> f64 {
        34.0 / d as f64
    }
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn up(self) -> Self {
        if self == 0.0 {
            f32::from_bits(1)
        } else {
            f32::from_bits(self.to_bits() + 1)
        }
    }
    fn tiny(rng: &mut Rng) -> Self {
        let x = f32::from_bits(rng.below(50) as u32);
        if rng.bit() {
            -x
        } else {
            x
        }
    }
}

trait Geom: PointDistance<Envelope = AABB<Self::P>> + Clone + PartialEq + 'static {
    type P: Point<Scalar = Self::S> + PartialEq + 'static;
    type S: Num;
    const NAME: &'static str;
    const LINE: bool;
    fn make(a: Self::P, b: Self::P) -> Self;
    fn ends(&self) -> (Self::P, Self::P);
}
impl<S: Num, const N: usize> Geom for [S; N] {
    type P = [S; N];
    type S = S;
    const NAME: &'static str = "point";
    const LINE: bool = false;
    fn make(a: [S; N], _: [S; N]) -> Self {
        a
    }
    fn ends(&self) -> ([S; N], [S; N]) {
        (*self, *self)
    }
}
impl<S: Num, const N: usize> Geom for Rectangle<[S; N]> {
    type P = [S; N];
    type S = S;
    const NAME: &'static str = "rectangle";
    const LINE: bool = false;
    fn make(a: [S; N], b: [S; N]) -> Self {
        Rectangle::from_corners(a, b)
    }
    fn ends(&self) -> ([S; N], [S; N]) {
        (self.lower(), self.upper())
    }
}
impl<S: Num, const N: usize> Geom for CachedEnvelope<Rectangle<[S; N]>> {
    type P = [S; N];
    type S = S;
    const NAME: &'static str = "cached rectangle";
    const LINE: bool = false;
    fn make(a: [S; N], b: [S; N]) -> Self {
        CachedEnvelope::new(Rectangle::from_corners(a, b))
    }
    fn ends(&self) -> ([S; N], [S; N]) {
        (self.lower(), self.upper())
    }
}
impl<S: Num, const N: usize> Geom for Line<[S; N]> {
    type P = [S; N];
    type S = S;
    const NAME: &'static str = "line";
    const LINE: bool = true;
    fn make(a: [S; N], b: [S; N]) -> Self {
        Line::new(a, b)
    }
    fn ends(&self) -> ([S; N], [S; N]) {
        (self.from, self.to)
    }
}

type El<G> = GeomWithData<G, u32>;

fn d<G: Geom>() -> usize {
    G::P::DIMENSIONS
}

/// A source of coordinates
struct Coords {
    regime: usize,
    scale: Vec<f64>,
    offset: Vec<f64>,
    pool: Vec<f64>,
    max_exp: f64,
}
const REGIMES: [&str; 9] = ["uniform", "axis scales", "offset cluster", "log uniform", "few values", "tiny and signed zeros", "circle", "lattice of tenths", "mixed scales"];
impl Coords {
    fn new<G: Geom>(rng: &mut Rng, regime: usize) -> Self {
        let n = d::<G>();
        let max_exp = G::S::max_exp(n) / if G::LINE { 3.0 } else { 1.0 };
        let k = max_exp.min(12.0);
        Coords {
            regime,
            scale: (0..n).map(|_| 10f64.powf((rng.unit() * 2.0 - 1.0) * k)).collect(),
            offset: (0..n).map(|_| (rng.unit() - 0.5) * 2e6).collect(),
            pool: (0..4).map(|_| (rng.unit() - 0.5) * 10.0).collect(),
            max_exp,
        }
    }
    fn value<G: Geom>(&self, rng: &mut Rng, i: usize) -> G::S {
        let u = rng.unit() * 2.0 - 1.0;
        let x = match self.regime {
            0 => u,
            1 => u * self.scale[i],
            2 => self.offset[i] + u * 1e-3,
            3 => {
                let e = (rng.unit() * 2.0 - 1.0) * self.max_exp;
                u.signum() * 10f64.powf(e)
            }
            4 => {
                let x = G::S::of(*rng.pick(&self.pool));
                let mut x = x;
                for _ in 0..rng.below(4) {
                    x = x.up();
                }
                return x;
            }
            5 => return G::S::tiny(rng),
            7 => rng.range(-30, 30) as f64 * 0.1,
            _ => {
                let e = rng.range(-3, 3) as f64;
                u * 10f64.powf(e.max(-self.max_exp).min(self.max_exp))
            }
        };
        G::S::of(x)
    }
    fn point<G: Geom>(&self, rng: &mut Rng) -> G::P {
        if self.regime == 6 {
            let t = rng.unit() * std::f64::consts::TAU;
            let r = if rng.chance(1, 4) { 2.0 } else { 1.0 };
            let v = [t.cos() * r, t.sin() * r, 0.0, 0.0];
            return G::P::generate(|i| G::S::of(v[i]));
        }
        G::P::generate(|i| self.value::<G>(rng, i))
    }
    fn geom<G: Geom>(&self, rng: &mut Rng) -> G {
        let a = self.point::<G>(rng);
        let b = match rng.below(4) {
            0 => a.clone(),
            1 => self.point::<G>(rng),
            2 => {
                // Differs in one axis
                let axis = rng.below(d::<G>());
                let v = self.value::<G>(rng, axis);
                G::P::generate(|i| if i == axis { v } else { a.nth(i) })
            }
            _ => {
                let c = self.point::<G>(rng);
                G::P::generate(|i| G::S::of(a.nth(i).f() + (c.nth(i).f() - a.nth(i).f()) * 0.05))
            }
        };
        G::make(a, b)
    }
}

/// Squared distance in f64
fn dist<G: Geom>(g: &G, p: &G::P) -> f64 {
    let (a, b) = g.ends();
    let n = d::<G>();
    let c = |x: &G::P, i: usize| x.nth(i).f();
    if G::LINE {
        let len2: f64 = (0..n).map(|i| (c(&b, i) - c(&a, i)).powi(2)).sum();
        let dot: f64 = (0..n).map(|i| (c(p, i) - c(&a, i)) * (c(&b, i) - c(&a, i))).sum();
        let t = if len2 == 0.0 { 0.0 } else { (dot / len2).clamp(0.0, 1.0) };
        (0..n)
            .map(|i| (c(p, i) - (c(&a, i) + t * (c(&b, i) - c(&a, i)))).powi(2))
            .sum()
    } else {
        (0..n)
            .map(|i| {
                let x = c(p, i).max(c(&a, i)).min(c(&b, i));
                (c(p, i) - x).powi(2)
            })
            .sum()
    }
}

/// How far a squared distance may be off
fn tol<G: Geom>(g: &G, p: &G::P, d2: f64) -> f64 {
    let eps = G::S::EPS;
    // Squares of tiny numbers underflow
    let floor = if eps < 1e-10 { 1e-300 } else { 1e-36 };
    if G::LINE {
        let (a, b) = g.ends();
        let mut l = 0f64;
        for i in 0..d::<G>() {
            for q in [&a, &b, p] {
                l = l.max(q.nth(i).f().abs());
            }
        }
        // The projection is off by eps * l, amplified by the relative error of the dot product
        let e = 64.0 * eps * l;
        e * e + 2.0 * e * d2.sqrt() + 64.0 * eps * d2 + floor
    } else {
        64.0 * eps * d2 + floor
    }
}

struct Tree<'c, G: Geom, Pr: RTreeParams> {
    ctx: &'c mut Ctx,
    tree: RTree<El<G>, Pr>,
    live: Vec<El<G>>,
    gone: Vec<El<G>>,
    coords: Coords,
    next: u32,
    /// Queries mostly on corners of boxes
    corners: bool,
}

fn well_formed<G: Geom>(n: &ParentNode<El<G>>, root: bool, depth: usize, leaf_depth: &mut Option<usize>, out: &mut Vec<u32>) -> (G::P, G::P) {
    let mut hull: Option<(G::P, G::P)> = None;
    let (mut leaves, mut nodes) = (0, 0);
    ensure!(root || !n.children().is_empty(), "a node other than the root is empty");
    for c in n.children() {
        let (lo, hi) = match c {
            RTreeNode::Leaf(t) => {
                leaves += 1;
                out.push(t.data);
                ensure!(*leaf_depth.get_or_insert(depth) == depth, "elements at different depths");
                let (a, b) = t.geom().ends();
                (min(&a, &b), max(&a, &b))
            }
            RTreeNode::Parent(p) => {
                nodes += 1;
                well_formed::<G>(p, false, depth + 1, leaf_depth, out)
            }
        };
        hull = Some(match hull {
            None => (lo, hi),
            Some((l, h)) => (min(&l, &lo), max(&h, &hi)),
        });
    }
    ensure!(leaves == 0 || nodes == 0, "a node with both elements and nodes");
    let e = n.envelope();
    match hull {
        Some((lo, hi)) => {
            ensure!(
                (0..d::<G>()).all(|i| lo.nth(i) == e.lower().nth(i) && hi.nth(i) == e.upper().nth(i)),
                "node box {:?}..{:?} is not the smallest box {:?}..{:?} around everything below",
                e.lower(),
                e.upper(),
                lo,
                hi
            );
            (lo, hi)
        }
        None => (e.lower(), e.upper()),
    }
}
fn min<P: Point>(a: &P, b: &P) -> P {
    P::generate(|i| if a.nth(i) <= b.nth(i) { a.nth(i) } else { b.nth(i) })
}
fn max<P: Point>(a: &P, b: &P) -> P {
    P::generate(|i| if a.nth(i) >= b.nth(i) { a.nth(i) } else { b.nth(i) })
}

fn ids<'a, G: Geom>(it: impl Iterator<Item = &'a El<G>>, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = it.take(2 * n + 16).map(|t| t.data).collect();
    v.sort_unstable();
    v
}

impl<'c, G: Geom, Pr: RTreeParams> Tree<'c, G, Pr> {
    fn new(ctx: &'c mut Ctx, max_n: usize) -> Self {
        let regime = ctx.rng.below(REGIMES.len());
        let coords = Coords::new::<G>(&mut ctx.rng, regime);
        let mut t = Tree {
            ctx,
            tree: RTree::new_with_params(),
            live: vec![],
            gone: vec![],
            coords,
            next: 0,
            corners: false,
        };
        let n = match t.ctx.rng.below(8) {
            0 => t.ctx.rng.below(3),
            1 | 2 => t.ctx.rng.below(12),
            3 => max_n,
            _ => t.ctx.rng.below(max_n + 1),
        };
        let bulk = match t.ctx.rng.below(3) {
            0 => 0,
            1 => n,
            _ => t.ctx.rng.below(n + 1),
        };
        let els: Vec<El<G>> = (0..bulk).map(|_| t.element()).collect();
        t.live = els.clone();
        t.tree = RTree::bulk_load_with_params(els);
        for _ in bulk..n {
            t.insert();
        }
        t.churn(n / 4 + 2);
        t
    }
    fn element(&mut self) -> El<G> {
        let id = self.next;
        self.next += 1;
        let g = if !self.live.is_empty() && self.ctx.rng.chance(1, 10) {
            self.ctx.rng.pick(&self.live).geom().clone()
        } else {
            self.coords.geom::<G>(&mut self.ctx.rng)
        };
        GeomWithData::new(g, id)
    }
    fn insert(&mut self) {
        let e = self.element();
        self.live.push(e.clone());
        self.tree.insert(e);
    }
    fn remove_one(&mut self) {
        if self.live.is_empty() {
            return;
        }
        let i = self.ctx.rng.below(self.live.len());
        let e = self.live.swap_remove(i);
        let r = self.tree.remove(&e);
        ensure!(r.as_ref() == Some(&e), "remove of a stored {} {:?} did not return it", G::NAME, e.geom().ends());
        self.gone.push(e);
    }
    fn churn(&mut self, n: usize) {
        for _ in 0..n {
            match self.ctx.rng.below(8) {
                0..=3 => self.remove_one(),
                4..=6 => self.insert(),
                _ => {
                    if self.ctx.rng.chance(1, 4) {
                        let (q, _) = self.qbox();
                        let inside = self.ctx.rng.bit();
                        let want: Vec<u32> = self.matching(&q, inside);
                        let got: Vec<El<G>> = if inside {
                            self.tree.drain_in_envelope(q).collect()
                        } else {
                            self.tree.drain_in_envelope_intersecting(q).collect()
                        };
                        self.ctx.count("raw_drains", 1);
                        let got = ids::<G>(got.iter(), self.live.len());
                        ensure!(got == want, "drain handed out {:?} instead of {:?}", got, want);
                        let live = std::mem::take(&mut self.live);
                        for e in live {
                            if got.binary_search(&e.data).is_ok() {
                                self.gone.push(e);
                            } else {
                                self.live.push(e);
                            }
                        }
                    }
                }
            }
        }
        let n = self.live.len();
        ensure!(self.tree.size() == n, "size() is {} instead of {}", self.tree.size(), n);
    }
    fn box_of(&self, e: &El<G>) -> (G::P, G::P) {
        let (a, b) = e.geom().ends();
        (min(&a, &b), max(&a, &b))
    }
    fn qpoint(&mut self) -> G::P {
        if !self.live.is_empty() && self.ctx.rng.chance(2, 3) {
            let e = self.ctx.rng.pick(&self.live).clone();
            let (a, b) = e.geom().ends();
            match if self.corners && self.ctx.rng.bit() { 2 } else { self.ctx.rng.below(6) } {
                0 => return a,
                1 => return b,
                2 => {
                    // On a corner of the box
                    let m = self.ctx.rng.next();
                    return G::P::generate(|i| if m >> i & 1 == 0 { a.nth(i) } else { b.nth(i) });
                }
                3 => {
                    let m = self.ctx.rng.unit();
                    return G::P::generate(|i| G::S::of(a.nth(i).f() + m * (b.nth(i).f() - a.nth(i).f())));
                }
                4 => {
                    // Beside an end
                    let axis = self.ctx.rng.below(d::<G>());
                    let v = self.coords.value::<G>(&mut self.ctx.rng, axis);
                    return G::P::generate(|i| if i == axis { v } else { a.nth(i) });
                }
                _ => {
                    let x = self.ctx.rng.unit() - 0.5;
                    return G::P::generate(|i| G::S::of(b.nth(i).f() * (1.0 + x * 1e-6)));
                }
            }
        }
        if self.coords.regime == 6 && self.ctx.rng.bit() {
            return G::P::generate(|_| G::S::of(0.0));
        }
        self.coords.point::<G>(&mut self.ctx.rng)
    }
    fn qbox(&mut self) -> (AABB<G::P>, (G::P, G::P)) {
        let a = self.qpoint();
        let b = if self.ctx.rng.chance(1, 6) { a.clone() } else { self.qpoint() };
        let (lo, hi) = (min(&a, &b), max(&a, &b));
        let q = if self.ctx.rng.bit() { AABB::from_corners(a, b) } else { AABB::from_points([&a, &b]) };
        (q, (lo, hi))
    }
    fn matching(&self, q: &AABB<G::P>, inside: bool) -> Vec<u32> {
        let (ql, qh) = (q.lower(), q.upper());
        let mut v: Vec<u32> = self
            .live
            .iter()
            .filter(|e| {
                let (lo, hi) = self.box_of(e);
                (0..d::<G>()).all(|i| {
                    if inside {
                        ql.nth(i) <= lo.nth(i) && hi.nth(i) <= qh.nth(i)
                    } else {
                        ql.nth(i) <= hi.nth(i) && lo.nth(i) <= qh.nth(i)
                    }
                })
            })
            .map(|e| e.data)
            .collect();
        v.sort_unstable();
        v
    }
    fn finish(&mut self) {
        let mut out = vec![];
        well_formed::<G>(self.tree.root(), true, 0, &mut None, &mut out);
        out.sort_unstable();
        let mut want: Vec<u32> = self.live.iter().map(|e| e.data).collect();
        want.sort_unstable();
        ensure!(out == want, "the nodes hold {:?} instead of {:?}", out, want);
        if self.live.len() > 6 {
            let mut h = mix(self.ctx.seed);
            for x in want.iter().take(64) {
                h = combine(h, *x as u64);
            }
            self.ctx.fingerprints.push(h);
        }
        self.ctx.sample = format!(
            "{} {}-d {} n={} {}",
            G::NAME,
            d::<G>(),
            std::any::type_name::<G::S>(),
            self.live.len(),
            REGIMES[self.coords.regime]
        );
    }

    // ---- checks ----
    fn boxes(&mut self) {
        for _ in 0..20 {
            let (q, (lo, hi)) = self.qbox();
            let n = self.live.len();
            let inside = self.matching(&q, true);
            let touching = self.matching(&q, false);
            let a = ids::<G>(self.tree.locate_in_envelope(q.clone()), n);
            ensure!(a == inside, "locate_in_envelope({:?}..{:?}) gives {:?} instead of {:?}", lo, hi, a, inside);
            let b = ids::<G>(self.tree.locate_in_envelope_intersecting(q), n);
            ensure!(b == touching, "locate_in_envelope_intersecting({:?}..{:?}) gives {:?} instead of {:?}", lo, hi, b, touching);
            self.ctx.evals += 2;
            self.ctx.count("raw_box_queries", 2);
            self.ctx.count("raw_box_results", (a.len() + b.len()) as u64);
        }
    }
    fn points(&mut self) {
        for _ in 0..20 {
            let p = self.qpoint();
            let n = self.live.len();
            let got = ids::<G>(self.tree.locate_all_at_point(p.clone()), n);
            if !G::LINE {
                let b = AABB::from_point(p.clone());
                let want = self.matching(&b, false);
                ensure!(got == want, "locate_all_at_point({:?}) gives {:?} instead of {:?}", p, got, want);
                let one = self.tree.locate_at_point(p.clone()).map(|t| t.data);
                ensure!(one.is_some() == !want.is_empty() && one.is_none_or(|x| want.contains(&x)), "locate_at_point({:?}) gives {:?}, at that point: {:?}", p, one, want);
                self.ctx.count("raw_point_hits", !want.is_empty() as u64);
            } else {
                // The ends of a line may be missed only by rounding
                for id in &got {
                    let Some(e) = self.live.iter().find(|e| e.data == *id) else { viol!("locate_all_at_point gives a removed line") };
                    let x = dist::<G>(e.geom(), &p);
                    ensure!(x <= tol::<G>(e.geom(), &p, x), "locate_all_at_point({:?}) gives a line at squared distance {}", p, x);
                }
            }
            if let Some(e) = (!self.live.is_empty()).then(|| self.ctx.rng.pick(&self.live)) {
                ensure!(self.tree.contains(e), "contains() misses the stored {} {:?}", G::NAME, e.geom().ends());
            }
            if let Some(e) = (!self.gone.is_empty()).then(|| self.ctx.rng.pick(&self.gone)) {
                ensure!(!self.tree.contains(e), "contains() finds the removed {} {:?}", G::NAME, e.geom().ends());
            }
            self.ctx.evals += 3;
            self.ctx.count("raw_point_queries", 1);
        }
    }
    fn within(&mut self) {
        for _ in 0..15 {
            let p = self.qpoint();
            let n = self.live.len();
            let r = match self.ctx.rng.below(4) {
                0 => self.coords.value::<G>(&mut self.ctx.rng, 0).f().abs(),
                1 => 0.0,
                _ if n > 0 => {
                    let e = self.ctx.rng.pick(&self.live);
                    dist::<G>(e.geom(), &p) * *[1.0, 1.01, 0.99].get(self.ctx.index % 3).unwrap()
                }
                _ => 1.0,
            };
            let r = G::S::of(r);
            if !r.f().is_finite() {
                continue;
            }
            let got = ids::<G>(self.tree.locate_within_distance(p.clone(), r), n);
            let mut i = 0;
            let mut live: Vec<&El<G>> = self.live.iter().collect();
            live.sort_by_key(|e| e.data);
            for e in live {
                let x = dist::<G>(e.geom(), &p);
                let t = tol::<G>(e.geom(), &p, x);
                let has = got.get(i) == Some(&e.data);
                i += has as usize;
                if x < r.f() - t - 64.0 * G::S::EPS * r.f() {
                    ensure!(has, "locate_within_distance({:?}, {:?}) misses a {} at squared distance {}", p, r, G::NAME, x);
                } else if x > r.f() + t + 64.0 * G::S::EPS * r.f() {
                    ensure!(!has, "locate_within_distance({:?}, {:?}) returns a {} at squared distance {}", p, r, G::NAME, x);
                }
            }
            ensure!(i == got.len(), "locate_within_distance returns {:?}: something twice or not stored", got);
            self.ctx.evals += 1;
            self.ctx.count("raw_distance_queries", 1);
            self.ctx.count("raw_distance_results", got.len() as u64);
        }
    }
    fn find(&self, id: u32) -> &El<G> {
        match self.live.iter().find(|e| e.data == id) {
            Some(e) => e,
            None => viol!("an element that is not stored was returned"),
        }
    }
    fn nearest(&mut self) {
        for _ in 0..12 {
            let p = self.qpoint();
            let all: Vec<(f64, u32)> = self.live.iter().map(|e| (dist::<G>(e.geom(), &p), e.data)).collect();
            let one = self.tree.nearest_neighbor_with_distance_2(p.clone()).map(|(e, x)| (e.data, x));
            let plain = self.tree.nearest_neighbor(p.clone()).map(|e| e.data);
            let ties = self.tree.nearest_neighbors(&p).iter().map(|e| e.data).collect::<Vec<_>>();
            self.ctx.evals += 3;
            self.ctx.count("raw_nn_queries", 1);
            let Some(best) = all.iter().map(|x| x.0).min_by(f64::total_cmp) else {
                ensure!(one.is_none() && plain.is_none() && ties.is_empty(), "an empty tree returns a nearest neighbor");
                continue;
            };
            ensure!(one.is_some(), "nearest_neighbor_with_distance_2({:?}) on a tree of {} {}s returns nothing", p, all.len(), G::NAME);
            ensure!(plain.is_some(), "nearest_neighbor({:?}) on a tree of {} {}s returns nothing", p, all.len(), G::NAME);
            ensure!(!ties.is_empty(), "nearest_neighbors({:?}) on a tree of {} {}s returns nothing", p, all.len(), G::NAME);
            // Ties: tolerance is that of the worst element around
            for (what, id) in [("nearest_neighbor_with_distance_2", one.unwrap().0), ("nearest_neighbor", plain.unwrap())].into_iter().chain(ties.iter().map(|t| ("nearest_neighbors", *t))) {
                let e = self.find(id);
                let x = dist::<G>(e.geom(), &p);
                let b = self.live.iter().filter(|e| dist::<G>(e.geom(), &p) <= best).map(|e| tol::<G>(e.geom(), &p, best)).fold(0.0, f64::max);
                ensure!(
                    x <= best + tol::<G>(e.geom(), &p, x) + b,
                    "{}({:?}) returns a {} at squared distance {} although the nearest is at {}",
                    what,
                    p,
                    G::NAME,
                    x,
                    best
                );
            }
            let (id, reported) = one.unwrap();
            let e = self.find(id);
            let x = dist::<G>(e.geom(), &p);
            ensure!((x - reported.f()).abs() <= tol::<G>(e.geom(), &p, x), "nearest_neighbor_with_distance_2 reports {:?} for a {} at {}", reported, G::NAME, x);
            // Elements with the same geometry are at the same distance
            let mut t = ties.clone();
            t.sort_unstable();
            let k = t.len();
            t.dedup();
            ensure!(t.len() == k, "nearest_neighbors returns {:?}", ties);
            let g = self.find(ties[0]).geom().clone();
            for e in &self.live {
                ensure!(*e.geom() != g || t.binary_search(&e.data).is_ok(), "nearest_neighbors({:?}) misses a {} equal to one it returns", p, G::NAME);
            }
        }
    }
    fn ordered(&mut self) {
        for _ in 0..6 {
            let p = self.qpoint();
            let n = self.live.len();
            let seq: Vec<(u32, G::S)> = self.tree.nearest_neighbor_iter_with_distance_2(p.clone()).take(2 * n + 16).map(|(e, x)| (e.data, x)).collect();
            let plain: Vec<u32> = self.tree.nearest_neighbor_iter(p.clone()).take(2 * n + 16).map(|e| e.data).collect();
            let mut a: Vec<u32> = seq.iter().map(|x| x.0).collect();
            a.sort_unstable();
            let mut b = plain.clone();
            b.sort_unstable();
            let want = ids::<G>(self.live.iter(), n);
            ensure!(a == want, "nearest_neighbor_iter_with_distance_2 yields {:?} instead of {:?}", a, want);
            ensure!(b == want, "nearest_neighbor_iter yields {:?} instead of {:?}", b, want);
            let by_id: std::collections::HashMap<u32, &El<G>> = self.live.iter().map(|e| (e.data, e)).collect();
            let mut top = 0f64;
            let mut top_tol = 0f64;
            for (id, x) in &seq {
                let e = by_id[id];
                let y = dist::<G>(e.geom(), &p);
                let t = tol::<G>(e.geom(), &p, y);
                ensure!((y - x.f()).abs() <= t, "the iteration reports {:?} for a {} at {}", x, G::NAME, y);
                let slack = if G::LINE { t + top_tol } else { 0.0 };
                ensure!(x.f() >= top - slack, "the iteration goes back from {} to {:?}", top, x);
                if x.f() > top {
                    top = x.f();
                }
                top_tol = top_tol.max(t);
            }
            let mut top = 0f64;
            let mut top_tol = 0f64;
            for id in &plain {
                let e = by_id[id];
                let y = dist::<G>(e.geom(), &p);
                let t = tol::<G>(e.geom(), &p, y);
                ensure!(y >= top - t - top_tol, "nearest_neighbor_iter goes back from {} to {}", top, y);
                top = top.max(y);
                top_tol = top_tol.max(t);
            }
            self.ctx.evals += 2;
            self.ctx.count("raw_iterations", 2);
            self.ctx.count("raw_iterated", 2 * n as u64);
        }
    }
    fn pops(&mut self) {
        for _ in 0..8 {
            let p = self.qpoint();
            let best = self.live.iter().map(|e| dist::<G>(e.geom(), &p)).min_by(f64::total_cmp);
            let b = self.live.iter().filter(|e| dist::<G>(e.geom(), &p) <= best.unwrap()).map(|e| tol::<G>(e.geom(), &p, best.unwrap())).fold(0.0, f64::max);
            let r = self.tree.pop_nearest_neighbor(p.clone());
            self.ctx.evals += 1;
            self.ctx.count("raw_pops", 1);
            match (best, r) {
                (None, None) => {}
                (Some(best), Some(e)) => {
                    let x = dist::<G>(e.geom(), &p);
                    ensure!(x <= best + tol::<G>(e.geom(), &p, x) + b, "pop_nearest_neighbor({:?}) returns a {} at {} although the nearest is at {}", p, G::NAME, x, best);
                    let Some(i) = self.live.iter().position(|f| *f == e) else { viol!("pop_nearest_neighbor returned something not stored") };
                    self.live.swap_remove(i);
                    self.gone.push(e);
                }
                (b, r) => viol!("pop_nearest_neighbor({:?}) on {} {}s: nearest at {:?}, returned something: {}", p, self.live.len(), G::NAME, b, r.is_some()),
            }
            ensure!(self.tree.size() == self.live.len(), "size() is wrong after pop_nearest_neighbor");
        }
    }
}

fn session<G: Geom, Pr: RTreeParams>(ctx: &mut Ctx, focus: &str) {
    let max_n = if ctx.index % 16 == 0 { 800 } else { 120 };
    let mut t = Tree::<G, Pr>::new(ctx, max_n);
    match focus {
        "boxes" => t.boxes(),
        "points" => t.points(),
        "within" => t.within(),
        "nearest" => t.nearest(),
        "corners" => {
            t.corners = true;
            for _ in 0..5 {
                t.nearest();
                t.churn(8);
            }
        }
        "ordered" => t.ordered(),
        "pops" => t.pops(),
        "history" => {
            for _ in 0..20 {
                let k = 1 + t.live.len() / 20;
                t.churn(k);
                let mut out = vec![];
                well_formed::<G>(t.tree.root(), true, 0, &mut None, &mut out);
                t.ctx.evals += 1;
                t.ctx.count("raw_structure_checks", 1);
            }
        }
        _ => unreachable!(),
    }
    t.finish();
}

fn any(ctx: &mut Ctx, focus: &str) {
    match ctx.rng.below(11) {
        0 => session::<[f64; 2], Df>(ctx, focus),
        1 => session::<Rectangle<[f64; 2]>, Df>(ctx, focus),
        2 => session::<Rectangle<[f64; 3]>, Pm<2, 4, 1>>(ctx, focus),
        3 => session::<[f32; 2], Df>(ctx, focus),
        4 => session::<Rectangle<[f32; 3]>, Pm<1, 4, 2>>(ctx, focus),
        5 => session::<Line<[f64; 2]>, Df>(ctx, focus),
        6 => session::<Line<[f64; 3]>, Pm<1, 4, 1>>(ctx, focus),
        7 => session::<Line<[f32; 2]>, Pm<2, 4, 1>>(ctx, focus),
        8 => session::<[f64; 4], Pm<5, 10, 4>>(ctx, focus),
        9 => session::<CachedEnvelope<Rectangle<[f64; 2]>>, Pm<2, 5, 1>>(ctx, focus),
        _ => session::<[f32; 3], Df>(ctx, focus),
    }
}

// ---- numbers over their full range ------------------------------------------------------------------
//
// Areas and distances of wrapping integers wrap around, so the heuristics decide arbitrarily; everything
// that only compares coordinates still has to be exact. Trees of other numbers are only bulk loaded here,
// which involves no products; sums and differences of two coordinates do not overflow.

type WEl<S, const N: usize> = GeomWithData<Rectangle<[S; N]>, u32>;

macro_rules! full {
    ($name:ident, $s:ty, $n:expr, $pr:ty, $insert:expr, $ends:expr, $any:expr) => {
        fn $name(ctx: &mut Ctx) {
            const N: usize = $n;
            type P = [$s; N];
            let ends: [$s; 4] = $ends;
            let value = |rng: &mut Rng| -> $s {
                match rng.below(6) {
                    0 => ends[0],
                    1 => ends[1],
                    2 => *rng.pick(&ends),
                    _ => ($any)(rng),
                }
            };
            let min = |a: $s, b: $s| if b < a { b } else { a };
            let max = |a: $s, b: $s| if b > a { b } else { a };
            let n = match ctx.rng.below(4) {
                0 => ctx.rng.below(10),
                _ => ctx.rng.below(200),
            };
            let el = |rng: &mut Rng, id: u32| -> (P, P, WEl<$s, N>) {
                let a: P = std::array::from_fn(|_| value(rng));
                let small = rng.bit();
                let b: P = std::array::from_fn(|i| if small { a[i] } else { value(rng) });
                let lo: P = std::array::from_fn(|i| min(a[i], b[i]));
                let hi: P = std::array::from_fn(|i| max(a[i], b[i]));
                (lo, hi, GeomWithData::new(Rectangle::from_corners(a, b), id))
            };
            let mut live: Vec<(P, P, WEl<$s, N>)> = vec![];
            let bulk = if !$insert { n } else if ctx.rng.bit() { ctx.rng.below(n + 1) } else { 0 };
            for i in 0..bulk {
                live.push(el(&mut ctx.rng, i as u32));
            }
            let mut tree: RTree<WEl<$s, N>, $pr> = RTree::bulk_load_with_params(live.iter().map(|e| e.2.clone()).collect());
            for i in bulk..n {
                let e = el(&mut ctx.rng, i as u32);
                tree.insert(e.2.clone());
                live.push(e);
                if ctx.rng.chance(1, 3) {
                    let k = ctx.rng.below(live.len());
                    let e = live.swap_remove(k);
                    ensure!(tree.remove(&e.2).is_some_and(|r| r == e.2), "remove of a stored element failed");
                    ctx.count("full_range_removals", 1);
                }
            }
            ensure!(tree.size() == live.len(), "size() is {} instead of {}", tree.size(), live.len());
            if !$insert {
                for _ in 0..ctx.rng.below(1 + n / 4) {
                    let k = ctx.rng.below(live.len());
                    let e = live.swap_remove(k);
                    ensure!(tree.remove(&e.2).is_some_and(|r| r == e.2), "remove of a stored element failed");
                    ctx.count("full_range_removals", 1);
                }
            }
            let mut dumped = vec![];
            fn walk(n: &ParentNode<WEl<$s, N>>, depth: usize, at: &mut Option<usize>, out: &mut Vec<u32>) {
                for c in n.children() {
                    let e = c.envelope();
                    ensure!(n.envelope().contains_envelope(&e), "a node box does not contain what is below it");
                    match c {
                        RTreeNode::Leaf(t) => {
                            ensure!(*at.get_or_insert(depth) == depth, "elements at different depths");
                            out.push(t.data)
                        }
                        RTreeNode::Parent(p) => walk(p, depth + 1, at, out),
                    }
                }
            }
            walk(tree.root(), 0, &mut None, &mut dumped);
            dumped.sort_unstable();
            let mut want: Vec<u32> = live.iter().map(|e| e.2.data).collect();
            want.sort_unstable();
            ensure!(dumped == want, "the tree holds {:?} instead of {:?}", dumped, want);
            for _ in 0..20 {
                let (ql, qh, q) = el(&mut ctx.rng, 0);
                let q: AABB<P> = q.envelope();
                for inside in [false, true] {
                    let mut want: Vec<u32> = live
                        .iter()
                        .filter(|(lo, hi, _)| {
                            (0..N).all(|i| if inside { ql[i] <= lo[i] && hi[i] <= qh[i] } else { ql[i] <= hi[i] && lo[i] <= qh[i] })
                        })
                        .map(|e| e.2.data)
                        .collect();
                    want.sort_unstable();
                    let mut got: Vec<u32> = if inside {
                        tree.locate_in_envelope(q).take(2 * n + 9).map(|t| t.data).collect()
                    } else {
                        tree.locate_in_envelope_intersecting(q).take(2 * n + 9).map(|t| t.data).collect()
                    };
                    got.sort_unstable();
                    ensure!(got == want, "box query {:?}..{:?} gives {:?} instead of {:?}", ql, qh, got, want);
                    ctx.count("full_range_queries", 1);
                    ctx.evals += 1;
                }
                if let Some(e) = (!live.is_empty()).then(|| ctx.rng.pick(&live)) {
                    ensure!(tree.contains(&e.2), "contains() misses a stored element");
                }
            }
            if ctx.rng.chance(1, 4) {
                let want = live
                    .iter()
                    .map(|(l, h, _)| live.iter().filter(|(l2, h2, _)| (0..N).all(|i| l[i] <= h2[i] && l2[i] <= h[i])).count())
                    .sum::<usize>();
                let other = RTree::bulk_load(live.iter().map(|e| e.2.clone()).collect());
                let got = tree.intersection_candidates_with_other_tree(&other).take(want + 9).count();
                ensure!(got == want, "the tree joined with its like gives {} pairs instead of {}", got, want);
                ctx.count("full_range_joins", 1);
            }
            if ctx.rng.bit() {
                let (ql, qh, q) = el(&mut ctx.rng, 0);
                let cut = *ctx.rng.pick(&[0, 1, 2, 5, usize::MAX]);
                let got: Vec<u32> = tree.drain_in_envelope_intersecting(q.envelope()).take(cut).map(|t| t.data).collect();
                for id in &got {
                    let Some(k) = live.iter().position(|e| e.2.data == *id) else { viol!("the drain yields #{} which is not there", id) };
                    let (lo, hi, _) = live.swap_remove(k);
                    ensure!((0..N).all(|i| ql[i] <= hi[i] && lo[i] <= qh[i]), "the drain yields #{} which is not selected", id);
                }
                ensure!(tree.size() == live.len(), "size() is {} instead of {} after a drain", tree.size(), live.len());
                ensure!(live.iter().all(|e| tree.contains(&e.2)), "an element is gone after a drain");
                if got.len() < cut {
                    ensure!(tree.locate_in_envelope_intersecting(q.envelope()).next().is_none(), "the drain has left a selected element");
                }
                ctx.count("full_range_drains", 1);
            }
            if live.len() > 6 {
                ctx.fingerprints.push(mix(ctx.seed));
            }
            ctx.sample = format!("full range {} {}-d n={}", stringify!($s), N, live.len());
        }
    };
}
macro_rules! wrapping_full {
    ($name:ident, $s:ty, $n:expr, $pr:ty) => {
        full!(
            $name,
            Wrapping<$s>,
            $n,
            $pr,
            true,
            [Wrapping(<$s>::MIN), Wrapping(<$s>::MAX), Wrapping(0), Wrapping(-1)],
            |rng: &mut Rng| Wrapping(rng.next() as $s)
        );
    };
}
macro_rules! plain_full {
    ($name:ident, $s:ty, $n:expr, $pr:ty) => {
        full!($name, $s, $n, $pr, false, [<$s>::MIN / 2, <$s>::MAX / 2, 0, -1], |rng: &mut Rng| rng.next() as $s / 2);
    };
}
wrapping_full!(w8, i8, 2, Df);
wrapping_full!(w16, i16, 3, Pm<2, 4, 1>);
wrapping_full!(w32, i32, 2, Pm<1, 5, 3>);
wrapping_full!(w64, i64, 4, Df);
plain_full!(p8, i8, 2, Df);
plain_full!(p32, i32, 3, Pm<2, 4, 1>);
plain_full!(p64, i64, 2, Pm<1, 5, 3>);
plain_full!(p128, i128, 2, Df);
full!(pf64, f64, 2, Df, false, [f64::MIN / 2.0, f64::MAX / 2.0, 0.0, -f64::MIN_POSITIVE], |rng: &mut Rng| {
    let x = f64::from_bits(rng.next());
    if x.is_finite() {
        x / 2.0
    } else {
        1.0
    }
});
full!(pf32, f32, 3, Pm<2, 4, 1>, false, [f32::MIN / 2.0, f32::MAX / 2.0, 0.0, -f32::MIN_POSITIVE], |rng: &mut Rng| {
    let x = f32::from_bits(rng.next() as u32);
    if x.is_finite() {
        x / 2.0
    } else {
        1.0
    }
});
fn full_range(ctx: &mut Ctx) {
    match ctx.index % 10 {
        0 => w8(ctx),
        1 => w16(ctx),
        2 => w32(ctx),
        3 => w64(ctx),
        4 => p8(ctx),
        5 => p32(ctx),
        6 => p64(ctx),
        7 => p128(ctx),
        8 => pf64(ctx),
        _ => pf32(ctx),
    }
}

// ---- elements without extent, whose box is empty ---------------------------------------------------
//
// Such as an empty collection of points. They are nowhere, but they are stored.

#[derive(Clone, Debug, PartialEq)]
struct Hollow<S, const N: usize> {
    points: Vec<[S; N]>,
    id: u32,
}
impl<S: Num, const N: usize> RTreeObject for Hollow<S, N> {
    type Envelope = AABB<[S; N]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_points(&self.points)
    }
}
impl<S: Num, const N: usize> PointDistance for Hollow<S, N> {
    fn distance_2(&self, p: &[S; N]) -> S {
        self.points.iter().map(|q| q.distance_2(p)).fold(S::max_value(), |a, b| if b < a { b } else { a })
    }
    fn contains_point(&self, p: &[S; N]) -> bool {
        self.points.contains(p)
    }
}

fn hollow_session<S: Num, const N: usize, Pr: RTreeParams>(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(1, 3) { ctx.rng.below(12) } else { ctx.rng.below(150) };
    let share = *ctx.rng.pick(&[1, 2, 5, 10]);
    // Far from the origin, where the center of an empty box would be, or around it
    let offset = *ctx.rng.pick(&[0.0, 1000.0, -5000.0]);
    let el = |rng: &mut Rng, id: u32| {
        let k = if rng.chance(share, 10) { 0 } else { 1 + rng.below(3) };
        Hollow { points: (0..k).map(|_| std::array::from_fn(|_| S::of(offset + rng.range(-50, 50) as f64))).collect(), id }
    };
    let bulk = match ctx.rng.below(3) {
        0 => 0,
        1 => n,
        _ => ctx.rng.below(n + 1),
    };
    let mut live: Vec<Hollow<S, N>> = (0..bulk).map(|i| el(&mut ctx.rng, i as u32)).collect();
    let mut tree: RTree<Hollow<S, N>, Pr> = RTree::bulk_load_with_params(live.clone());
    let mut next = bulk as u32;
    fn walk<S: Num, const N: usize>(n: &ParentNode<Hollow<S, N>>, root: bool, depth: usize, at: &mut Option<usize>, out: &mut Vec<u32>) {
        ensure!(root || !n.children().is_empty(), "a node other than the root is empty");
        let mut e = AABB::<[S; N]>::new_empty();
        for c in n.children() {
            e.merge(&c.envelope());
            match c {
                RTreeNode::Leaf(t) => {
                    ensure!(*at.get_or_insert(depth) == depth, "elements at different depths");
                    out.push(t.id)
                }
                RTreeNode::Parent(p) => walk(p, false, depth + 1, at, out),
            }
        }
        ensure!(e == n.envelope(), "a node's box is not the smallest around what is below it");
    }
    for step in 0..n + 20 {
        match ctx.rng.below(8) {
            0..=3 if live.len() < n || live.is_empty() => {
                let e = el(&mut ctx.rng, next);
                next += 1;
                tree.insert(e.clone());
                live.push(e);
            }
            4 if !live.is_empty() => {
                let k = ctx.rng.below(live.len());
                let e = live.swap_remove(k);
                ensure!(tree.remove(&e).is_some_and(|r| r == e), "remove() of the stored element {:?} failed", e);
                ensure!(tree.remove(&e).is_none(), "remove() finds {:?} a second time", e);
                ctx.count("hollow_removals", e.points.is_empty() as u64);
            }
            5 => {
                let e = el(&mut ctx.rng, u32::MAX);
                ensure!(!tree.contains(&e) && tree.remove(&e).is_none(), "an element is found that is not stored: {:?}", e);
            }
            6 => {
                let q = AABB::from_corners(std::array::from_fn(|_| S::of(offset - 20.0)), std::array::from_fn(|_| S::of(offset + ctx.rng.range(-50, 50) as f64)));
                let mut got: Vec<u32> = tree.locate_in_envelope_intersecting(q).map(|t| t.id).collect();
                got.sort_unstable();
                let mut want: Vec<u32> = live.iter().filter(|t| !t.points.is_empty() && t.envelope().intersects(&q)).map(|t| t.id).collect();
                want.sort_unstable();
                ensure!(got == want, "elements meeting a box are {:?} instead of {:?}", got, want);
            }
            _ if !live.is_empty() => {
                let e = ctx.rng.pick(&live);
                ensure!(tree.contains(e), "contains() misses the stored element {:?}", e);
                let x = Hollow { points: e.points.clone(), id: u32::MAX };
                ensure!(!tree.contains(&x), "contains() finds {:?} which is not stored", x);
                if let Some(p) = e.points.first() {
                    let want = live.iter().filter(|t| t.points.contains(p)).count();
                    ensure!(tree.locate_all_at_point(*p).count() == want, "the elements at {:?} are not {}", p, want);
                }
                ctx.count("hollow_memberships", e.points.is_empty() as u64);
                ctx.evals += 1;
            }
            _ => {}
        }
        if step % 5 == 0 || step + 1 == n + 20 {
            let mut got = vec![];
            walk(tree.root(), true, 0, &mut None, &mut got);
            got.sort_unstable();
            let mut want: Vec<u32> = live.iter().map(|t| t.id).collect();
            want.sort_unstable();
            ensure!(got == want && tree.size() == want.len(), "the tree holds {:?} (size {}) instead of {:?}", got, tree.size(), want);
        }
    }
    for e in &live {
        ensure!(tree.contains(e), "contains() misses the stored element {:?}", e);
        ctx.evals += 1;
    }
    let cut = ctx.rng.below(live.len() + 2);
    let got: Vec<_> = tree.drain().take(cut).collect();
    for e in &got {
        let Some(k) = live.iter().position(|x| x == e) else { viol!("the drain yields {:?} which is not stored", e) };
        live.swap_remove(k);
    }
    ensure!(got.len() == cut || live.is_empty(), "the drain has left {} elements", live.len());
    ensure!(tree.size() == live.len() && live.iter().all(|e| tree.contains(e)), "elements are gone after a drain");
    for e in &live {
        ensure!(tree.remove(e).is_some(), "remove() of the stored element {:?} failed", e);
    }
    ensure!(tree.size() == 0 && tree.iter().next().is_none(), "the tree is not empty after removing everything");
    if n > 6 {
        ctx.fingerprints.push(mix(ctx.seed));
    }
    ctx.sample = format!("elements with empty boxes {}-d n={} share {}/10", N, n, share);
}
fn hollow(ctx: &mut Ctx) {
    match ctx.index % 4 {
        0 => hollow_session::<f64, 2, Df>(ctx),
        1 => hollow_session::<f32, 3, Pm<2, 4, 1>>(ctx),
        2 => hollow_session::<f64, 2, Pm<1, 5, 3>>(ctx),
        _ => hollow_session::<f64, 4, Pm<3, 6, 0>>(ctx),
    }
}

fn boxes(c: &mut Ctx) {
    any(c, "boxes")
}
fn points(c: &mut Ctx) {
    any(c, "points")
}
fn within(c: &mut Ctx) {
    any(c, "within")
}
fn nearest(c: &mut Ctx) {
    any(c, "nearest")
}
/// Lines, and queries at corners of their boxes: the distance of an element can exceed the bounds
/// derived from boxes by rounding
fn corners(c: &mut Ctx) {
    match c.rng.below(4) {
        0 => session::<Line<[f64; 2]>, Df>(c, "corners"),
        1 => session::<Line<[f64; 3]>, Pm<1, 4, 1>>(c, "corners"),
        2 => session::<Line<[f32; 2]>, Pm<2, 4, 1>>(c, "corners"),
        _ => session::<Line<[f32; 2]>, Pm<1, 4, 2>>(c, "corners"),
    }
}
fn ordered(c: &mut Ctx) {
    any(c, "ordered")
}
fn pops(c: &mut Ctx) {
    any(c, "pops")
}
fn history(c: &mut Ctx) {
    any(c, "history")
}

const RAW: &str = "trees of points, rectangles and lines over arbitrary f32/f64 coordinates in 9 regimes (axis scales 1e-12..1e12, log-uniform up to the overflow limit, neighbouring floats, subnormals and signed zeros, circles, ...), built by bulk loading, insertion, removal and draining; box and point answers compared exactly, distances up to rounding; non-trivial: more than 6 elements";

fn main() {
    let p = |id, scenarios, required| Property { id, rule: RAW, scenarios, required };
    harness::runner::main(vec![
        p("C02", vec![sc("raw-history", 20_000, 400_000, history), sc("empty-boxes", 1_000, 20_000, hollow)], &[("hollow_removals", 1_000), ("raw_structure_checks", 10_000), ("raw_drains", 100)]),
        p("C04", vec![sc("raw-boxes", 20_000, 400_000, boxes), sc("full-range", 3000, 60_000, full_range)], &[("raw_box_queries", 20_000), ("raw_box_results", 10_000), ("full_range_queries", 2000)]),
        p("C05", vec![sc("raw-points", 20_000, 400_000, points), sc("empty-boxes", 3_000, 60_000, hollow)], &[("hollow_memberships", 10_000), ("raw_point_queries", 10_000), ("raw_point_hits", 3_000)]),
        p("C06", vec![sc("raw-within", 20_000, 400_000, within)], &[("raw_distance_queries", 10_000), ("raw_distance_results", 10_000)]),
        p("C07", vec![sc("raw-nearest", 8000, 200_000, nearest), sc("raw-corners", 6_000, 200_000, corners)], &[("raw_nn_queries", 10_000)]),
        p("C08", vec![sc("raw-ordered", 20_000, 400_000, ordered)], &[("raw_iterations", 5_000), ("raw_iterated", 100_000)]),
        p("C09", vec![sc("raw-pops", 20_000, 400_000, pops), sc("empty-boxes", 2_000, 40_000, hollow)], &[("hollow_removals", 3_000), ("raw_pops", 5_000)]),
        p("C24", vec![sc("full-range", 1000, 20_000, full_range), sc("raw-boxes", 800, 10_000, boxes), sc("raw-nearest", 600, 10_000, nearest)], &[("full_range_queries", 5000), ("full_range_removals", 5000)]),
    ]);
}
