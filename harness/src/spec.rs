//! Elements and queries as seen by the oracles: exact geometry on an integer grid.
//!
//! Nothing in here uses rstar: the answers a tree has to give are computed with i128 arithmetic
//! from these descriptions.

pub const MAXD: usize = 10;
/// Grid coordinates (unused dimensions are zero)
pub type V = [i64; MAXD];
/// Unbounded sides of query boxes
pub const NEG: i64 = i64::MIN;
pub const POS: i64 = i64::MAX;
/// Squared distances are fixed point numbers with FRAC fractional bits (lines need them)
pub const FRAC: u32 = 16;
pub type D2 = i128;
pub const D2_INF: D2 = D2::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    /// The box itself (also points)
    Box,
    /// A set of points
    Cloud(Vec<V>),
    /// A line segment with an exactly computable projection
    Line(V, V),
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub id: u32,
    /// What observations are compared by: the id, or for bare geometries (which carry no id) the
    /// id of the first element with equal geometry.
    pub key: u32,
    pub class: u8,
    pub lo: V,
    pub hi: V,
    pub shape: Shape,
}

#[derive(Clone, Debug, PartialEq)]
pub struct QBox {
    pub lo: V,
    pub hi: V,
    pub empty: bool,
    /// Which constructor the adapter uses
    pub ctor: u8,
}

pub fn box_dist(d: usize, lo: &V, hi: &V, p: &V) -> D2 {
    let mut s: D2 = 0;
    for i in 0..d {
        let c = p[i].max(lo[i]).min(hi[i]);
        let x = (p[i] - c) as i128;
        s += x * x;
    }
    s << FRAC
}

pub fn pt_dist(d: usize, a: &V, b: &V) -> D2 {
    (0..d)
        .map(|i| {
            let x = (a[i] - b[i]) as i128;
            x * x
        })
        .sum::<i128>()
        << FRAC
}

impl Spec {
    pub fn dist2(&self, d: usize, p: &V) -> D2 {
        match &self.shape {
            Shape::Box => box_dist(d, &self.lo, &self.hi, p),
            Shape::Cloud(pts) => pts.iter().map(|q| pt_dist(d, q, p)).min().unwrap(),
            Shape::Line(a, b) => {
                let (mut dot, mut len2) = (0i128, 0i128);
                for i in 0..d {
                    let dir = (b[i] - a[i]) as i128;
                    dot += (p[i] - a[i]) as i128 * dir;
                    len2 += dir * dir;
                }
                if len2 == 0 || dot <= 0 {
                    pt_dist(d, a, p)
                } else if dot >= len2 {
                    pt_dist(d, b, p)
                } else {
                    let f = pt_dist(d, a, p) * len2 - ((dot * dot) << FRAC);
                    assert!(f % len2 == 0, "harness: inexact line");
                    f / len2
                }
            }
        }
    }
    pub fn contains(&self, d: usize, p: &V) -> bool {
        match &self.shape {
            Shape::Box => (0..d).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i]),
            Shape::Cloud(pts) => pts.iter().any(|q| (0..d).all(|i| q[i] == p[i])),
            Shape::Line(..) => self.dist2(d, p) == 0,
        }
    }
    pub fn same_geometry(&self, o: &Spec) -> bool {
        self.lo == o.lo && self.hi == o.hi && self.shape == o.shape
    }
    /// What PartialEq says about the two elements
    pub fn equal(&self, o: &Spec) -> bool {
        self.class == o.class && self.same_geometry(o)
    }
    pub fn inside(&self, d: usize, q: &QBox) -> bool {
        !q.empty && (0..d).all(|i| q.lo[i] <= self.lo[i] && self.hi[i] <= q.hi[i])
    }
    pub fn intersects(&self, d: usize, q: &QBox) -> bool {
        !q.empty && (0..d).all(|i| q.lo[i] <= self.hi[i] && self.lo[i] <= q.hi[i])
    }
}
