//! Element kinds: how the descriptions in `spec` become elements of a tree and back.
use crate::scalar::{Grid, HScalar};
use crate::spec::*;
use crate::viol;
use rstar::primitives::*;
use rstar::{Envelope, Point, PointDistance, RTreeObject, AABB};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

pub type Sc<P> = <P as Point>::Scalar;

pub fn mkp<P: Point>(v: &V, g: Grid) -> P
where
    P::Scalar: HScalar,
{
    P::generate(|i| HScalar::from_grid(v[i], g))
}

pub fn rdp<P: Point>(p: &P, g: Grid) -> V
where
    P::Scalar: HScalar,
{
    let mut v = [0; MAXD];
    for (i, x) in v.iter_mut().enumerate().take(P::DIMENSIONS) {
        *x = p.nth(i).to_grid(g);
    }
    v
}

pub fn rdbox<P: Point>(b: &AABB<P>, g: Grid) -> (V, V)
where
    P::Scalar: HScalar,
{
    (rdp(&b.lower(), g), rdp(&b.upper(), g))
}

/// A query box, built through one of the public constructors
pub fn mkbox<P: Point>(q: &QBox, g: Grid) -> AABB<P>
where
    P::Scalar: HScalar,
{
    if q.empty {
        return match q.ctor & 1 {
            0 => AABB::new_empty(),
            _ => AABB::from_points(std::iter::empty::<&P>()),
        };
    }
    let (lo, hi): (P, P) = (mkp(&q.lo, g), mkp(&q.hi, g));
    match q.ctor {
        0 => AABB::from_corners(lo, hi),
        1 => AABB::from_corners(hi, lo),
        2 => AABB::from_bounds(lo, hi),
        3 => AABB::from_points([&lo, &hi, &lo]),
        4 => {
            // Two other opposite corners
            let a = P::generate(|i| if i % 2 == 0 { lo.nth(i) } else { hi.nth(i) });
            let b = P::generate(|i| if i % 2 == 0 { hi.nth(i) } else { lo.nth(i) });
            AABB::from_corners(a, b)
        }
        _ => AABB::from_point(lo).merged(&AABB::from_point(hi)),
    }
}

/// Which shapes a kind needs
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ShapeKind {
    Point,
    Rect,
    Cloud,
    Line,
}

/// Data attached to elements. Equality only looks at the class, so that different elements can be
/// equal; identity is observed through the id.
#[derive(Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Tag {
    pub id: u32,
    pub class: u8,
    pub payload: u32,
    /// Derived from id; shows an element was not put together from two others
    pub check: u64,
    pub text: String,
}

impl Tag {
    pub fn new(s: &Spec) -> Self {
        Tag {
            id: s.id,
            class: s.class,
            payload: 0,
            check: crate::rng::mix(s.id as u64),
            text: String::new(),
        }
    }
}
impl PartialEq for Tag {
    fn eq(&self, o: &Self) -> bool {
        self.class == o.class
    }
}
impl Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}#", self.id)
    }
}

/// Geometries
pub trait Geo: 'static {
    type P: Point<Scalar = Self::S> + 'static;
    type S: HScalar;
    type T: PointDistance<Envelope = AABB<Self::P>> + Clone + PartialEq + Debug + 'static;
    const SHAPE: ShapeKind;
    fn build(s: &Spec, g: Grid) -> Self::T;
    /// lower, upper and all points the shape is defined by
    fn read(t: &Self::T, g: Grid) -> (V, V, Shape);
}

pub struct Pt<P>(P);
impl<P: Point + 'static> Geo for Pt<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    type T = P;
    const SHAPE: ShapeKind = ShapeKind::Point;
    fn build(s: &Spec, g: Grid) -> P {
        mkp(&s.lo, g)
    }
    fn read(t: &P, g: Grid) -> (V, V, Shape) {
        let v = rdp(t, g);
        (v, v, Shape::Box)
    }
}

pub struct Rect<P>(P);
impl<P: Point + 'static> Geo for Rect<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    type T = Rectangle<P>;
    const SHAPE: ShapeKind = ShapeKind::Rect;
    fn build(s: &Spec, g: Grid) -> Rectangle<P> {
        let (lo, hi): (P, P) = (mkp(&s.lo, g), mkp(&s.hi, g));
        match s.id % 3 {
            0 => Rectangle::from_corners(lo, hi),
            1 => Rectangle::from_corners(hi, lo),
            _ => Rectangle::from_aabb(AABB::from_corners(lo, hi)),
        }
    }
    fn read(t: &Rectangle<P>, g: Grid) -> (V, V, Shape) {
        (rdp(&t.lower(), g), rdp(&t.upper(), g), Shape::Box)
    }
}

/// A user-defined object made of several points. It uses the default implementations of
/// `contains_point` and `distance_2_if_less_or_equal`, and its distance differs from that of its box.
#[derive(Clone, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct CloudT<P> {
    pub pts: Vec<P>,
}
impl<P: Point> RTreeObject for CloudT<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        let d = P::DIMENSIONS;
        let (mut lo, mut hi) = (self.pts[0].clone(), self.pts[0].clone());
        for p in &self.pts {
            for i in 0..d {
                if p.nth(i) < lo.nth(i) {
                    *lo.nth_mut(i) = p.nth(i);
                }
                if p.nth(i) > hi.nth(i) {
                    *hi.nth_mut(i) = p.nth(i);
                }
            }
        }
        AABB::from_corners(lo, hi)
    }
}
impl<P: Point> PointDistance for CloudT<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        let mut best: Option<P::Scalar> = None;
        for q in &self.pts {
            let mut s = num_zero::<P::Scalar>();
            for i in 0..P::DIMENSIONS {
                let x = q.nth(i) - p.nth(i);
                s = s + x * x;
            }
            if best.is_none_or(|b| s < b) {
                best = Some(s);
            }
        }
        best.unwrap()
    }
}
fn num_zero<S: rstar::RTreeNum>() -> S {
    S::zero()
}

pub struct Cloud<P>(P);
impl<P: Point + 'static> Geo for Cloud<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    type T = CloudT<P>;
    const SHAPE: ShapeKind = ShapeKind::Cloud;
    fn build(s: &Spec, g: Grid) -> CloudT<P> {
        match &s.shape {
            Shape::Cloud(pts) => CloudT {
                pts: pts.iter().map(|v| mkp(v, g)).collect(),
            },
            _ => unreachable!(),
        }
    }
    fn read(t: &CloudT<P>, g: Grid) -> (V, V, Shape) {
        let pts: Vec<V> = t.pts.iter().map(|p| rdp(p, g)).collect();
        let (mut lo, mut hi) = (pts[0], pts[0]);
        for p in &pts {
            for i in 0..P::DIMENSIONS {
                lo[i] = lo[i].min(p[i]);
                hi[i] = hi[i].max(p[i]);
            }
        }
        (lo, hi, Shape::Cloud(pts))
    }
}

pub struct Seg<P>(P);
impl<P: Point + 'static> Geo for Seg<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    type T = Line<P>;
    const SHAPE: ShapeKind = ShapeKind::Line;
    fn build(s: &Spec, g: Grid) -> Line<P> {
        match &s.shape {
            Shape::Line(a, b) => Line::new(mkp(a, g), mkp(b, g)),
            _ => unreachable!(),
        }
    }
    fn read(t: &Line<P>, g: Grid) -> (V, V, Shape) {
        let (a, b) = (rdp(&t.from, g), rdp(&t.to, g));
        let (mut lo, mut hi) = (a, a);
        for i in 0..P::DIMENSIONS {
            lo[i] = a[i].min(b[i]);
            hi[i] = a[i].max(b[i]);
        }
        (lo, hi, Shape::Line(a, b))
    }
}

/// Element kinds
pub trait Kind: 'static {
    type G: Geo;
    type T: PointDistance<Envelope = AABB<<Self::G as Geo>::P>> + Clone + PartialEq + Debug + 'static;
    const TAGGED: bool;
    const MUTABLE: bool;
    fn build(s: &Spec, g: Grid) -> Self::T;
    fn tag(t: &Self::T) -> Option<&Tag>;
    fn tag_mut(t: &mut Self::T) -> Option<&mut Tag>;
    fn read(t: &Self::T, g: Grid) -> (V, V, Shape);
}

/// The geometry alone
pub struct Bare<G>(G);
impl<G: Geo> Kind for Bare<G> {
    type G = G;
    type T = G::T;
    const TAGGED: bool = false;
    const MUTABLE: bool = false;
    fn build(s: &Spec, g: Grid) -> G::T {
        G::build(s, g)
    }
    fn tag(_: &G::T) -> Option<&Tag> {
        None
    }
    fn tag_mut(_: &mut G::T) -> Option<&mut Tag> {
        None
    }
    fn read(t: &G::T, g: Grid) -> (V, V, Shape) {
        G::read(t, g)
    }
}

/// GeomWithData<geometry, Tag>
pub struct Data<G>(G);
impl<G: Geo> Kind for Data<G> {
    type G = G;
    type T = GeomWithData<G::T, Tag>;
    const TAGGED: bool = true;
    const MUTABLE: bool = true;
    fn build(s: &Spec, g: Grid) -> Self::T {
        GeomWithData::new(G::build(s, g), Tag::new(s))
    }
    fn tag(t: &Self::T) -> Option<&Tag> {
        Some(&t.data)
    }
    fn tag_mut(t: &mut Self::T) -> Option<&mut Tag> {
        Some(&mut t.data)
    }
    fn read(t: &Self::T, g: Grid) -> (V, V, Shape) {
        G::read(t.geom(), g)
    }
}

/// PointWithData<Tag, P>
pub struct Pwd<P>(P);
impl<P: Point + 'static> Kind for Pwd<P>
where
    P::Scalar: HScalar,
{
    type G = Pt<P>;
    type T = PointWithData<Tag, P>;
    const TAGGED: bool = true;
    const MUTABLE: bool = true;
    #[allow(deprecated)]
    fn build(s: &Spec, g: Grid) -> Self::T {
        PointWithData::new(Tag::new(s), mkp(&s.lo, g))
    }
    fn tag(t: &Self::T) -> Option<&Tag> {
        Some(&t.data)
    }
    fn tag_mut(t: &mut Self::T) -> Option<&mut Tag> {
        Some(&mut t.data)
    }
    fn read(t: &Self::T, g: Grid) -> (V, V, Shape) {
        let v = rdp(t.position(), g);
        (v, v, Shape::Box)
    }
}

/// GeomWithData around another kind
pub struct Wrap<K>(K);
impl<K: Kind> Kind for Wrap<K> {
    type G = K::G;
    type T = GeomWithData<K::T, u8>;
    const TAGGED: bool = K::TAGGED;
    const MUTABLE: bool = false;
    fn build(s: &Spec, g: Grid) -> Self::T {
        GeomWithData::new(K::build(s, g), 7)
    }
    fn tag(t: &Self::T) -> Option<&Tag> {
        if t.data != 7 {
            viol!("the data of a GeomWithData changed");
        }
        K::tag(t.geom())
    }
    fn tag_mut(_: &mut Self::T) -> Option<&mut Tag> {
        None
    }
    fn read(t: &Self::T, g: Grid) -> (V, V, Shape) {
        K::read(t.geom(), g)
    }
}

macro_rules! wrapper {
    ($name:ident, $t:ty, $k:ident, $build:expr) => {
        pub struct $name<K>(K);
        impl<$k: Kind> Kind for $name<$k> {
            type G = $k::G;
            type T = $t;
            const TAGGED: bool = $k::TAGGED;
            const MUTABLE: bool = false;
            fn build(s: &Spec, g: Grid) -> Self::T {
                $build($k::build(s, g))
            }
            fn tag(t: &Self::T) -> Option<&Tag> {
                $k::tag(&**t)
            }
            fn tag_mut(_: &mut Self::T) -> Option<&mut Tag> {
                None
            }
            fn read(t: &Self::T, g: Grid) -> (V, V, Shape) {
                $k::read(&**t, g)
            }
        }
    };
}
wrapper!(Cached, CachedEnvelope<K::T>, K, CachedEnvelope::new);
wrapper!(Shared, Arc<K::T>, K, Arc::new);
wrapper!(RcShared, Rc<K::T>, K, Rc::new);
wrapper!(Borrowed, ObjectRef<'static, K::T>, K, |t| ObjectRef::new(leak(t)));

/// Borrowed elements have to outlive the tree. The few bytes are given back never; workloads with
/// them are small.
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// A user-defined three-dimensional point
#[derive(Clone, PartialEq, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Custom3<S> {
    pub name: String,
    pub z: S,
    pub x: S,
    pub y: S,
}
impl<S: rstar::RTreeNum> Point for Custom3<S> {
    type Scalar = S;
    const DIMENSIONS: usize = 3;
    fn generate(mut f: impl FnMut(usize) -> S) -> Self {
        let (x, y, z) = (f(0), f(1), f(2));
        Custom3 {
            name: String::new(),
            x,
            y,
            z,
        }
    }
    fn nth(&self, i: usize) -> S {
        [self.x, self.y, self.z][i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut S {
        match i {
            0 => &mut self.x,
            1 => &mut self.y,
            2 => &mut self.z,
            _ => panic!("dimension out of range"),
        }
    }
}

/// Parameter sets
#[derive(Clone)]
pub struct Pm<const MIN: usize, const MAX: usize, const RE: usize>;
impl<const MIN: usize, const MAX: usize, const RE: usize> rstar::RTreeParams for Pm<MIN, MAX, RE> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = RE;
    type DefaultInsertionStrategy = rstar::RStarInsertionStrategy;
}
