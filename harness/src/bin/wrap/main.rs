//! C18: trees of wrapped elements beside trees of the bare elements
use harness::rng::{combine, hash_bytes};
use harness::runner::*;
use harness::scalar::{Grid, HScalar};
use harness::world::pick_n;
use harness::{ensure, viol};
use rstar::primitives::*;
use rstar::{Envelope, Point, PointDistance, RTree, RTreeObject, SelectionFunction, AABB};
use std::any::Any;
use std::cell::Cell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

thread_local! {
    /// The unit of length is two to the power of this
    static EXP: Cell<i32> = const { Cell::new(0) };
}
fn g0() -> Grid {
    Grid { exp: EXP.get() }
}

fn pt<P: Point>(v: &[i64]) -> P
where
    P::Scalar: HScalar,
{
    P::generate(|i| HScalar::from_grid(v[i], g0()))
}
fn num<S: HScalar>(v: i64) -> S {
    S::from_grid(v, g0())
}

// ---- Bare elements -----------------------------------------------------------------------------

trait Elem: PointDistance<Envelope = AABB<Self::P>> + PartialEq + Debug + Clone + 'static {
    type P: Point<Scalar = Self::S> + 'static;
    type S: HScalar;
    fn make(v: &mut [i64], id: u32, mode: u8, odd: u8) -> Self;
    /// How often its box was computed and its methods were called
    fn box_calls(&self) -> Option<u64> {
        None
    }
}

/// Overrides every provided method, in ways the defaults would not reproduce
#[derive(Clone)]
struct Own<P: Point> {
    id: u32,
    class: u8,
    lo: P,
    hi: P,
    /// 0: distance to the box, 1: to its two corners while it contains its whole box
    mode: u8,
    /// Adds to limited distances; only used to compare single calls
    odd: u8,
    calls: Rc<Cell<u64>>,
}
impl<P: Point> PartialEq for Own<P> {
    fn eq(&self, o: &Self) -> bool {
        self.class == o.class && self.lo == o.lo && self.hi == o.hi
    }
}
impl<P: Point> Debug for Own<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "own {} {:?} {:?}", self.id, self.lo, self.hi)
    }
}
impl<P: Point> Own<P> {
    fn d(p: &P, q: impl Fn(usize) -> P::Scalar) -> P::Scalar {
        (0..P::DIMENSIONS).fold(num_traits_zero::<P::Scalar>(), |s, i| {
            let x = p.nth(i) - q(i);
            s + x * x
        })
    }
}
fn num_traits_zero<S: rstar::RTreeNum>() -> S {
    S::zero()
}
impl<P: Point> RTreeObject for Own<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        self.calls.set(self.calls.get() + 1);
        AABB::from_corners(self.lo.clone(), self.hi.clone())
    }
}
impl<P: Point> PointDistance for Own<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        if self.mode == 0 {
            Self::d(p, |i| {
                let x = p.nth(i);
                if x < self.lo.nth(i) {
                    self.lo.nth(i)
                } else if x > self.hi.nth(i) {
                    self.hi.nth(i)
                } else {
                    x
                }
            })
        } else {
            let (a, b) = (Self::d(p, |i| self.lo.nth(i)), Self::d(p, |i| self.hi.nth(i)));
            if a < b {
                a
            } else {
                b
            }
        }
    }
    fn contains_point(&self, p: &P) -> bool {
        (0..P::DIMENSIONS).all(|i| p.nth(i) >= self.lo.nth(i) && p.nth(i) <= self.hi.nth(i))
    }
    fn distance_2_if_less_or_equal(&self, p: &P, max: P::Scalar) -> Option<P::Scalar> {
        let d = self.distance_2(p);
        match self.odd {
            1 => Some(d + d),
            2 => None,
            _ if d <= max => Some(d),
            _ => None,
        }
    }
}
impl<P: Point + 'static> Elem for Own<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    fn make(v: &mut [i64], id: u32, mode: u8, odd: u8) -> Self {
        let n = P::DIMENSIONS;
        let (a, b) = v.split_at_mut(n);
        for i in 0..n {
            if a[i] > b[i] {
                std::mem::swap(&mut a[i], &mut b[i]);
            }
        }
        Own {
            id,
            class: (id % 3) as u8,
            lo: pt(a),
            hi: pt(b),
            mode,
            odd,
            calls: Rc::default(),
        }
    }
    fn box_calls(&self) -> Option<u64> {
        Some(self.calls.get())
    }
}

/// Relies on every default
#[derive(Clone, PartialEq, Debug)]
struct Plain<P: Point> {
    id: u32,
    at: P,
    other: P,
}
impl<P: Point> RTreeObject for Plain<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.at.clone(), self.other.clone())
    }
}
impl<P: Point> PointDistance for Plain<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        let (a, b) = (Own::d(p, |i| self.at.nth(i)), Own::d(p, |i| self.other.nth(i)));
        if a < b {
            a
        } else {
            b
        }
    }
}
impl<P: Point + 'static> Elem for Plain<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    fn make(v: &mut [i64], id: u32, _: u8, _: u8) -> Self {
        Plain {
            id: id % 5,
            at: pt(v),
            other: pt(&v[P::DIMENSIONS..]),
        }
    }
}

macro_rules! point_elem {
    ($t:ty, $s:ty) => {
        impl Elem for $t {
            type P = $t;
            type S = $s;
            fn make(v: &mut [i64], _: u32, _: u8, _: u8) -> Self {
                pt(v)
            }
        }
    };
}
point_elem!([f64; 2], f64);
point_elem!((i32, i32, i32), i32);

impl<P: Point + 'static> Elem for Rectangle<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    fn make(v: &mut [i64], _: u32, _: u8, _: u8) -> Self {
        Rectangle::from_corners(pt(v), pt(&v[P::DIMENSIONS..]))
    }
}
impl<P: Point + 'static> Elem for Line<P>
where
    P::Scalar: HScalar,
{
    type P = P;
    type S = P::Scalar;
    fn make(v: &mut [i64], id: u32, _: u8, _: u8) -> Self {
        let d = P::DIMENSIONS;
        // Along an axis, so that distances are exact
        for i in 0..d {
            if i != id as usize % d {
                v[d + i] = v[i];
            }
        }
        let i = id as usize % d;
        let len = [0, 1, 2, 4, 8][id as usize / 7 % 5];
        v[d + i] = v[i] + len;
        Line::new(pt(v), pt(&v[d..]))
    }
}

// ---- Wrappers ----------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
struct Data {
    text: String,
    n: u64,
}
impl Data {
    fn of<T: Debug>(t: &T) -> Data {
        let text = format!("{t:?}");
        Data {
            n: hash_bytes(text.as_bytes()),
            text,
        }
    }
}

trait W<B: Elem>: 'static {
    type T: PointDistance<Envelope = AABB<B::P>> + PartialEq + Debug + Clone + 'static;
    const CACHED: bool;
    fn wrap(b: B) -> Self::T;
    /// The wrapped element, after checking the data beside it
    fn inner(t: &Self::T) -> &B;
}

struct Id;
impl<B: Elem> W<B> for Id {
    type T = B;
    const CACHED: bool = false;
    fn wrap(b: B) -> B {
        b
    }
    fn inner(t: &B) -> &B {
        t
    }
}

/// Associated data
struct D<X>(PhantomData<X>);
impl<B: Elem, X: W<B>> W<B> for D<X> {
    type T = GeomWithData<X::T, Data>;
    const CACHED: bool = X::CACHED;
    fn wrap(b: B) -> Self::T {
        let data = Data::of(&b);
        GeomWithData::new(X::wrap(b), data)
    }
    fn inner(t: &Self::T) -> &B {
        let b = X::inner(t.geom());
        ensure!(t.data == Data::of(b), "element {:?} came back with the data {:?}", b, t.data);
        b
    }
}

macro_rules! deref {
    ($name:ident, $t:ty, $cached:expr, $wrap:expr) => {
        struct $name<X>(PhantomData<X>);
        impl<B: Elem, X: W<B>> W<B> for $name<X> {
            type T = $t;
            const CACHED: bool = $cached || X::CACHED;
            fn wrap(b: B) -> Self::T {
                $wrap(X::wrap(b))
            }
            fn inner(t: &Self::T) -> &B {
                X::inner(&**t)
            }
        }
    };
}
deref!(C, CachedEnvelope<X::T>, true, CachedEnvelope::new);
deref!(A, Arc<X::T>, false, Arc::new);
deref!(R, Rc<X::T>, false, Rc::new);
// Borrowed elements have to outlive the trees; they are few and given back never
deref!(O, ObjectRef<'static, X::T>, false, |t| ObjectRef::new(&*Box::leak(Box::new(t))));

/// Shared pointers to trait objects
trait Obj<P: Point>: PointDistance<Envelope = AABB<P>> + Debug {
    fn any(&self) -> &dyn Any;
    fn same(&self, o: &dyn Any) -> bool;
}
impl<P: Point, T: PointDistance<Envelope = AABB<P>> + PartialEq + Debug + 'static> Obj<P> for T {
    fn any(&self) -> &dyn Any {
        self
    }
    fn same(&self, o: &dyn Any) -> bool {
        o.downcast_ref::<T>().is_some_and(|o| o == self)
    }
}
impl<P: Point> PartialEq for dyn Obj<P> {
    fn eq(&self, o: &Self) -> bool {
        self.same(o.any())
    }
}
struct ADyn<X>(PhantomData<X>);
impl<B: Elem, X: W<B>> W<B> for ADyn<X> {
    type T = Arc<dyn Obj<B::P>>;
    const CACHED: bool = X::CACHED;
    fn wrap(b: B) -> Self::T {
        Arc::new(X::wrap(b))
    }
    fn inner(t: &Self::T) -> &B {
        X::inner((**t).any().downcast_ref().expect("harness: type"))
    }
}
struct RDyn<X>(PhantomData<X>);
impl<B: Elem, X: W<B>> W<B> for RDyn<X> {
    type T = Rc<dyn Obj<B::P>>;
    const CACHED: bool = X::CACHED;
    fn wrap(b: B) -> Self::T {
        Rc::new(X::wrap(b))
    }
    fn inner(t: &Self::T) -> &B {
        X::inner((**t).any().downcast_ref().expect("harness: type"))
    }
}

/// A point with data (deprecated but provided)
struct Pd;
impl<B: Elem<P = B> + Point<Scalar = <B as Elem>::S>> W<B> for Pd {
    type T = PointWithData<Data, B>;
    const CACHED: bool = false;
    #[allow(deprecated)]
    fn wrap(b: B) -> Self::T {
        PointWithData::new(Data::of(&b), b)
    }
    fn inner(t: &Self::T) -> &B {
        let b = t.position();
        ensure!(t.data == Data::of(b), "point {:?} came back with the data {:?}", b, t.data);
        b
    }
}

// ---- Observation -------------------------------------------------------------------------------

/// Equal elements share a key
fn key<B: Elem>(b: &B) -> u64 {
    hash_bytes(format!("{b:?}").as_bytes())
}
fn keys<'a, T: 'a, B: Elem>(it: impl Iterator<Item = &'a T>, f: impl Fn(&'a T) -> &'a B) -> Vec<u64> {
    let mut v: Vec<u64> = it.take(1_000_000).map(|t| key(f(t))).collect();
    v.sort_unstable();
    v
}
fn bounds<P: Point>(e: &AABB<P>) -> (P, P) {
    (e.lower(), e.upper())
}

/// Removes by identity
struct Exactly(u64);
impl<B: Elem> SelectionFunction<B> for Exactly {
    fn should_unpack_parent(&self, _: &B::Envelope) -> bool {
        true
    }
    fn should_unpack_leaf(&self, b: &B) -> bool {
        key(b) == self.0
    }
}

struct Both<B: Elem, X: W<B>> {
    bare: RTree<B>,
    wrapped: RTree<X::T>,
    n: usize,
}

struct Make {
    e: i64,
    next: u32,
    mode: u8,
}
impl Make {
    fn coords<B: Elem>(&self, ctx: &mut Ctx) -> Vec<i64> {
        let d = B::P::DIMENSIONS;
        let mut v: Vec<i64> = (0..d).map(|_| ctx.rng.range(-self.e, self.e)).collect();
        for i in 0..d {
            let w = ctx.rng.range(0, 4) * ctx.rng.range(0, 1);
            v.push(v[i] + w);
        }
        v
    }
    fn elem<B: Elem>(&mut self, ctx: &mut Ctx, odd: u8) -> B {
        let mut v = self.coords::<B>(ctx);
        self.next += 1;
        B::make(&mut v, self.next, self.mode, odd)
    }
    fn point<B: Elem>(&self, ctx: &mut Ctx) -> B::P {
        pt(&self.coords::<B>(ctx))
    }
    fn qbox<B: Elem>(&self, ctx: &mut Ctx) -> AABB<B::P> {
        match ctx.rng.below(12) {
            0 => AABB::new_empty(),
            1 => {
                let e = self.e + 5;
                AABB::from_corners(pt(&vec![-e; 10]), pt(&vec![e; 10]))
            }
            _ => {
                let a = self.coords::<B>(ctx);
                let w = ctx.rng.range(0, self.e);
                let b: Vec<i64> = a.iter().map(|x| x + ctx.rng.range(0, w)).collect();
                AABB::from_corners(pt(&a), pt(&b))
            }
        }
    }
}

/// Single calls on a wrapped element
fn methods<B: Elem, X: W<B>>(ctx: &mut Ctx) {
    let mut mk = Make {
        e: 12,
        next: ctx.rng.below(1000) as u32,
        mode: ctx.rng.below(2) as u8,
    };
    let odd = ctx.rng.below(3) as u8;
    let mut fp = 0;
    // Lengths whose squares vanish, so that a distance of zero no longer means contact
    let single = std::mem::size_of::<B::S>() == 4;
    let exp = match (B::S::FLOAT, single) {
        (true, false) => *ctx.rng.pick(&[0, 0, 0, -500, -540, -600, -1000, 400]),
        (true, true) => *ctx.rng.pick(&[0, 0, 0, -70, -80, -100, -140, 45]),
        _ => 0,
    };
    EXP.set(exp);
    if exp < 0 {
        ctx.count("method_cases_with_vanishing_squares", 1);
    }
    for _ in 0..40 {
        let b: B = mk.elem(ctx, odd);
        let w = X::wrap(b.clone());
        ensure!(
            bounds(&w.envelope()) == bounds(&b.envelope()),
            "the box of {:?} is {:?}, wrapped it is {:?}", b, b.envelope(), w.envelope()
        );
        for _ in 0..6 {
            let p = mk.point::<B>(ctx);
            ensure!(w.distance_2(&p) == b.distance_2(&p), "distance of {:?} to {:?}: bare {:?}, wrapped {:?}", b, p, b.distance_2(&p), w.distance_2(&p));
            ensure!(w.contains_point(&p) == b.contains_point(&p), "{:?} contains {:?}: bare {}, wrapped {}", b, p, b.contains_point(&p), w.contains_point(&p));
            let one: B::S = num(1);
            let d = b.distance_2(&p);
            let e = b.envelope().distance_2(&p);
            for max in [d, d - one, d + one, e, num(0), num(-1), num(100)] {
                let (x, y) = (b.distance_2_if_less_or_equal(&p, max), w.distance_2_if_less_or_equal(&p, max));
                ensure!(x == y, "distance of {:?} to {:?} up to {:?}: bare {:?}, wrapped {:?}", b, p, max, x, y);
                ctx.evals += 1;
            }
            ctx.count("method_calls", 9);
        }
        // A copy is the same, and equality sees the inner element
        let c = w.clone();
        ensure!(c == w && X::inner(&c) == &b && X::inner(&w) == &b, "wrapping {:?} changed it to {:?}", b, w);
        let o: B = mk.elem(ctx, odd);
        let wo = X::wrap(o.clone());
        ensure!(o == b || wo != w, "{:?} and {:?} are different but equal when wrapped", b, o);
        fp = combine(fp, key(&b));
    }
    ctx.fingerprints.push(combine(fp, hash_bytes(std::any::type_name::<X::T>().as_bytes())));
    EXP.set(0);
    ctx.sample = format!("methods of {}", std::any::type_name::<X::T>());
}

fn insert<B: Elem, X: W<B>>(w: &mut Both<B, X>, b: B, track: bool) {
    let t = X::wrap(b.clone());
    if track {
        check_once::<B, X>(&t, "wrapping");
    }
    w.bare.insert(clone_uncounted(&b));
    w.wrapped.insert(t);
    w.n += 1;
}
/// A copy whose box computations are not counted in with those of the wrapped one
fn clone_uncounted<B: Elem>(b: &B) -> B {
    let any: &dyn Any = b;
    if let Some(o) = any.downcast_ref::<Own<[f64; 2]>>() {
        let o = Own { calls: Rc::default(), ..o.clone() };
        let o: &dyn Any = &o;
        return o.downcast_ref::<B>().unwrap().clone();
    }
    if let Some(o) = any.downcast_ref::<Own<[i32; 3]>>() {
        let o = Own { calls: Rc::default(), ..o.clone() };
        let o: &dyn Any = &o;
        return o.downcast_ref::<B>().unwrap().clone();
    }
    b.clone()
}
fn check_once<B: Elem, X: W<B>>(t: &X::T, what: &str) {
    if let (true, Some(n)) = (X::CACHED, X::inner(t).box_calls()) {
        ensure!(n == 1, "after {}, the box of an element with a cached box was computed {} times", what, n);
    }
}

fn compare<B: Elem, X: W<B>>(ctx: &mut Ctx, what: &str, bare: Vec<u64>, wrapped: Vec<u64>) {
    ensure!(
        bare == wrapped,
        "{} yields {} bare elements but {} wrapped ones ({})",
        what, bare.len(), wrapped.len(), std::any::type_name::<X::T>()
    );
    ctx.evals += 1;
    ctx.count("query_comparisons", 1);
    ctx.count("query_results", bare.len() as u64);
}

fn queries<B: Elem, X: W<B>>(ctx: &mut Ctx, w: &mut Both<B, X>, mk: &mut Make) {
    let id = |b| -> &B { b };
    let q = mk.qbox::<B>(ctx);
    let p = mk.point::<B>(ctx);
    let r: B::S = num(ctx.rng.range(-1, 60));
    compare::<B, X>(ctx, "locate_in_envelope", keys(w.bare.locate_in_envelope(q.clone()), id), keys(w.wrapped.locate_in_envelope(q.clone()), X::inner));
    compare::<B, X>(
        ctx,
        "locate_in_envelope_intersecting",
        keys(w.bare.locate_in_envelope_intersecting(q.clone()), id),
        keys(w.wrapped.locate_in_envelope_intersecting(q.clone()), X::inner),
    );
    compare::<B, X>(ctx, "locate_all_at_point", keys(w.bare.locate_all_at_point(p.clone()), id), keys(w.wrapped.locate_all_at_point(p.clone()), X::inner));
    compare::<B, X>(
        ctx,
        "locate_within_distance",
        keys(w.bare.locate_within_distance(p.clone(), r), id),
        keys(w.wrapped.locate_within_distance(p.clone(), r), X::inner),
    );
    compare::<B, X>(ctx, "iter", keys(w.bare.iter(), id), keys(w.wrapped.iter(), X::inner));
    let (a, b) = (w.bare.locate_at_point(p.clone()), w.wrapped.locate_at_point(p.clone()));
    ensure!(a.is_some() == b.is_some(), "locate_at_point finds {:?} bare and {:?} wrapped", a, b);
    if let Some(b) = b {
        ensure!(X::inner(b).contains_point(&p), "locate_at_point found {:?}, which does not contain {:?}", b, p);
    }
    // Nearest neighbors
    let (a, b) = (w.bare.nearest_neighbor_iter_with_distance_2(p.clone()), w.wrapped.nearest_neighbor_iter_with_distance_2(p.clone()));
    let a: Vec<(u64, B::S)> = a.take(w.n + 5).map(|(t, d)| (key(t), d)).collect();
    let b: Vec<(u64, B::S)> = b.take(w.n + 5).map(|(t, d)| (key(X::inner(t)), d)).collect();
    ensure!(
        a.iter().map(|x| x.1).eq(b.iter().map(|x| x.1)),
        "nearest_neighbor_iter yields other distances for wrapped elements"
    );
    let (mut ka, mut kb): (Vec<u64>, Vec<u64>) = (a.iter().map(|x| x.0).collect(), b.iter().map(|x| x.0).collect());
    ka.sort_unstable();
    kb.sort_unstable();
    compare::<B, X>(ctx, "nearest_neighbor_iter", ka, kb);
    compare::<B, X>(
        ctx,
        "nearest_neighbors",
        keys(w.bare.nearest_neighbors(&p).into_iter(), id),
        keys(w.wrapped.nearest_neighbors(&p).into_iter(), X::inner),
    );
    let (a, b) = (
        w.bare.nearest_neighbor(p.clone()).map(|t| t.distance_2(&p)),
        w.wrapped.nearest_neighbor(p.clone()).map(|t| X::inner(t).distance_2(&p)),
    );
    ensure!(a == b, "nearest_neighbor finds distance {:?} bare and {:?} wrapped", a, b);
    // Membership
    let e: B = match w.bare.iter().nth(ctx.rng.below(w.n + 1)) {
        Some(b) if ctx.rng.bit() => clone_uncounted(b),
        _ => mk.elem(ctx, 0),
    };
    let t = X::wrap(e.clone());
    let (a, b) = (w.bare.contains(&e), w.wrapped.contains(&t));
    // Data is part of what is compared; it differs for elements of different identity
    ensure!(
        b == w.wrapped.iter().any(|x| *x == t) && (a || !b),
        "contains: {} bare, {} wrapped ({:?})", a, b, e
    );
    // The tree as a whole
    ensure!(
        w.bare.size() == w.n && w.wrapped.size() == w.n,
        "size: {} bare, {} wrapped, should be {}", w.bare.size(), w.wrapped.size(), w.n
    );
    ensure!(
        w.n == 0 || bounds(&w.bare.root().envelope()) == bounds(&w.wrapped.root().envelope()),
        "root boxes differ: {:?} bare, {:?} wrapped", w.bare.root().envelope(), w.wrapped.root().envelope()
    );
    let n = w.bare.intersection_candidates_with_other_tree(&w.wrapped).take(10_000).count();
    let m = w.wrapped.intersection_candidates_with_other_tree(&w.bare).take(10_000).count();
    let k = w.bare.intersection_candidates_with_other_tree(&w.bare).take(10_000).count();
    ensure!(n == k && m == k, "joins of bare and wrapped trees yield {}, {} and {} pairs", n, m, k);
    ctx.evals += 5;
}

/// Removes the same element from the bare tree
fn follow<B: Elem, X: W<B>>(w: &mut Both<B, X>, what: &str, t: &X::T) {
    check_once::<B, X>(t, what);
    let k = key(X::inner(t));
    let r = w.bare.remove_with_selection_function(Exactly(k));
    ensure!(r.is_some(), "{} returned {:?}, which is not stored", what, t);
    w.n -= 1;
}

fn history<B: Elem, X: W<B>>(ctx: &mut Ctx) {
    let mut mk = Make {
        e: *ctx.rng.pick(&[3, 8, 20]),
        next: 0,
        mode: ctx.rng.below(2) as u8,
    };
    let n = pick_n(&mut ctx.rng, 80);
    let mut w: Both<B, X> = Both {
        bare: RTree::new(),
        wrapped: RTree::new(),
        n: 0,
    };
    let v: Vec<B> = (0..n).map(|_| mk.elem(ctx, 0)).collect();
    if ctx.rng.bit() {
        w.bare = RTree::bulk_load(v.iter().map(clone_uncounted).collect());
        w.wrapped = RTree::bulk_load(v.into_iter().map(X::wrap).collect());
        w.n = n;
    } else {
        for b in v {
            insert(&mut w, b, true);
        }
    }
    let mut fp = hash_bytes(std::any::type_name::<X::T>().as_bytes());
    for _ in 0..30 {
        let op = ctx.rng.below(10);
        fp = combine(fp, op as u64);
        match op {
            0..=2 => {
                let b = mk.elem(ctx, 0);
                insert(&mut w, b, true);
            }
            3 => {
                let e: B = match w.bare.iter().nth(ctx.rng.below(w.n + 1)) {
                    Some(b) if !ctx.rng.chance(1, 4) => clone_uncounted(b),
                    _ => mk.elem(ctx, 0),
                };
                let t = X::wrap(e.clone());
                let there = w.wrapped.iter().any(|x| *x == t);
                match w.wrapped.remove(&t) {
                    Some(r) => {
                        ensure!(there && r == t, "remove returned {:?} for {:?}", r, t);
                        follow(&mut w, "remove", &r);
                    }
                    None => ensure!(!there, "remove does not find {:?}", t),
                }
            }
            4 => {
                let p = mk.point::<B>(ctx);
                let there = w.bare.locate_at_point(p.clone()).is_some();
                match w.wrapped.remove_at_point(p.clone()) {
                    Some(r) => {
                        ensure!(there && X::inner(&r).contains_point(&p), "remove_at_point returned {:?} for {:?}", r, p);
                        follow(&mut w, "remove_at_point", &r);
                    }
                    None => ensure!(!there, "remove_at_point finds nothing at {:?}", p),
                }
            }
            5 => {
                let p = mk.point::<B>(ctx);
                let d = w.bare.nearest_neighbor(p.clone()).map(|t| t.distance_2(&p));
                match w.wrapped.pop_nearest_neighbor(p.clone()) {
                    Some(r) => {
                        ensure!(d == Some(X::inner(&r).distance_2(&p)), "pop_nearest_neighbor returned {:?}, but the nearest is at {:?}", r, d);
                        follow(&mut w, "pop_nearest_neighbor", &r);
                    }
                    None => ensure!(d.is_none(), "pop_nearest_neighbor returned nothing"),
                }
            }
            6 | 7 => {
                let q = mk.qbox::<B>(ctx);
                let p = mk.point::<B>(ctx);
                let r: B::S = num(ctx.rng.range(-1, 8));
                let how = ctx.rng.below(3);
                let steps = if ctx.rng.bit() { usize::MAX } else { ctx.rng.below(6) };
                let expect = match how {
                    0 => keys(w.bare.locate_in_envelope(q.clone()), |b| b),
                    1 => keys(w.bare.locate_in_envelope_intersecting(q.clone()), |b| b),
                    _ => keys(w.bare.locate_within_distance(p.clone(), r), |b| b),
                };
                let got: Vec<X::T> = match how {
                    0 => w.wrapped.drain_in_envelope(q).take(steps).collect(),
                    1 => w.wrapped.drain_in_envelope_intersecting(q).take(steps).collect(),
                    _ => w.wrapped.drain_within_distance(p, r).take(steps).collect(),
                };
                ensure!(got.len() == expect.len().min(steps), "a drain hands out {} of {} elements", got.len(), expect.len());
                for t in &got {
                    ensure!(expect.binary_search(&key(X::inner(t))).is_ok(), "a drain hands out {:?}, which does not match", t);
                    follow(&mut w, "drain", t);
                }
            }
            8 => {
                w.wrapped = w.wrapped.clone();
            }
            _ => queries(ctx, &mut w, &mut mk),
        }
        ctx.count("operations", 1);
    }
    queries(ctx, &mut w, &mut mk);
    for t in w.wrapped.iter() {
        check_once::<B, X>(t, "a whole history");
        if X::CACHED && X::inner(t).box_calls().is_some() {
            ctx.count("cached_boxes_counted", 1);
        }
        fp = combine(fp, key(X::inner(t)));
    }
    let got: Vec<u64> = {
        let mut v: Vec<u64> = w.wrapped.into_iter().map(|t| key(X::inner(&t))).collect();
        v.sort_unstable();
        v
    };
    compare::<B, X>(ctx, "into_iter", keys(w.bare.iter(), |b| b), got);
    ctx.distinct("wrapper_types", hash_bytes(std::any::type_name::<X::T>().as_bytes()));
    ctx.fingerprints.push(fp);
    ctx.sample = format!("history of {} from {} elements", std::any::type_name::<X::T>(), n);
}

type Pair = (CaseFn, CaseFn);
macro_rules! combos {
    ($b:ty: $($x:ty),* $(,)?) => { [$((methods::<$b, $x> as CaseFn, history::<$b, $x> as CaseFn)),*] };
}

#[cfg(feature = "mini")]
fn table() -> Vec<Pair> {
    let mut v: Vec<Pair> = vec![];
    v.extend(combos!(Own<[f64; 2]>: Id, D<Id>, C<Id>, O<Id>, A<Id>, RDyn<Id>, D<C<Id>>));
    v.extend(combos!([f64; 2]: Pd, C<Pd>));
    v
}

#[cfg(not(feature = "mini"))]
fn table() -> Vec<Pair> {
    let mut v: Vec<Pair> = vec![];
    v.extend(combos!(Own<[f64; 2]>:
        Id, D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, ADyn<Id>, RDyn<Id>,
        D<C<Id>>, C<D<Id>>, A<C<Id>>, C<A<Id>>, O<C<Id>>, C<O<Id>>, C<C<Id>>,
        D<ADyn<Id>>, R<A<Id>>, D<D<Id>>, ADyn<D<C<Id>>>, C<RDyn<D<Id>>>, D<A<O<C<Id>>>>, O<R<D<Id>>>,
    ));
    v.extend(combos!(Own<[i32; 3]>: D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, C<D<ADyn<Id>>>));
    v.extend(combos!(Plain<(f32, f32)>: D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, D<C<Id>>));
    v.extend(combos!([f64; 2]: D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, Pd, C<Pd>, D<Pd>, A<Pd>));
    v.extend(combos!((i32, i32, i32): D<Id>, Pd, C<D<Id>>, RDyn<Pd>));
    v.extend(combos!(Rectangle<[i64; 2]>: D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, D<C<Id>>));
    v.extend(combos!(Line<[f64; 2]>: D<Id>, C<Id>, O<Id>, A<Id>, R<Id>, C<D<Id>>));
    v
}

fn c18_methods(ctx: &mut Ctx) {
    let t = table();
    t[ctx.index % t.len()].0(ctx)
}
fn c18_history(ctx: &mut Ctx) {
    let t = table();
    t[ctx.index % t.len()].1(ctx)
}

/// Same data, other geometry and the other way round
fn c18_identity(ctx: &mut Ctx) {
    let n = 1 + ctx.rng.below(40);
    let mut tree = RTree::new();
    let mut model: Vec<([i32; 2], u32)> = vec![];
    for _ in 0..n {
        let x = ([ctx.rng.range(0, 2) as i32, ctx.rng.range(0, 2) as i32], ctx.rng.below(4) as u32);
        tree.insert(GeomWithData::new(x.0, x.1));
        model.push(x);
    }
    for _ in 0..60 {
        let x = ([ctx.rng.range(0, 2) as i32, ctx.rng.range(0, 2) as i32], ctx.rng.below(4) as u32);
        let t = GeomWithData::new(x.0, x.1);
        let i = model.iter().position(|m| *m == x);
        ensure!(tree.contains(&t) == i.is_some(), "contains({:?}) is {} with {:?} stored", t, i.is_none(), model);
        if ctx.rng.bit() {
            let r = tree.remove(&t);
            match (i, r) {
                (Some(i), Some(r)) => {
                    ensure!(r == t && *r.geom() == x.0 && r.data == x.1, "remove({:?}) returned {:?}", t, r);
                    model.swap_remove(i);
                }
                (None, None) => {}
                (_, r) => viol!("remove({:?}) returned {:?} with {:?} stored", t, r, model),
            }
        } else {
            tree.insert(t);
            model.push(x);
        }
        // Changed data counts from then on
        if ctx.rng.chance(1, 4) {
            let p = [ctx.rng.range(0, 2) as i32, ctx.rng.range(0, 2) as i32];
            if let Some(t) = tree.locate_at_point_mut(p.clone()) {
                let old = t.data;
                t.data = 3 - old.min(3);
                let new = t.data;
                let i = model.iter().position(|m| *m == (p, old));
                let Some(i) = i else { viol!("locate_at_point_mut({:?}) found data {} which is not stored", p, old) };
                model[i].1 = new;
            }
        }
        ctx.evals += 2;
    }
    let mut got: Vec<_> = tree.iter().map(|t| (*t.geom(), t.data)).collect();
    got.sort_unstable();
    model.sort_unstable();
    ensure!(got == model, "the tree holds {:?} instead of {:?}", got, model);
    let fp = model.iter().fold(1, |h, m| combine(h, (m.0[0] as u64) << 40 | (m.0[1] as u64) << 20 | m.1 as u64));
    ctx.fingerprints.push(fp);
    ctx.count("identity_histories", 1);
    ctx.sample = format!("{n} elements told apart by their data");
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C18",
        rule: "a case is a wrapper type with a history of updates and queries run beside the same history of the bare \
               elements (or a set of single method calls); distinct by wrapper type and final contents or elements",
        scenarios: vec![
            sc("c18_methods", 6_000, 200_000, c18_methods),
            sc("c18_history", 40_000, 2_000_000, c18_history),
            sc("c18_identity", 5_000, 300_000, c18_identity),
        ],
        required: &[
            ("wrapper_types", 50),
            ("method_calls", 100_000),
            ("query_comparisons", 20_000),
            ("cached_boxes_counted", 5_000),
        ],
    }]);
}
