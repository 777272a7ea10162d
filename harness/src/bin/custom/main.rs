//! C25: bounding boxes, metrics, points, elements and insertion strategies which are the user's own
use harness::rng::{combine, Rng};
use harness::runner::*;
use harness::{ensure, viol};
use rstar::{Envelope, InsertionStrategy, ParentNode, Point, PointDistance, RStarInsertionStrategy, RTree, RTreeNode, RTreeObject, RTreeParams};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::ControlFlow;

thread_local! {
    /// Calls of the user's insertion strategy
    static STRATEGY: Cell<u64> = const { Cell::new(0) };
    /// Calls of the user's box operations
    static BOXES: Cell<u64> = const { Cell::new(0) };
}
fn tick() {
    BOXES.with(|c| c.set(c.get() + 1));
}

// ---- The user's types ----------------------------------------------------------------------------

/// A point which insists on its index
#[derive(Clone, PartialEq, Debug)]
struct Pt<const N: usize>([i64; N]);
impl<const N: usize> Point for Pt<N> {
    type Scalar = i64;
    const DIMENSIONS: usize = N;
    fn generate(mut generator: impl FnMut(usize) -> i64) -> Self {
        Pt(std::array::from_fn(&mut generator))
    }
    fn nth(&self, i: usize) -> i64 {
        ensure!(i < N, "coordinate {} of a point of {} dimensions is read", i, N);
        self.0[i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut i64 {
        ensure!(i < N, "coordinate {} of a point of {} dimensions is written", i, N);
        &mut self.0[i]
    }
}

/// How far apart points are
trait Metric: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn square(diff: &[i64]) -> i64;
    /// What boxes are sorted by
    fn key(lo: i64, hi: i64) -> i64;
}
macro_rules! metric {
    ($t:ident, |$d:ident| $e:expr, |$lo:ident, $hi:ident| $k:expr) => {
        #[derive(Clone, PartialEq, Debug)]
        struct $t;
        impl Metric for $t {
            const NAME: &'static str = stringify!($t);
            fn square($d: &[i64]) -> i64 {
                $e
            }
            fn key($lo: i64, $hi: i64) -> i64 {
                $k
            }
        }
    };
}
metric!(Euclid, |d| d.iter().map(|x| x * x).sum(), |lo, _hi| lo);
metric!(Manhattan, |d| d.iter().map(|x| x.abs()).sum::<i64>().pow(2), |lo, hi| lo + hi);
metric!(Chebyshev, |d| d.iter().map(|x| x.abs()).max().unwrap().pow(2), |_lo, hi| hi);

/// A box with labels: two boxes meet if they touch and have a label in common, one contains another if it also has all of
/// its labels
#[derive(Clone, PartialEq, Debug)]
struct Ext<const N: usize> {
    lo: [i64; N],
    hi: [i64; N],
    labels: u8,
}
#[derive(Clone, PartialEq, Debug)]
struct Bx<M, const N: usize>(Option<Ext<N>>, PhantomData<M>);

impl<const N: usize> Ext<N> {
    fn holds(&self, p: &[i64; N]) -> bool {
        (0..N).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
    }
    fn within(&self, o: &Self) -> bool {
        (0..N).all(|i| o.lo[i] <= self.lo[i] && self.hi[i] <= o.hi[i]) && self.labels & !o.labels == 0
    }
    fn meets(&self, o: &Self) -> bool {
        (0..N).all(|i| o.lo[i] <= self.hi[i] && self.lo[i] <= o.hi[i]) && self.labels & o.labels != 0
    }
    fn union(&self, o: &Self) -> Self {
        Ext {
            lo: std::array::from_fn(|i| self.lo[i].min(o.lo[i])),
            hi: std::array::from_fn(|i| self.hi[i].max(o.hi[i])),
            labels: self.labels | o.labels,
        }
    }
    fn volume(&self) -> i64 {
        (0..N).map(|i| self.hi[i] - self.lo[i]).product()
    }
    fn away<M: Metric>(&self, p: &[i64; N]) -> i64 {
        let d: [i64; N] = std::array::from_fn(|i| p[i] - p[i].clamp(self.lo[i], self.hi[i]));
        M::square(&d)
    }
}

impl<M: Metric, const N: usize> Bx<M, N> {
    fn of(e: Ext<N>) -> Self {
        Bx(Some(e), PhantomData)
    }
}
fn axis_key<T: RTreeObject<Envelope = Bx<M, N>>, M: Metric, const N: usize>(t: &T, axis: usize) -> i64 {
    match t.envelope().0 {
        Some(e) => M::key(e.lo[axis], e.hi[axis]),
        None => viol!("an empty box is sorted among the others"),
    }
}
impl<M: Metric, const N: usize> Envelope for Bx<M, N> {
    type Point = Pt<N>;
    fn new_empty() -> Self {
        Bx(None, PhantomData)
    }
    // is_empty is the provided one
    fn contains_point(&self, p: &Pt<N>) -> bool {
        tick();
        self.0.as_ref().is_some_and(|e| e.holds(&p.0))
    }
    fn contains_envelope(&self, o: &Self) -> bool {
        tick();
        match (&self.0, &o.0) {
            (_, None) => true,
            (None, _) => false,
            (Some(a), Some(b)) => b.within(a),
        }
    }
    fn merge(&mut self, o: &Self) {
        tick();
        *self = self.merged(o)
    }
    fn merged(&self, o: &Self) -> Self {
        tick();
        Bx(
            match (&self.0, &o.0) {
                (None, x) | (x, None) => x.clone(),
                (Some(a), Some(b)) => Some(a.union(b)),
            },
            PhantomData,
        )
    }
    fn intersects(&self, o: &Self) -> bool {
        tick();
        matches!((&self.0, &o.0), (Some(a), Some(b)) if a.meets(b))
    }
    fn intersection_area(&self, o: &Self) -> i64 {
        tick();
        match (&self.0, &o.0) {
            (Some(a), Some(b)) if a.meets(b) => Ext::<N> {
                lo: std::array::from_fn(|i| a.lo[i].max(b.lo[i])),
                hi: std::array::from_fn(|i| a.hi[i].min(b.hi[i])),
                labels: a.labels & b.labels,
            }
            .volume(),
            _ => 0,
        }
    }
    fn area(&self) -> i64 {
        tick();
        self.0.as_ref().map_or(0, Ext::volume)
    }
    fn distance_2(&self, p: &Pt<N>) -> i64 {
        tick();
        self.0.as_ref().map_or(i64::MAX, |e| e.away::<M>(&p.0))
    }
    fn min_max_dist_2(&self, p: &Pt<N>) -> i64 {
        tick();
        let Some(e) = &self.0 else { return i64::MAX };
        // Something is on the nearer face of each axis, anywhere along the other axes
        let far: [i64; N] = std::array::from_fn(|i| (p.0[i] - e.lo[i]).abs().max((p.0[i] - e.hi[i]).abs()));
        (0..N)
            .map(|k| {
                let mut d = far;
                d[k] = (p.0[k] - e.lo[k]).abs().min((p.0[k] - e.hi[k]).abs());
                M::square(&d)
            })
            .min()
            .unwrap()
    }
    fn center(&self) -> Pt<N> {
        tick();
        Pt(self.0.as_ref().map_or([0; N], |e| std::array::from_fn(|i| (e.lo[i] + e.hi[i]) / 2)))
    }
    fn perimeter_value(&self) -> i64 {
        tick();
        self.0.as_ref().map_or(0, |e| (0..N).map(|i| e.hi[i] - e.lo[i]).sum())
    }
    fn sort_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T]) {
        tick();
        ensure!(axis < N, "boxes of {} dimensions are sorted along axis {}", N, axis);
        v.sort_by_key(|t| axis_key(t, axis));
    }
    fn partition_envelopes<T: RTreeObject<Envelope = Self>>(axis: usize, v: &mut [T], k: usize) {
        tick();
        ensure!(axis < N, "boxes of {} dimensions are partitioned along axis {}", N, axis);
        ensure!(k < v.len(), "{} boxes are partitioned at {}", v.len(), k);
        v.sort_by_key(|t| axis_key(t, axis));
        // Nothing is promised about the order of the smaller and the larger ones
        v[..k].reverse();
        let rest = &mut v[k + 1..];
        if rest.len() > 1 {
            rest.rotate_left(1);
            rest.reverse();
        }
    }
}

/// A solid box, or only its lowest and highest corner
#[derive(Clone, Debug)]
struct El<M, const N: usize, const OWN: bool> {
    at: Ext<N>,
    solid: bool,
    class: u8,
    id: u32,
    m: PhantomData<M>,
}
impl<M: Metric, const N: usize, const OWN: bool> PartialEq for El<M, N, OWN> {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.solid == o.solid && self.class == o.class
    }
}
impl<M: Metric, const N: usize, const OWN: bool> El<M, N, OWN> {
    fn away(&self, p: &[i64; N]) -> i64 {
        if self.solid {
            return self.at.away::<M>(p);
        }
        let d = |c: &[i64; N]| {
            let d: [i64; N] = std::array::from_fn(|i| p[i] - c[i]);
            M::square(&d)
        };
        d(&self.at.lo).min(d(&self.at.hi))
    }
    /// Some elements contain only one of the points at distance zero
    fn holds(&self, p: &[i64; N]) -> bool {
        if OWN && self.class == 1 {
            return *p == self.at.lo;
        }
        self.away(p) == 0
    }
}
impl<M: Metric, const N: usize, const OWN: bool> RTreeObject for El<M, N, OWN> {
    type Envelope = Bx<M, N>;
    fn envelope(&self) -> Bx<M, N> {
        Bx::of(self.at.clone())
    }
}
impl<M: Metric, const N: usize> PointDistance for El<M, N, false> {
    fn distance_2(&self, p: &Pt<N>) -> i64 {
        self.away(&p.0)
    }
}
impl<M: Metric, const N: usize> PointDistance for El<M, N, true> {
    fn distance_2(&self, p: &Pt<N>) -> i64 {
        self.away(&p.0)
    }
    fn contains_point(&self, p: &Pt<N>) -> bool {
        self.holds(&p.0)
    }
    fn distance_2_if_less_or_equal(&self, p: &Pt<N>, max: i64) -> Option<i64> {
        Some(self.away(&p.0)).filter(|d| *d <= max)
    }
}

/// The R* strategy, counted
enum Logged {}
impl InsertionStrategy for Logged {
    fn insert<T, R>(tree: &mut RTree<T, R>, t: T)
    where
        R: RTreeParams,
        T: RTreeObject,
    {
        STRATEGY.with(|c| c.set(c.get() + 1));
        RStarInsertionStrategy::insert(tree, t)
    }
}
#[derive(Clone)]
struct Own<const MIN: usize, const MAX: usize, const RE: usize>;
impl<const MIN: usize, const MAX: usize, const RE: usize> RTreeParams for Own<MIN, MAX, RE> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = RE;
    type DefaultInsertionStrategy = Logged;
}

// ---- The workload ----------------------------------------------------------------------------------

struct Gen<const N: usize> {
    e: i64,
    size: i64,
    style: usize,
}
impl<const N: usize> Gen<N> {
    fn point(&self, rng: &mut Rng) -> [i64; N] {
        let t = rng.range(-self.e, self.e);
        std::array::from_fn(|i| match self.style {
            0 => rng.range(-self.e, self.e),
            1 => t + rng.range(-2, 2),
            2 if i == 0 => 0,
            3 => rng.range(-self.e, self.e) / 8 * 8,
            _ => rng.range(-self.e, self.e) * rng.range(0, 1) + rng.range(0, 3),
        })
    }
    fn ext(&self, rng: &mut Rng) -> Ext<N> {
        let lo = self.point(rng);
        let s = if rng.bit() { 0 } else { self.size };
        Ext { lo, hi: lo.map(|x| x + rng.range(0, s)), labels: *rng.pick(&[1u8, 2, 4, 8, 3, 6, 0x11, 0xff, 1, 1]) }
    }
    fn element<M: Metric, const OWN: bool>(&self, rng: &mut Rng, id: u32) -> El<M, N, OWN> {
        El { at: self.ext(rng), solid: !rng.chance(1, 3), class: rng.below(2) as u8, id, m: PhantomData }
    }
    fn query<M: Metric, const OWN: bool>(&self, rng: &mut Rng, live: &[El<M, N, OWN>]) -> Ext<N> {
        let mut q = self.ext(rng);
        if !live.is_empty() && rng.chance(3, 4) {
            // Touching a stored one
            let e = &live[rng.below(live.len())].at;
            match rng.below(4) {
                0 => q = e.clone(),
                1 => {
                    q.lo = e.hi;
                    q.hi = q.lo.map(|x| x + rng.range(0, self.e));
                }
                2 => {
                    q.hi = e.lo;
                    q.lo = q.hi.map(|x| x - rng.range(0, self.e));
                }
                _ => {
                    q.lo = e.lo.map(|x| x - rng.range(0, self.e / 2));
                    q.hi = e.hi.map(|x| x + rng.range(0, self.e / 2));
                }
            }
        } else {
            q.hi = q.lo.map(|x| x + rng.range(0, self.e));
        }
        if rng.bit() {
            q.labels = *rng.pick(&[0xffu8, 1, 7, 0x81, 0x0e]);
        }
        q
    }
    fn near<M: Metric, const OWN: bool>(&self, rng: &mut Rng, live: &[El<M, N, OWN>]) -> [i64; N] {
        if live.is_empty() || rng.chance(1, 3) {
            return self.point(rng);
        }
        let e = &live[rng.below(live.len())].at;
        let c = std::array::from_fn(|i| if rng.bit() { e.lo[i] } else { e.hi[i] });
        if rng.bit() {
            c
        } else {
            c.map(|x| x + rng.range(-3, 3))
        }
    }
}

type Tree<M, const N: usize, const OWN: bool, R> = RTree<El<M, N, OWN>, R>;

fn walk<M: Metric, const N: usize, const OWN: bool>(n: &ParentNode<El<M, N, OWN>>, depth: usize, leaves: &mut BTreeSet<usize>, ids: &mut Vec<u32>, max: usize) -> Bx<M, N> {
    ensure!(depth == 0 || !n.children().is_empty(), "a node below the root is empty");
    ensure!(n.children().len() <= max, "a node has {} children", n.children().len());
    let mut e: Option<Ext<N>> = None;
    for c in n.children() {
        let (x, leaf) = match c {
            RTreeNode::Leaf(t) => {
                leaves.insert(depth);
                ids.push(t.id);
                (t.at.clone(), true)
            }
            RTreeNode::Parent(p) => (walk(p, depth + 1, leaves, ids, max).0.unwrap(), false),
        };
        ensure!(c.is_leaf() == leaf, "is_leaf() is wrong");
        e = Some(e.map_or(x.clone(), |e| e.union(&x)));
    }
    let e = Bx(e, PhantomData);
    ensure!(n.envelope().is_empty() == e.0.is_none(), "is_empty() of {:?} is wrong", e);
    ensure!(n.envelope() == e, "the box of a node is {:?}, the smallest one around its elements is {:?}", n.envelope(), e);
    e
}

struct World<'c, M: Metric, const N: usize, const OWN: bool, R: RTreeParams> {
    ctx: &'c mut Ctx,
    tree: Tree<M, N, OWN, R>,
    live: Vec<El<M, N, OWN>>,
    g: Gen<N>,
    next: u32,
    inserted: u64,
}

fn ids(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

impl<M: Metric, const N: usize, const OWN: bool, R: RTreeParams> World<'_, M, N, OWN, R>
where
    El<M, N, OWN>: PointDistance + RTreeObject<Envelope = Bx<M, N>>,
{
    fn fresh(&mut self) -> El<M, N, OWN> {
        self.next += 1;
        if !self.live.is_empty() && self.ctx.rng.chance(1, 8) {
            let mut e = self.live[self.ctx.rng.below(self.live.len())].clone();
            e.id = self.next;
            return e;
        }
        self.g.element(&mut self.ctx.rng, self.next)
    }
    fn state(&mut self, after: &str) {
        let (mut leaves, mut found) = (BTreeSet::new(), vec![]);
        walk(self.tree.root(), 0, &mut leaves, &mut found, usize::MAX);
        ensure!(leaves.len() <= 1, "elements are at different depths after {}", after);
        let want = ids(self.live.iter().map(|e| e.id).collect());
        let found = ids(found);
        ensure!(found == want, "the tree holds {:?} instead of {:?} after {}", found, want, after);
        ensure!(self.tree.size() == want.len(), "size() is {} instead of {} after {}", self.tree.size(), want.len(), after);
        let s = STRATEGY.with(Cell::get);
        ensure!(s == self.inserted, "the insertion strategy was asked {} times for {} insertions, last {}", s, self.inserted, after);
        self.ctx.max("depth", *leaves.first().unwrap_or(&0) as u64);
        self.ctx.count("states", 1);
    }
    fn select(&self, f: impl Fn(&El<M, N, OWN>) -> bool) -> Vec<u32> {
        ids(self.live.iter().filter(|e| f(e)).map(|e| e.id).collect())
    }
    fn gone(&mut self, what: &str, got: Option<El<M, N, OWN>>, matches: impl Fn(&El<M, N, OWN>) -> bool) {
        match got {
            None => ensure!(!self.live.iter().any(matches), "{} finds nothing", what),
            Some(e) => {
                ensure!(matches(&e), "{} removes {:?}", what, e);
                let Some(i) = self.live.iter().position(|x| x.id == e.id) else { viol!("{} removes {:?}, which is not stored", what, e) };
                self.live.swap_remove(i);
                self.ctx.count("removals", 1);
            }
        }
    }
    fn step(&mut self) {
        let rng = &mut self.ctx.rng;
        let q = self.g.query(rng, &self.live);
        let p = self.g.near(rng, &self.live);
        let bx = Bx::<M, N>::of(q.clone());
        let what = rng.below(10);
        match what {
            0..=4 => {
                let e = self.fresh();
                self.live.push(e.clone());
                self.tree.insert(e);
                self.inserted += 1;
                self.state("insert");
            }
            5 => {
                let mut e = if self.live.is_empty() || self.ctx.rng.chance(1, 4) { self.fresh() } else { self.live[self.ctx.rng.below(self.live.len())].clone() };
                if self.ctx.rng.chance(1, 4) {
                    e.at.labels ^= 1 << self.ctx.rng.below(3);
                }
                let got = self.tree.remove(&e);
                self.gone("remove", got, |x| *x == e);
                self.state("remove");
            }
            6 => {
                let got = self.tree.remove_at_point(Pt(p));
                self.gone("remove_at_point", got, |x| x.holds(&p));
                self.state("remove_at_point");
            }
            7 => {
                let best = self.live.iter().map(|e| e.away(&p)).min();
                let got = self.tree.pop_nearest_neighbor(Pt(p));
                self.gone("pop_nearest_neighbor", got, |x| Some(x.away(&p)) == best);
                self.state("pop_nearest_neighbor");
            }
            _ => {
                let r = self.live.iter().map(|e| e.away(&p)).min().unwrap_or(0) + self.ctx.rng.range(-1, 4);
                let kinds = if self.ctx.rng.chance(1, 10) { 4 } else { 3 };
                let kind = self.ctx.rng.below(kinds);
                let stop = if self.ctx.rng.bit() { usize::MAX } else { self.ctx.rng.below(5) };
                let n = self.live.len() + 8;
                let got: Vec<_> = match kind {
                    0 => self.tree.drain_in_envelope(bx.clone()).take(stop.min(n)).collect(),
                    1 => self.tree.drain_in_envelope_intersecting(bx.clone()).take(stop.min(n)).collect(),
                    2 => self.tree.drain_within_distance(Pt(p), r).take(stop.min(n)).collect(),
                    _ => self.tree.drain().take(stop.min(n)).collect(),
                };
                let matches = |e: &El<M, N, OWN>| match kind {
                    0 => e.at.within(&q),
                    1 => e.at.meets(&q),
                    2 => e.away(&p) <= r,
                    _ => true,
                };
                let all = self.select(matches).len();
                ensure!(got.len() == all.min(stop), "a drain (kind {}) hands out {} of {} elements, stopped after {}", kind, got.len(), all, stop);
                for e in got {
                    self.gone("a drain", Some(e), matches);
                }
                self.ctx.count("drains", 1);
                self.state("a drain");
            }
        }
    }
    fn queries(&mut self) {
        let rng = &mut self.ctx.rng;
        let q = self.g.query(rng, &self.live);
        let p = self.g.near(rng, &self.live);
        let some = rng.below(12);
        let bx = Bx::<M, N>::of(q.clone());
        let n = self.live.len() + 8;
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {{
                let (got, want) = (ids($got), &$want);
                ensure!(got == *want, "{} gives {:?} instead of {:?}", $what, got, want);
                self.ctx.evals += 1;
            }};
        }
        macro_rules! visit {
            ($f:ident, $q:expr) => {{
                let mut v = vec![];
                let _: ControlFlow<()> = self.tree.$f($q, |e| {
                    v.push(e.id);
                    ControlFlow::Continue(())
                });
                v
            }};
        }
        let want = self.select(|e| e.at.within(&q));
        same!("locate_in_envelope", self.tree.locate_in_envelope(bx.clone()).take(n).map(|e| e.id).collect(), want);
        same!("locate_in_envelope_int", visit!(locate_in_envelope_int, bx.clone()), want);
        same!("locate_in_envelope_mut", self.tree.locate_in_envelope_mut(bx.clone()).take(n).map(|e| e.id).collect(), want);
        same!("locate_in_envelope_int_mut", visit!(locate_in_envelope_int_mut, bx.clone()), want);
        let want = self.select(|e| e.at.meets(&q));
        self.ctx.count(if want.is_empty() { "boxes_meeting_nothing" } else { "boxes_meeting_something" }, 1);
        same!("locate_in_envelope_intersecting", self.tree.locate_in_envelope_intersecting(bx.clone()).take(n).map(|e| e.id).collect(), want);
        same!("locate_in_envelope_intersecting_int", visit!(locate_in_envelope_intersecting_int, bx.clone()), want);
        same!("locate_in_envelope_intersecting_mut", self.tree.locate_in_envelope_intersecting_mut(bx.clone()).take(n).map(|e| e.id).collect(), want);
        same!("locate_in_envelope_intersecting_int_mut", visit!(locate_in_envelope_intersecting_int_mut, bx.clone()), want);
        let want = self.select(|e| e.holds(&p));
        same!("locate_all_at_point", self.tree.locate_all_at_point(Pt(p)).take(n).map(|e| e.id).collect(), want);
        same!("locate_all_at_point_mut", self.tree.locate_all_at_point_mut(Pt(p)).take(n).map(|e| e.id).collect(), want);
        same!("locate_all_at_point_int", visit!(locate_all_at_point_int, Pt(p)), want);
        same!("locate_all_at_point_int_mut", visit!(locate_all_at_point_int_mut, Pt(p)), want);
        for (what, one) in [
            ("locate_at_point", self.tree.locate_at_point(Pt(p)).map(|e| e.id)),
            ("locate_at_point_int", self.tree.locate_at_point_int(Pt(p)).map(|e| e.id)),
            ("locate_at_point_mut", self.tree.locate_at_point_mut(Pt(p)).map(|e| e.id)),
            ("locate_at_point_int_mut", self.tree.locate_at_point_int_mut(Pt(p)).map(|e| e.id)),
        ] {
            ensure!(one.map_or(want.is_empty(), |i| want.contains(&i)), "{} gives {:?}, there are {:?}", what, one, want);
        }
        // Distances
        let mut by: Vec<(i64, u32)> = self.live.iter().map(|e| (e.away(&p), e.id)).collect();
        by.sort_unstable();
        let best = by.first().map(|x| x.0);
        let got = self.tree.nearest_neighbor_with_distance_2(Pt(p)).map(|(e, d)| (e.away(&p), d));
        ensure!(got == best.map(|b| (b, b)), "the nearest neighbor of {:?} has {:?}, the smallest squared distance is {:?}", p, got, best);
        let got = self.tree.nearest_neighbor(Pt(p)).map(|e| e.away(&p));
        ensure!(got == best, "nearest_neighbor of {:?} has {:?}, the smallest squared distance is {:?}", p, got, best);
        let want = self.select(|e| Some(e.away(&p)) == best);
        same!("nearest_neighbors", self.tree.nearest_neighbors(&Pt(p)).into_iter().map(|e| e.id).collect(), want);
        let order: Vec<(i64, i64)> = self.tree.nearest_neighbor_iter_with_distance_2(Pt(p)).take(n).map(|(e, d)| (d, e.away(&p))).collect();
        ensure!(order.iter().map(|x| x.0).eq(by.iter().map(|x| x.0)) && order.iter().all(|x| x.0 == x.1), "nearest neighbor iteration has the distances {:?}", order);
        same!("nearest_neighbor_iter", self.tree.nearest_neighbor_iter(Pt(p)).take(n).map(|e| e.id).collect(), self.select(|_| true));
        let r = by.get(some).map_or(5, |x| x.0) + if some % 3 == 0 { 1 } else { 0 };
        let want = self.select(|e| e.away(&p) <= r);
        same!("locate_within_distance", self.tree.locate_within_distance(Pt(p), r).take(n).map(|e| e.id).collect(), want);
        // Membership
        let mut e = self.fresh();
        if !self.live.is_empty() {
            e = self.live[self.ctx.rng.below(self.live.len())].clone();
            if self.ctx.rng.bit() {
                e.at.labels ^= 1 << self.ctx.rng.below(4);
            }
        }
        if e.at.labels != 0 {
            let want = self.live.contains(&e);
            ensure!(self.tree.contains(&e) == want, "contains({:?}) is {}", e, !want);
        }
        self.ctx.evals += 7;
        self.ctx.count("queries", 24);
    }
    fn join(&mut self) {
        let k = self.ctx.rng.below(80);
        let other: Vec<El<M, N, OWN>> = (0..k).map(|i| self.g.element(&mut self.ctx.rng, i as u32)).collect();
        let tree: Tree<M, N, OWN, rstar::DefaultParams> = RTree::bulk_load(other.clone());
        let limit = (other.len() + 1) * (self.live.len() + 1);
        let mut got: Vec<(u32, u32)> = self.tree.intersection_candidates_with_other_tree(&tree).take(limit).map(|(a, b)| (a.id, b.id)).collect();
        got.sort_unstable();
        let mut want: Vec<(u32, u32)> = vec![];
        for a in &self.live {
            want.extend(other.iter().filter(|b| a.at.meets(&b.at)).map(|b| (a.id, b.id)));
        }
        want.sort_unstable();
        ensure!(got == want, "a join gives {:?} instead of {:?}", got, want);
        self.ctx.count("joins", 1);
        self.ctx.count("pairs", want.len() as u64);
        self.ctx.evals += 1;
    }
}

fn history<M: Metric, const N: usize, const OWN: bool, R: RTreeParams + Clone>(ctx: &mut Ctx)
where
    El<M, N, OWN>: PointDistance + RTreeObject<Envelope = Bx<M, N>>,
{
    STRATEGY.with(|c| c.set(0));
    let before = BOXES.with(Cell::get);
    let e = *ctx.rng.pick(&[3i64, 20, 200, 1000]);
    let g = Gen::<N> { e, size: *ctx.rng.pick(&[1, 1 + e / 8, e]), style: ctx.rng.below(5) };
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(R::MAX_SIZE + 3),
        1 => 100 + ctx.rng.below(300),
        _ => ctx.rng.below(100),
    };
    let live: Vec<El<M, N, OWN>> = (0..n).map(|i| g.element(&mut ctx.rng, i as u32)).collect();
    let bulk = ctx.rng.bit();
    let tree: Tree<M, N, OWN, R> = if bulk { RTree::bulk_load_with_params(live.clone()) } else { RTree::new_with_params() };
    ctx.sample = format!("{n} elements, {} in {N} dimensions, {}/{}/{}", M::NAME, R::MIN_SIZE, R::MAX_SIZE, R::REINSERTION_COUNT);
    let mut w = World { ctx, tree, live: vec![], g, next: n as u32, inserted: 0 };
    if bulk {
        w.live = live;
        w.state("bulk loading");
        w.ctx.count("bulk_loads", 1);
    } else {
        for (i, e) in live.into_iter().enumerate() {
            w.live.push(e.clone());
            w.tree.insert(e);
            w.inserted += 1;
            if i < 40 || i % 16 == 0 {
                w.state("insert");
            }
        }
        // Grown by insertions only
        walk(w.tree.root(), 0, &mut BTreeSet::new(), &mut vec![], R::MAX_SIZE);
    }
    for _ in 0..w.ctx.rng.below(40) {
        w.step();
        if w.ctx.rng.chance(1, 4) {
            w.queries();
        }
    }
    for _ in 0..4 {
        w.queries();
    }
    w.join();
    w.state("queries");
    let all = ids(w.tree.clone().into_iter().map(|e| e.id).collect());
    let iter = ids(w.tree.iter().map(|e| e.id).collect());
    let mutable = ids(w.tree.iter_mut().map(|e| e.id).collect());
    let want = w.select(|_| true);
    ensure!(all == want && iter == want && mutable == want, "iterations give {:?}, {:?} and {:?} instead of {:?}", all, iter, mutable, want);
    let (inserted, held) = (w.inserted, w.live.len());
    ctx.count("insertions", inserted);
    ctx.count("box_operations", BOXES.with(Cell::get) - before);
    if held > R::MAX_SIZE {
        ctx.fingerprints.push(combine(ctx.seed, held as u64));
    }
}

fn run(ctx: &mut Ctx) {
    type Df = Own<3, 6, 2>;
    let fs: [CaseFn; 12] = [
        history::<Euclid, 2, false, Df>,
        history::<Manhattan, 2, false, Df>,
        history::<Chebyshev, 2, false, Df>,
        history::<Euclid, 2, true, Own<1, 4, 0>>,
        history::<Manhattan, 2, true, Own<2, 5, 2>>,
        history::<Chebyshev, 2, true, Own<4, 8, 3>>,
        history::<Euclid, 3, false, Own<2, 4, 1>>,
        history::<Manhattan, 3, true, Df>,
        history::<Chebyshev, 3, false, Own<5, 10, 1>>,
        history::<Euclid, 4, true, Own<3, 5, 1>>,
        history::<Manhattan, 4, false, Own<8, 16, 7>>,
        history::<Chebyshev, 5, true, Df>,
    ];
    fs[ctx.index % fs.len()](ctx)
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C25",
        rule: "seed and final size of histories on trees that end with more elements than fit into one node",
        scenarios: vec![sc("own-types", 30_000, 600_000, run)],
        required: &[
            ("queries", 200_000),
            ("insertions", 50_000),
            ("removals", 10_000),
            ("drains", 5_000),
            ("pairs", 20_000),
            ("box_operations", 10_000_000),
            ("boxes_meeting_something", 10_000),
            ("boxes_meeting_nothing", 3_000),
        ],
    }]);
}
