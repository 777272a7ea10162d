//! C15: read-only operations leave the tree alone, may run concurrently, and clones are independent.
//!
//! Runs as a plain build and under ThreadSanitizer (with an instrumented standard library). The
//! bookkeeping only uses relaxed atomics, so that it orders nothing the tree itself does not.
use harness::rng::{combine, hash_bytes, Rng};
use harness::runner::*;
use harness::{ensure, viol};
use rstar::primitives::*;
use rstar::{Envelope, ParentNode, Point, PointDistance, RTree, RTreeNode, RTreeObject, RTreeParams, SelectionFunction, AABB};
use std::cell::Cell;
use std::collections::HashSet;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

// ---- elements --------------------------------------------------------------------------------

thread_local! {
    /// Per-thread source of delays, 0: none
    static DELAY: Cell<u64> = const { Cell::new(0) };
}

/// Called from inside the tree's operations: lets other threads run in the middle of them
fn pause() {
    DELAY.with(|d| {
        let x = d.get();
        if x != 0 {
            let y = x ^ (x << 13);
            let y = y ^ (y >> 7);
            let y = y ^ (y << 17);
            d.set(y);
            match y >> 56 {
                0..=2 => std::thread::yield_now(),
                3..=8 => {
                    for _ in 0..(y & 0xff) {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
    })
}

/// A rectangle with user-written, delaying implementations of everything
#[derive(Clone, Debug, PartialEq)]
struct Obj {
    lo: [i64; 2],
    hi: [i64; 2],
    id: u32,
    note: String,
}
impl RTreeObject for Obj {
    type Envelope = AABB<[i64; 2]>;
    fn envelope(&self) -> AABB<[i64; 2]> {
        pause();
        AABB::from_corners(self.lo, self.hi)
    }
}
impl PointDistance for Obj {
    fn distance_2(&self, p: &[i64; 2]) -> i64 {
        pause();
        (0..2)
            .map(|i| {
                let c = p[i].clamp(self.lo[i], self.hi[i]);
                (p[i] - c) * (p[i] - c)
            })
            .sum()
    }
    fn contains_point(&self, p: &[i64; 2]) -> bool {
        pause();
        (0..2).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
    }
}

/// What a tree of elements of this type needs
trait El: PointDistance<Envelope = AABB<[i64; 2]>> + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn make(id: u32, lo: [i64; 2], hi: [i64; 2]) -> Self;
    fn id(&self) -> u64;
    /// Changes something that affects neither position nor equality
    fn touch(&mut self) -> bool {
        false
    }
}
impl El for Obj {
    fn make(id: u32, lo: [i64; 2], hi: [i64; 2]) -> Self {
        Obj { lo, hi, id, note: String::new() }
    }
    fn id(&self) -> u64 {
        combine(self.id as u64, hash_bytes(self.note.as_bytes()))
    }
    fn touch(&mut self) -> bool {
        self.note.push('x');
        true
    }
}
type Pt = [i64; 2];
impl El for Pt {
    fn make(_: u32, lo: [i64; 2], _: [i64; 2]) -> Self {
        lo
    }
    fn id(&self) -> u64 {
        combine(self[0] as u64, self[1] as u64)
    }
}
type Gd = GeomWithData<Rectangle<Pt>, Vec<u32>>;
impl El for Gd {
    fn make(id: u32, lo: [i64; 2], hi: [i64; 2]) -> Self {
        GeomWithData::new(Rectangle::from_corners(lo, hi), vec![id])
    }
    fn id(&self) -> u64 {
        self.data.iter().fold(9, |a, b| combine(a, *b as u64))
    }
    fn touch(&mut self) -> bool {
        self.data.push(1);
        true
    }
}
type Ce = CachedEnvelope<Arc<Obj>>;
impl El for Ce {
    fn make(id: u32, lo: [i64; 2], hi: [i64; 2]) -> Self {
        CachedEnvelope::new(Arc::new(Obj::make(id, lo, hi)))
    }
    fn id(&self) -> u64 {
        El::id(&***self)
    }
}

// ---- Sync and Send ---------------------------------------------------------------------------

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Fallback for Probe<T> {}
struct ProbeSync<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> Fallback for ProbeSync<T> {}
impl<T: ?Sized + Send> Probe<T> {
    #[allow(dead_code)]
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> ProbeSync<T> {
    #[allow(dead_code)]
    const SYNC: bool = true;
}

fn markers(ctx: &mut Ctx) {
    macro_rules! both {
        ($($t:ty),* $(,)?) => { $(
            ensure!(<Probe<$t>>::SEND, "{} cannot be sent to another thread", stringify!($t));
            ensure!(<ProbeSync<$t>>::SYNC, "{} cannot be shared between threads", stringify!($t));
            ctx.count("marker_types", 1);
            ctx.evals += 1;
        )* };
    }
    both!(
        RTree<[f64; 2]>,
        RTree<[i32; 3], harness::kinds::Pm<2, 5, 1>>,
        RTree<Obj>,
        RTree<Gd>,
        RTree<Ce>,
        RTree<Line<[f64; 3]>>,
        RTree<Rectangle<(f32, f32)>>,
        RTree<PointWithData<String, [f64; 2]>>,
        RTree<ObjectRef<'static, Obj>>,
        ParentNode<[f64; 2]>,
        RTreeNode<Obj>,
        AABB<[f64; 2]>,
        CachedEnvelope<Line<[f64; 2]>>,
        GeomWithData<[f32; 2], u8>,
        Line<[f32; 2]>,
        Rectangle<[i64; 4]>,
    );
    // The probe itself works
    assert!(!<Probe<RTree<std::rc::Rc<[f64; 2]>>>>::SEND && !<ProbeSync<RTree<std::rc::Rc<[f64; 2]>>>>::SYNC, "harness: marker probe");
    // Shared through a reference, as users do
    ensure!(<Probe<&'static RTree<[f64; 2]>>>::SEND, "references to trees cannot be sent to another thread");
    ctx.sample = "Send and Sync of trees and primitives".into();
}

/// Lets a tree be shared even if it (wrongly) is not Sync; the probe above reports that
struct Share<T>(T);
// SAFETY: sharing a tree is what is under test
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

// ---- read-only operations ----------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Read {
    Iter,
    Nodes,
    Debug,
    Clone,
    InEnv(AABB<Pt>),
    InEnvInt(AABB<Pt>, usize),
    Inter(AABB<Pt>),
    InterInt(AABB<Pt>, usize),
    At(Pt),
    AtInt(Pt, usize),
    Within(Pt, i64),
    Nn(Pt),
    Nns(Pt),
    NnIter(Pt, usize),
    Contains(usize),
    Select(u64),
    Join,
    JoinSmall(Pt),
}

fn bx(rng: &mut Rng, c: Pt) -> AABB<Pt> {
    let (a, b) = (rng.range(0, 60), rng.range(0, 60));
    AABB::from_corners([c[0] - a, c[1] - b], [c[0] + rng.range(0, 60), c[1] + rng.range(0, 60)])
}
fn reads(rng: &mut Rng, n: usize, k: usize) -> Vec<Read> {
    (0..k)
        .map(|_| {
            let p = [rng.range(-200, 200), rng.range(-200, 200)];
            let stop = 1 + rng.below(20);
            match rng.below(22) {
                0 => Read::Iter,
                1 => Read::Nodes,
                2 => Read::Debug,
                3 => Read::Clone,
                4 | 5 => Read::InEnv(bx(rng, p)),
                6 => Read::InEnvInt(bx(rng, p), stop),
                7 | 8 => Read::Inter(bx(rng, p)),
                9 => Read::InterInt(bx(rng, p), stop),
                10 => Read::At(p),
                11 => Read::AtInt(p, stop),
                12 | 13 => Read::Within(p, rng.range(0, 10_000)),
                14 | 15 => Read::Nn(p),
                16 => Read::Nns(p),
                17 => Read::NnIter(p, rng.below(n + 2)),
                18 => Read::Contains(rng.below(n + 1)),
                19 => Read::Select(rng.next()),
                20 if n < 300 => Read::Join,
                _ => Read::JoinSmall(p),
            }
        })
        .collect()
}

struct Mod(u64);
impl<T: El> SelectionFunction<T> for Mod {
    fn should_unpack_parent(&self, e: &AABB<Pt>) -> bool {
        pause();
        combine(self.0, e.lower()[0] as u64) % 7 != 0
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        pause();
        combine(self.0, t.id()) % 3 != 0
    }
}

/// The answer of a read-only operation, in the order it is given
fn answer<T: El, R: RTreeParams + Clone>(t: &RTree<T, R>, r: &Read, probes: &[T]) -> Vec<u64> {
    let cap = 2 * t.size() + 64;
    fn ids<'a, T: El>(it: impl Iterator<Item = &'a T>, cap: usize) -> Vec<u64> {
        it.take(cap).map(|t| t.id()).collect()
    }
    macro_rules! int {
        ($f:ident, $a:expr, $stop:expr) => {{
            let mut v = vec![];
            let r = t.$f($a, |x| {
                v.push(x.id());
                if v.len() >= $stop {
                    ControlFlow::Break(v.len())
                } else {
                    ControlFlow::Continue(())
                }
            });
            v.push(match r {
                ControlFlow::Break(n) => n as u64,
                _ => 0,
            });
            v
        }};
    }
    match r {
        Read::Iter => ids(t.iter(), cap),
        Read::Nodes => dump(t.root()),
        Read::Debug => vec![hash_bytes(format!("{t:?}").as_bytes())],
        Read::Clone => {
            let c = t.clone();
            let mut v = dump(c.root());
            v.push(c.size() as u64);
            v.extend(c.into_iter().take(cap).map(|t| t.id()));
            v
        }
        Read::InEnv(b) => ids(t.locate_in_envelope(*b), cap),
        Read::InEnvInt(b, s) => int!(locate_in_envelope_int, *b, *s),
        Read::Inter(b) => ids(t.locate_in_envelope_intersecting(*b), cap),
        Read::InterInt(b, s) => int!(locate_in_envelope_intersecting_int, *b, *s),
        Read::At(p) => {
            let mut v = ids(t.locate_all_at_point(*p), cap);
            v.push(t.locate_at_point(*p).map_or(0, |t| t.id()));
            v.push(t.locate_at_point_int(*p).map_or(0, |t| t.id()));
            v
        }
        Read::AtInt(p, s) => int!(locate_all_at_point_int, *p, *s),
        Read::Within(p, d) => ids(t.locate_within_distance(*p, *d), cap),
        Read::Nn(p) => {
            let mut v: Vec<u64> = t.nearest_neighbor(*p).iter().map(|t| t.id()).collect();
            if let Some((x, d)) = t.nearest_neighbor_with_distance_2(*p) {
                v.extend([x.id(), d as u64]);
            }
            v
        }
        Read::Nns(p) => {
            let mut v = ids(t.nearest_neighbors(p).into_iter(), cap);
            if let Some((x, d)) = t.nearest_neighbors_with_distance_2(p) {
                v.push(d as u64);
                v.extend(x.iter().map(|t| t.id()));
            }
            v
        }
        Read::NnIter(p, k) => {
            let mut v = ids(t.nearest_neighbor_iter(*p), *k);
            v.extend(t.nearest_neighbor_iter_with_distance_2(*p).take(*k).flat_map(|(t, d)| [t.id(), d as u64]));
            v
        }
        Read::Contains(i) => vec![t.contains(&probes[*i % probes.len()]) as u64, t.size() as u64],
        Read::Select(s) => ids(t.locate_with_selection_function(Mod(*s)), cap),
        Read::Join => {
            let b: RTree<T> = RTree::bulk_load(probes.to_vec());
            t.intersection_candidates_with_other_tree(&b).map(|(a, b)| combine(a.id(), b.id())).collect()
        }
        Read::JoinSmall(p) => {
            let b: RTree<T> = RTree::bulk_load((0..5).map(|i| T::make(i, *p, [p[0] + 40 * i as i64, p[1] + 30])).collect());
            t.intersection_candidates_with_other_tree(&b).map(|(a, b)| combine(a.id(), b.id())).collect()
        }
    }
}

/// The whole structure, in order
fn dump<T: El>(n: &ParentNode<T>) -> Vec<u64> {
    let e = n.envelope();
    let mut v = vec![n.children().len() as u64, e.lower()[0] as u64, e.lower()[1] as u64, e.upper()[0] as u64, e.upper()[1] as u64];
    for c in n.children() {
        match c {
            RTreeNode::Leaf(t) => v.push(t.id()),
            RTreeNode::Parent(p) => v.extend(dump(p)),
        }
    }
    v
}

// ---- workloads -------------------------------------------------------------------------------

fn elements<T: El>(rng: &mut Rng, n: usize) -> Vec<T> {
    let kind = rng.below(4);
    let w = *rng.pick(&[3i64, 150, 150]);
    (0..n as u32)
        .map(|i| {
            let lo = match kind {
                0 => [i as i64 % 200, i as i64 % 7],
                _ => [rng.range(-w, w), rng.range(-w, w)],
            };
            T::make(i, lo, [lo[0] + rng.range(0, 12), lo[1] + rng.range(0, 12)])
        })
        .collect()
}
fn build<T: El, R: RTreeParams>(rng: &mut Rng, v: &[T]) -> RTree<T, R> {
    let k = match rng.below(3) {
        0 => 0,
        1 => v.len(),
        _ => rng.below(v.len() + 1),
    };
    let mut t = RTree::bulk_load_with_params(v[..k].to_vec());
    for x in &v[k..] {
        t.insert(x.clone());
    }
    t
}
/// Random changes to a tree
fn mutate<T: El, R: RTreeParams>(rng: &mut Rng, t: &mut RTree<T, R>, v: &[T], k: usize) {
    for i in 0..k {
        let p = [rng.range(-200, 200), rng.range(-200, 200)];
        match rng.below(8) {
            0 | 1 => t.insert(T::make(1_000_000 + i as u32, p, [p[0] + 5, p[1] + 5])),
            2 => {
                t.remove(&v[rng.below(v.len())]);
            }
            3 => {
                t.pop_nearest_neighbor(p);
            }
            4 => {
                t.iter_mut().for_each(|x| {
                    x.touch();
                });
            }
            5 => {
                let q = bx(rng, p);
                let k = rng.below(20);
                t.drain_in_envelope_intersecting(q).take(k).for_each(drop);
            }
            6 => {
                let q = bx(rng, p);
                t.locate_in_envelope_mut(q).for_each(|x| {
                    x.touch();
                });
            }
            _ => {
                t.remove_at_point(p);
            }
        }
    }
}

fn size(ctx: &mut Ctx) -> usize {
    let big = if ctx.thorough { 2000 } else { 600 };
    match ctx.rng.below(6) {
        0 => 1 + ctx.rng.below(6),
        1 => 200 + ctx.rng.below(big),
        _ => 5 + ctx.rng.below(150),
    }
}

/// Repeating and interleaving reads on one thread
fn repeat<T: El, R: RTreeParams + Clone>(ctx: &mut Ctx) {
    let n = size(ctx);
    let v: Vec<T> = elements(&mut ctx.rng, n);
    let mut t: RTree<T, R> = build(&mut ctx.rng, &v);
    if ctx.rng.bit() {
        mutate(&mut ctx.rng, &mut t, &v, 10);
    }
    let before = dump(t.root());
    let rs = reads(&mut ctx.rng, n, 30);
    let first: Vec<_> = rs.iter().map(|r| answer(&t, r, &v)).collect();
    let mut order: Vec<usize> = (0..rs.len()).collect();
    ctx.rng.shuffle(&mut order);
    for i in order {
        let again = answer(&t, &rs[i], &v);
        ensure!(again == first[i], "{:?} repeated gives another answer ({} and {} items)", rs[i], first[i].len(), again.len());
        ctx.evals += 1;
        ctx.count("repeated_reads", 1);
    }
    ensure!(dump(t.root()) == before && t.size() == t.iter().take(2 * n + 1000).count(), "read-only operations changed the tree");
    // Several iterators at once
    for _ in 0..4 {
        let p = [ctx.rng.range(-200, 200), ctx.rng.range(-200, 200)];
        let (q1, q2) = (bx(&mut ctx.rng, p), bx(&mut ctx.rng, p));
        let cap = 2 * n + 1000;
        let start = || -> Vec<Box<dyn Iterator<Item = &T> + '_>> {
            vec![
                Box::new(t.iter()),
                Box::new(t.locate_in_envelope(q1)),
                Box::new(t.locate_in_envelope_intersecting(q2)),
                Box::new(t.nearest_neighbor_iter(p)),
                Box::new(t.nearest_neighbor_iter([p[1], p[0]])),
                Box::new(t.locate_within_distance(p, 3000)),
                Box::new(t.locate_all_at_point(p)),
                Box::new(t.intersection_candidates_with_other_tree(&OTHER.with(|o| o.get::<T>())).map(|x| x.0)),
            ]
        };
        let alone: Vec<Vec<u64>> = start().into_iter().map(|it| it.take(cap).map(|t| t.id()).collect()).collect();
        let mut its = start();
        let mut got: Vec<Vec<u64>> = vec![vec![]; its.len()];
        let mut open: Vec<usize> = (0..its.len()).collect();
        while !open.is_empty() {
            let k = ctx.rng.below(open.len());
            let i = open[k];
            for _ in 0..1 + ctx.rng.below(6) {
                match its[i].next() {
                    Some(x) => got[i].push(x.id()),
                    None => {
                        open.swap_remove(k);
                        break;
                    }
                }
                ensure!(got[i].len() < cap, "an iterator does not end");
            }
        }
        for i in 0..its.len() {
            ensure!(got[i] == alone[i], "iterator {} gives another answer when advanced alternately with others ({} and {} items)", i, alone[i].len(), got[i].len());
        }
        ctx.evals += 1;
        ctx.count("alternating_iterations", 1);
    }
    ensure!(dump(t.root()) == before, "read-only operations changed the tree");
    finish(ctx, "repeat", &before);
}

/// A second tree for joins, per element type
struct Other;
impl Other {
    fn get<T: El>(&self) -> &'static RTree<T> {
        thread_local!(static MAP: std::cell::RefCell<std::collections::HashMap<std::any::TypeId, &'static dyn std::any::Any>> = Default::default());
        MAP.with(|m| {
            let r = *m.borrow_mut().entry(std::any::TypeId::of::<T>()).or_insert_with(|| {
                let mut rng = Rng::new(7);
                let t: RTree<T> = RTree::bulk_load(elements(&mut rng, 40));
                Box::leak(Box::new(t))
            });
            r.downcast_ref().expect("harness: other tree")
        })
    }
}
thread_local!(static OTHER: Other = const { Other });

fn finish(ctx: &mut Ctx, what: &str, dump: &[u64]) {
    let h = dump.iter().fold(1, |a, b| combine(a, *b));
    ctx.distinct("trees", h);
    if dump.len() > 30 {
        ctx.fingerprints.push(combine(ctx.seed, h));
    }
    ctx.sample = format!("{what}: tree of {} numbers", dump.len());
}

/// Clones and originals do not affect each other
fn clones<T: El, R: RTreeParams + Clone>(ctx: &mut Ctx) {
    let n = size(ctx);
    let v: Vec<T> = elements(&mut ctx.rng, n);
    let mut t: RTree<T, R> = build(&mut ctx.rng, &v);
    for _ in 0..4 {
        let rs = reads(&mut ctx.rng, n, 8);
        let before = dump(t.root());
        let size = t.size();
        let answers: Vec<_> = rs.iter().map(|r| sorted(answer(&t, r, &v))).collect();
        let mut c = if ctx.rng.bit() {
            t.clone()
        } else {
            // In place of another tree, whatever it has been through
            let k = 1 + ctx.rng.below(2 * n + 2);
            let w: Vec<T> = elements(&mut ctx.rng, k);
            let mut c: RTree<T, R> = build(&mut ctx.rng, &w);
            let k = ctx.rng.below(10);
            mutate(&mut ctx.rng, &mut c, &w, k);
            c.clone_from(&t);
            ctx.count("clones_in_place", 1);
            c
        };
        ensure!(c.size() == size, "a clone has size {} instead of {}", c.size(), size);
        let same: Vec<_> = rs.iter().map(|r| sorted(answer(&c, r, &v))).collect();
        for (i, r) in rs.iter().enumerate() {
            // Structural answers may list nodes in another order
            if !matches!(r, Read::Debug | Read::Nodes | Read::Clone | Read::Select(..) | Read::InEnvInt(..) | Read::InterInt(..) | Read::AtInt(..) | Read::At(..) | Read::Nn(..) | Read::NnIter(..)) {
                ensure!(answers[i] == same[i], "{:?} gives another answer on a clone", r);
            }
        }
        let k = 1 + ctx.rng.below(25);
        let (changed, kept, which) = if ctx.rng.bit() { (&mut c, &mut t, "original") } else { (&mut t, &mut c, "clone") };
        let kept_before = dump(kept.root());
        mutate(&mut ctx.rng, changed, &v, k);
        ensure!(dump(kept.root()) == kept_before && kept.size() == size, "changing the other one changed the {}", which);
        let again: Vec<_> = rs.iter().map(|r| sorted(answer(kept, r, &v))).collect();
        let expect = if which == "original" { &answers } else { &same };
        for (i, r) in rs.iter().enumerate() {
            if !matches!(r, Read::Debug) {
                ensure!(&again[i] == &expect[i], "{:?} gives another answer on the {} after the other one was changed", r, which);
            }
        }
        if ctx.rng.bit() {
            // Dropped elsewhere
            let gone = std::mem::replace(changed, RTree::new_with_params());
            drop(gone);
            ensure!(dump(kept.root()) == kept_before, "dropping the other one changed the {}", which);
        }
        if which == "clone" {
            t = c;
        }
        ctx.evals += 1;
        ctx.count("clones_checked", 1);
        let _ = before;
    }
    let d = dump(t.root());
    finish(ctx, "clones", &d);
    ctx.fingerprints.push(ctx.seed);
}

fn sorted(mut v: Vec<u64>) -> Vec<u64> {
    v.sort_unstable();
    v
}

/// Threads querying one tree at the same time
fn threads<T: El, R: RTreeParams + Clone + 'static>(ctx: &mut Ctx) {
    let n = size(ctx);
    let v: Vec<T> = elements(&mut ctx.rng, n);
    let mut t: RTree<T, R> = build(&mut ctx.rng, &v);
    if ctx.rng.bit() {
        mutate(&mut ctx.rng, &mut t, &v, 10);
    }
    let before = dump(t.root());
    let rs = reads(&mut ctx.rng, n, 24);
    // The reference comes from a separate clone half of the time: then the shared tree is first
    // used by several threads at once
    let alone: Vec<_> = if ctx.rng.bit() {
        rs.iter().map(|r| answer(&t, r, &v)).collect()
    } else {
        let mut c = Vec::new();
        let other: RTree<T, R> = t.clone();
        // A clone may order its children differently only if the structure differs
        if dump(other.root()) == before {
            c.extend(rs.iter().map(|r| answer(&other, r, &v)));
        } else {
            c.extend(rs.iter().map(|r| answer(&t, r, &v)));
        }
        c
    };
    let k = 2 + ctx.rng.below(4);
    let rounds = if ctx.thorough { 4 } else { 2 };
    let clock = AtomicU64::new(0);
    let active = AtomicUsize::new(0);
    let peak = AtomicUsize::new(0);
    let overlapping = AtomicU64::new(0);
    let barrier = Barrier::new(k);
    let errors: Mutex<Vec<String>> = Mutex::default();
    let seeds: Vec<u64> = (0..k).map(|_| ctx.rng.next() | 1).collect();
    let mutators = if ctx.rng.chance(1, 3) { 1 } else { 0 };
    let shared = Share((&t, &v, &rs, &alone));
    let logs: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k)
            .map(|th| {
                let (shared, clock, active, peak, overlapping, barrier, errors, seeds) = (&shared, &clock, &active, &peak, &overlapping, &barrier, &errors, &seeds);
                s.spawn(move || {
                    let (t, v, rs, alone) = shared.0;
                    let mut rng = Rng::new(seeds[th]);
                    let mut log = vec![];
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        // Somebody changes other trees meanwhile
                        let mut own: RTree<T, R> = build(&mut rng, v);
                        barrier.wait();
                        DELAY.with(|d| d.set(seeds[th]));
                        for _ in 0..rounds {
                            let mut order: Vec<usize> = (0..rs.len()).collect();
                            rng.shuffle(&mut order);
                            for i in order {
                                if th < mutators {
                                    mutate(&mut rng, &mut own, v, 2);
                                    own = if rng.chance(1, 8) { t.clone() } else { own };
                                    continue;
                                }
                                let a = active.fetch_add(1, Relaxed) + 1;
                                peak.fetch_max(a, Relaxed);
                                let t0 = clock.fetch_add(1, Relaxed);
                                let got = answer(t, &rs[i], v);
                                let t1 = clock.fetch_add(1, Relaxed);
                                active.fetch_sub(1, Relaxed);
                                if t1 != t0 + 1 {
                                    overlapping.fetch_add(1, Relaxed);
                                }
                                log.push(t1);
                                if got != alone[i] {
                                    viol!("{:?} gives another answer while {} threads use the tree ({} and {} items)", rs[i], k, alone[i].len(), got.len());
                                }
                            }
                        }
                    }));
                    DELAY.with(|d| d.set(0));
                    if let Err(p) = r {
                        let m = match p.downcast_ref::<harness::Violation>() {
                            Some(v) => v.0.clone(),
                            None => format!("unexpected {}", last_panic()),
                        };
                        errors.lock().unwrap().push(m);
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    if let Some(m) = errors.lock().unwrap().first() {
        viol!("{}", m);
    }
    ensure!(dump(t.root()) == before, "concurrent reads changed the tree");
    for (i, r) in rs.iter().enumerate() {
        let got = answer(&t, r, &v);
        ensure!(got == alone[i], "{:?} gives another answer after concurrent reads", r);
    }
    // Which thread finished an operation when: the interleaving
    let mut events: Vec<(u64, usize)> = logs.iter().enumerate().flat_map(|(th, l)| l.iter().map(move |x| (*x, th))).collect();
    events.sort_unstable();
    let h = events.iter().fold(k as u64, |a, e| combine(a, e.1 as u64));
    ctx.distinct("interleavings", h);
    ctx.evals += events.len() as u64;
    ctx.count("concurrent_reads", events.len() as u64);
    ctx.count("overlapping_reads", overlapping.load(Relaxed));
    ctx.max("threads_at_once", peak.load(Relaxed) as u64);
    ctx.count("thread_groups", 1);
    finish(ctx, "threads", &before);
    let s = format!("{} queried by {k} threads, {} of {} reads overlapping others", ctx.sample, overlapping.load(Relaxed), events.len());
    ctx.sample = s;
}

macro_rules! by_type {
    ($name:ident, $f:ident) => {
        fn $name(ctx: &mut Ctx) {
            use harness::kinds::Pm;
            use rstar::DefaultParams as Df;
            let fs: [CaseFn; 6] = [$f::<Obj, Df>, $f::<Pt, Df>, $f::<Gd, Df>, $f::<Ce, Pm<2, 4, 1>>, $f::<Gd, Pm<6, 16, 5>>, $f::<Pt, Pm<1, 5, 0>>];
            fs[ctx.index % fs.len()](ctx)
        }
    };
}
by_type!(repeats, repeat);
by_type!(clone_cases, clones);
by_type!(thread_cases, threads);

fn main() {
    let _: HashSet<u8> = HashSet::new();
    fn _envelope<E: Envelope>(_: E) -> usize
    where
        E::Point: Point,
    {
        0
    }
    let rule = "seed and structure hash of trees of more than one node on which reads were repeated, interleaved, run concurrently, or which were cloned";
    // The sanitizer makes everything about ten times slower
    let tsan = std::env::var("TSAN_OPTIONS").is_ok();
    let n = |q: usize, t: usize| if tsan { (q / 6, t / 12) } else { (q, t) };
    let (a, b) = n(2400, 60_000);
    let (c, d) = n(1800, 40_000);
    let (e, f) = n(1800, 40_000);
    harness::runner::main(vec![Property {
        id: "C15",
        rule,
        scenarios: vec![sc("markers", 1, 1, markers), sc("repeat", a, b, repeats), sc("clones", c, d, clone_cases), sc("threads", e, f, thread_cases)],
        required: &[
            ("marker_types", 16),
            ("repeated_reads", 3_000),
            ("alternating_iterations", 400),
            ("clones_checked", 400),
            ("concurrent_reads", 10_000),
            ("overlapping_reads", 1_000),
            ("threads_at_once", 2),
            ("interleavings", 100),
        ],
    }]);
}
