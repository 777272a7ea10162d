//! C20: every element owned once, memory bounded and released, little stack
use harness::ensure;
use harness::rng::{combine, Rng};
use harness::runner::*;
use harness::world::pick_n;
use harness::kinds::Pm;
use rstar::primitives::*;
use rstar::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---- Memory ------------------------------------------------------------------------------------

/// Counts what each thread holds; all the work of a case happens on one thread
struct Counting;
thread_local! {
    static NET: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn account(n: isize) {
    let _ = NET.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            account(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            account(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        account(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            account(n as isize - l.size() as isize);
        }
        q
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn held() -> isize {
    NET.with(|c| c.get())
}
fn reset_peak() {
    PEAK.with(|p| p.set(held()));
}
fn peak() -> isize {
    PEAK.with(|p| p.get())
}

// ---- Ledger ------------------------------------------------------------------------------------

#[derive(Default)]
struct Ledger {
    /// Times each element was dropped
    dropped: RefCell<Vec<u8>>,
    live: Cell<isize>,
    copies: Cell<u64>,
    twice: Cell<Option<u32>>,
    bad: Cell<bool>,
}
impl Ledger {
    fn issue(&self) -> u32 {
        let mut d = self.dropped.borrow_mut();
        d.push(0);
        self.live.set(self.live.get() + 1);
        (d.len() - 1) as u32
    }
}

/// Carries memory of its own, so that sanitizers notice what happens to it
struct Own<P: Point> {
    serial: u32,
    lo: P,
    hi: P,
    heap: Box<u32>,
    ledger: Rc<Ledger>,
}
impl<P: Point> Own<P> {
    fn new(l: &Rc<Ledger>, lo: P, hi: P) -> Self {
        let serial = l.issue();
        Own {
            serial,
            lo,
            hi,
            heap: Box::new(!serial),
            ledger: l.clone(),
        }
    }
    fn good(&self) -> bool {
        *self.heap == !self.serial && self.ledger.dropped.borrow()[self.serial as usize] == 0
    }
}
impl<P: Point> Drop for Own<P> {
    fn drop(&mut self) {
        let l = &self.ledger;
        let mut d = l.dropped.borrow_mut();
        if *self.heap != !self.serial {
            l.bad.set(true);
        }
        let n = &mut d[self.serial as usize];
        *n += 1;
        if *n > 1 {
            l.twice.set(Some(self.serial));
        }
        l.live.set(l.live.get() - 1);
    }
}
impl<P: Point> PartialEq for Own<P> {
    fn eq(&self, o: &Self) -> bool {
        self.lo == o.lo && self.hi == o.hi
    }
}
impl<P: Point> RTreeObject for Own<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.lo.clone(), self.hi.clone())
    }
}
impl<P: Point> PointDistance for Own<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        self.envelope().distance_2(p)
    }
}
/// The same, but it can be copied
struct Twin<P: Point>(Own<P>);
impl<P: Point> Clone for Twin<P> {
    fn clone(&self) -> Self {
        self.0.ledger.copies.set(self.0.ledger.copies.get() + 1);
        Twin(Own::new(&self.0.ledger, self.0.lo.clone(), self.0.hi.clone()))
    }
}
impl<P: Point> PartialEq for Twin<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P: Point> RTreeObject for Twin<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        self.0.envelope()
    }
}
impl<P: Point> PointDistance for Twin<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        self.0.distance_2(p)
    }
}

/// A point with memory of its own
#[derive(Clone, Debug, PartialEq)]
struct BoxedPoint(Box<[f64; 2]>);
impl Point for BoxedPoint {
    type Scalar = f64;
    const DIMENSIONS: usize = 2;
    fn generate(mut g: impl FnMut(usize) -> f64) -> Self {
        BoxedPoint(Box::new([g(0), g(1)]))
    }
    fn nth(&self, i: usize) -> f64 {
        self.0[i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut f64 {
        &mut self.0[i]
    }
}

trait Element: PointDistance<Envelope = AABB<[i32; 2]>> + PartialEq + 'static {
    fn of(o: Own<[i32; 2]>) -> Self;
    fn own(&self) -> &Own<[i32; 2]>;
    fn copy<R: RTreeParams + Clone>(_: &RTree<Self, R>) -> Option<RTree<Self, R>>
    where
        Self: Sized,
    {
        None
    }
}
impl Element for Own<[i32; 2]> {
    fn of(o: Own<[i32; 2]>) -> Self {
        o
    }
    fn own(&self) -> &Own<[i32; 2]> {
        self
    }
}
impl Element for Twin<[i32; 2]> {
    fn of(o: Own<[i32; 2]>) -> Self {
        Twin(o)
    }
    fn own(&self) -> &Own<[i32; 2]> {
        &self.0
    }
    fn copy<R: RTreeParams + Clone>(t: &RTree<Self, R>) -> Option<RTree<Self, R>> {
        Some(t.clone())
    }
}
impl Element for Rc<Own<[i32; 2]>> {
    fn of(o: Own<[i32; 2]>) -> Self {
        Rc::new(o)
    }
    fn own(&self) -> &Own<[i32; 2]> {
        self
    }
}
impl Element for GeomWithData<CachedEnvelope<Own<[i32; 2]>>, Vec<u8>> {
    fn of(o: Own<[i32; 2]>) -> Self {
        GeomWithData::new(CachedEnvelope::new(o), vec![1, 2, 3])
    }
    fn own(&self) -> &Own<[i32; 2]> {
        self.geom()
    }
}

struct Some1(u32, u32);
impl<T: Element> SelectionFunction<T> for Some1 {
    fn should_unpack_parent(&self, _: &AABB<[i32; 2]>) -> bool {
        true
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        t.own().serial % self.0 == self.1
    }
}

fn coords(rng: &mut Rng, e: i64) -> ([i32; 2], [i32; 2]) {
    let a = [rng.range(-e, e) as i32, rng.range(-e, e) as i32];
    let w = rng.range(0, 3) * rng.range(0, 1);
    (a, [a[0] + w as i32, a[1] + rng.range(0, w) as i32])
}
fn qbox(rng: &mut Rng, e: i64) -> AABB<[i32; 2]> {
    let (a, _) = coords(rng, e);
    let (b, _) = coords(rng, e);
    AABB::from_corners(a, b)
}

/// A history in which every element is accounted for after every step
fn history<T: Element, R: RTreeParams + Clone>(ctx: &mut Ctx) {
    let before = held();
    let mut fp = 0;
    let (mut ops, mut most, mut leaked_any, mut drains, mut clones) = (0u64, 0, false, 0u64, 0u64);
    {
        let l: Rc<Ledger> = Rc::default();
        let e = *ctx.rng.pick(&[3, 10, 100]);
        let target = pick_n(&mut ctx.rng, 150);
        let mk = |rng: &mut Rng| {
            let (a, b) = coords(rng, e);
            T::of(Own::new(&l, a, b))
        };
        let mut tree: RTree<T, R> = RTree::new_with_params();
        // Elements that are in the tree, as far as we know
        let mut n = 0usize;
        let mut leaked = 0usize;
        let audit = |what: &str, tree: &RTree<T, R>, n: usize, leaked: usize, copies: u64| {
            if let Some(s) = l.twice.get() {
                harness::viol!("{what}: element {s} was dropped twice");
            }
            ensure!(!l.bad.get(), "{what}: a dropped element had been overwritten");
            ensure!(tree.size() == n, "{what}: size {} instead of {n}", tree.size());
            let live = l.live.get();
            // Leaked elements may be kept or dropped, but not twice
            ensure!(
                live >= n as isize && live <= (n + leaked) as isize,
                "{what}: {live} elements are alive, but {n} are in the tree ({leaked} leaked)"
            );
            ensure!(l.copies.get() == copies, "{what}: {} copies were made instead of {copies}", l.copies.get());
        };
        let mut copies = 0;
        for step in 0..60 {
            let op = ctx.rng.weighted(&[if n < target { 30 } else { 8 }, 3, 6, 4, 4, 4, 8, 4, 3, 2, 2, 3]);
            fp = combine(fp, op as u64);
            match op {
                0 => {
                    for _ in 0..1 + ctx.rng.below(12) {
                        tree.insert(mk(&mut ctx.rng));
                        n += 1;
                    }
                }
                1 => {
                    let m = pick_n(&mut ctx.rng, target.max(1));
                    let v: Vec<T> = (0..m).map(|_| mk(&mut ctx.rng)).collect();
                    tree = RTree::bulk_load_with_params(v);
                    n = m;
                }
                2 => {
                    let t = mk(&mut ctx.rng);
                    let there = tree.contains(&t);
                    let r = tree.remove(&t);
                    ensure!(there == r.is_some(), "contains and remove disagree");
                    if let Some(r) = r {
                        ensure!(r.own().good() && r.own().serial != t.own().serial, "remove handed out a bad element");
                        n -= 1;
                    }
                }
                3 => {
                    let (p, _) = coords(&mut ctx.rng, e);
                    if let Some(r) = tree.remove_at_point(p) {
                        ensure!(r.own().good(), "remove_at_point handed out a bad element");
                        n -= 1;
                    }
                }
                4 => {
                    let (p, _) = coords(&mut ctx.rng, e);
                    if let Some(r) = tree.pop_nearest_neighbor(p) {
                        ensure!(r.own().good(), "pop_nearest_neighbor handed out a bad element");
                        n -= 1;
                    }
                }
                5 => {
                    let m = 1 + ctx.rng.below(8) as u32;
                    if let Some(r) = tree.remove_with_selection_function(Some1(m, ctx.rng.below(m as usize) as u32)) {
                        ensure!(r.own().good(), "remove_with_selection_function handed out a bad element");
                        n -= 1;
                    }
                }
                6 => {
                    // Drains, abandoned anywhere
                    let steps = if ctx.rng.bit() { usize::MAX } else { ctx.rng.below(n + 2) };
                    let forget = ctx.rng.chance(1, 10);
                    let q = qbox(&mut ctx.rng, e);
                    let (p, _) = coords(&mut ctx.rng, e);
                    let r = ctx.rng.range(0, 2 * e * e) as i32;
                    let m = 1 + ctx.rng.below(4) as u32;
                    let hold = ctx.rng.bit();
                    let mut kept = vec![];
                    let mut got = 0;
                    let mut ended = false;
                    macro_rules! run {
                        ($d:expr) => {{
                            let mut d = $d;
                            while got < steps {
                                match d.next() {
                                    Some(t) => {
                                        ensure!(t.own().good(), "a drain handed out a bad element");
                                        got += 1;
                                        if hold {
                                            kept.push(t);
                                        }
                                    }
                                    None => {
                                        ended = true;
                                        break;
                                    }
                                }
                            }
                            if forget {
                                std::mem::forget(d);
                            }
                        }};
                    }
                    match ctx.rng.below(5) {
                        0 => run!(tree.drain()),
                        1 => run!(tree.drain_in_envelope(q)),
                        2 => run!(tree.drain_in_envelope_intersecting(q)),
                        3 => run!(tree.drain_within_distance(p, r)),
                        _ => run!(tree.drain_with_selection_function(Some1(m, 0))),
                    }
                    n -= got;
                    if forget && !ended {
                        leaked += n;
                        n = 0;
                    }
                    // The iterator's own memory is leaked even after it ended
                    leaked_any |= forget;
                    for t in &kept {
                        ensure!(t.own().good(), "an element handed out by a drain went bad");
                    }
                    let k = kept.len() as isize;
                    let live = l.live.get();
                    ensure!(
                        live >= n as isize + k && live <= (n + leaked) as isize + k,
                        "after a drain {} elements are alive, but {} are in the tree and {} were handed out", live, n, k
                    );
                    drains += 1;
                }
                7 => {
                    // Read only
                    let (p, _) = coords(&mut ctx.rng, e);
                    let q = qbox(&mut ctx.rng, e);
                    let mut seen = 0;
                    for t in tree.iter().chain(tree.locate_in_envelope(q)).chain(tree.nearest_neighbor_iter(p)) {
                        ensure!(t.own().good(), "a query handed out a bad element");
                        seen += 1;
                    }
                    ensure!(seen >= 2 * n, "queries saw too little");
                    let k = ctx.rng.below(n + 1);
                    let v: Vec<_> = tree.nearest_neighbor_iter_with_distance_2(p).take(k).collect();
                    ensure!(v.len() == k, "queries saw too little");
                    let _ = (tree.nearest_neighbor(p).is_some(), tree.nearest_neighbors(&p).len());
                    for t in tree.locate_in_envelope_intersecting_mut(q) {
                        ensure!(t.own().good(), "a query handed out a bad element");
                    }
                }
                8 => {
                    // Consumed, abandoned anywhere
                    let k = ctx.rng.below(n + 2);
                    let t = std::mem::replace(&mut tree, RTree::new_with_params());
                    let mut it = t.into_iter();
                    let kept: Vec<T> = it.by_ref().take(k).collect();
                    let live = l.live.get();
                    ensure!(live >= n as isize && live <= (n + leaked) as isize, "half way through into_iter, {live} of {n} elements are alive");
                    drop(it);
                    let live = l.live.get();
                    ensure!(
                        live >= k.min(n) as isize && live <= (k.min(n) + leaked) as isize,
                        "after dropping into_iter, {live} elements are alive instead of {}", k.min(n)
                    );
                    ensure!(kept.iter().all(|t| t.own().good()), "an element handed out by into_iter went bad");
                    n = 0;
                }
                9 => {
                    tree = RTree::new_with_params();
                    n = 0;
                }
                10 => {
                    if let Some(c) = T::copy(&tree) {
                        copies += n as u64;
                        let live = l.live.get();
                        ensure!(live >= 2 * n as isize && live <= (2 * n + leaked) as isize, "after cloning {n} elements, {live} are alive");
                        if ctx.rng.bit() {
                            tree = c;
                        }
                        clones += 1;
                    }
                }
                _ => {
                    let (p, _) = coords(&mut ctx.rng, e);
                    let m = tree.locate_all_at_point_mut(p).filter(|t| t.own().good()).count();
                    ensure!(m <= n, "a query handed out too much");
                }
            }
            audit(&format!("step {step} (operation {op})"), &tree, n, leaked, copies);
            ops += 1;
            most = most.max(n);
            ctx.evals += 1;
        }
        drop(tree);
        let live = l.live.get();
        ensure!(live >= 0 && live <= leaked as isize, "after everything was dropped, {live} elements are alive ({leaked} leaked)");
        ensure!(l.twice.get().is_none() && !l.bad.get(), "an element was dropped twice");
    }
    let after = held();
    ensure!(
        leaked_any || after == before,
        "{} bytes are still allocated after everything was dropped", after - before
    );
    ctx.count("operations", ops);
    ctx.count("drains", drains);
    ctx.count("clones", clones);
    ctx.count(if leaked_any { "histories_with_leaks" } else { "released_completely" }, 1);
    ctx.max("most_elements", most as u64);
    ctx.fingerprints.push(combine(fp, ctx.seed));
    ctx.sample = format!("{} operations, up to {} elements of {}", ops, most, std::any::type_name::<T>());
}

fn c20_ledger(ctx: &mut Ctx) {
    type O = Own<[i32; 2]>;
    match ctx.index % 8 {
        0 => history::<O, DefaultParams1>(ctx),
        1 => history::<O, Pm<1, 4, 1>>(ctx),
        2 => history::<O, Pm<2, 4, 0>>(ctx),
        3 => history::<O, Pm<8, 16, 5>>(ctx),
        4 => history::<Twin<[i32; 2]>, DefaultParams1>(ctx),
        5 => history::<Twin<[i32; 2]>, Pm<2, 5, 1>>(ctx),
        6 => history::<Rc<O>, DefaultParams1>(ctx),
        _ => history::<GeomWithData<CachedEnvelope<O>, Vec<u8>>, DefaultParams1>(ctx),
    }
}
/// The default parameters, which cannot be cloned
type DefaultParams1 = Pm<3, 6, 2>;

// ---- Memory kept -------------------------------------------------------------------------------

fn place<P: Point>(rng: &mut Rng, how: usize, i: usize, n: usize) -> P
where
    P::Scalar: num::From32,
{
    use num::From32;
    P::generate(|d| {
        let v = match how {
            0 => rng.range(-30_000, 30_000),
            1 => (i as i64 * (d as i64 + 1)) % 30_000,
            2 => 5,
            3 => (i % 7) as i64,
            _ => {
                if d == 0 {
                    i as i64 * 30_000 / n as i64
                } else {
                    0
                }
            }
        };
        From32::of(v as i32)
    })
}
mod num {
    pub trait From32 {
        fn of(v: i32) -> Self;
    }
    macro_rules! f {
        ($($t:ty),*) => {$(impl From32 for $t { fn of(v: i32) -> Self { v as $t } })*};
    }
    f!(i64, f32, f64, i128);
}

fn memory<T, R>(ctx: &mut Ctx, make: fn(&mut Rng, usize, usize, usize) -> T)
where
    T: PointDistance + Clone + PartialEq,
    R: RTreeParams + Clone,
    <T::Envelope as Envelope>::Point: Point,
{
    let n = match ctx.rng.below(4) {
        0 if ctx.rng.bit() => ctx.rng.below(12),
        0 => ctx.rng.below(60),
        1 => 100 + ctx.rng.below(1000),
        _ => 1000 + ctx.rng.below(if ctx.thorough { 20_000 } else { 4_000 }),
    };
    let how = ctx.rng.below(5);
    let route = ctx.rng.below(7);
    let mut rng = ctx.rng.clone();
    let start = held();
    let slot = std::mem::size_of::<RTreeNode<T>>() as isize;
    // A node of the minimum size keeps at most the next power of two above its largest size
    let node = (R::MAX_SIZE + 1).next_power_of_two() as f64;
    let fill = R::MIN_SIZE as f64;
    let per_element = node / fill * (1.0 + 1.0 / (fill - 1.0).max(0.5)) * slot as f64;
    let constant = 3.0 * node * slot as f64 + 1024.0;
    // What elements and boxes own themselves
    let heap = 64.0 * std::mem::needs_drop::<<T::Envelope as Envelope>::Point>() as u32 as f64;
    let (kept, size);
    let mut tree: RTree<T, R>;
    {
        let v: Vec<T> = (0..n).map(|i| make(&mut rng, how, i, n)).collect();
        tree = match route {
            0 => RTree::bulk_load_with_params(v),
            1 => {
                // Vectors with spare room
                let mut w = Vec::with_capacity(3 * n + 200);
                w.extend(v);
                RTree::bulk_load_with_params(w)
            }
            2 => {
                let t: RTree<T, R> = RTree::bulk_load_with_params(v);
                t.clone()
            }
            3 => {
                let mut t: RTree<T, R> = RTree::bulk_load_with_params(v);
                for i in 0..n / 2 {
                    t.insert(make(&mut rng, how, i, n));
                }
                t
            }
            4 => {
                let mut t = RTree::new_with_params();
                v.into_iter().for_each(|x| t.insert(x));
                t
            }
            5 => {
                let mut t = RTree::new_with_params();
                v.into_iter().for_each(|x| t.insert(x));
                t.clone()
            }
            _ => {
                // Replaced again and again
                let mut t = RTree::new_with_params();
                v.iter().for_each(|x| t.insert(x.clone()));
                let mut v = v;
                for i in 0..3 * n {
                    let j = rng.below(n);
                    let r = t.remove(&v[j]);
                    ensure!(r.is_some(), "an element is missing");
                    v[j] = make(&mut rng, how, i, n);
                    t.insert(v[j].clone());
                }
                t
            }
        };
        size = tree.size();
        kept = held();
        drop(rng);
    }
    let kept = {
        let _ = kept;
        held() - start
    };
    // Copies and bulk loaded trees are packed; updates leave free room, removals even more of it
    let factor = match route {
        0..=2 | 5 => 3.0 * slot as f64,
        3 | 4 => 2.0 * per_element,
        _ => 2.0 * node * slot as f64,
    };
    let bound = constant + (factor + 4.0 * heap) * size as f64;
    let ratio = kept as f64 / (size.max(1) as f64 * slot as f64);
    ensure!(
        (kept as f64) <= bound,
        "a tree of {} elements ({} bytes each with the node) keeps {} bytes, {:.1} times as much (route {})",
        size, slot, kept, ratio, route
    );
    // Queries keep nothing
    let p: <T::Envelope as Envelope>::Point = tree.root().envelope().center();
    let now = held();
    reset_peak();
    let q = tree.root().envelope();
    let k = tree.locate_in_envelope(q.clone()).count() + tree.locate_in_envelope_intersecting(q).count();
    ensure!(k == 2 * size, "queries miss elements");
    let k = tree.locate_within_distance(p.clone(), num_traits_max::<T>()).count();
    ensure!(k == size, "queries miss elements");
    let traversal = peak() - now;
    let _ = (tree.nearest_neighbor(p.clone()).is_some(), tree.nearest_neighbors(&p).len());
    ensure!(tree.nearest_neighbor_iter(p.clone()).count() == size, "queries miss elements");
    ensure!(held() == now, "queries keep {} bytes", held() - now);
    // A traversal needs a stack of nodes, not of elements
    ensure!(
        traversal <= 4096 + 64 * (R::MAX_SIZE + 2) as isize * 32,
        "a traversal of {size} elements allocates {traversal} bytes"
    );
    // Consumed and abandoned half way: the remaining memory goes with the iterator
    {
        let mut it = tree.clone().into_iter();
        let k = it.by_ref().take(size / 3).count();
        ensure!(k == size / 3, "into_iter misses elements");
    }
    ensure!(held() == now, "an abandoned into_iter keeps {} bytes", held() - now);
    // Single operations need a stack of nodes, practically independent of the number of elements
    let mut transient = 0;
    if size > 0 {
        let some: Vec<T> = tree.iter().step_by(size / 20 + 1).cloned().collect();
        let depth = (size as f64).ln() / fill.max(2.0).ln() + 2.0;
        let room = 8192.0 + 2.0 * depth * (R::MAX_SIZE + 2) as f64 * (3 * slot + 64) as f64;
        let mut op = |what: &str, tree: &mut RTree<T, R>, f: &mut dyn FnMut(&mut RTree<T, R>)| {
            let now = held();
            reset_peak();
            f(tree);
            let used = peak() - now;
            transient = transient.max(used);
            ensure!(used as f64 <= room, "{what} in a tree of {size} elements allocates {used} bytes for a while");
        };
        for x in &some {
            let at = x.envelope().center();
            op("contains", &mut tree, &mut |t| ensure!(t.contains(x), "an element is missing"));
            op("locate_at_point", &mut tree, &mut |t| {
                let _ = t.locate_at_point(at.clone());
            });
            op("remove_at_point", &mut tree, &mut |t| {
                let r = t.remove_at_point(at.clone());
                if let Some(r) = r {
                    t.insert(r);
                }
            });
            op("remove", &mut tree, &mut |t| ensure!(t.remove(x).is_some(), "an element is missing"));
            op("insert", &mut tree, &mut |t| t.insert(x.clone()));
            op("drain_in_envelope", &mut tree, &mut |t| {
                let r = t.drain_in_envelope(x.envelope()).next();
                t.insert(r.expect("an element is missing"));
            });
        }
        // Draining everything does not gather it anywhere
        let mut c = tree.clone();
        op("drain", &mut c, &mut |t| ensure!(t.drain().count() == size, "draining misses elements"));
    }
    // Emptied by draining half and removing the rest
    let q = tree.root().envelope();
    let mut drained = tree.drain_in_envelope(q).take(size / 2).count();
    drained += tree.drain().count();
    ensure!(drained == size && tree.size() == 0, "draining misses elements");
    let left = held() - start;
    ensure!(
        left as f64 <= constant,
        "an emptied tree keeps {left} bytes"
    );
    drop((tree, p));
    let end = held();
    ensure!(end == start, "{} bytes are still allocated after the tree was dropped", end - start);
    if std::env::var("VERIF_SHOW").is_ok() {
        println!("route {route} how {how} n {size} kept {kept} ratio {ratio:.2} bound ratio {:.2} {}", bound / (size.max(1) as f64 * slot as f64), std::any::type_name::<(T, R)>());
    }
    ctx.max("transient_bytes", transient as u64);
    ctx.max("traversal_bytes", traversal as u64);
    ctx.max("bytes_per_slot_percent", if size > 500 { (ratio * 100.0) as u64 } else { 0 });
    ctx.count("trees_measured", 1);
    ctx.evals += 4;
    ctx.fingerprints.push(combine(combine(size as u64, kept as u64), route as u64 * 10 + how as u64));
    ctx.sample = format!("{size} elements of {}: {kept} bytes, {ratio:.2} per slot", std::any::type_name::<T>());
}

fn num_traits_max<T: PointDistance>() -> <<T::Envelope as Envelope>::Point as Point>::Scalar {
    use ::rstar::RTreeNum;
    fn max<S: RTreeNum>() -> S {
        S::max_value()
    }
    max()
}

/// Elements in which the compiler finds room for the tag of the node
type Snug = GeomWithData<[f64; 2], (String, [u64; 10])>;
fn same_size<R: RTreeParams + Clone>(ctx: &mut Ctx) {
    if std::mem::size_of::<Snug>() == std::mem::size_of::<RTreeNode<Snug>>() {
        ctx.count("trees_of_node_sized_elements", 1);
    }
    memory::<Snug, R>(ctx, |r, h, i, n| GeomWithData::new(place(r, h, i, n), (String::new(), [3; 10])))
}

fn c20_memory(ctx: &mut Ctx) {
    match ctx.index % 12 {
        // Exactly as large as a tree node: vectors of one can be reused as vectors of the other
        10 => same_size::<DefaultParams1>(ctx),
        11 => same_size::<Pm<2, 9, 4>>(ctx),
        8 => memory::<BoxedPoint, DefaultParams1>(ctx, place),
        9 => memory::<Rectangle<BoxedPoint>, Pm<4, 10, 3>>(ctx, |r, h, i, n| {
            let p: BoxedPoint = place(r, h, i, n);
            Rectangle::from_corners(p.clone(), BoxedPoint(Box::new([p.0[0] + 1.0, p.0[1]])))
        }),
        0 => memory::<[f64; 2], DefaultParams1>(ctx, place),
        1 => memory::<[f32; 2], Pm<2, 4, 1>>(ctx, place),
        2 => memory::<[i64; 3], Pm<8, 16, 5>>(ctx, place),
        3 => memory::<Rectangle<[f64; 2]>, DefaultParams1>(ctx, |r, h, i, n| {
            let p: [f64; 2] = place(r, h, i, n);
            Rectangle::from_corners(p, [p[0] + 1.0, p[1] + 2.0])
        }),
        4 => memory::<GeomWithData<[f64; 2], [u64; 30]>, DefaultParams1>(ctx, |r, h, i, n| GeomWithData::new(place(r, h, i, n), [7; 30])),
        5 => memory::<GeomWithData<[f64; 2], Box<u64>>, Pm<3, 10, 3>>(ctx, |r, h, i, n| GeomWithData::new(place(r, h, i, n), Box::new(i as u64))),
        6 => memory::<Line<[f64; 2]>, Pm<5, 9, 0>>(ctx, |r, h, i, n| {
            let p: [f64; 2] = place(r, h, i, n);
            Line::new(p, [p[0] + 1.0, p[1]])
        }),
        _ => memory::<[i64; 2], Pm<20, 40, 10>>(ctx, place),
    }
}

// ---- Stack -------------------------------------------------------------------------------------

/// Built without optimisation, so that tail calls are calls, to run this only
fn unoptimised() -> bool {
    std::env::var("OWN_STACK_ONLY").is_ok()
}

/// Everything on a large tree with a small stack; running out of it kills the process
fn small_stack<R: RTreeParams + Clone>(ctx: &mut Ctx) {
    let n = 30_000 + ctx.rng.below(if ctx.thorough { 400_000 } else { 60_000 });
    let how = ctx.index / 4 % 5;
    let bulk = ctx.rng.chance(2, 3);
    let n = if bulk { n } else { n / 4 };
    let mut rng = ctx.rng.clone();
    const STACK: usize = 192 << 10;
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || -> Result<usize, String> {
            let make = |rng: &mut Rng, i: usize| GeomWithData::new(place::<[f64; 2]>(rng, how, i, n), i as u32);
            let v: Vec<_> = (0..n).map(|i| make(&mut rng, i)).collect();
            let mut tree: RTree<_, R> = if bulk {
                RTree::bulk_load_with_params(v)
            } else {
                let mut t = RTree::new_with_params();
                v.into_iter().for_each(|x| t.insert(x));
                t
            };
            let fail = |what: &str| Err::<usize, String>(what.to_string());
            for i in 0..500 {
                let mut x = make(&mut rng, i);
                x.data += n as u32;
                tree.insert(x);
            }
            let mut size = n + 500;
            let c = tree.clone();
            if c.iter().count() != size || tree.iter_mut().count() != size {
                return fail("iteration misses elements");
            }
            let all = tree.root().envelope();
            let mut k = 0;
            let r: std::ops::ControlFlow<()> = tree.locate_in_envelope_int(all, |_| {
                k += 1;
                std::ops::ControlFlow::Continue(())
            });
            if r.is_break() || k != size {
                return fail("visiting misses elements");
            }
            if tree.locate_in_envelope_intersecting(all).count() != size || tree.nearest_neighbor_iter([0.0, 0.0]).count() != size {
                return fail("queries miss elements");
            }
            // Much is looked at and nothing is found
            struct Nothing;
            impl SelectionFunction<GeomWithData<[f64; 2], u32>> for Nothing {
                fn should_unpack_parent(&self, _: &AABB<[f64; 2]>) -> bool {
                    true
                }
                fn should_unpack_leaf(&self, _: &GeomWithData<[f64; 2], u32>) -> bool {
                    false
                }
            }
            if tree.locate_with_selection_function(Nothing).next().is_some()
                || tree.locate_with_selection_function_mut(Nothing).next().is_some()
                || tree.remove_with_selection_function(Nothing).is_some()
                || tree.drain_with_selection_function(Nothing).next().is_some()
                || tree.locate_within_distance([-1e9, -1e9], 1.0).next().is_some()
            {
                return fail("elements are found that were not chosen");
            }
            let line = |d: f64| RTree::<_>::bulk_load((0..n / 2).map(|i| [i as f64 * 2.0 + d, 0.0]).collect());
            if line(0.0).intersection_candidates_with_other_tree(&line(1.0)).next().is_some() {
                return fail("pairs of elements that do not meet");
            }
            let near = tree.nearest_neighbors(&[1.0, 1.0]).len();
            if near == 0 || tree.nearest_neighbor([1.0, 1.0]).is_none() {
                return fail("queries miss elements");
            }
            for _ in 0..200 {
                let p: [f64; 2] = place(&mut rng, how, 3, n);
                let x = tree.pop_nearest_neighbor(p);
                let Some(x) = x else { return fail("nothing is nearest") };
                if tree.remove(&x).is_some() {
                    return fail("an element was there twice");
                }
                size -= 1;
            }
            let text = format!("{c:?}");
            if text.len() < n {
                return fail("debug output is too short");
            }
            let steps = size / 3;
            if tree.drain_in_envelope_intersecting(all).take(steps).count() != steps || tree.size() != size - steps {
                return fail("draining misses elements");
            }
            let pairs = tree.intersection_candidates_with_other_tree(&RTree::bulk_load(vec![[1.0, 1.0]])).count();
            let mut it = c.into_iter();
            let part = it.by_ref().take(n / 2).count();
            drop(it);
            if part != n / 2 {
                return fail("into_iter misses elements");
            }
            drop(tree);
            Ok(n + pairs * 0)
        })
        .expect("harness: thread")
        .join();
    match r {
        Ok(Ok(_)) => {}
        Ok(Err(m)) => harness::viol!("{m}"),
        Err(e) => std::panic::resume_unwind(e),
    }
    ctx.evals += 1;
    ctx.count("small_stack_runs", 1);
    ctx.max("small_stack_elements", n as u64);
    ctx.fingerprints.push(combine(n as u64, how as u64));
    ctx.sample = format!("{n} elements (placement {how}) on a stack of {} KB", STACK >> 10);
}

fn c20_stack(ctx: &mut Ctx) {
    match ctx.index % 4 {
        0 | 1 => small_stack::<DefaultParams1>(ctx),
        2 => small_stack::<Pm<2, 4, 1>>(ctx),
        _ => small_stack::<Pm<5, 12, 3>>(ctx),
    }
}

fn main() {
    // Sanitizers slow everything down and use more stack
    let slow = std::env::var("ASAN_OPTIONS").is_ok();
    let k = if slow { 8 } else { 1 };
    let mut scenarios = vec![
        sc("c20_ledger", 50_000 / k, 400_000 / k, c20_ledger),
        sc("c20_memory", 4_000 / k, 20_000 / k, c20_memory),
    ];
    if !slow {
        scenarios.push(sc("c20_stack", 60, 400, c20_stack));
    }
    let plain = unoptimised();
    if plain {
        scenarios = vec![sc("c20_stack", 24, 160, c20_stack)];
    }
    harness::runner::main(vec![Property {
        id: "C20",
        rule: "a case is a history in which every element is accounted for, a tree whose memory is measured, or a large \
               tree used on a small stack; distinct by operations and seed, measured size, and number and placement",
        scenarios,
        required: if plain {
            &[("small_stack_runs", 16)]
        } else if slow {
            &[("operations", 200_000), ("drains", 12_000), ("trees_measured", 400)]
        } else {
            &[("operations", 1_500_000), ("released_completely", 20_000), ("drains", 120_000), ("clones", 12_000), ("trees_measured", 3_600), ("small_stack_runs", 40)]
        },
    }]);
}
