//! C23: a panic at every call of user code during queries, removals and drains
use harness::kinds::Pm;
use harness::rng::{combine, Rng};
use harness::runner::*;
use harness::world::pick_n;
use harness::{ensure, viol};
use rstar::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- Faults ------------------------------------------------------------------------------------

/// Calls of user code so far, and the one that panics
#[derive(Default)]
struct Switch {
    on: Cell<bool>,
    calls: Cell<u64>,
    strike: Cell<u64>,
    /// The same call, in the words of the site
    site: Cell<&'static str>,
}
thread_local! {
    static SWITCH: Switch = Switch::default();
    static DROPS: RefCell<BTreeMap<u32, u32>> = const { RefCell::new(BTreeMap::new()) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
}
struct Fault;

fn user_code(site: &'static str) {
    SWITCH.with(|s| {
        if !s.on.get() {
            return;
        }
        let n = s.calls.get() + 1;
        s.calls.set(n);
        if n == s.strike.get() {
            s.site.set(site);
            s.on.set(false);
            std::panic::resume_unwind(Box::new(Fault));
        }
    })
}
fn arm(strike: u64) {
    SWITCH.with(|s| {
        s.calls.set(0);
        s.strike.set(strike);
        s.on.set(true);
    })
}
/// Switches faults off and says how many calls there were
fn disarm() -> u64 {
    SWITCH.with(|s| {
        s.on.set(false);
        s.calls.get()
    })
}

// ---- Elements ----------------------------------------------------------------------------------

/// What an element is; copies of a tree hold the same values in elements of their own
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Value {
    lo: [i32; 2],
    hi: [i32; 2],
    class: u8,
    id: u32,
}
impl Value {
    fn b(&self) -> AABB<[i32; 2]> {
        AABB::from_corners(self.lo, self.hi)
    }
    fn dist(&self, p: &[i32; 2]) -> i32 {
        (0..2).map(|i| (self.lo[i] - p[i]).max(p[i] - self.hi[i]).max(0).pow(2)).sum()
    }
    fn holds(&self, p: &[i32; 2]) -> bool {
        self.dist(p) == 0
    }
    fn equal(&self, o: &Value) -> bool {
        (self.lo, self.hi, self.class) == (o.lo, o.hi, o.class)
    }
    fn inside(&self, q: &[[i32; 2]; 2]) -> bool {
        (0..2).all(|i| q[0][i] <= self.lo[i] && self.hi[i] <= q[1][i])
    }
    fn meets(&self, q: &[[i32; 2]; 2]) -> bool {
        (0..2).all(|i| q[0][i] <= self.hi[i] && self.lo[i] <= q[1][i])
    }
}
struct Elem {
    v: Value,
    serial: u32,
    heap: Box<u32>,
}
impl Elem {
    fn new(v: &Value) -> Self {
        let serial = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        Elem { v: v.clone(), serial, heap: Box::new(!serial) }
    }
}
impl Drop for Elem {
    fn drop(&mut self) {
        assert!(*self.heap == !self.serial, "harness: element overwritten");
        DROPS.with(|d| *d.borrow_mut().entry(self.serial).or_insert(0) += 1);
    }
}
impl Clone for Elem {
    fn clone(&self) -> Self {
        Elem::new(&self.v)
    }
}
impl PartialEq for Elem {
    fn eq(&self, o: &Self) -> bool {
        user_code("comparison");
        self.v.equal(&o.v)
    }
}
impl RTreeObject for Elem {
    type Envelope = AABB<[i32; 2]>;
    fn envelope(&self) -> Self::Envelope {
        self.v.b()
    }
}
impl PointDistance for Elem {
    fn distance_2(&self, p: &[i32; 2]) -> i32 {
        user_code("distance");
        self.v.dist(p)
    }
    fn contains_point(&self, p: &[i32; 2]) -> bool {
        user_code("containment");
        self.v.holds(p)
    }
    fn distance_2_if_less_or_equal(&self, p: &[i32; 2], max: i32) -> Option<i32> {
        user_code("limited distance");
        let d = self.v.dist(p);
        (d <= max).then_some(d)
    }
}

struct Sel(u32, u32, [[i32; 2]; 2]);
impl Sel {
    fn takes(&self, v: &Value) -> bool {
        v.id % self.0 == self.1 && v.meets(&self.2)
    }
}
impl SelectionFunction<Elem> for Sel {
    fn should_unpack_parent(&self, e: &AABB<[i32; 2]>) -> bool {
        user_code("selection of a node");
        AABB::from_corners(self.2[0], self.2[1]).intersects(e)
    }
    fn should_unpack_leaf(&self, t: &Elem) -> bool {
        user_code("selection of an element");
        self.takes(&t.v)
    }
}

// ---- Operations --------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Args {
    op: usize,
    p: [i32; 2],
    q: [[i32; 2]; 2],
    r: i32,
    m: (u32, u32),
    v: Value,
    steps: usize,
    /// Steps after a caught panic inside a drain
    more: usize,
    form: usize,
}

const OPS: [&str; 15] = [
    "remove",
    "remove_at_point",
    "pop_nearest_neighbor",
    "remove_with_selection_function",
    "drain_with_selection_function",
    "drain_in_envelope",
    "drain_within_distance",
    "drain",
    "contains",
    "locate_at_point",
    "locate_in_envelope",
    "locate_with_selection_function",
    "nearest_neighbor",
    "nearest_neighbor_iter",
    "locate_within_distance",
];

/// Runs an operation. What is handed out goes to `got`, also if it panics half way
fn run<R: RTreeParams>(a: &Args, t: &mut RTree<Elem, R>, got: &mut Vec<Elem>) {
    let b = || AABB::from_corners(a.q[0], a.q[1]);
    let sel = || Sel(a.m.0, a.m.1, a.q);
    let visit = |_: &Elem| {
        user_code("visitor");
        ControlFlow::<()>::Continue(())
    };
    macro_rules! drain {
        ($d:expr) => {{
            let mut d = $d;
            let step = catch_unwind(AssertUnwindSafe(|| {
                for _ in 0..a.steps {
                    match d.next() {
                        Some(x) => {
                            got.push(x);
                            user_code("consumer");
                        }
                        None => break,
                    }
                }
            }));
            if let Err(e) = step {
                // The iterator outlives the panic; it may be asked again
                for _ in 0..a.more {
                    match d.next() {
                        Some(x) => got.push(x),
                        None => break,
                    }
                }
                drop(d);
                std::panic::resume_unwind(e);
            }
        }};
    }
    macro_rules! drain_plain {
        ($d:expr) => {{
            // The iterator is dropped by the panic itself
            for x in $d.take(a.steps) {
                got.push(x);
                user_code("consumer");
            }
        }};
    }
    macro_rules! both {
        ($d:expr) => {
            if a.form % 2 == 0 {
                drain!($d)
            } else {
                drain_plain!($d)
            }
        };
    }
    match a.op {
        0 => {
            let x = Elem::new(&a.v);
            got.extend(t.remove(&x))
        }
        1 => got.extend(t.remove_at_point(a.p)),
        2 => got.extend(t.pop_nearest_neighbor(a.p)),
        3 => got.extend(t.remove_with_selection_function(sel())),
        4 => both!(t.drain_with_selection_function(sel())),
        5 => {
            if a.form & 4 == 0 {
                both!(t.drain_in_envelope(b()))
            } else {
                both!(t.drain_in_envelope_intersecting(b()))
            }
        }
        6 => both!(t.drain_within_distance(a.p, a.r)),
        7 => both!(t.drain()),
        8 => {
            let x = Elem::new(&a.v);
            t.contains(&x);
        }
        9 => match a.form {
            0 => drop(t.locate_at_point(a.p).is_some()),
            1 => drop(t.locate_at_point_mut(a.p).is_some()),
            2 => drop(t.locate_at_point_int(a.p).is_some()),
            3 => drop(t.locate_at_point_int_mut(a.p).is_some()),
            4 => t.locate_all_at_point(a.p).for_each(|_| user_code("consumer")),
            5 => t.locate_all_at_point_mut(a.p).for_each(|_| user_code("consumer")),
            6 => drop(t.locate_all_at_point_int(a.p, visit)),
            _ => drop(t.locate_all_at_point_int_mut(a.p, |x| visit(x))),
        },
        10 => match a.form {
            0 => drop(t.locate_in_envelope_int(b(), visit)),
            1 => drop(t.locate_in_envelope_int_mut(b(), |x| visit(x))),
            2 => drop(t.locate_in_envelope_intersecting_int(b(), visit)),
            3 => drop(t.locate_in_envelope_intersecting_int_mut(b(), |x| visit(x))),
            4 => t.locate_in_envelope_mut(b()).for_each(|_| user_code("consumer")),
            5 => t.locate_in_envelope_intersecting(b()).for_each(|_| user_code("consumer")),
            6 => t.iter().for_each(|_| user_code("consumer")),
            _ => t.iter_mut().for_each(|_| user_code("consumer")),
        },
        11 => {
            if a.form % 2 == 0 {
                t.locate_with_selection_function(sel()).for_each(|_| user_code("consumer"))
            } else {
                t.locate_with_selection_function_mut(sel()).for_each(|_| user_code("consumer"))
            }
        }
        12 => match a.form % 4 {
            0 => drop(t.nearest_neighbor(a.p).is_some()),
            1 => drop(t.nearest_neighbor_with_distance_2(a.p).is_some()),
            2 => drop(t.nearest_neighbors(&a.p).len()),
            _ => drop(t.nearest_neighbors_with_distance_2(&a.p).is_some()),
        },
        13 => {
            if a.form % 2 == 0 {
                t.nearest_neighbor_iter(a.p).take(a.steps).for_each(|_| user_code("consumer"))
            } else {
                t.nearest_neighbor_iter_with_distance_2(a.p).take(a.steps).for_each(|_| user_code("consumer"))
            }
        }
        _ => t.locate_within_distance(a.p, a.r).for_each(|_| user_code("consumer")),
    }
}

/// Whether an operation may hand an element out
fn may_take(a: &Args, v: &Value) -> bool {
    match a.op {
        0 => v.equal(&a.v),
        1 => v.holds(&a.p),
        2 | 7 => true,
        3 | 4 => v.id % a.m.0 == a.m.1 && v.meets(&a.q),
        5 => {
            if a.form & 4 == 0 {
                v.inside(&a.q)
            } else {
                v.meets(&a.q)
            }
        }
        6 => v.dist(&a.p) <= a.r,
        _ => false,
    }
}

// ---- Monitors ----------------------------------------------------------------------------------

fn walk(n: &ParentNode<Elem>, root: bool, out: &mut Vec<Value>) -> usize {
    ensure!(root || !n.children().is_empty(), "there is an empty node");
    let mut depth = None;
    let mut boxes = vec![];
    for c in n.children() {
        let d = match c {
            RTreeNode::Leaf(t) => {
                ensure!(*t.heap == !t.serial, "an element is damaged");
                out.push(t.v.clone());
                boxes.push((t.v.lo, t.v.hi));
                0
            }
            RTreeNode::Parent(p) => {
                boxes.push((p.envelope().lower(), p.envelope().upper()));
                walk(p, false, out)
            }
        };
        ensure!(*depth.get_or_insert(d) == d, "elements lie at different depths");
    }
    if let Some(&(mut b)) = boxes.first() {
        for e in &boxes {
            for i in 0..2 {
                b.0[i] = b.0[i].min(e.0[i]);
                b.1[i] = b.1[i].max(e.1[i]);
            }
        }
        let have = (n.envelope().lower(), n.envelope().upper());
        ensure!(have == b, "the box {have:?} of a node is not the smallest {b:?}");
    }
    depth.unwrap_or(0) + 1
}

fn check<R: RTreeParams>(what: &dyn Fn() -> String, t: &RTree<Elem, R>, expect: &[Value]) {
    let mut have = vec![];
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| walk(t.root(), true, &mut have))) {
        match e.downcast_ref::<harness::Violation>() {
            Some(v) => viol!("{}: {}", what(), v.0),
            None => std::panic::resume_unwind(e),
        }
    }
    have.sort();
    ensure!(t.size() == expect.len(), "{}: size {} instead of {}", what(), t.size(), expect.len());
    if have != expect {
        let lost: Vec<_> = expect.iter().filter(|v| !have.contains(v)).take(3).collect();
        viol!("{}: the tree holds {} elements instead of {}; lost {:?}", what(), have.len(), expect.len(), lost);
    }
}

/// The tree goes on as if nothing had happened
fn usable<R: RTreeParams>(what: &dyn Fn() -> String, mut t: RTree<Elem, R>, expect: &[Value], rng: &mut Rng, e: i64) {
    let mut have = expect.to_vec();
    let ids = |v: Vec<u32>| {
        let mut v = v;
        v.sort_unstable();
        v
    };
    for _ in 0..2 {
        let p = [rng.range(-e, e) as i32, rng.range(-e, e) as i32];
        let q = [p, [p[0] + rng.range(0, e) as i32, p[1] + rng.range(0, e) as i32]];
        let got = ids(t.locate_in_envelope_intersecting(AABB::from_corners(q[0], q[1])).map(|x| x.v.id).collect());
        let want = ids(have.iter().filter(|v| v.meets(&q)).map(|v| v.id).collect());
        ensure!(got == want, "{}: a later box query finds {got:?} instead of {want:?}", what());
        let got = ids(t.locate_all_at_point(p).map(|x| x.v.id).collect());
        let want = ids(have.iter().filter(|v| v.holds(&p)).map(|v| v.id).collect());
        ensure!(got == want, "{}: a later point query finds {got:?} instead of {want:?}", what());
        let got = t.nearest_neighbor(p).map(|x| x.v.dist(&p));
        let want = have.iter().map(|v| v.dist(&p)).min();
        ensure!(got == want, "{}: the nearest neighbor is at {got:?} instead of {want:?}", what());
        let got: Vec<i32> = t.nearest_neighbor_iter(p).map(|x| x.v.dist(&p)).collect();
        let mut want: Vec<i32> = have.iter().map(|v| v.dist(&p)).collect();
        want.sort_unstable();
        ensure!(got == want, "{}: nearest neighbor iteration is wrong", what());
    }
    for i in 0..3 {
        let lo = [rng.range(-e, e) as i32, rng.range(-e, e) as i32];
        let v = Value { lo, hi: [lo[0] + i, lo[1]], class: 9, id: 1_000_000 + i as u32 };
        t.insert(Elem::new(&v));
        have.push(v);
    }
    if let Some(v) = expect.first() {
        let x = Elem::new(v);
        let r = t.remove(&x);
        let Some(r) = r else { viol!("{}: a later removal finds nothing", what()) };
        let i = have.iter().position(|h| *h == r.v);
        let Some(i) = i else { viol!("{}: a later removal hands out something else", what()) };
        have.swap_remove(i);
    }
    have.sort();
    check(what, &t, &have);
    let mut got: Vec<Value> = t.drain().map(|x| x.v.clone()).collect();
    got.sort();
    ensure!(got == have, "{}: a later drain misses elements", what());
    check(what, &t, &[]);
}

fn faults<R: RTreeParams + Clone>(ctx: &mut Ctx) {
    DROPS.with(|d| d.borrow_mut().clear());
    NEXT.with(|n| n.set(0));
    disarm();
    let rng = &mut ctx.rng.clone();
    let e = *rng.pick(&[2, 6, 30]);
    let n = if rng.chance(1, 3) { rng.below(8) } else { pick_n(rng, if ctx.thorough { 160 } else { 80 }) };
    let coords = |rng: &mut Rng| {
        let a = [rng.range(-e, e) as i32, rng.range(-e, e) as i32];
        let w = rng.range(0, 3) * rng.range(0, 1);
        (a, [a[0] + w as i32, a[1] + rng.range(0, w) as i32])
    };
    let mut values: Vec<Value> = vec![];
    for id in 0..n as u32 {
        let (lo, hi) = coords(rng);
        let class = rng.below(2) as u8;
        values.push(Value { lo, hi, class, id });
    }
    let mut tree: RTree<Elem, R> = if rng.bit() {
        RTree::bulk_load_with_params(values.iter().map(Elem::new).collect())
    } else {
        let mut t = RTree::new_with_params();
        values.iter().for_each(|v| t.insert(Elem::new(v)));
        t
    };
    if rng.chance(1, 3) && n > 0 {
        let k = rng.below(n);
        let gone: Vec<u32> = tree.drain().take(k).map(|x| x.v.id).collect();
        values.retain(|v| !gone.contains(&v.id));
    }
    values.sort();
    check(&|| "before".into(), &tree, &values);
    let mut strikes = 0u64;
    let mut h = 0;
    for _ in 0..6 {
        let (p, _) = coords(rng);
        let (q0, _) = coords(rng);
        let a = Args {
            op: rng.below(OPS.len()),
            p,
            q: [q0, [q0[0] + rng.range(0, 2 * e) as i32, q0[1] + rng.range(0, 2 * e) as i32]],
            r: rng.range(0, e * e) as i32,
            m: {
                let m = 1 + rng.below(3) as u32;
                (m, rng.below(m as usize) as u32)
            },
            v: match values.is_empty() || rng.chance(1, 3) {
                true => {
                    let (lo, hi) = coords(rng);
                    Value { lo, hi, class: 0, id: 77 }
                }
                false => rng.pick(&values).clone(),
            },
            steps: if rng.bit() { 1000 } else { rng.below(n + 2) },
            more: *rng.pick(&[0, 1, 3, 1000]),
            form: rng.below(8),
        };
        // How many calls of user code there are without faults
        let calls = {
            let mut t = tree.clone();
            let mut got = vec![];
            arm(0);
            let r = catch_unwind(AssertUnwindSafe(|| run(&a, &mut t, &mut got)));
            let calls = disarm();
            if r.is_err() {
                viol!("{} panics without a fault: {}", OPS[a.op], last_panic());
            }
            calls
        };
        ctx.count("calls_of_user_code", calls);
        for strike in 1..=calls {
            let mut t = tree.clone();
            let mut got: Vec<Elem> = vec![];
            arm(strike);
            let r = catch_unwind(AssertUnwindSafe(|| run(&a, &mut t, &mut got)));
            disarm();
            let site = SWITCH.with(|s| s.site.get());
            let what = || format!("{} with a panic in call {strike} of {calls} of user code ({site}), {a:?}", OPS[a.op]);
            match r {
                Err(e) if e.is::<Fault>() => {}
                Err(e) => {
                    let m = e.downcast_ref::<harness::Violation>().map(|v| v.0.clone()).unwrap_or_else(last_panic);
                    viol!("{}: another panic: {m}", what())
                }
                // The order of calls may differ from the run without faults
                Ok(()) => {
                    ctx.count("not_struck", 1);
                    continue;
                }
            }
            let mut left = values.clone();
            for x in &got {
                ensure!(*x.heap == !x.serial, "{}: a damaged element was handed out", what());
                ensure!(may_take(&a, &x.v), "{}: {:?} was handed out, but not selected", what(), x.v);
                match left.iter().position(|v| *v == x.v) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => viol!("{}: {:?} was handed out twice", what(), x.v),
                }
            }
            check(&what, &t, &left);
            let taken = got.len() as u64;
            ctx.count(SITES.iter().find(|s| s.0 == site).map(|s| s.1).unwrap_or("fault_elsewhere"), 1);
            ctx.count("handed_out_before_faults", taken);
            if strike % 4 == 1 || calls < 12 {
                usable(&what, t, &left, rng, e);
                ctx.count("used_afterwards", 1);
            } else {
                drop(t);
            }
            drop(got);
            strikes += 1;
            ctx.evals += 1;
            h = combine(h, combine(strike, combine(a.op as u64, taken)));
            ctx.distinct("faults", combine(ctx.seed, combine(h, strike)));
        }
        check(&|| "the original".into(), &tree, &values);
        ctx.note(format!("{} {calls} calls {a:?}", OPS[a.op]));
        // The history goes on
        let mut got = vec![];
        run(&a, &mut tree, &mut got);
        values.retain(|v| !got.iter().any(|x| x.v == *v));
        let (lo, hi) = coords(rng);
        let v = Value { lo, hi, class: 0, id: 500_000 + strikes as u32 * 10 + a.op as u32 };
        if !values.iter().any(|x| x.id == v.id) {
            tree.insert(Elem::new(&v));
            values.push(v);
            values.sort();
        }
    }
    drop(tree);
    let made = NEXT.with(|n| n.get());
    DROPS.with(|d| {
        let d = d.borrow();
        if let Some((s, k)) = d.iter().find(|(_, k)| **k != 1) {
            viol!("element {s} was dropped {k} times");
        }
        ensure!(d.len() == made as usize, "{} of {made} elements were never dropped", made as usize - d.len());
    });
    ctx.count("faults", strikes);
    ctx.count("elements_made_and_dropped", made as u64);
    ctx.fingerprints.push(combine(h, ctx.seed));
    ctx.sample = format!("{n} elements, {strikes} faults, {made} elements made and dropped once each");
}
const SITES: [(&str, &str); 8] = [
    ("comparison", "fault_in_comparison"),
    ("distance", "fault_in_distance"),
    ("containment", "fault_in_containment"),
    ("limited distance", "fault_in_limited_distance"),
    ("selection of a node", "fault_in_node_selection"),
    ("selection of an element", "fault_in_element_selection"),
    ("visitor", "fault_in_visitor"),
    ("consumer", "fault_in_consumer"),
];

fn c23_faults(ctx: &mut Ctx) {
    match ctx.index % 6 {
        0 | 1 => faults::<Pm<3, 6, 2>>(ctx),
        2 => faults::<Pm<1, 4, 1>>(ctx),
        3 => faults::<Pm<2, 4, 0>>(ctx),
        4 => faults::<Pm<2, 5, 1>>(ctx),
        _ => faults::<Pm<8, 16, 5>>(ctx),
    }
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C23",
        rule: "a case is a history on whose trees operations are repeated with a panic at each single call of user code; \
               distinct by history and outcome",
        scenarios: vec![sc("c23_faults", 40_000, 2_000_000, c23_faults)],
        required: &[
            ("faults", 1_000_000),
            ("used_afterwards", 10_000),
            ("handed_out_before_faults", 20_000),
            ("fault_in_comparison", 1_000),
            ("fault_in_distance", 1_000),
            ("fault_in_containment", 500),
            ("fault_in_limited_distance", 500),
            ("fault_in_node_selection", 500),
            ("fault_in_element_selection", 1_000),
            ("fault_in_visitor", 500),
            ("fault_in_consumer", 1_000),
        ],
    }]);
}
