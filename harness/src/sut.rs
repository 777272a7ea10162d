//! The tree under test behind an object-safe interface in grid coordinates, one adapter for every
//! combination of element kind and parameters. Elements seen through the tree are identified by
//! their key, after checking that they are exactly the element that was put in.
use crate::kinds::*;
use crate::rng::combine;
use crate::scalar::{span, Grid, HScalar};
use crate::spec::*;
use crate::{ensure, viol};
use rstar::{
    ParentNode, Point, RTree, RTreeNode, RTreeObject, RTreeParams, SelectionFunction,
    AABB,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::ops::ControlFlow;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Meta {
    pub name: &'static str,
    /// The scalar type and whether it is the same space as another configuration's
    pub scalar: &'static str,
    pub dims: usize,
    pub min: usize,
    pub max: usize,
    pub reinsert: usize,
    pub shape: ShapeKind,
    pub span: i64,
    pub tagged: bool,
    pub mutable: bool,
    pub float: bool,
    pub exp_range: (i32, i32),
}

impl Meta {
    /// Whether trees of both kinds can hold the same elements under the same keys
    pub fn peer(&self, o: &Meta) -> bool {
        self.scalar == o.scalar && self.dims == o.dims && self.shape == o.shape && self.tagged == o.tagged
    }
}

/// All elements ever created in a case
#[derive(Default)]
pub struct Registry {
    pub specs: Vec<Spec>,
    intern: HashMap<(V, V, Vec<V>), u32>,
}

fn geo_key(lo: &V, hi: &V, s: &Shape) -> (V, V, Vec<V>) {
    let pts = match s {
        Shape::Box => vec![],
        Shape::Cloud(p) => p.clone(),
        Shape::Line(a, b) => vec![*a, *b],
    };
    (*lo, *hi, pts)
}

impl Registry {
    pub fn add(&mut self, mut s: Spec, tagged: bool) -> Spec {
        s.id = self.specs.len() as u32;
        s.key = if tagged {
            s.id
        } else {
            *self
                .intern
                .entry(geo_key(&s.lo, &s.hi, &s.shape))
                .or_insert(s.id)
        };
        self.specs.push(s.clone());
        s
    }
}

pub type Reg = Rc<RefCell<Registry>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Iter,
    IterMut,
    Int,
    IntMut,
}
pub const FORMS: [Form; 4] = [Form::Iter, Form::IterMut, Form::Int, Form::IntMut];

#[derive(Clone, Debug)]
pub enum Query {
    All,
    InEnv(QBox),
    Inter(QBox),
    At(V),
    Within(V, D2),
}

/// What is counted by consuming iterators through their own adaptors
#[derive(Clone, Debug)]
pub enum TallyQ {
    Q(Query),
    Nearest(V),
}
/// The number of items, whether there is a last one, and whether there is one after the first `k`, as the iterator tells itself
pub type Tally = (usize, bool, bool);

/// A selection function described by data, deterministic in the box and the element
#[derive(Clone, Debug)]
pub struct Sel {
    /// Boxes that do not intersect this one are rejected
    pub region: Option<QBox>,
    /// Otherwise, reject boxes whose hash is 0 modulo this (0: none)
    pub reject_mod: u64,
    /// Accept elements whose key hash is 0 modulo this (1: all, 0: none)
    pub accept_mod: u64,
    /// Elements must intersect the region
    pub coherent: bool,
    pub salt: u64,
}

impl Sel {
    pub fn parent(&self, d: usize, lo: &V, hi: &V) -> bool {
        if let Some(q) = &self.region {
            if q.empty || !(0..d).all(|i| q.lo[i] <= hi[i] && lo[i] <= q.hi[i]) {
                return false;
            }
        }
        if self.reject_mod > 0 {
            let mut h = self.salt;
            for i in 0..d {
                h = combine(h, lo[i] as u64);
                h = combine(h, hi[i] as u64);
            }
            return h % self.reject_mod != 0;
        }
        true
    }
    pub fn leaf(&self, d: usize, s: &Spec) -> bool {
        if self.coherent {
            if let Some(q) = &self.region {
                if !s.intersects(d, q) {
                    return false;
                }
            }
        }
        self.accept_mod > 0 && combine(self.salt, s.key as u64) % self.accept_mod == 0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Parent(V, V, bool),
    Leaf(u32, bool),
}

/// The node structure in grid coordinates
#[derive(Clone, Debug)]
pub struct Dump {
    pub lo: V,
    pub hi: V,
    pub children: Vec<DumpChild>,
}
#[derive(Clone, Debug)]
pub enum DumpChild {
    Leaf(u32),
    Node(Dump),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Located {
    pub keys: Vec<u32>,
    /// Visitor forms: the value the call returned with, if it stopped
    pub broke_with: Option<u64>,
    pub calls_after_break: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Contents {
    Iter,
    RefIntoIter,
    IterMut,
    MutIntoIter,
    CloneIntoIter,
    Nodes,
    LocateAllSel,
}
pub const CONTENTS: [Contents; 7] = [
    Contents::Iter,
    Contents::RefIntoIter,
    Contents::IterMut,
    Contents::MutIntoIter,
    Contents::CloneIntoIter,
    Contents::Nodes,
    Contents::LocateAllSel,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Drop,
    Forget,
}

#[derive(Clone, Debug)]
pub enum DrainQ {
    Q(Query),
    Sel(Sel),
}

pub type Nn = (u32, Option<D2>);

pub trait Sut {
    fn any(&self) -> &dyn std::any::Any;
    fn meta(&self) -> &Meta;
    fn grid(&self) -> Grid;
    fn size(&self) -> usize;
    fn insert(&mut self, s: &Spec);
    fn contents(&mut self, form: Contents) -> Vec<u32>;
    fn debug_text(&self) -> String;
    fn dump(&self) -> Dump;
    fn clone_box(&self) -> Box<dyn Sut>;
    /// `count`, `last` and `nth(k)` of each iterator that answers the query
    fn tallies(&mut self, q: &TallyQ, k: usize) -> Vec<Tally>;
    /// Consumes the tree, taking `take` elements from its owning iterator
    fn into_elements(self: Box<Self>, take: usize) -> Vec<u32>;
    fn fresh(&self, specs: &[Spec], bulk: bool) -> Box<dyn Sut>;
    fn locate(&mut self, q: &Query, form: Form, stop: Option<usize>) -> Option<Located>;
    /// As locate through mutable forms, changing the payload of everything reached
    fn edit(&mut self, q: &Query, form: Form, stop: Option<usize>, add: u32) -> Option<Vec<u32>>;
    fn edit_one(&mut self, p: &V, form: Form, add: u32) -> Option<u32>;
    fn edit_sel(&mut self, s: &Sel, stop: usize, add: u32) -> Vec<u32>;
    fn payloads(&self) -> Vec<(u32, u32)>;
    fn at_point_one(&mut self, p: &V, form: Form) -> Option<u32>;
    fn contains(&self, s: &Spec) -> bool;
    fn nn(&self, p: &V, with_distance: bool) -> Option<Nn>;
    fn nns(&self, p: &V, with_distance: bool) -> Option<(Vec<u32>, Option<D2>)>;
    /// form 0: nearest_neighbor_iter, 1: .._with_distance_2, 2: deprecated name
    fn nn_iter(&self, p: &V, form: u8, limit: usize) -> Vec<Nn>;
    fn remove(&mut self, s: &Spec) -> Option<(u32, u32)>;
    fn remove_at(&mut self, p: &V) -> Option<(u32, u32)>;
    fn pop_nn(&mut self, p: &V) -> Option<(u32, u32)>;
    fn remove_sel(&mut self, s: &Sel) -> Option<(u32, u32)>;
    fn drain(&mut self, q: &DrainQ, steps: Option<usize>, end: End) -> Vec<(u32, u32)>;
    fn select(&mut self, s: &Sel, mutable: bool) -> (Vec<u32>, Vec<Call>);
    fn drain_traced(&mut self, s: &Sel, steps: Option<usize>) -> (Vec<u32>, Vec<Call>);
    fn remove_traced(&mut self, s: &Sel) -> (Option<u32>, Vec<Call>);
    /// Joins with a second tree (default parameters) of the given elements
    fn join(&self, other: &[Spec], bulk: bool) -> Vec<(u32, u32)>;
}

pub struct Adapter<K: Kind, Pr: RTreeParams + Clone + 'static> {
    tree: RTree<K::T, Pr>,
    reg: Reg,
    grid: Grid,
    meta: Rc<Meta>,
    _k: PhantomData<K>,
}

type Env<K> = <<K as Kind>::T as RTreeObject>::Envelope;
type Pp<K> = <<K as Kind>::G as Geo>::P;

/// More results than this mean an iterator does not end
fn cap(n: usize) -> usize {
    2 * n + 64
}

/// Identify an element, checking that it is unaltered
pub fn obs<K: Kind>(reg: &Registry, g: Grid, t: &K::T) -> u32 {
    let (lo, hi, shape) = K::read(t, g);
    match K::tag(t) {
        Some(tag) => {
            let Some(s) = reg.specs.get(tag.id as usize) else {
                viol!("found an element with id {} which was never put in", tag.id);
            };
            ensure!(
                tag.check == crate::rng::mix(tag.id as u64) && tag.class == s.class,
                "the data of element {} was altered",
                tag.id
            );
            ensure!(
                lo == s.lo && hi == s.hi && shape == s.shape,
                "the geometry of element {} was altered: {:?}..{:?} instead of {:?}..{:?}",
                tag.id,
                lo,
                hi,
                s.lo,
                s.hi
            );
            s.key
        }
        None => match reg.intern.get(&geo_key(&lo, &hi, &shape)) {
            Some(k) => *k,
            None => viol!("found an element {:?}..{:?} which was never put in", lo, hi),
        },
    }
}

pub struct TracedSel<'a, K: Kind> {
    sel: &'a Sel,
    reg: Reg,
    grid: Grid,
    trace: Rc<RefCell<Vec<Call>>>,
    record: bool,
    _k: PhantomData<K>,
}

impl<K: Kind> SelectionFunction<K::T> for TracedSel<'_, K>
where
    K::T: RTreeObject<Envelope = AABB<Pp<K>>>,
{
    fn should_unpack_parent(&self, envelope: &AABB<Pp<K>>) -> bool {
        let (lo, hi) = rdbox(envelope, self.grid);
        let r = self.sel.parent(<Pp<K> as Point>::DIMENSIONS, &lo, &hi);
        if self.record {
            self.trace.borrow_mut().push(Call::Parent(lo, hi, r));
        }
        r
    }
    fn should_unpack_leaf(&self, leaf: &K::T) -> bool {
        let reg = self.reg.borrow();
        let key = obs::<K>(&reg, self.grid, leaf);
        let r = self
            .sel
            .leaf(<Pp<K> as Point>::DIMENSIONS, &reg.specs[key as usize]);
        if self.record {
            self.trace.borrow_mut().push(Call::Leaf(key, r));
        }
        r
    }
}

impl<K: Kind, Pr: RTreeParams + Clone + 'static> Adapter<K, Pr> {
    fn mk(&self, s: &Spec) -> K::T {
        K::build(s, self.grid)
    }
    fn o(&self, t: &K::T) -> u32 {
        obs::<K>(&self.reg.borrow(), self.grid, t)
    }
    fn op(&self, t: &K::T) -> (u32, u32) {
        (self.o(t), K::tag(t).map_or(0, |t| t.payload))
    }
    fn p(&self, v: &V) -> Pp<K> {
        mkp(v, self.grid)
    }
    fn b(&self, q: &QBox) -> Env<K> {
        mkbox(q, self.grid)
    }
    fn r(&self, d: D2) -> Sc<Pp<K>> {
        HScalar::dist(d, self.grid)
    }
    fn sel<'a>(&self, s: &'a Sel, record: bool) -> TracedSel<'a, K> {
        TracedSel {
            sel: s,
            reg: self.reg.clone(),
            grid: self.grid,
            trace: Rc::default(),
            record,
            _k: PhantomData,
        }
    }
    pub fn tree(&self) -> &RTree<K::T, Pr> {
        &self.tree
    }
    /// Another tree with elements of the same registry
    pub fn wrap(&self, tree: RTree<K::T, Pr>) -> Self {
        Adapter {
            tree,
            reg: self.reg.clone(),
            grid: self.grid,
            meta: self.meta.clone(),
            _k: PhantomData,
        }
    }
}

thread_local! {
    static STYLE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Starts a new deterministic sequence of ways to consume iterators
pub fn seed_styles(seed: u64) {
    STYLE.with(|s| s.set(seed | 1));
}
/// The next pseudo-random number that picks a way to consume an iterator
pub fn style(n: u64) -> u64 {
    STYLE.with(|s| {
        let x = s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        s.set(x);
        (x >> 33) % n
    })
}

/// Consumes an iterator in one of the ways the language offers and checks its size hints on the way
pub fn collect<I: Iterator, T>(mut it: I, mut f: impl FnMut(I::Item) -> T, n: usize, stop: Option<usize>) -> Vec<T> {
    let limit = stop.unwrap_or(cap(n));
    let (lo, hi) = it.size_hint();
    let mut v: Vec<T> = vec![];
    let mut ended = true;
    match style(6) {
        // Asks for the end only if the limit is not reached
        0 => {
            v.extend(it.by_ref().take(limit).map(&mut f));
            ended = v.len() < limit;
        }
        1 => loop {
            if v.len() == limit {
                ended = false;
                break;
            }
            let (a, b) = it.size_hint();
            match it.next() {
                Some(x) => {
                    ensure!(b.is_none_or(|b| b > 0), "an iterator claims to be at its end, but yields another item");
                    v.push(f(x));
                }
                None => {
                    ensure!(a == 0, "an iterator claims at least {} more items, but is at its end", a);
                    // What has been yielded is not yielded again
                    for _ in 0..style(3) {
                        ensure!(it.next().is_none(), "an iterator goes on after its end");
                    }
                    break;
                }
            }
        },
        2 if stop.is_none() => {
            it.for_each(|x| {
                v.push(f(x));
                ensure!(v.len() < limit, "an iterator over a tree of {} elements yields more than {} items", n, limit);
            });
        }
        3 => loop {
            if v.len() == limit {
                ended = false;
                break;
            }
            let Some(x) = it.nth(0) else { break };
            v.push(f(x));
        },
        4 if stop.is_none() => {
            let k = style(2 * n as u64 + 2) as usize;
            v.extend(it.by_ref().take(k.min(limit)).map(&mut f));
            if v.len() == k.min(limit) {
                v = it.fold(v, |mut v, x| {
                    v.push(f(x));
                    ensure!(v.len() < limit, "an iterator over a tree of {} elements yields more than {} items", n, limit);
                    v
                });
            }
        }
        _ => {
            while v.len() < limit {
                let Some(x) = it.next() else { break };
                v.push(f(x));
            }
            ended = v.len() < limit;
        }
    }
    ensure!(hi.is_none_or(|hi| v.len() <= hi), "an iterator promised at most {:?} items and yielded {}", hi, v.len());
    ensure!(!ended || v.len() >= lo, "an iterator promised at least {} items and yielded {}", lo, v.len());
    ensure!(
        stop.is_some() || v.len() < limit,
        "an iterator over a tree of {} elements yielded more than {} items",
        n,
        limit
    );
    v
}

fn dump_node<K: Kind>(reg: &Registry, g: Grid, n: &ParentNode<K::T>) -> Dump
where
    K::T: RTreeObject<Envelope = AABB<Pp<K>>>,
{
    let (lo, hi) = rdbox(&n.envelope(), g);
    Dump {
        lo,
        hi,
        children: n
            .children()
            .iter()
            .map(|c| match c {
                RTreeNode::Leaf(t) => {
                    ensure!(c.is_leaf(), "is_leaf() denies that an element is one");
                    DumpChild::Leaf(obs::<K>(reg, g, t))
                }
                RTreeNode::Parent(p) => {
                    ensure!(!c.is_leaf(), "is_leaf() takes a node for an element");
                    // The node's envelope through both public ways
                    let e1 = rdbox(&c.envelope(), g);
                    let e2 = rdbox(&p.envelope(), g);
                    ensure!(e1 == e2, "RTreeNode::envelope and ParentNode::envelope disagree");
                    DumpChild::Node(dump_node::<K>(reg, g, p))
                }
            })
            .collect(),
    }
}

impl<K: Kind, Pr: RTreeParams + Clone + 'static> Sut for Adapter<K, Pr> {
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn meta(&self) -> &Meta {
        &self.meta
    }
    fn grid(&self) -> Grid {
        self.grid
    }
    fn size(&self) -> usize {
        self.tree.size()
    }
    fn insert(&mut self, s: &Spec) {
        let t = self.mk(s);
        self.tree.insert(t);
    }
    fn contents(&mut self, form: Contents) -> Vec<u32> {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let f = |t: &K::T| obs::<K>(&reg, g, t);
        match form {
            Contents::Iter => collect(self.tree.iter(), f, n, None),
            Contents::RefIntoIter => collect((&self.tree).into_iter(), f, n, None),
            Contents::IterMut => collect(self.tree.iter_mut(), |t| f(t), n, None),
            Contents::MutIntoIter => collect((&mut self.tree).into_iter(), |t| f(t), n, None),
            Contents::CloneIntoIter => {
                collect(self.tree.clone().into_iter(), |t| f(&t), n, None)
            }
            Contents::Nodes => {
                let mut keys = vec![];
                let mut stack = vec![self.tree.root()];
                while let Some(n) = stack.pop() {
                    for c in n.children() {
                        match c {
                            RTreeNode::Leaf(t) => keys.push(f(t)),
                            RTreeNode::Parent(p) => stack.push(p),
                        }
                    }
                }
                keys
            }
            Contents::LocateAllSel => {
                let sel = Sel {
                    region: None,
                    reject_mod: 0,
                    accept_mod: 1,
                    coherent: false,
                    salt: 0,
                };
                let s = TracedSel::<K> {
                    sel: &sel,
                    reg: self.reg.clone(),
                    grid: g,
                    trace: Rc::default(),
                    record: false,
                    _k: PhantomData,
                };
                collect(self.tree.locate_with_selection_function(s), f, n, None)
            }
        }
    }
    fn debug_text(&self) -> String {
        format!("{:?}", self.tree)
    }
    fn dump(&self) -> Dump {
        dump_node::<K>(&self.reg.borrow(), self.grid, self.tree.root())
    }
    fn clone_box(&self) -> Box<dyn Sut> {
        match style(4) {
            // A clone that takes the place of another tree
            0 => {
                let mut old = RTree::bulk_load_with_params(self.tree.iter().take(style(40) as usize).cloned().collect());
                if style(2) == 0 {
                    old.drain().take(style(8) as usize).for_each(drop);
                }
                old.clone_from(&self.tree);
                Box::new(self.wrap(old))
            }
            _ => Box::new(self.wrap(self.tree.clone())),
        }
    }
    fn into_elements(self: Box<Self>, take: usize) -> Vec<u32> {
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let n = self.tree.size();
        collect(self.tree.into_iter(), |t| obs::<K>(&reg, g, &t), n, Some(take))
    }
    fn fresh(&self, specs: &[Spec], bulk: bool) -> Box<dyn Sut> {
        let v: Vec<K::T> = specs.iter().map(|s| self.mk(s)).collect();
        Box::new(self.wrap(if bulk {
            RTree::bulk_load_with_params(v)
        } else {
            let mut t = if specs.len() % 2 == 0 {
                RTree::new_with_params()
            } else {
                RTree::default()
            };
            v.into_iter().for_each(|e| t.insert(e));
            t
        }))
    }
    fn locate(&mut self, q: &Query, form: Form, stop: Option<usize>) -> Option<Located> {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let f = |t: &K::T| obs::<K>(&reg, g, t);
        let limit = cap(n);
        let mut r = Located::default();
        let mut calls = 0usize;
        let mut broke = false;
        macro_rules! visit {
            ($call:ident, $arg:expr, $t:ty) => {{
                let (keys, calls_after) = (&mut r.keys, &mut r.calls_after_break);
                let res: ControlFlow<u64> = self.tree.$call($arg, |t: $t| {
                    if broke {
                        *calls_after += 1;
                    }
                    keys.push(f(t));
                    calls += 1;
                    ensure!(calls <= limit, "a visitor was called more than {} times on a tree of {} elements", limit, n);
                    if stop == Some(calls) {
                        broke = true;
                        ControlFlow::Break(0xb0b0_0000 + calls as u64)
                    } else {
                        ControlFlow::Continue(())
                    }
                });
                if let ControlFlow::Break(v) = res {
                    r.broke_with = Some(v);
                }
            }};
        }
        match (q, form) {
            (Query::All, Form::Iter) => r.keys = collect(self.tree.iter(), f, n, stop),
            (Query::All, Form::IterMut) => {
                r.keys = collect(self.tree.iter_mut(), |t| f(t), n, stop)
            }
            (Query::All, _) => return None,
            (Query::InEnv(q), Form::Iter) => {
                r.keys = collect(self.tree.locate_in_envelope(self.b(q)), f, n, stop)
            }
            (Query::InEnv(q), Form::IterMut) => {
                let b = self.b(q);
                r.keys = collect(self.tree.locate_in_envelope_mut(b), |t| f(t), n, stop)
            }
            (Query::InEnv(q), Form::Int) => visit!(locate_in_envelope_int, self.b(q), &K::T),
            (Query::InEnv(q), Form::IntMut) => {
                let b = self.b(q);
                visit!(locate_in_envelope_int_mut, b, &mut K::T)
            }
            (Query::Inter(q), Form::Iter) => {
                r.keys = collect(
                    self.tree.locate_in_envelope_intersecting(self.b(q)), f,
                    n,
                    stop)
            }
            (Query::Inter(q), Form::IterMut) => {
                let b = self.b(q);
                r.keys = collect(
                    self.tree
                        .locate_in_envelope_intersecting_mut(b), |t| f(t),
                    n,
                    stop)
            }
            (Query::Inter(q), Form::Int) => {
                visit!(locate_in_envelope_intersecting_int, self.b(q), &K::T)
            }
            (Query::Inter(q), Form::IntMut) => {
                let b = self.b(q);
                visit!(locate_in_envelope_intersecting_int_mut, b, &mut K::T)
            }
            (Query::At(p), Form::Iter) => {
                r.keys = collect(self.tree.locate_all_at_point(self.p(p)), f, n, stop)
            }
            (Query::At(p), Form::IterMut) => {
                let p = self.p(p);
                r.keys = collect(self.tree.locate_all_at_point_mut(p), |t| f(t), n, stop)
            }
            (Query::At(p), Form::Int) => visit!(locate_all_at_point_int, self.p(p), &K::T),
            (Query::At(p), Form::IntMut) => {
                let p = self.p(p);
                visit!(locate_all_at_point_int_mut, p, &mut K::T)
            }
            (Query::Within(p, d), Form::Iter) => {
                r.keys = collect(
                    self.tree
                        .locate_within_distance(self.p(p), self.r(*d)), f,
                    n,
                    stop)
            }
            (Query::Within(..), _) => return None,
        }
        Some(r)
    }
    fn edit(&mut self, q: &Query, form: Form, stop: Option<usize>, add: u32) -> Option<Vec<u32>> {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let f = |t: &mut K::T| {
            if let Some(tag) = K::tag_mut(t) {
                tag.payload += add;
            }
            obs::<K>(&reg, g, t)
        };
        let mut keys = vec![];
        macro_rules! visit {
            ($call:ident, $arg:expr) => {{
                let _: ControlFlow<()> = self.tree.$call($arg, |t| {
                    keys.push(f(t));
                    if keys.len() >= stop.unwrap_or(cap(n)) {
                        ControlFlow::Break(())
                    } else {
                        ControlFlow::Continue(())
                    }
                });
            }};
        }
        match (q, form) {
            (Query::All, Form::IterMut) => keys = collect(self.tree.iter_mut(), f, n, stop),
            (Query::InEnv(q), Form::IterMut) => {
                let b = self.b(q);
                keys = collect(self.tree.locate_in_envelope_mut(b), f, n, stop)
            }
            (Query::InEnv(q), Form::IntMut) => {
                let b = self.b(q);
                visit!(locate_in_envelope_int_mut, b)
            }
            (Query::Inter(q), Form::IterMut) => {
                let b = self.b(q);
                keys = collect(
                    self.tree.locate_in_envelope_intersecting_mut(b), f,
                    n,
                    stop)
            }
            (Query::Inter(q), Form::IntMut) => {
                let b = self.b(q);
                visit!(locate_in_envelope_intersecting_int_mut, b)
            }
            (Query::At(p), Form::IterMut) => {
                let p = self.p(p);
                keys = collect(self.tree.locate_all_at_point_mut(p), f, n, stop)
            }
            (Query::At(p), Form::IntMut) => {
                let p = self.p(p);
                visit!(locate_all_at_point_int_mut, p)
            }
            _ => return None,
        }
        Some(keys)
    }
    fn edit_one(&mut self, p: &V, form: Form, add: u32) -> Option<u32> {
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let p = self.p(p);
        let t = if form == Form::IterMut {
            self.tree.locate_at_point_mut(p)
        } else {
            self.tree.locate_at_point_int_mut(p)
        };
        t.map(|t| {
            if let Some(tag) = K::tag_mut(t) {
                tag.payload += add;
            }
            obs::<K>(&reg, g, t)
        })
    }
    fn edit_sel(&mut self, s: &Sel, stop: usize, add: u32) -> Vec<u32> {
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let n = self.tree.size();
        let sel = self.sel(s, false);
        collect(
            self.tree.locate_with_selection_function_mut(sel), |t| {
                if let Some(tag) = K::tag_mut(t) {
                    tag.payload += add;
                }
                obs::<K>(&reg, g, t)
            },
            n,
            Some(stop.min(cap(n))))
    }
    fn payloads(&self) -> Vec<(u32, u32)> {
        collect(self.tree.iter(), |t| self.op(t), self.tree.size(), None)
    }
    fn at_point_one(&mut self, p: &V, form: Form) -> Option<u32> {
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let f = |t: &K::T| obs::<K>(&reg, g, t);
        let p = self.p(p);
        match form {
            Form::Iter => self.tree.locate_at_point(p).map(f),
            Form::IterMut => self.tree.locate_at_point_mut(p).map(|t| f(t)),
            Form::Int => self.tree.locate_at_point_int(p).map(f),
            Form::IntMut => self.tree.locate_at_point_int_mut(p).map(|t| f(t)),
        }
    }
    fn contains(&self, s: &Spec) -> bool {
        self.tree.contains(&self.mk(s))
    }
    fn nn(&self, p: &V, with_distance: bool) -> Option<Nn> {
        if with_distance {
            self.tree
                .nearest_neighbor_with_distance_2(self.p(p))
                .map(|(t, d)| (self.o(t), Some(d.to_d2(self.grid))))
        } else {
            self.tree
                .nearest_neighbor(self.p(p))
                .map(|t| (self.o(t), None))
        }
    }
    fn nns(&self, p: &V, with_distance: bool) -> Option<(Vec<u32>, Option<D2>)> {
        if with_distance {
            self.tree
                .nearest_neighbors_with_distance_2(&self.p(p))
                .map(|(v, d)| {
                    (
                        v.into_iter().map(|t| self.o(t)).collect(),
                        Some(d.to_d2(self.grid)),
                    )
                })
        } else {
            let v = self.tree.nearest_neighbors(&self.p(p));
            (!v.is_empty()).then(|| (v.into_iter().map(|t| self.o(t)).collect(), None))
        }
    }
    #[allow(deprecated)]
    fn nn_iter(&self, p: &V, form: u8, limit: usize) -> Vec<Nn> {
        let n = self.tree.size();
        let p = self.p(p);
        let limit = limit.min(cap(n));
        match form {
            0 => collect(self.tree.nearest_neighbor_iter(p), |t| (self.o(t), None), n, Some(limit)),
            1 => collect(
                self.tree.nearest_neighbor_iter_with_distance_2(p),
                |(t, d)| (self.o(t), Some(d.to_d2(self.grid))),
                n,
                Some(limit),
            ),
            _ => collect(
                self.tree.nearest_neighbor_iter_with_distance(p),
                |(t, d)| (self.o(t), Some(d.to_d2(self.grid))),
                n,
                Some(limit),
            ),
        }
    }
    #[allow(deprecated)]
    fn tallies(&mut self, q: &TallyQ, k: usize) -> Vec<Tally> {
        let mut v = vec![];
        macro_rules! tally {
            ($e:expr) => {
                v.push(($e.count(), $e.last().is_some(), $e.nth(k).is_some()))
            };
        }
        macro_rules! drain {
            ($call:ident($($arg:expr),*)) => {{
                let (mut a, mut b, mut c) = (self.tree.clone(), self.tree.clone(), self.tree.clone());
                v.push((a.$call($($arg),*).count(), b.$call($($arg),*).last().is_some(), c.$call($($arg),*).nth(k).is_some()));
                // Running a drain to the end, however that is done, leaves the rest
                ensure!(a.size() + v.last().unwrap().0 == self.tree.size() && b.size() == a.size(), "a drain run to the end leaves the wrong size");
                ensure!(a.iter().count() == a.size() && b.iter().count() == b.size(), "a drain run to the end leaves the wrong elements");
            }};
        }
        match q {
            TallyQ::Q(Query::All) => {
                tally!(self.tree.iter());
                tally!((&self.tree).into_iter());
                tally!(self.tree.iter_mut());
                tally!((&mut self.tree).into_iter());
                tally!(self.tree.clone().into_iter());
                drain!(drain());
            }
            TallyQ::Q(Query::InEnv(q)) => {
                let b = self.b(q);
                tally!(self.tree.locate_in_envelope(b.clone()));
                tally!(self.tree.locate_in_envelope_mut(b.clone()));
                drain!(drain_in_envelope(b.clone()));
            }
            TallyQ::Q(Query::Inter(q)) => {
                let b = self.b(q);
                tally!(self.tree.locate_in_envelope_intersecting(b.clone()));
                tally!(self.tree.locate_in_envelope_intersecting_mut(b.clone()));
                drain!(drain_in_envelope_intersecting(b.clone()));
            }
            TallyQ::Q(Query::At(p)) => {
                let p = self.p(p);
                tally!(self.tree.locate_all_at_point(p.clone()));
                tally!(self.tree.locate_all_at_point_mut(p.clone()));
            }
            TallyQ::Q(Query::Within(p, d)) => {
                let (p, d) = (self.p(p), self.r(*d));
                tally!(self.tree.locate_within_distance(p.clone(), d));
                drain!(drain_within_distance(p.clone(), d));
            }
            TallyQ::Nearest(p) => {
                let p = self.p(p);
                tally!(self.tree.nearest_neighbor_iter(p.clone()));
                tally!(self.tree.nearest_neighbor_iter_with_distance_2(p.clone()));
                tally!(self.tree.nearest_neighbor_iter_with_distance(p.clone()));
            }
        }
        v
    }
    fn remove(&mut self, s: &Spec) -> Option<(u32, u32)> {
        let t = self.mk(s);
        let r = self.tree.remove(&t);
        r.map(|t| self.op(&t))
    }
    fn remove_at(&mut self, p: &V) -> Option<(u32, u32)> {
        let p = self.p(p);
        let r = self.tree.remove_at_point(p);
        r.map(|t| self.op(&t))
    }
    fn pop_nn(&mut self, p: &V) -> Option<(u32, u32)> {
        let p = self.p(p);
        let r = self.tree.pop_nearest_neighbor(p);
        r.map(|t| self.op(&t))
    }
    fn remove_sel(&mut self, s: &Sel) -> Option<(u32, u32)> {
        let sel = self.sel(s, false);
        let r = self.tree.remove_with_selection_function(sel);
        r.map(|t| self.op(&t))
    }
    fn drain(&mut self, q: &DrainQ, steps: Option<usize>, end: End) -> Vec<(u32, u32)> {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let reg = reg.borrow();
        let f = |t: K::T| (obs::<K>(&reg, g, &t), K::tag(&t).map_or(0, |t| t.payload));
        macro_rules! run {
            ($it:expr) => {{
                let mut it = $it;
                let mut out = vec![];
                let limit = steps.unwrap_or(cap(n));
                while out.len() < limit {
                    let (lo, hi) = it.size_hint();
                    match it.next() {
                        Some(t) => {
                            ensure!(hi.is_none_or(|hi| hi > 0), "a drain claims to be at its end, but yields another element");
                            out.push(f(t))
                        }
                        None => {
                            ensure!(lo == 0, "a drain claims at least {} more elements, but is at its end", lo);
                            for _ in 0..style(3) {
                                ensure!(it.next().is_none(), "a drain goes on after its end");
                            }
                            break;
                        }
                    }
                }
                ensure!(
                    out.len() < cap(n),
                    "a drain of a tree of {} elements handed out {}",
                    n,
                    out.len()
                );
                match end {
                    End::Drop => drop(it),
                    End::Forget => std::mem::forget(it),
                }
                out
            }};
        }
        match q {
            DrainQ::Q(Query::All) => run!(self.tree.drain()),
            DrainQ::Q(Query::InEnv(q)) => {
                let b = self.b(q);
                run!(self.tree.drain_in_envelope(b))
            }
            DrainQ::Q(Query::Inter(q)) => {
                let b = self.b(q);
                run!(self.tree.drain_in_envelope_intersecting(b))
            }
            DrainQ::Q(Query::Within(p, d)) => {
                let (p, d) = (self.p(p), self.r(*d));
                run!(self.tree.drain_within_distance(p, d))
            }
            DrainQ::Q(Query::At(_)) => unreachable!(),
            DrainQ::Sel(s) => {
                let sel = self.sel(s, false);
                run!(self.tree.drain_with_selection_function(sel))
            }
        }
    }
    fn select(&mut self, s: &Sel, mutable: bool) -> (Vec<u32>, Vec<Call>) {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let sel = self.sel(s, true);
        let trace = sel.trace.clone();
        let keys = if mutable {
            collect(
                self.tree
                    .locate_with_selection_function_mut(sel), |t| obs::<K>(&reg.borrow(), g, t),
                n,
                None)
        } else {
            collect(
                self.tree
                    .locate_with_selection_function(sel), |t| obs::<K>(&reg.borrow(), g, t),
                n,
                None)
        };
        let t = trace.borrow().clone();
        (keys, t)
    }
    fn drain_traced(&mut self, s: &Sel, steps: Option<usize>) -> (Vec<u32>, Vec<Call>) {
        let n = self.tree.size();
        let (reg, g) = (self.reg.clone(), self.grid);
        let sel = self.sel(s, true);
        let trace = sel.trace.clone();
        let keys = collect(
            self.tree
                .drain_with_selection_function(sel), |t| obs::<K>(&reg.borrow(), g, &t),
            n,
            steps);
        let t = trace.borrow().clone();
        (keys, t)
    }
    fn remove_traced(&mut self, s: &Sel) -> (Option<u32>, Vec<Call>) {
        let sel = self.sel(s, true);
        let trace = sel.trace.clone();
        let r = self.tree.remove_with_selection_function(sel);
        let t = trace.borrow().clone();
        (r.map(|t| self.o(&t)), t)
    }
    fn join(&self, other: &[Spec], bulk: bool) -> Vec<(u32, u32)> {
        let v: Vec<K::T> = other.iter().map(|s| self.mk(s)).collect();
        let tree2: RTree<K::T> = if bulk {
            RTree::bulk_load(v)
        } else {
            let mut t = RTree::new();
            v.into_iter().for_each(|e| t.insert(e));
            t
        };
        let limit = (self.tree.size() + 8) * (other.len() + 8);
        let join = || self.tree.intersection_candidates_with_other_tree(&tree2);
        let r = collect(join(), |(a, b)| (self.o(a), self.o(b)), self.tree.size(), Some(limit));
        ensure!(r.len() < limit, "a join does not end");
        let k = style(r.len() as u64 + 2) as usize;
        let t = (join().count(), join().last().is_some(), join().nth(k).is_some());
        ensure!(t == (r.len(), !r.is_empty(), k < r.len()), "a join of {} pairs counts, ends or skips {} like {:?}", r.len(), k, t);
        r
    }
}

pub fn meta<K: Kind, Pr: RTreeParams>(name: &'static str) -> Meta {
    let d = <Pp<K> as Point>::DIMENSIONS;
    let lines = K::G::SHAPE == ShapeKind::Line;
    Meta {
        name,
        scalar: std::any::type_name::<Sc<Pp<K>>>(),
        dims: d,
        min: Pr::MIN_SIZE,
        max: Pr::MAX_SIZE,
        reinsert: Pr::REINSERTION_COUNT,
        shape: K::G::SHAPE,
        span: span::<Sc<Pp<K>>>(d, Pr::MAX_SIZE, lines),
        tagged: K::TAGGED,
        mutable: K::MUTABLE,
        float: <Sc<Pp<K>> as HScalar>::FLOAT,
        exp_range: <Sc<Pp<K>> as HScalar>::EXP_RANGE,
    }
}

/// A configuration: makes empty adapters
#[derive(Clone)]
pub struct Cfg {
    pub meta: Meta,
    pub make: fn(Meta, Reg, Grid) -> Box<dyn Sut>,
}

pub fn cfg<K: Kind, Pr: RTreeParams + Clone + 'static>(name: &'static str) -> Cfg {
    Cfg {
        meta: meta::<K, Pr>(name),
        make: |meta, reg, grid| {
            Box::new(Adapter::<K, Pr> {
                tree: RTree::new_with_params(),
                reg,
                grid,
                meta: Rc::new(meta),
                _k: PhantomData,
            })
        },
    }
}
