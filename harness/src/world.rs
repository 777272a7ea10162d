//! A tree under test together with the exact model of what it has to contain, and the monitors
//! that compare the two.
use crate::gen;
use crate::kinds::ShapeKind;
use crate::rng::{combine, Rng};
use crate::runner::Ctx;
use crate::scalar::Grid;
use crate::spec::*;
use crate::sut::*;
use crate::{ensure, viol};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct World<'c> {
    pub ctx: &'c mut Ctx,
    pub sut: Box<dyn Sut>,
    pub reg: Reg,
    pub meta: Meta,
    /// key -> multiplicity
    pub model: BTreeMap<u32, usize>,
    /// The number of elements in the model, if known
    total: std::cell::Cell<Option<usize>>,
    pub live: Vec<Spec>,
    live_dirty: bool,
    /// key -> payload (for kinds whose data can be changed)
    pub payload: BTreeMap<u32, u32>,
    pub pattern: usize,
    pub classes: u8,
    pub ops: u64,
    /// Set by bulk loading: minimum sizes do not apply any more
    pub only_inserted: bool,
}

pub fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort_unstable();
    v
}

/// Which mutating operations a history consists of
#[derive(Clone, Copy)]
pub struct Mix {
    pub insert: usize,
    pub remove: usize,
    pub remove_absent: usize,
    pub remove_at: usize,
    pub pop_nn: usize,
    pub remove_sel: usize,
    pub drain: usize,
    pub clone: usize,
    pub rebuild: usize,
    pub edit: usize,
    pub leak: usize,
}
pub const MIX: Mix = Mix {
    insert: 40,
    remove: 20,
    remove_absent: 3,
    remove_at: 8,
    pop_nn: 6,
    remove_sel: 6,
    drain: 6,
    clone: 1,
    rebuild: 1,
    edit: 3,
    leak: 0,
};

impl<'c> World<'c> {
    pub fn new(ctx: &'c mut Ctx, cfg: &Cfg) -> Self {
        let reg: Reg = Rc::new(RefCell::new(Registry::default()));
        let (a, b) = cfg.meta.exp_range;
        let grid = Grid {
            exp: ctx.rng.range(a as i64, b as i64) as i32,
        };
        let sut = (cfg.make)(cfg.meta.clone(), reg.clone(), grid);
        seed_styles(ctx.seed);
        let pattern = ctx.rng.below(gen::PATTERNS.len());
        let classes = *ctx.rng.pick(&[1u8, 2, 3]);
        World {
            ctx,
            sut,
            reg,
            meta: cfg.meta.clone(),
            model: BTreeMap::new(),
            total: Default::default(),
            live: vec![],
            live_dirty: false,
            payload: BTreeMap::new(),
            pattern,
            classes,
            ops: 0,
            only_inserted: true,
        }
    }
    pub fn d(&self) -> usize {
        self.meta.dims
    }
    pub fn e(&self) -> i64 {
        self.meta.span
    }
    pub fn len(&self) -> usize {
        let n = self.total.get().unwrap_or_else(|| self.model.values().sum());
        self.total.set(Some(n));
        n
    }
    fn counted(&mut self, change: isize) {
        self.total.set(self.total.get().map(|n| n.wrapping_add_signed(change)));
    }
    pub fn spec(&self, key: u32) -> Spec {
        self.reg.borrow().specs[key as usize].clone()
    }
    /// The elements in the tree (one entry per distinct key)
    pub fn refresh(&mut self) -> &[Spec] {
        if self.live_dirty {
            let reg = self.reg.borrow();
            self.live = self
                .model
                .keys()
                .map(|k| reg.specs[*k as usize].clone())
                .collect();
            self.live_dirty = false;
        }
        &self.live
    }
    pub fn describe(&self) -> String {
        format!(
            "{} n={} pattern={} grid=2^{} ops={}",
            self.meta.name,
            self.len(),
            gen::PATTERNS[self.pattern],
            self.sut.grid().exp,
            self.ops
        )
    }
    pub fn gen(&mut self, n: usize) -> Vec<Spec> {
        let v = gen::elements(
            &mut self.ctx.rng,
            self.meta.shape,
            self.pattern,
            n,
            self.meta.dims,
            self.meta.span,
            self.classes,
        );
        let mut reg = self.reg.borrow_mut();
        v.into_iter().map(|s| reg.add(s, self.meta.tagged)).collect()
    }
    fn put(&mut self, s: &Spec) {
        *self.model.entry(s.key).or_insert(0) += 1;
        self.counted(1);
        if self.meta.mutable {
            self.payload.insert(s.key, 0);
        }
        self.live_dirty = true;
    }
    fn took(&mut self, what: &str, (key, payload): (u32, u32)) {
        match self.model.get_mut(&key) {
            Some(c) if *c > 1 => *c -= 1,
            Some(_) => {
                self.model.remove(&key);
            }
            None => viol!(
                "{} handed out element {} which the tree does not contain (any more)",
                what,
                key
            ),
        }
        self.counted(-1);
        if self.meta.mutable {
            let expect = self.payload.remove(&key).unwrap_or(0);
            ensure!(
                payload == expect,
                "{}: element {} came back with data {} instead of {}",
                what,
                key,
                payload,
                expect
            );
        }
        self.live_dirty = true;
    }
    fn check_size(&self, what: &str) {
        let (n, m) = (self.sut.size(), self.len());
        ensure!(n == m, "after {}: size() is {} but the tree has to contain {} elements", what, n, m);
    }

    // ---- building -------------------------------------------------------------------------

    pub fn insert(&mut self, s: &Spec) {
        self.ctx.note(format!("insert #{} {:?}..{:?} class {}", s.id, &s.lo[..self.d()], &s.hi[..self.d()], s.class));
        self.sut.insert(s);
        self.put(s);
        self.ops += 1;
        self.ctx.count("inserts", 1);
        self.check_size("insert");
    }
    /// Replaces the (empty) tree by a bulk loaded one
    pub fn bulk(&mut self, specs: &[Spec]) {
        self.ctx.note(format!("bulk load {} elements (ids {:?}..)", specs.len(), specs.first().map(|s| s.id)));
        self.sut = self.sut.fresh(specs, true);
        for s in specs {
            self.put(s);
        }
        self.ops += 1;
        self.only_inserted = false;
        self.ctx.count("bulk_loads", 1);
        self.ctx.count("bulk_loaded_elements", specs.len() as u64);
        self.check_size("bulk loading");
    }
    /// Builds a tree of about n elements by one of several routes
    pub fn build(&mut self, n: usize) -> usize {
        let route = self.ctx.rng.weighted(&[20, 20, 15, 10, 10, 10, 5, 5]);
        self.build_by(route, n);
        route
    }
    pub fn build_by(&mut self, route: usize, n: usize) {
        let specs = self.gen(n);
        // Bulk loading makes nodes of 2^d children; splitting them later takes very long in high dimensions
        let wide = n > 500 && 1 << self.d() > 8 * self.meta.max;
        match route {
            2 | 5 if wide => self.bulk(&specs),
            0 => {
                for s in &specs {
                    self.insert(s);
                }
            }
            1 => self.bulk(&specs),
            2 => {
                let k = self.ctx.rng.below(n + 1);
                self.bulk(&specs[..k]);
                for s in &specs[k..] {
                    self.insert(s);
                }
            }
            3 => {
                // Insert, then remove a part
                let extra = self.gen(n / 2 + 1);
                let mut all: Vec<Spec> = specs.iter().chain(&extra).cloned().collect();
                self.ctx.rng.shuffle(&mut all);
                for s in &all {
                    self.insert(s);
                }
                for s in &extra {
                    self.remove(s);
                }
            }
            4 => {
                // Bulk load more, drain a part
                let extra = self.gen(n / 2 + 1);
                let all: Vec<Spec> = specs.iter().chain(&extra).cloned().collect();
                self.bulk(&all);
                let q = self.drain_query();
                self.drain(&q, None, End::Drop);
            }
            5 => {
                // Partial drain, then insert on top
                let k = n / 2 + 1;
                self.bulk(&specs[..k.min(n)]);
                let q = self.drain_query();
                let steps = self.ctx.rng.below(k);
                self.drain(&q, Some(steps), End::Drop);
                for s in &specs[k.min(n)..] {
                    self.insert(s);
                }
            }
            6 => {
                self.bulk(&specs);
                self.clone_swap();
            }
            _ => {
                for s in &specs {
                    self.insert(s);
                }
                self.rebuild();
            }
        }
    }

    // ---- mutating operations, each checked against the model --------------------------------

    /// Remove something equal to the given element
    pub fn remove(&mut self, s: &Spec) {
        let expected: bool = self.any_equal(s);
        let got = self.sut.remove(s);
        self.ctx.note(format!("remove equal to #{} -> {:?}", s.id, got));
        self.ops += 1;
        match got {
            Some(r) => {
                let t = self.spec(r.0);
                ensure!(
                    if self.meta.tagged { t.equal(s) } else { t.same_geometry(s) },
                    "remove(#{}) returned #{}, which is not equal",
                    s.id,
                    r.0
                );
                self.took("remove", r);
                self.ctx.count("removed_equal", 1);
            }
            None => {
                ensure!(!expected, "remove(#{}) found nothing although an equal element is stored", s.id);
                self.ctx.count("remove_misses", 1);
            }
        }
        self.check_size("remove");
    }
    pub fn any_equal(&self, s: &Spec) -> bool {
        let reg = self.reg.borrow();
        if !self.meta.tagged {
            return self.model.contains_key(&s.key);
        }
        self.model
            .keys()
            .any(|k| reg.specs[*k as usize].equal(s))
    }
    /// A probe element that usually is not stored but close to one
    pub fn near_miss(&mut self) -> Spec {
        let d = self.d();
        let mut s = match self.random_live() {
            Some(s) => s,
            None => return self.gen(1).pop().unwrap(),
        };
        let half = (-(self.e() / 2), self.e() - self.e() / 2);
        match self.ctx.rng.below(3) {
            0 => s.class = (s.class + 1) % 4,
            _ => {
                let i = self.ctx.rng.below(d);
                let delta = if self.ctx.rng.bit() { 1 } else { -1 };
                let ok = |x: i64| (half.0..=half.1).contains(&(x + delta));
                match &mut s.shape {
                    Shape::Box => {
                        if self.meta.shape == ShapeKind::Point {
                            if ok(s.lo[i]) {
                                s.lo[i] += delta;
                                s.hi[i] += delta;
                            }
                        } else if ok(s.hi[i]) && s.hi[i] + delta >= s.lo[i] {
                            s.hi[i] += delta;
                        }
                    }
                    Shape::Cloud(p) => {
                        let k = self.ctx.rng.below(p.len());
                        if ok(p[k][i]) {
                            p[k][i] += delta;
                        }
                        s.lo[i] = p.iter().map(|q| q[i]).min().unwrap();
                        s.hi[i] = p.iter().map(|q| q[i]).max().unwrap();
                    }
                    Shape::Line(a, b) => {
                        // Move the whole line
                        if ok(a[i]) && ok(b[i]) {
                            a[i] += delta;
                            b[i] += delta;
                            s.lo[i] += delta;
                            s.hi[i] += delta;
                        }
                    }
                }
            }
        }
        self.reg.borrow_mut().add(s, self.meta.tagged)
    }
    pub fn random_live(&mut self) -> Option<Spec> {
        self.refresh();
        if self.live.is_empty() {
            return None;
        }
        let i = self.ctx.rng.below(self.live.len());
        Some(self.live[i].clone())
    }
    pub fn remove_at(&mut self, p: &V) {
        let d = self.d();
        let got = self.sut.remove_at(p);
        self.ctx.note(format!("remove_at_point {:?} -> {:?}", &p[..d], got));
        self.ops += 1;
        match got {
            Some(r) => {
                ensure!(
                    self.spec(r.0).contains(d, p),
                    "remove_at_point({:?}) returned #{} which does not contain the point",
                    &p[..d],
                    r.0
                );
                self.took("remove_at_point", r);
                self.ctx.count("removed_at_point", 1);
            }
            None => {
                let m = self.matching(&Query::At(*p));
                ensure!(m.is_empty(), "remove_at_point({:?}) found nothing although {:?} contain the point", &p[..d], m);
                self.ctx.count("remove_misses", 1);
            }
        }
        self.check_size("remove_at_point");
    }
    pub fn pop_nn(&mut self, p: &V) {
        let d = self.d();
        let got = self.sut.pop_nn(p);
        self.ctx.note(format!("pop_nearest_neighbor {:?} -> {:?}", &p[..d], got));
        self.ops += 1;
        match got {
            Some(r) => {
                let (min, _) = self.nearest(p).unwrap_or((0, vec![]));
                let have = self.spec(r.0).dist2(d, p);
                self.took("pop_nearest_neighbor", r);
                ensure!(
                    have == min,
                    "pop_nearest_neighbor({:?}) removed #{} at squared distance {} but the minimum is {}",
                    &p[..d],
                    r.0,
                    fx(have),
                    fx(min)
                );
                self.ctx.count("popped_nearest", 1);
            }
            None => {
                ensure!(self.model.is_empty(), "pop_nearest_neighbor({:?}) returned nothing on a tree of {} elements", &p[..d], self.len());
                self.ctx.count("remove_misses", 1);
            }
        }
        self.check_size("pop_nearest_neighbor");
    }
    pub fn coherent_sel(&mut self) -> Sel {
        let (d, e) = (self.d(), self.e());
        self.refresh();
        let region = (!self.ctx.rng.chance(1, 3)).then(|| gen::qbox(&mut self.ctx.rng, d, e, &self.live));
        Sel {
            region,
            reject_mod: 0,
            accept_mod: *self.ctx.rng.pick(&[1u64, 1, 2, 3, 7, 0]),
            coherent: true,
            salt: self.ctx.rng.next(),
        }
    }
    pub fn selected(&self, s: &Sel) -> Vec<u32> {
        let reg = self.reg.borrow();
        let mut v = vec![];
        for (k, c) in &self.model {
            if s.leaf(self.d(), &reg.specs[*k as usize]) {
                v.extend(std::iter::repeat_n(*k, *c));
            }
        }
        v
    }
    pub fn remove_sel(&mut self, s: &Sel) {
        let sel = self.selected(s);
        let got = self.sut.remove_sel(s);
        self.ctx.note(format!("remove_with_selection_function ({} selected) -> {:?}", sel.len(), got));
        self.ops += 1;
        match got {
            Some(r) => {
                ensure!(sel.contains(&r.0), "remove_with_selection_function returned #{} which is not selected", r.0);
                self.took("remove_with_selection_function", r);
                self.ctx.count("removed_selected", 1);
            }
            None => {
                ensure!(sel.is_empty(), "remove_with_selection_function found nothing although {:?} are selected", sel);
                self.ctx.count("remove_misses", 1);
            }
        }
        self.check_size("remove_with_selection_function");
    }
    pub fn drain_query(&mut self) -> DrainQ {
        let (d, e) = (self.d(), self.e());
        self.refresh();
        match self.ctx.rng.weighted(&[2, 6, 6, 5, 5]) {
            0 => DrainQ::Q(Query::All),
            1 => DrainQ::Q(Query::InEnv(gen::qbox(&mut self.ctx.rng, d, e, &self.live))),
            2 => DrainQ::Q(Query::Inter(gen::qbox(&mut self.ctx.rng, d, e, &self.live))),
            3 => {
                let q = self.within_query();
                DrainQ::Q(q)
            }
            _ => DrainQ::Sel(self.coherent_sel()),
        }
    }
    pub fn drain(&mut self, q: &DrainQ, steps: Option<usize>, end: End) -> usize {
        let selected = match q {
            DrainQ::Q(q) => self.matching(q),
            DrainQ::Sel(s) => self.selected(s),
        };
        let before = self.len();
        let got = self.sut.drain(q, steps, end);
        self.ops += 1;
        self.ctx.note(format!(
            "drain {} ({} of {} selected), {:?} steps, then {:?} -> {} handed out",
            match q {
                DrainQ::Q(q) => format!("{:?}", self.short(q)),
                DrainQ::Sel(_) => "by selection".into(),
            },
            selected.len(),
            before,
            steps,
            end,
            got.len()
        ));
        let keys = sorted(got.iter().map(|g| g.0).collect());
        let n = got.len();
        // Handed out elements are selected ones, each once
        let mut i = 0;
        for k in &keys {
            while i < selected.len() && selected[i] < *k {
                i += 1;
            }
            ensure!(
                i < selected.len() && selected[i] == *k,
                "a drain handed out #{} which is not selected, or handed it out twice",
                k
            );
            i += 1;
        }
        let expect = steps.unwrap_or(usize::MAX).min(selected.len());
        ensure!(n == expect, "a drain of {} selected elements handed out {} (asked for {:?})", selected.len(), n, steps);
        for r in got {
            self.took("drain", r);
        }
        self.ctx.count("drains", 1);
        self.ctx.count("drained_elements", n as u64);
        if steps.is_some() && n < selected.len() {
            self.ctx.count("drains_cut_short", 1);
        }
        if end == End::Forget {
            // Leaked: the tree is empty (what was not handed out is leaked), but valid. A drain
            // that already reported its end may have given the remaining elements back.
            let ended = n < steps.unwrap_or(usize::MAX);
            self.ctx.count("drains_leaked", 1);
            if !ended || self.sut.size() == 0 {
                self.model.clear();
                self.total.set(None);
                self.payload.clear();
                self.live_dirty = true;
                self.only_inserted = true;
            }
        }
        self.check_size("drain");
        n
    }
    fn short(&self, q: &Query) -> String {
        let d = self.d();
        match q {
            Query::All => "all".into(),
            Query::InEnv(q) if q.empty => "in empty box".into(),
            Query::Inter(q) if q.empty => "intersecting empty box".into(),
            Query::InEnv(q) => format!("in {:?}..{:?}", &q.lo[..d], &q.hi[..d]),
            Query::Inter(q) => format!("intersecting {:?}..{:?}", &q.lo[..d], &q.hi[..d]),
            Query::At(p) => format!("at {:?}", &p[..d]),
            Query::Within(p, r) => format!("within squared distance {} of {:?}", fx(*r), &p[..d]),
        }
    }
    /// Continue with a clone, or with the original after changing the clone
    pub fn clone_swap(&mut self) {
        let c = self.sut.clone_box();
        self.ops += 1;
        self.ctx.count("clones", 1);
        if self.ctx.rng.bit() {
            self.ctx.note("continue with a clone".into());
            self.sut = c;
        } else {
            self.ctx.note("clone, drop the clone".into());
            drop(c);
        }
        self.check_size("clone");
    }
    /// into_iter and bulk load again
    pub fn rebuild(&mut self) {
        self.ctx.note("consume the tree and bulk load its elements again".into());
        let empty = self.sut.fresh(&[], false);
        let old = std::mem::replace(&mut self.sut, empty);
        let n = self.len();
        let keys = old.into_elements(2 * n + 64);
        self.compare("into_iter", keys.clone(), self.all());
        let specs: Vec<Spec> = keys.iter().map(|k| self.spec(*k)).collect();
        self.sut = self.sut.fresh(&specs, true);
        // Rebuilt elements start with fresh data
        for p in self.payload.values_mut() {
            *p = 0;
        }
        self.only_inserted = false;
        self.ops += 1;
        self.ctx.count("rebuilds", 1);
        self.check_size("rebuilding");
    }
    pub fn edit(&mut self) {
        if !self.meta.mutable {
            return;
        }
        let q = match self.ctx.rng.below(4) {
            0 => Query::All,
            _ => self.box_query(),
        };
        let form = if self.ctx.rng.bit() { Form::IterMut } else { Form::IntMut };
        let stop = self.ctx.rng.bit().then(|| 1 + self.ctx.rng.below(5));
        self.edit_with(&q, form, stop);
    }
    pub fn edit_with(&mut self, q: &Query, form: Form, stop: Option<usize>) {
        let add = 1 + self.ctx.rng.below(1000) as u32;
        let m = self.matching(q);
        let Some(keys) = self.sut.edit(q, form, stop, add) else { return };
        self.ctx.note(format!("add {} to the data of elements {} through {:?}, stopping after {:?}: {} reached", add, self.short(q), form, stop, keys.len()));
        let expect = stop.unwrap_or(usize::MAX).min(m.len());
        ensure!(keys.len() == expect, "mutable query {} ({:?}) reached {} elements instead of {}", self.short(q), form, keys.len(), expect);
        self.subset(&format!("mutable query {} ({:?})", self.short(q), form), &keys, &m);
        for k in keys {
            *self.payload.get_mut(&k).unwrap() += add;
            self.ctx.count("edited_elements", 1);
        }
        self.ops += 1;
        self.ctx.count("edits", 1);
        self.check_size("mutable access");
    }
    /// k random operations
    pub fn churn(&mut self, k: usize, mix: &Mix, target: usize, each: &mut dyn FnMut(&mut World)) {
        let (d, e) = (self.d(), self.e());
        let mut pool: Vec<Spec> = vec![];
        for _ in 0..k {
            let n = self.len();
            // Grow below the target size, shrink above
            let ins = if n < target / 2 {
                mix.insert * 3
            } else if n > target + target / 2 {
                mix.insert / 3
            } else {
                mix.insert
            };
            let op = self.ctx.rng.weighted(&[
                ins.max(1),
                mix.remove,
                mix.remove_absent,
                mix.remove_at,
                mix.pop_nn,
                mix.remove_sel,
                mix.drain,
                mix.clone,
                mix.rebuild,
                mix.edit,
                mix.leak,
            ]);
            match op {
                0 => {
                    if pool.is_empty() {
                        if self.ctx.rng.chance(1, 4) {
                            self.pattern = self.ctx.rng.below(gen::PATTERNS.len());
                        }
                        pool = self.gen(24);
                        pool.reverse();
                    }
                    // Sometimes an exact duplicate of a stored element
                    if self.ctx.rng.chance(1, 10) {
                        if let Some(s) = self.random_live() {
                            let s = self.reg.borrow_mut().add(s, self.meta.tagged);
                            self.insert(&s);
                        }
                    } else {
                        let s = pool.pop().unwrap();
                        self.insert(&s);
                    }
                }
                1 => {
                    if let Some(s) = self.random_live() {
                        self.remove(&s);
                    }
                }
                2 => {
                    let s = self.near_miss();
                    self.remove(&s);
                }
                3 => {
                    let p = self.point();
                    self.remove_at(&p);
                }
                4 => {
                    let p = self.point();
                    self.pop_nn(&p);
                }
                5 => {
                    let s = self.coherent_sel();
                    self.remove_sel(&s);
                }
                6 | 10 => {
                    let q = self.drain_query();
                    let steps = match self.ctx.rng.below(4) {
                        0 => None,
                        1 => Some(0),
                        2 => Some(1 + self.ctx.rng.below(4)),
                        _ => Some(self.ctx.rng.below(n + 1)),
                    };
                    let end = if op == 10 { End::Forget } else { End::Drop };
                    self.drain(&q, steps, end);
                }
                7 => self.clone_swap(),
                8 => self.rebuild(),
                _ => self.edit(),
            }
            each(self);
        }
        let _ = (d, e);
    }

    // ---- queries ----------------------------------------------------------------------------

    pub fn point(&mut self) -> V {
        let (d, e) = (self.d(), self.e());
        self.refresh();
        gen::qpoint(&mut self.ctx.rng, d, e, &self.live)
    }
    pub fn within_query(&mut self) -> Query {
        let (d, e) = (self.d(), self.e());
        let p = self.point();
        // Any squared distance that can occur is representable
        let limit = 4 * d as i128 * e as i128 * e as i128;
        let mut r = gen::radius2(&mut self.ctx.rng, d, e, &self.live, &p, limit);
        if !self.meta.float && r != D2_INF {
            r = (r >> FRAC) << FRAC;
        }
        Query::Within(p, r)
    }
    pub fn box_query(&mut self) -> Query {
        let q = self.qbox();
        if self.ctx.rng.bit() {
            Query::InEnv(q)
        } else {
            Query::Inter(q)
        }
    }
    pub fn qbox(&mut self) -> QBox {
        let (d, e) = (self.d(), self.e());
        self.refresh();
        let mut q = gen::qbox(&mut self.ctx.rng, d, e, &self.live);
        if self.ctx.rng.chance(1, 8) && self.sut.size() > 0 && !self.model.is_empty() {
            // The box of some node
            let mut n = self.sut.dump();
            loop {
                let (lo, hi) = (n.lo, n.hi);
                q.lo = lo;
                q.hi = hi;
                q.empty = false;
                let kids: Vec<Dump> = n
                    .children
                    .into_iter()
                    .filter_map(|c| match c {
                        DumpChild::Node(n) => Some(n),
                        _ => None,
                    })
                    .collect();
                if kids.is_empty() || self.ctx.rng.chance(1, 3) {
                    break;
                }
                n = self.ctx.rng.pick(&kids).clone();
            }
        }
        q
    }
    pub fn all(&self) -> Vec<u32> {
        let mut v = vec![];
        for (k, c) in &self.model {
            v.extend(std::iter::repeat_n(*k, *c));
        }
        v
    }
    /// What a query has to return, sorted
    pub fn matching(&self, q: &Query) -> Vec<u32> {
        let d = self.d();
        let reg = self.reg.borrow();
        let mut v = vec![];
        for (k, c) in &self.model {
            let s = &reg.specs[*k as usize];
            let m = match q {
                Query::All => true,
                Query::InEnv(q) => s.inside(d, q),
                Query::Inter(q) => s.intersects(d, q),
                Query::At(p) => s.contains(d, p),
                Query::Within(p, r) => s.dist2(d, p) <= *r,
            };
            if m {
                v.extend(std::iter::repeat_n(*k, *c));
            }
        }
        v
    }
    /// Minimal squared distance and everything at it
    pub fn nearest(&self, p: &V) -> Option<(D2, Vec<u32>)> {
        let d = self.d();
        let reg = self.reg.borrow();
        let mut best: Option<(D2, Vec<u32>)> = None;
        for (k, c) in &self.model {
            let x = reg.specs[*k as usize].dist2(d, p);
            match &mut best {
                Some((b, v)) if *b == x => v.extend(std::iter::repeat_n(*k, *c)),
                Some((b, _)) if *b < x => {}
                _ => best = Some((x, vec![*k; *c])),
            }
        }
        best
    }
    /// got (any order) is a sub-multiset of expect (sorted)
    pub fn subset(&self, what: &str, got: &[u32], expect: &[u32]) {
        let got = sorted(got.to_vec());
        let mut i = 0;
        for k in &got {
            while i < expect.len() && expect[i] < *k {
                i += 1;
            }
            if i < expect.len() && expect[i] == *k {
                i += 1;
            } else {
                let d = self.d();
                let s = self.spec(*k);
                viol!("{}: returned #{} ({:?}..{:?}) wrongly or too often", what, k, &s.lo[..d], &s.hi[..d]);
            }
        }
    }
    /// Two multisets are the same
    pub fn compare(&self, what: &str, got: Vec<u32>, expect: Vec<u32>) {
        let got = sorted(got);
        if got == expect {
            return;
        }
        self.subset(what, &got, &expect);
        // Something is missing
        let mut i = 0;
        for k in &expect {
            if i < got.len() && got[i] == *k {
                i += 1;
            } else {
                let d = self.d();
                let s = self.spec(*k);
                viol!(
                    "{}: #{} ({:?}..{:?}) is missing; {} results instead of {}",
                    what,
                    k,
                    &s.lo[..d],
                    &s.hi[..d],
                    got.len(),
                    expect.len()
                );
            }
        }
    }
    /// Iterators count, end and skip like they iterate
    pub fn check_tallies(&mut self, q: &TallyQ) {
        let n = match q {
            TallyQ::Q(q) => self.matching(q).len(),
            TallyQ::Nearest(_) => self.len(),
        };
        let k = self.ctx.rng.below(n + 2);
        for (i, t) in self.sut.tallies(q, k).into_iter().enumerate() {
            ensure!(t == (n, n > 0, k < n), "{:?}: iterator {} over {} elements counts, ends or skips {} like {:?}", q, i, n, k, t);
            self.ctx.count("iterator_tallies", 1);
        }
    }
    /// A query through one form, possibly stopped early, against the model
    pub fn check_query(&mut self, q: &Query, form: Form, stop: Option<usize>) -> bool {
        let m = self.matching(q);
        let Some(r) = self.sut.locate(q, form, stop) else { return false };
        let what = format!("query {} ({:?}{})", self.short(q), form, stop.map_or(String::new(), |s| format!(", stopped after {s}")));
        match stop {
            Some(k) if k < m.len() || (form == Form::Int || form == Form::IntMut) && k <= m.len() => {
                self.subset(&what, &r.keys, &m);
                ensure!(r.keys.len() == k, "{}: {} results", what, r.keys.len());
                if form == Form::Int || form == Form::IntMut {
                    ensure!(r.calls_after_break == 0, "{}: the visitor was called again after it stopped", what);
                    ensure!(r.broke_with == Some(0xb0b0_0000 + k as u64), "{}: returned {:?}, not the value of the visitor", what, r.broke_with);
                    self.ctx.count("visitor_stops", 1);
                }
            }
            _ => {
                ensure!(r.broke_with.is_none(), "{}: claims the visitor stopped, but it did not", what);
                self.compare(&what, r.keys, m.clone());
            }
        }
        self.ctx.evals += 1;
        self.ctx.count("queries", 1);
        self.ctx.count("query_results", m.len() as u64);
        if m.is_empty() {
            self.ctx.count("queries_without_match", 1);
        } else if m.len() < self.len() {
            self.ctx.count("queries_selective", 1);
        }
        true
    }
    pub fn check_all_forms(&mut self, q: &Query) {
        for f in FORMS {
            self.check_query(q, f, None);
        }
        if self.ctx.rng.below(8) == 0 {
            self.check_tallies(&TallyQ::Q(q.clone()));
        }
    }
    pub fn check_at_point(&mut self, p: &V) {
        let d = self.d();
        let q = Query::At(*p);
        self.check_all_forms(&q);
        let m = self.matching(&q);
        for f in FORMS {
            let got = self.sut.at_point_one(p, f);
            match got {
                Some(k) => self.subset(&format!("locate_at_point({:?}) ({:?})", &p[..d], f), &[k], &m),
                None => ensure!(m.is_empty(), "locate_at_point({:?}) ({:?}) found nothing although {:?} contain the point", &p[..d], f, m),
            }
        }
        self.ctx.count(if m.is_empty() { "point_misses" } else { "point_hits" }, 1);
        if m.len() > 1 {
            self.ctx.count("points_in_several_elements", 1);
        }
    }
    pub fn check_contains(&mut self, s: &Spec) {
        let e = self.any_equal(s);
        let got = self.sut.contains(s);
        let d = self.d();
        ensure!(got == e, "contains({:?}..{:?} class {}) is {} but has to be {}", &s.lo[..d], &s.hi[..d], s.class, got, e);
        self.ctx.evals += 1;
        self.ctx.count(if e { "contains_true" } else { "contains_false" }, 1);
    }
    pub fn check_nn(&mut self, p: &V) {
        let d = self.d();
        let expect = self.nearest(p);
        let at = format!("{:?}", &p[..d]);
        for w in [false, true] {
            let one = self.sut.nn(p, w);
            let all = self.sut.nns(p, w);
            match &expect {
                None => {
                    ensure!(one.is_none(), "nearest_neighbor on an empty tree returned {:?}", one);
                    ensure!(all.is_none(), "nearest_neighbors on an empty tree returned {:?}", all);
                }
                Some((min, ties)) => {
                    let Some((k, dist)) = one else {
                        viol!("nearest_neighbor({}) returned nothing on a tree of {} elements", at, self.len())
                    };
                    let x = self.spec(k).dist2(d, p);
                    ensure!(x == *min, "nearest_neighbor({}) returned #{} at squared distance {}, but the minimum is {} (#{})", at, k, fx(x), fx(*min), ties[0]);
                    self.subset(&format!("nearest_neighbor({at})"), &[k], ties);
                    ensure!(!w || dist == Some(*min), "nearest_neighbor_with_distance_2({}) reports squared distance {} instead of {}", at, fx(dist.unwrap()), fx(*min));
                    let Some((keys, dist)) = all else {
                        viol!("nearest_neighbors({}) returned nothing on a tree of {} elements", at, self.len())
                    };
                    self.compare(&format!("nearest_neighbors({at})"), keys, ties.clone());
                    ensure!(!w || dist == Some(*min), "nearest_neighbors_with_distance_2({}) reports squared distance {} instead of {}", at, fx(dist.unwrap()), fx(*min));
                    self.ctx.count("nn_queries", 1);
                    if ties.len() > 1 {
                        self.ctx.count("nn_queries_with_ties", 1);
                    }
                    self.ctx.max("nn_ties", ties.len() as u64);
                }
            }
        }
        self.ctx.evals += 1;
    }
    pub fn check_nn_iter(&mut self, p: &V, form: u8, prefix: Option<usize>) {
        let d = self.d();
        let n = self.len();
        let what = format!("nearest neighbor iteration (form {}) from {:?}", form, &p[..d]);
        let limit = prefix.unwrap_or(usize::MAX);
        let got = self.sut.nn_iter(p, form, limit);
        let mut dists: Vec<D2> = {
            let reg = self.reg.borrow();
            let mut v = vec![];
            for (k, c) in &self.model {
                let x = reg.specs[*k as usize].dist2(d, p);
                v.extend(std::iter::repeat_n(x, *c));
            }
            v
        };
        dists.sort_unstable();
        ensure!(got.len() == n.min(limit), "{}: yielded {} elements instead of {}", what, got.len(), n.min(limit));
        for (i, (k, dist)) in got.iter().enumerate() {
            let x = self.spec(*k).dist2(d, p);
            ensure!(x == dists[i], "{}: item {} is #{} at squared distance {}, but the {}-th smallest is {}", what, i, k, fx(x), i, fx(dists[i]));
            if let Some(y) = dist {
                ensure!(*y == x, "{}: item {} (#{}) reported at squared distance {} instead of {}", what, i, k, fx(*y), fx(x));
            }
        }
        let keys: Vec<u32> = got.iter().map(|g| g.0).collect();
        if n <= limit {
            self.compare(&what, keys, self.all());
        } else {
            self.subset(&what, &keys, &self.all());
        }
        if self.ctx.rng.below(8) == 0 {
            self.check_tallies(&TallyQ::Nearest(*p));
        }
        self.ctx.evals += 1;
        self.ctx.count("nn_iterations", 1);
        self.ctx.count("nn_items", got.len() as u64);
    }
    /// Contents through every way of enumerating them
    pub fn check_contents(&mut self) {
        let all = self.all();
        for f in CONTENTS {
            let got = self.sut.contents(f);
            self.compare(&format!("{f:?}"), got, all.clone());
        }
        if self.ctx.rng.below(8) == 0 {
            self.check_tallies(&TallyQ::Q(Query::All));
        }
        let c = self.sut.clone_box();
        let got = c.into_elements(2 * all.len() + 64);
        self.compare("into_iter of a clone", got, all.clone());
        if self.meta.tagged {
            let text = self.sut.debug_text();
            let mut ids = vec![];
            let mut parts = text.split('#').skip(1).step_by(2);
            for p in &mut parts {
                ids.push(p.parse::<u32>().unwrap_or(u32::MAX));
            }
            ensure!(sorted(ids.clone()) == all, "the debug output lists {} elements instead of {}", ids.len(), all.len());
            ensure!(text.contains(&format!("size: {}", all.len())), "the debug output does not report size {}", all.len());
        }
        self.check_size("enumeration");
        self.ctx.evals += 1;
        self.ctx.count("contents_checks", 1);
    }
    pub fn check_payloads(&mut self) {
        if !self.meta.mutable {
            return;
        }
        let got: BTreeMap<u32, u32> = self.sut.payloads().into_iter().collect();
        for (k, v) in &self.payload {
            ensure!(got.get(k) == Some(v), "the data of #{} is {:?} instead of {}", k, got.get(k), v);
        }
        self.ctx.count("payload_checks", 1);
    }
    /// The node structure; returns it for size checks and fingerprints
    pub fn check_structure(&mut self) -> Structure {
        let dump = self.sut.dump();
        let st = {
            let reg = self.reg.borrow();
            structure(&dump, self.d(), &reg)
        };
        self.ctx.evals += 1;
        self.ctx.count("structure_checks", 1);
        self.ctx.count("nodes_checked", st.nodes as u64);
        self.ctx.max("max_height", st.height as u64);
        self.ctx.max("max_elements", st.elements as u64);
        self.ctx.distinct("tree_shapes", st.hash);
        st
    }
    /// Register this case as non-trivial
    pub fn fingerprint(&mut self) {
        let dump = self.sut.dump();
        let st = {
            let reg = self.reg.borrow();
            shape(&dump, self.d(), &reg)
        };
        self.ctx.max("max_height", st.height as u64);
        self.ctx.max("max_elements", st.elements as u64);
        self.ctx.distinct("tree_shapes", st.hash);
        if st.height >= 2 {
            self.ctx.fingerprints.push(combine(st.content, self.ctx.seed));
        }
        self.ctx.sample = format!("{} height={}", self.describe(), st.height);
    }
}

pub fn fx(d: D2) -> String {
    if d == D2_INF {
        return "unlimited".into();
    }
    format!("{}", d as f64 / (1u64 << FRAC) as f64)
}

#[derive(Clone, Debug, Default)]
pub struct Structure {
    pub height: usize,
    pub nodes: usize,
    pub elements: usize,
    pub hash: u64,
    pub content: u64,
    /// (depth, number of children, holds elements)
    pub sizes: Vec<(usize, usize, bool)>,
    pub leaf_depths: Vec<usize>,
    pub problems: Vec<String>,
}

fn walk(n: &Dump, d: usize, reg: &Registry, depth: usize, st: &mut Structure, is_root: bool) -> (V, V) {
    st.nodes += 1;
    st.height = st.height.max(depth + 1);
    let (mut lo, mut hi) = ([0; MAXD], [0; MAXD]);
    for i in 0..d {
        lo[i] = POS;
        hi[i] = NEG;
    }
    let (mut leaves, mut nodes) = (0, 0);
    st.hash = combine(st.hash, 0x1000 + n.children.len() as u64);
    for c in &n.children {
        let (l, h) = match c {
            DumpChild::Leaf(k) => {
                leaves += 1;
                st.elements += 1;
                if st.leaf_depths.last() != Some(&depth) {
                    st.leaf_depths.push(depth);
                }
                let s = &reg.specs[*k as usize];
                st.content = combine(st.content, *k as u64);
                for i in 0..d {
                    st.content = combine(st.content, s.lo[i] as u64);
                }
                (s.lo, s.hi)
            }
            DumpChild::Node(m) => {
                nodes += 1;
                walk(m, d, reg, depth + 1, st, false)
            }
        };
        for i in 0..d {
            lo[i] = lo[i].min(l[i]);
            hi[i] = hi[i].max(h[i]);
        }
    }
    st.hash = combine(st.hash, 0x2000 + leaves as u64);
    st.sizes.push((depth, n.children.len(), leaves > 0));
    if leaves > 0 && nodes > 0 {
        st.problems.push(format!("a node at depth {depth} holds {leaves} elements and {nodes} nodes"));
    }
    if n.children.is_empty() && !is_root {
        st.problems.push(format!("an empty node at depth {depth}"));
    }
    if (lo, hi) != (n.lo, n.hi) {
        st.problems.push(format!(
            "a node at depth {depth} reports the box {:?}..{:?}, but the smallest box around what is below it is {:?}..{:?}",
            &n.lo[..d], &n.hi[..d], &lo[..d], &hi[..d]
        ));
    }
    (lo, hi)
}

/// Structure without judging it
pub fn shape(n: &Dump, d: usize, reg: &Registry) -> Structure {
    let mut st = Structure::default();
    walk(n, d, reg, 0, &mut st, true);
    st
}

/// Structure, reporting whatever is not a well-formed R-tree
pub fn structure(n: &Dump, d: usize, reg: &Registry) -> Structure {
    let mut st = shape(n, d, reg);
    if let Some(p) = st.problems.first() {
        viol!("{}", p);
    }
    st.leaf_depths.sort_unstable();
    st.leaf_depths.dedup();
    ensure!(st.leaf_depths.len() <= 1, "elements lie at different depths {:?}", st.leaf_depths);
    st
}

pub fn pick_n(rng: &mut Rng, max: usize) -> usize {
    match rng.weighted(&[3, 10, 20, 30, 30]) {
        0 => rng.below(3),
        1 => 1 + rng.below(12),
        2 => 7 + rng.below(34),
        3 => 20 + rng.below((max / 3).max(30)),
        _ => (max / 4).max(1) + rng.below(max),
    }
}

impl World<'_> {
    /// The model was changed from outside
    pub fn touch(&mut self) {
        self.total.set(None);
        self.live_dirty = true;
    }
    /// An element was handed out by an operation checked elsewhere
    pub fn forget_element(&mut self, key: u32) {
        let c = self.model.get_mut(&key).expect("harness: not in the model");
        *c -= 1;
        if *c == 0 {
            self.model.remove(&key);
            self.payload.remove(&key);
        }
        self.counted(-1);
        self.live_dirty = true;
    }
}

impl World<'_> {
    /// k rounds of all kinds of read-only queries, judged by the model
    pub fn check_queries(&mut self, k: usize) {
        for _ in 0..k {
            let q = self.qbox();
            self.check_all_forms(&Query::InEnv(q.clone()));
            self.check_all_forms(&Query::Inter(q));
            let p = self.point();
            self.check_at_point(&p);
            self.check_nn(&p);
            let q = self.within_query();
            self.check_query(&q, Form::Iter, None);
            let form = self.ctx.rng.below(3) as u8;
            let prefix = self.ctx.rng.bit().then(|| self.ctx.rng.below(30));
            self.check_nn_iter(&p, form, prefix);
            if let Some(s) = self.random_live() {
                self.check_contains(&s);
            }
            let s = self.near_miss();
            self.check_contains(&s);
            let s = self.coherent_sel();
            let expect = sorted(self.selected(&s));
            let (got, _) = self.sut.select(&s, false);
            self.compare("locate_with_selection_function", got, expect);
        }
    }
}

/// The structure of a tree, disregarding the order of children
pub fn canonical(n: &Dump) -> u64 {
    let mut v: Vec<u64> = n
        .children
        .iter()
        .map(|c| match c {
            DumpChild::Leaf(k) => combine(1, *k as u64),
            DumpChild::Node(m) => combine(2, canonical(m)),
        })
        .collect();
    v.sort_unstable();
    let mut h = v.len() as u64;
    for i in 0..MAXD {
        h = combine(h, combine(n.lo[i] as u64, n.hi[i] as u64));
    }
    for x in v {
        h = combine(h, x);
    }
    h
}
