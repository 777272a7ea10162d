//! Properties over operation histories: C01-C13, C22
mod configs;
use configs::configs;
use harness::ensure;
use harness::gen;
use harness::rng::Rng;
use harness::runner::*;
use harness::spec::*;
use harness::sut::*;
use harness::world::*;

fn pick(ctx: &mut Ctx) -> Cfg {
    let mut v = configs();
    let i = ctx.rng.below(v.len());
    v.swap_remove(i)
}

fn pick_if(ctx: &mut Ctx, f: impl Fn(&Meta) -> bool) -> Cfg {
    let mut v: Vec<Cfg> = configs().into_iter().filter(|c| f(&c.meta)).collect();
    let i = ctx.rng.below(v.len());
    v.swap_remove(i)
}

/// For trees of thousands of elements: one in six with nodes of several hundred children
fn pick_big(ctx: &mut Ctx) -> Cfg {
    if ctx.rng.chance(1, 6) {
        ctx.count("wide_nodes", 1);
        pick_if(ctx, |m| m.max > 256)
    } else {
        pick(ctx)
    }
}

/// A random reachable tree of up to about max elements
fn tree<'c>(ctx: &'c mut Ctx, cfg: &Cfg, max: usize) -> World<'c> {
    let n = pick_n(&mut ctx.rng, max);
    let mut w = World::new(ctx, cfg);
    w.build(n);
    if w.ctx.rng.chance(1, 2) {
        let k = 5 + w.ctx.rng.below(60);
        let mut mix = MIX;
        mix.leak = usize::from(w.ctx.rng.chance(1, 12));
        w.churn(k, &mix, n, &mut |_| {});
    }
    w
}

/// A tree of several thousand elements
fn large<'c>(ctx: &'c mut Ctx, cfg: &Cfg, max: usize) -> World<'c> {
    // With a minimum of one, which of several equally good splits is taken can make chains of nodes
    let max = if cfg.meta.min < 2 { max / 4 } else { max };
    let n = max / 4 + ctx.rng.below(max * 3 / 4);
    let mut w = World::new(ctx, cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    w
}

/// Beyond 65 536 elements
fn huge<'c>(ctx: &'c mut Ctx, cfg: &Cfg) -> World<'c> {
    let n = 65_600 + ctx.rng.below(if ctx.thorough { 200_000 } else { 15_000 });
    let mut w = World::new(ctx, cfg);
    let route = [1, 1, 1, 0, 2][w.ctx.rng.below(5)];
    w.build_by(route, n);
    w.ctx.count("huge_trees", 1);
    w
}
fn c01_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    w.check_contents();
    let v = w.refresh().to_vec();
    for _ in 0..100 {
        let s = v[w.ctx.rng.below(v.len())].clone();
        if w.model.contains_key(&s.key) {
            w.remove(&s);
        }
    }
    let more = w.gen(100);
    for s in &more {
        w.insert(s);
    }
    let q = w.drain_query();
    let steps = w.ctx.rng.below(w.len());
    w.drain(&q, Some(steps), End::Drop);
    w.check_contents();
    w.fingerprint();
    w.ctx.count("histories", 1);
}
fn c02_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    w.check_structure();
    let q = w.drain_query();
    let steps = w.ctx.rng.below(w.len());
    w.drain(&q, Some(steps), End::Drop);
    w.check_structure();
    w.fingerprint();
}
fn c04_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..4 {
        let q = w.qbox();
        w.check_all_forms(&Query::InEnv(q.clone()));
        w.check_all_forms(&Query::Inter(q));
    }
    w.fingerprint();
}
fn c05_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..6 {
        let p = w.point();
        w.check_at_point(&p);
        let s = w.near_miss();
        w.check_contains(&s);
        let s = w.random_live().unwrap();
        w.check_contains(&s);
    }
    w.fingerprint();
}
fn c06_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..6 {
        let q = w.within_query();
        w.check_query(&q, Form::Iter, None);
    }
    w.fingerprint();
}
fn c07_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..8 {
        let p = w.point();
        w.check_nn(&p);
    }
    w.fingerprint();
}
fn c08_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    let p = w.point();
    w.check_nn_iter(&p, 1, None);
    let p = w.point();
    w.check_nn_iter(&p, 0, Some(300));
    w.fingerprint();
}
fn c09_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..6 {
        let p = w.point();
        w.pop_nn(&p);
        let s = w.random_live().unwrap();
        w.remove_at(&s.lo);
        let s = w.random_live().unwrap();
        w.remove(&s);
        w.ctx.evals += 3;
    }
    w.check_contents();
    w.fingerprint();
}
fn c10_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = huge(ctx, &cfg);
    for _ in 0..2 {
        let q = w.drain_query();
        let steps = w.ctx.rng.bit().then(|| w.ctx.rng.below(w.len() + 1));
        w.drain(&q, steps, End::Drop);
        after_drain(&mut w);
        w.ctx.evals += 1;
    }
    w.check_contents();
    w.fingerprint();
}
fn c12_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    if ctx.rng.bit() {
        let w = huge(ctx, &cfg);
        c12_joins(w, 2, |r| pick_n(r, 100));
    } else {
        // Few elements against very many
        let w = tree(ctx, &cfg, 60);
        w.ctx.count("huge_trees", 1);
        c12_joins(w, 1, |r| 65_600 + r.below(10_000));
    }
}
fn c13_huge(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let w = huge(ctx, &cfg);
    c13_selections(w, 2, 1);
}
fn c22_huge(ctx: &mut Ctx) {
    let cfg = pick_if(ctx, |m| m.mutable);
    let w = huge(ctx, &cfg);
    c22_edits(w, 2);
}

// ---- C01 ---------------------------------------------------------------------------------------

fn c01_history(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let long = ctx.index % 8 == 0;
    let mut w = World::new(ctx, &cfg);
    let target = pick_n(&mut w.ctx.rng, if long { 600 } else { 120 });
    w.build(target);
    w.check_contents();
    let k = if long { 400 } else { 120 };
    let mut mix = MIX;
    match w.ctx.rng.below(4) {
        0 => mix.drain = 25,
        1 => {
            mix.clone = 8;
            mix.rebuild = 4;
        }
        2 => mix.leak = 1,
        _ => {}
    }
    let every = if long { 40 } else { 10 };
    let mut i = 0;
    w.churn(k, &mix, target, &mut |w| {
        i += 1;
        if i % every == 0 {
            w.check_contents();
        }
    });
    w.check_contents();
    w.check_payloads();
    w.fingerprint();
    w.ctx.count("histories", 1);
    // Empty it in one of several ways
    match w.ctx.rng.below(4) {
        0 => {
            w.drain(&DrainQ::Q(Query::All), None, End::Drop);
        }
        1 => {
            while w.len() > 0 {
                let p = w.point();
                w.pop_nn(&p);
            }
        }
        2 => {
            let mut v = w.refresh().to_vec();
            w.ctx.rng.shuffle(&mut v);
            for s in v {
                while w.any_equal(&s) {
                    w.remove(&s);
                }
            }
        }
        _ => {}
    }
    w.check_contents();
    if w.ctx.rng.bit() {
        let v = w.gen(40);
        for s in &v {
            w.insert(s);
        }
        w.check_contents();
    }
}

/// One large tree, every element removed or consumed again
fn c01_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 20_000 } else { 3_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(8);
    w.build_by(route, n);
    w.check_contents();
    let mut v = w.refresh().to_vec();
    w.ctx.rng.shuffle(&mut v);
    v.truncate(n / 8);
    for s in v {
        w.remove(&s);
    }
    w.check_contents();
    let q = w.drain_query();
    let steps = w.ctx.rng.below(n);
    w.drain(&q, Some(steps), End::Drop);
    w.check_contents();
    w.fingerprint();
    w.ctx.count("histories", 1);
}

/// Owning iterator dropped half way
fn c01_consume(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let w = tree(ctx, &cfg, 300);
    let n = w.len();
    let all = w.all();
    let k = w.ctx.rng.below(n + 2);
    let c = w.sut.clone_box();
    let got = c.into_elements(k);
    ensure!(got.len() == k.min(n), "into_iter yielded {} elements instead of {}", got.len(), k.min(n));
    w.subset("into_iter", &got, &all);
    let mut w = w;
    w.check_contents();
    w.fingerprint();
    w.ctx.count("histories", 1);
}

// ---- C02 ---------------------------------------------------------------------------------------

fn c02_history(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = World::new(ctx, &cfg);
    let target = pick_n(&mut w.ctx.rng, 150);
    w.check_structure();
    w.build(target);
    w.check_structure();
    let mut mix = MIX;
    match w.ctx.rng.below(3) {
        0 => mix.drain = 30,
        1 => mix.leak = 2,
        _ => {}
    }
    w.churn(120, &mix, target, &mut |w| {
        w.check_structure();
    });
    w.fingerprint();
}

/// Thousands of elements, updates one by one
fn c02_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let mut w = large(ctx, &cfg, 4_000);
    w.check_structure();
    let n = w.len();
    w.churn(60, &MIX, n, &mut |w| {
        w.check_structure();
    });
    w.fingerprint();
}

/// Structure after every single insertion on top of every construction
fn c02_grow(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = World::new(ctx, &cfg);
    let n = w.ctx.rng.below(260);
    let v = w.gen(n);
    let k = match w.ctx.rng.below(3) {
        0 => 0,
        _ => w.ctx.rng.below(n + 1),
    };
    w.bulk(&v[..k]);
    w.check_structure();
    for s in &v[k..] {
        w.insert(s);
        w.check_structure();
    }
    w.fingerprint();
}

/// All bulk load sizes around the places where the shape changes
fn c02_bulk(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = World::new(ctx, &cfg);
    let n = bulk_size(&mut w);
    let v = w.gen(n);
    w.bulk(&v);
    w.check_structure();
    // A few updates have to work on it
    for _ in 0..6 {
        let s = w.gen(1);
        w.insert(&s[0]);
    }
    w.check_structure();
    for _ in 0..6 {
        if let Some(s) = w.random_live() {
            w.remove(&s);
        }
    }
    w.check_structure();
    w.fingerprint();
}

fn bulk_size(w: &mut World) -> usize {
    let m = w.meta.max;
    let cap = if w.ctx.thorough { 40_000 } else { 4_000 };
    let n = match w.ctx.rng.below(4) {
        0 => {
            // Near powers of the maximum size
            let mut p = m;
            while p * m < cap && w.ctx.rng.chance(2, 3) {
                p *= m;
            }
            let k = w.ctx.rng.below(m);
            (p * (1 + k)).saturating_add_signed(w.ctx.rng.range(-3, 3) as isize)
        }
        1 => w.ctx.rng.below(200),
        2 => w.ctx.rng.below(1500),
        _ => w.ctx.rng.below(cap / 4),
    };
    n.min(cap)
}

// ---- C03 ---------------------------------------------------------------------------------------

fn check_sizes_inserted(w: &mut World) {
    let st = w.check_structure();
    let (min, max) = (w.meta.min, w.meta.max);
    for (depth, n, leafy) in &st.sizes {
        ensure!(*n <= max, "a node at depth {} has {} children, more than the maximum {}", depth, n, max);
        if *depth > 0 {
            ensure!(*n >= min, "a node at depth {} has {} children, less than the minimum {}", depth, n, min);
        } else if !leafy && st.elements > 0 {
            ensure!(*n >= 2, "the root has {} child nodes", n);
        }
    }
    w.ctx.count("size_checks_inserted", 1);
    w.ctx.max("height_inserted", st.height as u64);
}

fn c03_insert(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = World::new(ctx, &cfg);
    let n = 30 + w.ctx.rng.below(250) + w.meta.max * 3;
    let mut v = w.gen(n);
    if w.ctx.rng.chance(1, 3) {
        w.pattern = w.ctx.rng.below(gen::PATTERNS.len());
        let more = w.gen(n / 2);
        v.extend(more);
    }
    for (i, s) in v.iter().enumerate() {
        w.insert(s);
        if i % 3 == 0 || i < 60 {
            check_sizes_inserted(&mut w);
        }
    }
    check_sizes_inserted(&mut w);
    w.fingerprint();
}

fn c03_insert_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 4_000 };
    let mut w = World::new(ctx, &cfg);
    let v = w.gen(n);
    for (i, s) in v.iter().enumerate() {
        w.insert(s);
        if i % (n / 20) == 0 {
            check_sizes_inserted(&mut w);
        }
    }
    check_sizes_inserted(&mut w);
    w.fingerprint();
}

fn c03_bulk(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = World::new(ctx, &cfg);
    let n = bulk_size(&mut w);
    let v = w.gen(n);
    w.bulk(&v);
    let st = w.check_structure();
    let max = w.meta.max;
    let all_levels = (1usize << w.d()) <= max;
    for (depth, k, leafy) in &st.sizes {
        if *leafy || all_levels {
            ensure!(*k <= max, "bulk loading {} elements made a node at depth {} with {} children, more than the maximum {}", n, depth, k, max);
        }
    }
    w.ctx.count("size_checks_bulk", 1);
    w.ctx.max("height_bulk", st.height as u64);
    w.fingerprint();
}

// ---- C04, C05, C06 -----------------------------------------------------------------------------

fn c04(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 250);
    for _ in 0..40 {
        let q = w.qbox();
        w.check_all_forms(&Query::InEnv(q.clone()));
        w.check_all_forms(&Query::Inter(q));
    }
    w.fingerprint();
}

fn c04_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 5_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(3);
    w.build_by(route, n);
    for _ in 0..30 {
        let q = w.qbox();
        w.check_all_forms(&Query::InEnv(q.clone()));
        w.check_all_forms(&Query::Inter(q));
    }
    w.fingerprint();
}

fn c05(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 250);
    for _ in 0..40 {
        let p = w.point();
        w.check_at_point(&p);
        if let Some(s) = w.random_live() {
            w.check_contains(&s);
        }
        let s = w.near_miss();
        w.check_contains(&s);
    }
    w.fingerprint();
}

fn c05_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 5_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    for _ in 0..40 {
        let p = w.point();
        w.check_at_point(&p);
    }
    let v = w.refresh().to_vec();
    for s in &v {
        if w.ctx.rng.chance(1, 20) {
            w.check_contains(s);
        } else {
            ensure!(w.sut.contains(s), "contains(#{}) is false for a stored element", s.id);
            w.ctx.count("contains_true", 1);
        }
    }
    w.fingerprint();
}

fn c06(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 250);
    for _ in 0..60 {
        let q = w.within_query();
        w.check_query(&q, Form::Iter, None);
        if w.ctx.rng.chance(1, 6) {
            // Draining by distance selects the same
            let keep = w.sut.clone_box();
            let (model, payload) = (w.model.clone(), w.payload.clone());
            w.drain(&DrainQ::Q(q), None, End::Drop);
            w.sut = keep;
            w.model = model;
            w.payload = payload;
            w.live.clear();
            w.touch();
        }
    }
    w.fingerprint();
}

fn c06_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 5_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    for _ in 0..40 {
        let q = w.within_query();
        w.check_query(&q, Form::Iter, None);
    }
    w.fingerprint();
}

// ---- C07, C08 ----------------------------------------------------------------------------------

fn c07(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 300);
    for _ in 0..60 {
        let p = w.point();
        w.check_nn(&p);
    }
    w.fingerprint();
}

fn c07_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 5_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    for _ in 0..60 {
        let p = w.point();
        w.check_nn(&p);
    }
    w.fingerprint();
}

fn c08(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 300);
    for _ in 0..25 {
        let p = w.point();
        for form in 0..3 {
            w.check_nn_iter(&p, form, None);
            let k = w.ctx.rng.below(w.len() + 2);
            w.check_nn_iter(&p, form, Some(k));
        }
    }
    w.fingerprint();
}

fn c08_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 30_000 } else { 5_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    for _ in 0..4 {
        let p = w.point();
        w.check_nn_iter(&p, 1, None);
        let k = w.ctx.rng.below(200);
        w.check_nn_iter(&p, 0, Some(k));
    }
    w.fingerprint();
}

// ---- C09, C10 ----------------------------------------------------------------------------------

const REMOVALS: Mix = Mix {
    insert: 12,
    remove: 20,
    remove_absent: 12,
    remove_at: 16,
    pop_nn: 14,
    remove_sel: 14,
    drain: 0,
    clone: 0,
    rebuild: 0,
    edit: 2,
    leak: 0,
};

fn c09(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 150);
    let target = w.len();
    let mut i = 0;
    w.churn(150, &REMOVALS, target, &mut |w| {
        i += 1;
        if i % 5 == 0 {
            let got = w.sut.contents(Contents::Nodes);
            w.compare("contents after a removal", got, w.all());
        }
    });
    w.check_contents();
    w.fingerprint();
    w.ctx.evals += 150;
}

/// Many equal elements: each removal takes exactly one of them
fn c09_duplicates(ctx: &mut Ctx) {
    let cfg = pick_if(ctx, |m| m.tagged);
    let mut w = World::new(ctx, &cfg);
    w.pattern = *w.ctx.rng.pick(&[1usize, 5, 11]);
    let n = 20 + w.ctx.rng.below(150);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    let mut v = w.refresh().to_vec();
    w.ctx.rng.shuffle(&mut v);
    for s in v {
        match w.ctx.rng.below(4) {
            0 => w.remove_at(&s.lo),
            1 => {
                let p = w.point();
                w.pop_nn(&p);
            }
            _ => w.remove(&s),
        }
        if w.ctx.rng.chance(1, 6) {
            let got = w.sut.contents(Contents::Iter);
            w.compare("contents after a removal", got, w.all());
        }
    }
    w.check_contents();
    w.fingerprint();
    w.ctx.evals += n as u64;
}

fn c09_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 10_000 } else { 2_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    let mut v = w.refresh().to_vec();
    w.ctx.rng.shuffle(&mut v);
    for (i, s) in v.iter().enumerate() {
        if i > n / 4 {
            break;
        }
        match i % 4 {
            0 => {
                let p = w.point();
                w.pop_nn(&p);
            }
            1 => w.remove_at(&s.lo),
            _ => w.remove(s),
        }
    }
    w.check_contents();
    w.fingerprint();
    w.ctx.evals += n as u64 / 4;
}

fn c10(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let mut w = tree(ctx, &cfg, 200);
    for _ in 0..14 {
        let n = w.len();
        let q = w.drain_query();
        let steps = match w.ctx.rng.below(5) {
            0 => None,
            1 => Some(w.ctx.rng.below(4)),
            _ => Some(w.ctx.rng.below(n + 1)),
        };
        let leak = w.ctx.rng.chance(1, 12);
        w.drain(&q, steps, if leak { End::Forget } else { End::Drop });
        after_drain(&mut w);
        w.ctx.evals += 1;
        // Put something back
        let k = if w.len() < 10 { 20 + w.ctx.rng.below(60) } else { w.ctx.rng.below(20) };
        let v = w.gen(k);
        for s in &v {
            w.insert(s);
        }
    }
    w.check_contents();
    w.fingerprint();
}

fn after_drain(w: &mut World) {
    let got = w.sut.contents(Contents::Nodes);
    w.compare("contents after a drain", got, w.all());
    w.check_structure();
    let q = w.box_query();
    w.check_query(&q, Form::Iter, None);
    let p = w.point();
    w.check_nn(&p);
    if let Some(s) = w.random_live() {
        w.check_contains(&s);
    }
}

/// The same drain of the same tree at every possible cut point
fn c10_cuts(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let n = 5 + ctx.rng.below(90);
    let mut w = World::new(ctx, &cfg);
    w.build(n);
    let q = w.drain_query();
    let selected = match &q {
        DrainQ::Q(q) => w.matching(q).len(),
        DrainQ::Sel(s) => w.selected(s).len(),
    };
    let keep = w.sut.clone_box();
    let (model, payload) = (w.model.clone(), w.payload.clone());
    for cut in 0..=selected + 1 {
        w.drain(&q, Some(cut), End::Drop);
        after_drain(&mut w);
        w.ctx.evals += 1;
        w.sut = keep.clone_box();
        w.model = model.clone();
        w.payload = payload.clone();
        w.touch();
    }
    w.fingerprint();
}

fn c10_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let n = if ctx.thorough { 20_000 } else { 3_000 };
    let mut w = World::new(ctx, &cfg);
    let route = w.ctx.rng.below(4);
    w.build_by(route, n);
    for _ in 0..6 {
        let q = w.drain_query();
        let steps = w.ctx.rng.below(w.len() + 1);
        w.drain(&q, Some(steps), End::Drop);
        after_drain(&mut w);
        w.ctx.evals += 1;
    }
    w.check_contents();
    w.fingerprint();
}

// ---- C11 ---------------------------------------------------------------------------------------

/// Trees with the same contents by different routes answer alike
fn c11(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let (ctx_index, big) = (ctx.index, ctx.index % 10 == 0);
    // Other legal parameters, point types or wrappers over the same coordinates
    let peers: Vec<Cfg> = configs().into_iter().filter(|c| c.meta.name != cfg.meta.name && c.meta.peer(&cfg.meta)).collect();
    let mut w = World::new(ctx, &cfg);
    w.meta.span = peers.iter().map(|c| c.meta.span).fold(w.meta.span, i64::min);
    let n = pick_n(&mut w.ctx.rng, if ctx_index % 200 == 0 { 6000 } else if big { 1500 } else { 250 });
    let specs = w.gen(n);
    let extra = w.gen(n / 2 + 3);
    // Another legal parameter set over the same point and element type
    let mut trees: Vec<(&'static str, Box<dyn Sut>)> = vec![];
    trees.push(("bulk loaded", w.sut.fresh(&specs, true)));
    trees.push(("inserted", w.sut.fresh(&specs, false)));
    let mut sh = specs.clone();
    w.ctx.rng.shuffle(&mut sh);
    trees.push(("inserted in another order", w.sut.fresh(&sh, false)));
    w.ctx.rng.shuffle(&mut sh);
    trees.push(("bulk loaded in another order", w.sut.fresh(&sh, true)));
    let k = w.ctx.rng.below(n + 1);
    let mut t = w.sut.fresh(&sh[..k], true);
    for s in &sh[k..] {
        t.insert(s);
    }
    trees.push(("bulk loaded and inserted", t));
    let mut mixed: Vec<Spec> = specs.iter().chain(&extra).cloned().collect();
    w.ctx.rng.shuffle(&mut mixed);
    let bulk = w.ctx.rng.bit();
    let mut t = w.sut.fresh(&mixed, bulk);
    // Remove the extra ones again, by a selection
    remove_extra(&mut w, &mut t, &specs, &extra);
    trees.push(("inserted and removed", t));
    for p in peers {
        let (name, reg, grid) = (p.meta.name, w.reg.clone(), w.sut.grid());
        let bulk = w.ctx.rng.bit();
        w.ctx.rng.shuffle(&mut sh);
        trees.push((name, (p.make)(p.meta, reg, grid).fresh(&sh, bulk)));
        w.ctx.count("trees_of_other_parameters", 1);
    }
    let c = trees[w.ctx.rng.below(trees.len())].1.clone_box();
    trees.push(("cloned", c));
    w.sut = trees[w.ctx.rng.below(trees.len())].1.clone_box();
    for s in &specs {
        *w.model.entry(s.key).or_insert(0) += 1;
        if w.meta.mutable {
            w.payload.insert(s.key, 0);
        }
    }
    w.touch();
    let all = w.all();
    for (name, t) in &mut trees {
        let got = t.contents(Contents::Iter);
        w.compare(name, got, all.clone());
    }
    let rounds = if big { 15 } else { 25 };
    for _ in 0..rounds {
        let queries = [w.box_query(), w.within_query(), Query::At(w.point())];
        for q in &queries {
            let mut first: Option<Vec<u32>> = None;
            for (name, t) in &mut trees {
                let got = sorted(t.locate(q, Form::Iter, None).unwrap().keys);
                match &first {
                    None => first = Some(got),
                    Some(f) => ensure!(*f == got, "{:?}: the {} tree returns {:?}, the bulk loaded one {:?}", q, name, got, f),
                }
            }
            // And both are right
            let f = first.unwrap();
            w.compare(&format!("{q:?}"), f, w.matching(q));
            w.ctx.evals += 1;
            w.ctx.count("queries_compared", trees.len() as u64);
        }
        let p = w.point();
        let mut first = None;
        for (name, t) in &trees {
            let d: Vec<D2> = t.nn_iter(&p, 1, usize::MAX).iter().map(|x| x.1.unwrap()).collect();
            let nn = t.nn(&p, true).map(|x| x.1.unwrap());
            let nns = t.nns(&p, true).map(|x| (sorted(x.0), x.1));
            let s = (d, nn, nns);
            match &first {
                None => first = Some(s),
                Some(f) => ensure!(*f == s, "nearest neighbors of {:?} differ between the {} tree and the bulk loaded one", p, name),
            }
        }
        let probe = if w.ctx.rng.bit() { w.near_miss() } else { w.random_live().unwrap_or_else(|| specs.first().cloned().unwrap_or_else(|| extra[0].clone())) };
        let e = w.any_equal(&probe);
        for (name, t) in &trees {
            ensure!(t.contains(&probe) == e, "contains on the {} tree is not {}", name, e);
        }
        w.ctx.evals += 2;
        w.ctx.count("queries_compared", 2 * trees.len() as u64);
    }
    // Joined with the same other trees, much smaller or of similar size
    for _ in 0..2 {
        let m = if w.ctx.rng.bit() { 1 + w.ctx.rng.below(5) } else { 10 + w.ctx.rng.below(40) };
        let other: Vec<Spec> = (0..m).map(|_| w.near_miss()).collect();
        let bulk = w.ctx.rng.bit();
        let mut first: Option<Vec<(u32, u32)>> = None;
        for (name, t) in &trees {
            let mut got = t.join(&other, bulk);
            got.sort_unstable();
            match &first {
                None => first = Some(got),
                Some(f) => ensure!(*f == got, "joined with {} elements, the {} tree yields {} pairs, the bulk loaded one {}", m, name, got.len(), f.len()),
            }
        }
        w.ctx.evals += 1;
        w.ctx.count("joins_compared", trees.len() as u64);
    }
    for (_, t) in trees {
        w.sut = t;
        w.fingerprint();
    }
}

fn remove_extra(w: &mut World, t: &mut Box<dyn Sut>, specs: &[Spec], extra: &[Spec]) {
    let mut gone = vec![];
    for s in extra {
        let r = t.remove(s);
        ensure!(r.is_some(), "remove(#{}) found nothing although it is stored", s.id);
        gone.extend(r);
    }
    if !w.meta.tagged {
        return;
    }
    // Elements equal to an extra one may have gone instead of it; put those back
    for s in extra {
        while let Some(r) = t.remove(s) {
            gone.push(r);
            ensure!(gone.len() <= specs.len() + extra.len(), "removed more elements than were stored");
        }
    }
    for (k, _) in gone {
        if (k as usize) < specs.len() {
            t.insert(&w.spec(k));
        }
    }
}

// ---- C12 (same element type; see the join binary for mixed types) --------------------------------

fn c12(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let w = tree(ctx, &cfg, 120);
    c12_joins(w, 4, |r| pick_n(r, 120));
}
fn c12_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let w = large(ctx, &cfg, 6_000);
    c12_joins(w, 3, |r| pick_n(r, 3_000));
}
fn c12_joins(mut w: World, rounds: usize, size: impl Fn(&mut Rng) -> usize) {
    for round in 0..rounds {
        let m = size(&mut w.ctx.rng);
        let other: Vec<Spec> = match w.ctx.rng.below(4) {
            0 => {
                // A copy of the tree itself
                let mut v = vec![];
                for (k, c) in w.model.clone() {
                    let s = w.spec(k);
                    v.extend(std::iter::repeat_n(s, c));
                }
                v
            }
            _ => {
                w.pattern = w.ctx.rng.below(gen::PATTERNS.len());
                w.gen(m)
            }
        };
        // At most some two million pairs
        let mut other = other;
        other.truncate(100_000_000 / w.len().max(1));
        while w.len() * other.len() > 2_000_000 {
            let d = w.d();
            let reg = w.reg.borrow();
            let meets = |s: &Spec, o: &Spec| (0..d).all(|i| s.lo[i] <= o.hi[i] && o.lo[i] <= s.hi[i]);
            let pairs: usize = w.model.iter().map(|(k, c)| c * other.iter().filter(|o| meets(&reg.specs[*k as usize], o)).count()).sum();
            if pairs <= 2_000_000 {
                break;
            }
            other.truncate(other.len() / 2);
        }
        let bulk = w.ctx.rng.bit();
        let mut got = w.sut.join(&other, bulk);
        let mut expect = vec![];
        {
            let reg = w.reg.borrow();
            let d = w.d();
            for (k, c) in &w.model {
                let s = &reg.specs[*k as usize];
                for o in &other {
                    if (0..d).all(|i| s.lo[i] <= o.hi[i] && o.lo[i] <= s.hi[i]) {
                        expect.extend(std::iter::repeat_n((*k, o.key), *c));
                    }
                }
            }
        }
        got.sort_unstable();
        expect.sort_unstable();
        if got != expect {
            let miss = expect.iter().find(|p| got.binary_search(p).is_err());
            let extra = got.iter().find(|p| expect.binary_search(p).is_err());
            harness::viol!("join of {} with {} elements ({}): {} pairs instead of {}; missing {:?}, not intersecting {:?}", w.len(), other.len(), round, got.len(), expect.len(), miss, extra);
        }
        w.ctx.evals += 1;
        w.ctx.count("joins", 1);
        w.ctx.count("join_pairs", expect.len() as u64);
        if w.len() == 0 || other.is_empty() {
            w.ctx.count("joins_with_empty", 1);
        }
    }
    w.fingerprint();
}

// ---- C13 ---------------------------------------------------------------------------------------

/// What a selection has to yield, from the node structure: accepted elements not below a rejected box
fn expected_selection(w: &World, n: &Dump, s: &Sel, out: &mut Vec<u32>, may: &mut Vec<u32>) {
    if n.children.is_empty() || !s.parent(w.d(), &n.lo, &n.hi) {
        return;
    }
    for c in &n.children {
        match c {
            DumpChild::Leaf(k) => {
                may.push(*k);
                if s.leaf(w.d(), &w.reg.borrow().specs[*k as usize]) {
                    out.push(*k);
                }
            }
            DumpChild::Node(m) => expected_selection(w, m, s, out, may),
        }
    }
}

fn node_boxes(n: &Dump, out: &mut Vec<(V, V)>) {
    out.push((n.lo, n.hi));
    for c in &n.children {
        if let DumpChild::Node(m) = c {
            node_boxes(m, out);
        }
    }
}

fn c13_sel(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let w = tree(ctx, &cfg, 200);
    c13_selections(w, 25, 6);
}
fn c13_sel_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let w = large(ctx, &cfg, 4_000);
    c13_selections(w, 8, 3);
}
fn c13_selections(mut w: World, selections: usize, removals: usize) {
    let d = w.d();
    for _ in 0..selections {
        let region = w.ctx.rng.bit().then(|| w.qbox());
        let s = Sel {
            region,
            reject_mod: *w.ctx.rng.pick(&[0u64, 2, 3, 5, 9, 1]),
            accept_mod: *w.ctx.rng.pick(&[1u64, 1, 2, 5, 0]),
            coherent: w.ctx.rng.bit(),
            salt: w.ctx.rng.next(),
        };
        let dump = w.sut.dump();
        let (mut expect, mut may) = (vec![], vec![]);
        expected_selection(&w, &dump, &s, &mut expect, &mut may);
        let may = sorted(may);
        let mut boxes = vec![];
        node_boxes(&dump, &mut boxes);
        boxes.sort_unstable();
        for mutable in [false, true] {
            let (keys, trace) = w.sut.select(&s, mutable);
            let what = format!("locate_with_selection_function{} {:?}", if mutable { "_mut" } else { "" }, (s.reject_mod, s.accept_mod, s.region.is_some()));
            w.compare(&what, keys, sorted(expect.clone()));
            for c in &trace {
                match c {
                    Call::Parent(lo, hi, _) => {
                        ensure!(boxes.binary_search(&(*lo, *hi)).is_ok(), "{}: asked about the box {:?}..{:?}, which is not that of a node", what, &lo[..d], &hi[..d]);
                        w.ctx.count("boxes_asked", 1);
                    }
                    Call::Leaf(k, _) => {
                        ensure!(may.binary_search(k).is_ok(), "{}: inspected #{} although it lies below a rejected box", what, k);
                        w.ctx.count("elements_asked", 1);
                    }
                }
            }
            w.ctx.count("selections", 1);
            if may.len() < w.len() && !may.is_empty() {
                w.ctx.count("selections_partly_rejected", 1);
            }
        }
        w.ctx.evals += 2;
    }
    // Draining and removing with the same kind of function
    for _ in 0..removals {
        let region = w.ctx.rng.bit().then(|| w.qbox());
        let coherent = w.ctx.rng.bit();
        let s = Sel {
            region,
            reject_mod: if coherent { 0 } else { *w.ctx.rng.pick(&[0u64, 2, 5]) },
            accept_mod: *w.ctx.rng.pick(&[1u64, 2, 5, 0]),
            coherent,
            salt: w.ctx.rng.next(),
        };
        let dump = w.sut.dump();
        let (mut expect, mut may) = (vec![], vec![]);
        expected_selection(&w, &dump, &s, &mut expect, &mut may);
        let (expect, may) = (sorted(expect), sorted(may));
        let single = w.ctx.rng.chance(1, 3);
        let (got, trace) = if single {
            let (k, t) = w.sut.remove_traced(&s);
            (k.into_iter().collect(), t)
        } else {
            w.sut.drain_traced(&s, None)
        };
        let what = if single { "remove_with_selection_function" } else { "drain_with_selection_function" };
        // Every box asked about encloses elements of the tree; every element asked about was
        // accepted exactly if it was handed out; nothing below a rejected box was inspected
        let mut accepted = vec![];
        for c in &trace {
            match c {
                Call::Leaf(k, r) => {
                    w.ctx.count("elements_asked", 1);
                    if *r {
                        accepted.push(*k);
                    }
                    if coherent || s.region.is_none() && s.reject_mod == 0 {
                        ensure!(may.binary_search(k).is_ok(), "{}: inspected #{} although it lies below a rejected box", what, k);
                    }
                }
                Call::Parent(lo, hi, _) => {
                    w.ctx.count("boxes_asked", 1);
                    ensure!((0..d).all(|i| lo[i] <= hi[i]), "{}: asked about an empty box {:?}..{:?}", what, &lo[..d], &hi[..d]);
                }
            }
        }
        w.compare(&format!("{what}: what was accepted and what was handed out"), got.clone(), sorted(accepted));
        if coherent {
            if single {
                ensure!(got.is_empty() == expect.is_empty(), "{} returned {:?}, selected are {:?}", what, got, expect);
                w.subset(what, &got, &expect);
            } else {
                w.compare(what, got.clone(), expect);
            }
        } else if !single {
            // Whatever was not inspected lies below a box that was rejected
            let mut left = w.all();
            for c in &trace {
                if let Call::Leaf(k, _) = c {
                    if let Ok(i) = left.binary_search(k) {
                        left.remove(i);
                    }
                }
            }
            // A prefix suffices of what would take too long
            left.truncate(400);
            for k in left {
                let t = w.spec(k);
                let ok = trace.iter().any(|c| matches!(c, Call::Parent(lo, hi, false) if (0..d).all(|i| lo[i] <= t.lo[i] && t.hi[i] <= hi[i])));
                ensure!(ok || !w.meta.tagged, "{}: never inspected #{} although no box around it was rejected", what, k);
            }
        }
        for k in got {
            w.forget_element(k);
        }
        let left = w.sut.contents(Contents::Nodes);
        w.compare("contents after removing by selection", left, w.all());
        w.ctx.evals += 1;
        w.ctx.count("removing_selections", 1);
    }
    w.fingerprint();
}

/// Visitors and iterators stopped at every point
fn c13_visit(ctx: &mut Ctx) {
    let cfg = pick(ctx);
    let w = tree(ctx, &cfg, 120);
    c13_visits(w, 20);
}
fn c13_visit_large(ctx: &mut Ctx) {
    let cfg = pick_big(ctx);
    let w = large(ctx, &cfg, 4_000);
    c13_visits(w, 4);
}
fn c13_visits(mut w: World, rounds: usize) {
    for _ in 0..rounds {
        let q = match w.ctx.rng.below(3) {
            0 => Query::At(w.point()),
            _ => w.box_query(),
        };
        let m = w.matching(&q).len();
        for f in FORMS {
            for k in 0..6 {
                let stop = match k {
                    0 => 1,
                    1 => m.max(1),
                    2 => m + 1,
                    _ => 1 + w.ctx.rng.below(m + 1),
                };
                w.check_query(&q, f, Some(stop));
            }
        }
    }
    w.fingerprint();
}

// ---- C22 ---------------------------------------------------------------------------------------

fn c22(ctx: &mut Ctx) {
    let cfg = pick_if(ctx, |m| m.mutable);
    let w = tree(ctx, &cfg, 200);
    c22_edits(w, 40);
}
fn c22_large(ctx: &mut Ctx) {
    let cfg = if ctx.rng.chance(1, 6) { pick_if(ctx, |m| m.mutable && m.max > 256) } else { pick_if(ctx, |m| m.mutable) };
    let w = large(ctx, &cfg, 4_000);
    c22_edits(w, 8);
}
fn c22_edits(mut w: World, rounds: usize) {
    for i in 0..rounds {
        let q = match w.ctx.rng.below(5) {
            0 => Query::All,
            1 => Query::At(w.point()),
            _ => w.box_query(),
        };
        let form = if w.ctx.rng.bit() { Form::IterMut } else { Form::IntMut };
        let m = w.matching(&q).len();
        let stop = w.ctx.rng.bit().then(|| 1 + w.ctx.rng.below(m + 1));
        w.edit_with(&q, form, stop);
        if w.ctx.rng.chance(1, 3) {
            let p = w.point();
            let form = if w.ctx.rng.bit() { Form::IterMut } else { Form::IntMut };
            let add = 1 + w.ctx.rng.below(1000) as u32;
            let m = w.matching(&Query::At(p));
            match w.sut.edit_one(&p, form, add) {
                Some(k) => {
                    w.subset("locate_at_point_mut", &[k], &m);
                    *w.payload.get_mut(&k).unwrap() += add;
                    w.ctx.count("edited_elements", 1);
                }
                None => ensure!(m.is_empty(), "locate_at_point_mut ({:?}) found nothing", form),
            }
        }
        if w.ctx.rng.chance(1, 3) {
            let s = w.coherent_sel();
            let sel = w.selected(&s);
            let stop = 1 + w.ctx.rng.below(sel.len() + 1);
            let add = 1 + w.ctx.rng.below(1000) as u32;
            let keys = w.sut.edit_sel(&s, stop, add);
            ensure!(keys.len() == stop.min(sel.len()), "locate_with_selection_function_mut reached {} elements instead of {}", keys.len(), stop.min(sel.len()));
            w.subset("locate_with_selection_function_mut", &keys, &sel);
            for k in keys {
                *w.payload.get_mut(&k).unwrap() += add;
                w.ctx.count("edited_elements", 1);
            }
        }
        w.check_payloads();
        w.ctx.evals += 1;
        // Changed data survives updates of the tree; removals return it (checked by the model)
        if i % 4 == 0 {
            let mut mix = MIX;
            mix.rebuild = 0;
            let n = w.len();
            w.churn(6, &mix, n, &mut |_| {});
            w.check_payloads();
        }
    }
    w.fingerprint();
}

const TREES: &str = "each case builds a tree of a random configuration (35 combinations of element kind, point type, scalar, dimension 2-10 and parameters; 14 placement patterns; 8 construction routes mixing bulk loading, insertion, removal, draining, cloning) and compares it with an exact i128 model; non-trivial: the final tree has at least two levels of nodes; distinct by contents and case seed";

fn main() {
    harness::runner::main(vec![
        Property {
            id: "C01",
            rule: TREES,
            scenarios: vec![
                sc("history", 10400, 60_000, c01_history),
                sc("large", 80, 160, c01_large),
                sc("consume", 1200, 4000, c01_consume), sc("huge", 16, 64, c01_huge),
            ],
            required: &[("contents_checks", 1000), ("inserts", 1000), ("drains_cut_short", 100), ("bulk_loads", 100), ("drains_leaked", 5)],
        },
        Property {
            id: "C02",
            rule: TREES,
            scenarios: vec![
                sc("history", 16000, 40_000, c02_history),
                sc("large", 120, 300, c02_large),
                sc("grow", 9600, 24_000, c02_grow),
                sc("bulk", 8000, 12_000, c02_bulk), sc("huge", 16, 64, c02_huge),
            ],
            required: &[("structure_checks", 10_000), ("max_height", 4), ("bulk_loads", 500)],
        },
        Property {
            id: "C03",
            rule: TREES,
            scenarios: vec![
                sc("insert", 12000, 30_000, c03_insert),
                sc("insert-large", 192, 160, c03_insert_large),
                sc("bulk", 12800, 16_000, c03_bulk),
            ],
            required: &[("size_checks_inserted", 5_000), ("size_checks_bulk", 300), ("height_inserted", 4), ("height_bulk", 4)],
        },
        Property {
            id: "C04",
            rule: TREES,
            scenarios: vec![sc("queries", 6400, 40_000, c04), sc("large", 96, 200, c04_large), sc("huge", 16, 64, c04_huge)],
            required: &[("queries", 10_000), ("queries_selective", 2_000), ("max_height", 3)],
        },
        Property {
            id: "C05",
            rule: TREES,
            scenarios: vec![sc("queries", 6400, 40_000, c05), sc("large", 48, 200, c05_large), sc("huge", 16, 64, c05_huge)],
            required: &[("point_hits", 5_000), ("point_misses", 1_000), ("points_in_several_elements", 500), ("contains_true", 3_000), ("contains_false", 3_000)],
        },
        Property {
            id: "C06",
            rule: TREES,
            scenarios: vec![sc("queries", 9600, 60_000, c06), sc("large", 120, 300, c06_large), sc("huge", 16, 64, c06_huge)],
            required: &[("queries", 10_000), ("queries_selective", 2_000)],
        },
        Property {
            id: "C07",
            rule: TREES,
            scenarios: vec![sc("queries", 6400, 40_000, c07), sc("large", 80, 300, c07_large), sc("huge", 16, 64, c07_huge)],
            required: &[("nn_queries", 10_000), ("nn_queries_with_ties", 500), ("max_height", 3)],
        },
        Property {
            id: "C08",
            rule: TREES,
            scenarios: vec![sc("queries", 7200, 20_000, c08), sc("large", 96, 200, c08_large), sc("huge", 16, 64, c08_huge)],
            required: &[("nn_iterations", 3_000), ("nn_items", 50_000)],
        },
        Property {
            id: "C09",
            rule: TREES,
            scenarios: vec![
                sc("history", 28800, 40_000, c09),
                sc("duplicates", 11200, 12_000, c09_duplicates),
                sc("large", 96, 200, c09_large), sc("huge", 16, 64, c09_huge),
            ],
            required: &[("removed_equal", 3_000), ("removed_at_point", 1_000), ("popped_nearest", 1_000), ("removed_selected", 1_000), ("remove_misses", 1_000)],
        },
        Property {
            id: "C10",
            rule: TREES,
            scenarios: vec![
                sc("history", 24000, 30_000, c10),
                sc("every-cut", 8000, 8_000, c10_cuts),
                sc("large", 96, 200, c10_large), sc("huge", 16, 64, c10_huge),
            ],
            required: &[("drains", 5_000), ("drains_cut_short", 2_000), ("drained_elements", 20_000), ("drains_leaked", 50)],
        },
        Property {
            id: "C11",
            rule: TREES,
            scenarios: vec![sc("routes", 8000, 12_000, c11)],
            required: &[("queries_compared", 10_000)],
        },
        Property {
            id: "C12",
            rule: TREES,
            scenarios: vec![sc("same-type", 24000, 30_000, c12), sc("large", 96, 400, c12_large), sc("huge", 16, 64, c12_huge)],
            required: &[("joins", 2_000), ("join_pairs", 10_000), ("joins_with_empty", 20)],
        },
        Property {
            id: "C13",
            rule: TREES,
            scenarios: vec![sc("selection", 19200, 24_000, c13_sel), sc("visitors", 9600, 12_000, c13_visit), sc("large-selection", 96, 300, c13_sel_large), sc("large-visitors", 96, 300, c13_visit_large), sc("huge", 16, 64, c13_huge)],
            required: &[("selections", 5_000), ("selections_partly_rejected", 1_000), ("visitor_stops", 2_000), ("removing_selections", 1_000)],
        },
        Property {
            id: "C22",
            rule: TREES,
            scenarios: vec![sc("edits", 24000, 30_000, c22), sc("large", 96, 400, c22_large), sc("huge", 16, 64, c22_huge)],
            required: &[("edits", 10_000), ("edited_elements", 20_000), ("payload_checks", 10_000)],
        },
    ]);
}
