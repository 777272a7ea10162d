//! Workload generation: element sets and queries on the grid.
use crate::kinds::ShapeKind;
use crate::rng::Rng;
use crate::spec::*;

pub const PATTERNS: [&str; 14] = [
    "uniform", "tiny-grid", "clusters", "axis-line", "diagonal", "identical", "ascending",
    "descending", "two-corners", "exponential", "lattice", "outliers", "zigzag", "concentric",
];

fn raw(id: u32, lo: V, hi: V, shape: Shape, class: u8) -> Spec {
    Spec {
        id,
        key: id,
        class,
        lo,
        hi,
        shape,
    }
}

/// Positions of n elements in -e/2..=e/2
pub fn positions(rng: &mut Rng, pattern: usize, n: usize, d: usize, e: i64) -> Vec<V> {
    // Keep everything strictly inside the span
    let (lo, hi) = (-(e / 2), e - e / 2);
    let w = hi - lo;
    let axis = rng.below(d);
    let uni = |rng: &mut Rng| {
        let mut v = [0; MAXD];
        for x in v.iter_mut().take(d) {
            *x = rng.range(lo, hi);
        }
        v
    };
    let clamp = |mut v: V| {
        for x in v.iter_mut().take(d) {
            *x = (*x).clamp(lo, hi);
        }
        v
    };
    let mut out: Vec<V> = Vec::with_capacity(n);
    let t = |i: usize| lo + ((w as i128 * i as i128) / (n.max(2) - 1) as i128) as i64;
    match pattern {
        1 => {
            let g = rng.range(1, 4).min(w);
            for _ in 0..n {
                let mut v = [0; MAXD];
                for x in v.iter_mut().take(d) {
                    *x = rng.range(0, g) + lo / 2;
                }
                out.push(v);
            }
        }
        2 => {
            let k = rng.range(1, 5) as usize;
            let centers: Vec<V> = (0..k).map(|_| uni(rng)).collect();
            let r = (w / 50).max(1);
            for _ in 0..n {
                let mut v = *rng.pick(&centers);
                for x in v.iter_mut().take(d) {
                    *x += rng.range(-r, r);
                }
                out.push(clamp(v));
            }
        }
        3 => {
            let mut base = uni(rng);
            for i in 0..n {
                base[axis] = if rng.bit() { t(i) } else { rng.range(lo, hi) };
                out.push(base);
            }
        }
        4 => {
            let neg = rng.bit();
            for i in 0..n {
                let mut v = [0; MAXD];
                for (j, x) in v.iter_mut().enumerate().take(d) {
                    let y = t(i);
                    *x = if neg && j % 2 == 1 { lo + hi - y } else { y };
                }
                out.push(clamp(v));
            }
            if rng.bit() {
                rng.shuffle(&mut out);
            }
        }
        5 => {
            let v = uni(rng);
            out = vec![v; n];
        }
        6 | 7 => {
            out = (0..n).map(|_| uni(rng)).collect();
            out.sort_by_key(|v| if pattern == 6 { v[axis] } else { -v[axis] });
        }
        8 => {
            let r = (w / 20).max(1);
            for _ in 0..n {
                let far = rng.bit();
                let mut v = [0; MAXD];
                for x in v.iter_mut().take(d) {
                    let y = rng.range(0, r);
                    *x = if far { hi - y } else { lo + y };
                }
                out.push(clamp(v));
            }
        }
        9 => {
            let bits = 63 - (hi.max(1) as u64).leading_zeros() as i64;
            for _ in 0..n {
                let mut v = [0; MAXD];
                for x in v.iter_mut().take(d) {
                    let m = 1i64 << rng.range(0, bits.max(0));
                    *x = if rng.bit() { m } else { -m };
                }
                out.push(clamp(v));
            }
        }
        10 => {
            let side = ((n as f64).powf(1.0 / d as f64).ceil() as i64).max(1);
            let step = (w / side).max(1);
            for i in 0..n as i64 {
                let mut v = [0; MAXD];
                let mut r = i;
                for x in v.iter_mut().take(d) {
                    *x = lo + (r % side) * step;
                    r /= side;
                }
                out.push(clamp(v));
            }
            if rng.bit() {
                rng.shuffle(&mut out);
            }
        }
        11 => {
            let v = uni(rng);
            for _ in 0..n {
                out.push(if rng.chance(9, 10) { v } else { uni(rng) });
            }
        }
        12 => {
            for i in 0..n {
                let y = ((w / 2) as i128 * (n - i) as i128 / n as i128) as i64;
                let mut v = [0; MAXD];
                for (j, x) in v.iter_mut().enumerate().take(d) {
                    *x = if (i >> (j % 4)) & 1 == 0 { y } else { -y };
                }
                out.push(clamp(v));
            }
        }
        13 => out = vec![[0; MAXD]; n],
        _ => out = (0..n).map(|_| uni(rng)).collect(),
    }
    out
}

/// Element descriptions (ids are assigned on registration)
pub fn elements(
    rng: &mut Rng,
    kind: ShapeKind,
    pattern: usize,
    n: usize,
    d: usize,
    e: i64,
    classes: u8,
) -> Vec<Spec> {
    let pos = positions(rng, pattern, n, d, e);
    let (lo, hi) = (-(e / 2), e - e / 2);
    let w = hi - lo;
    let extent = if pattern == 13 { 4 } else { rng.below(6) };
    let axis = rng.below(d);
    let mut out = Vec::with_capacity(n);
    for (i, p) in pos.into_iter().enumerate() {
        let class = rng.below(classes as usize) as u8;
        let s = match kind {
            ShapeKind::Point => raw(0, p, p, Shape::Box, class),
            ShapeKind::Rect => {
                let (mut a, mut b) = (p, p);
                for j in 0..d {
                    let ext = match extent {
                        0 => 0,
                        1 => rng.range(0, w / 50 + 1),
                        2 => {
                            if rng.chance(1, 10) {
                                rng.range(0, w)
                            } else {
                                rng.range(0, w / 30 + 1)
                            }
                        }
                        3 => {
                            if j == axis {
                                rng.range(0, w)
                            } else {
                                rng.range(0, 1.min(w))
                            }
                        }
                        4 => (w as i128 * (n - i) as i128 / n as i128 / 2) as i64,
                        _ => rng.range(0, w / 4 + 1),
                    };
                    if extent == 4 {
                        a[j] -= ext;
                    } else if rng.bit() {
                        a[j] -= ext / 2;
                    }
                    b[j] = b[j].saturating_add(ext);
                    a[j] = a[j].clamp(lo, hi);
                    b[j] = b[j].clamp(lo, hi);
                }
                raw(0, a, b, Shape::Box, class)
            }
            ShapeKind::Cloud => {
                let k = 1 + rng.below(4);
                let r = match extent {
                    0 | 1 => 1.min(w),
                    2 | 3 => w / 20 + 1,
                    _ => w / 4 + 1,
                };
                let mut pts = vec![];
                for _ in 0..k {
                    let mut q = p;
                    for x in q.iter_mut().take(d) {
                        *x = (*x + rng.range(-r, r)).clamp(lo, hi);
                    }
                    pts.push(q);
                }
                let (mut a, mut b) = (pts[0], pts[0]);
                for q in &pts {
                    for j in 0..d {
                        a[j] = a[j].min(q[j]);
                        b[j] = b[j].max(q[j]);
                    }
                }
                raw(0, a, b, Shape::Cloud(pts), class)
            }
            ShapeKind::Line => {
                let m = *rng.pick(&[0usize, 1, 2, 4, 1, 2]);
                let m = if m > d { d.min(2) } else { m };
                let mut axes: Vec<usize> = (0..d).collect();
                rng.shuffle(&mut axes);
                let len = 1i64 << rng.below(4);
                let mut q = p;
                for &j in axes.iter().take(m) {
                    let sign = if p[j] + len > hi {
                        -1
                    } else if p[j] - len < lo || rng.bit() {
                        1
                    } else {
                        -1
                    };
                    q[j] += sign * len;
                }
                let (mut a, mut b) = (p, p);
                for j in 0..d {
                    a[j] = p[j].min(q[j]);
                    b[j] = p[j].max(q[j]);
                }
                raw(0, a, b, Shape::Line(p, q), class)
            }
        };
        out.push(s);
    }
    out
}

fn any_spec<'a>(rng: &mut Rng, live: &'a [Spec]) -> Option<&'a Spec> {
    // Not an element with an empty envelope
    (!live.is_empty())
        .then(|| rng.pick(live))
        .filter(|s| s.lo[0] <= s.hi[0])
}

/// A query box, aimed at existing elements most of the time
pub fn qbox(rng: &mut Rng, d: usize, e: i64, live: &[Spec]) -> QBox {
    let (lo, hi) = (-(e / 2), e - e / 2);
    let mut q = QBox {
        lo: [0; MAXD],
        hi: [0; MAXD],
        empty: false,
        ctor: rng.below(6) as u8,
    };
    let kind = rng.weighted(&[12, 14, 16, 20, 3, 6, 3, 3, 10, 4, 14, 8]);
    let target = any_spec(rng, live).cloned();
    let target2 = any_spec(rng, live).cloned();
    match (kind, target) {
        (0, Some(t)) => {
            q.lo = t.lo;
            q.hi = t.hi;
        }
        (1, Some(t)) => {
            for i in 0..d {
                let a = t.lo[i] + rng.range(-1, 1);
                let b = t.hi[i] + rng.range(-1, 1);
                q.lo[i] = a.min(b);
                q.hi[i] = a.max(b);
            }
        }
        (2, Some(t)) => {
            // Touches (or just misses) a face or a corner
            let gap = rng.range(0, 1);
            let all = rng.bit();
            let axis = rng.below(d);
            for i in 0..d {
                let size = rng.range(0, (e / 8).max(1));
                if all || i == axis {
                    if rng.bit() {
                        q.lo[i] = t.hi[i] + gap;
                        q.hi[i] = q.lo[i] + size;
                    } else {
                        q.hi[i] = t.lo[i] - gap;
                        q.lo[i] = q.hi[i] - size;
                    }
                } else {
                    q.lo[i] = t.lo[i] - rng.range(0, 2);
                    q.hi[i] = t.hi[i] + rng.range(0, 2);
                }
            }
        }
        (4, _) => {
            for i in 0..d {
                q.lo[i] = -e;
                q.hi[i] = e;
            }
        }
        (5, _) => {
            for i in 0..d {
                let x = rng.range(lo, hi);
                let (a, b) = match rng.below(4) {
                    0 => (NEG, x),
                    1 => (x, POS),
                    2 => (NEG, POS),
                    _ => (lo, x),
                };
                q.lo[i] = a;
                q.hi[i] = b;
            }
        }
        (6, _) => {
            for i in 0..d {
                q.lo[i] = NEG;
                q.hi[i] = POS;
            }
        }
        (7, _) => q.empty = true,
        (8, Some(t)) => {
            for i in 0..d {
                let x = if rng.bit() { t.lo[i] } else { t.hi[i] };
                q.lo[i] = x;
                q.hi[i] = x;
            }
        }
        (9, _) => {
            for i in 0..d {
                q.lo[i] = e;
                q.hi[i] = e + rng.range(0, 3);
            }
        }
        (10, Some(t)) => {
            // The common box of two elements
            let u = target2.unwrap_or_else(|| t.clone());
            for i in 0..d {
                q.lo[i] = t.lo[i].min(u.lo[i]);
                q.hi[i] = t.hi[i].max(u.hi[i]);
            }
        }
        (11, _) => {
            // Thin slab
            let axis = rng.below(d);
            for i in 0..d {
                q.lo[i] = -e;
                q.hi[i] = e;
            }
            q.lo[axis] = rng.range(lo, hi);
            q.hi[axis] = q.lo[axis] + rng.range(0, 2);
        }
        _ => {
            let scale = *rng.pick(&[1i64, 2, 4, 16]);
            for i in 0..d {
                let a = rng.range(lo, hi);
                let b = a + rng.range(0, (e / scale).max(1));
                q.lo[i] = a;
                q.hi[i] = b;
            }
        }
    }
    // from_point(lo).merged(..) and friends do not matter for unbounded boxes
    q
}

/// A query point within -e..=e
pub fn qpoint(rng: &mut Rng, d: usize, e: i64, live: &[Spec]) -> V {
    let (lo, hi) = (-(e / 2), e - e / 2);
    let kind = rng.weighted(&[20, 14, 14, 12, 12, 6, 14, 3]);
    let t = any_spec(rng, live).cloned();
    let u = any_spec(rng, live).cloned();
    let mut v = [0; MAXD];
    match (kind, t) {
        (0, Some(t)) => {
            // A corner, or a defining point of the shape
            match &t.shape {
                Shape::Cloud(p) if rng.chance(3, 4) => v = *rng.pick(p),
                Shape::Line(a, b) if rng.chance(3, 4) => {
                    v = match rng.below(3) {
                        0 => *a,
                        1 => *b,
                        _ => {
                            let mut m = [0; MAXD];
                            for i in 0..d {
                                m[i] = (a[i] + b[i]).div_euclid(2);
                            }
                            m
                        }
                    }
                }
                _ => {
                    for i in 0..d {
                        v[i] = if rng.bit() { t.lo[i] } else { t.hi[i] };
                    }
                }
            }
        }
        (1, Some(t)) => {
            for i in 0..d {
                v[i] = rng.range(t.lo[i], t.hi[i]);
            }
        }
        (2, Some(t)) => {
            for i in 0..d {
                let x = if rng.bit() { t.lo[i] } else { t.hi[i] };
                v[i] = (x + rng.range(-1, 1)).clamp(-e, e);
            }
        }
        (3, Some(t)) => {
            // Half way between two elements
            let u = u.unwrap();
            for i in 0..d {
                v[i] = (t.lo[i] + u.hi[i]).div_euclid(2);
            }
        }
        (4, Some(t)) => {
            // Off along one axis
            v = t.lo;
            let i = rng.below(d);
            v[i] = rng.range(-e, e);
        }
        (5, _) => {
            for x in v.iter_mut().take(d) {
                *x = if rng.bit() { e } else { -e };
            }
        }
        (7, _) => {}
        _ => {
            let far = rng.chance(1, 3);
            for x in v.iter_mut().take(d) {
                *x = if far {
                    rng.range(-e, e)
                } else {
                    rng.range(lo, hi)
                };
            }
        }
    }
    v
}

/// A squared radius around p
pub fn radius2(rng: &mut Rng, d: usize, e: i64, live: &[Spec], p: &V, limit: i128) -> D2 {
    let kind = rng.weighted(&[30, 12, 8, 4, 4, 20]);
    match (kind, any_spec(rng, live)) {
        (0, Some(t)) => t.dist2(d, p),
        (1, Some(t)) => {
            let x = (t.dist2(d, p) >> FRAC) + rng.range(-1, 1) as i128;
            x.clamp(0, limit) << FRAC
        }
        (2, _) => 0,
        (3, _) => -(1 << FRAC),
        (4, _) => D2_INF,
        _ => {
            let r = rng.range(0, e) as i128;
            let r = if rng.bit() { r } else { r / 8 };
            (r * r).min(limit) << FRAC
        }
    }
}
