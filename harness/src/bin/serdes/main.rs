//! C14: serialization round trips
mod binfmt;
use harness::gen;
use harness::kinds::*;
use harness::rng::{combine, hash_bytes, Rng};
use harness::runner::*;
use harness::scalar::HScalar;
use harness::sut::*;
use harness::world::*;
use harness::{ensure, viol};
use rstar::primitives::*;
use rstar::{DefaultParams as Df, Envelope, Point, PointDistance, RTree, RTreeObject, RTreeParams, AABB};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::num::Wrapping as W;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Json,
    JsonPretty,
    JsonValue,
    Cbor,
    CborValue,
    Binary,
}
const FORMATS: [Format; 6] = [Format::Json, Format::JsonPretty, Format::JsonValue, Format::Cbor, Format::CborValue, Format::Binary];

/// Serializes and deserializes; also the size of what was written
fn through<T: Serialize + DeserializeOwned>(t: &T, f: Format) -> Result<(T, usize), String> {
    fn e<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
        move |e| format!("{what}: {e}")
    }
    Ok(match f {
        Format::Json => {
            let s = serde_json::to_string(t).map_err(e("serializing"))?;
            (serde_json::from_str(&s).map_err(e("deserializing"))?, s.len())
        }
        Format::JsonPretty => {
            let s = serde_json::to_vec_pretty(t).map_err(e("serializing"))?;
            (serde_json::from_reader(&s[..]).map_err(e("deserializing"))?, s.len())
        }
        Format::JsonValue => {
            // Fields come back in another order
            let v = serde_json::to_value(t).map_err(e("serializing"))?;
            (serde_json::from_value(v).map_err(e("deserializing"))?, 1)
        }
        Format::Cbor => {
            let mut s = vec![];
            ciborium::into_writer(t, &mut s).map_err(e("serializing"))?;
            (ciborium::from_reader(&s[..]).map_err(e("deserializing"))?, s.len())
        }
        Format::CborValue => {
            let v = ciborium::Value::serialized(t).map_err(e("serializing"))?;
            (v.deserialized().map_err(e("deserializing"))?, 1)
        }
        Format::Binary => {
            let s = binfmt::to_bytes(t).map_err(e("serializing"))?;
            (binfmt::from_bytes(&s).map_err(e("deserializing"))?, s.len())
        }
    })
}

struct SCfg {
    cfg: Cfg,
    round: fn(&dyn Sut, Format) -> Result<(Box<dyn Sut>, usize), String>,
    formats: &'static [Format],
}

fn scfg<K: Kind, R: RTreeParams + Clone + 'static>(name: &'static str) -> SCfg
where
    K::T: Serialize + DeserializeOwned,
    <K::T as RTreeObject>::Envelope: Serialize + DeserializeOwned,
{
    let wide = name.contains("i128");
    SCfg {
        cfg: cfg::<K, R>(name),
        round: |s, f| {
            let a = s.any().downcast_ref::<Adapter<K, R>>().expect("harness: adapter");
            let (t, n): (RTree<K::T, R>, usize) = through(a.tree(), f)?;
            Ok((Box::new(a.wrap(t)), n))
        },
        // JSON values hold 64 bit numbers only
        formats: if wide { &[Format::Json, Format::Cbor, Format::Binary] } else { &FORMATS },
    }
}

#[cfg(feature = "mini")]
fn configs() -> Vec<SCfg> {
    vec![
        scfg::<Data<Pt<[i32; 2]>>, Df>("point+data [i32;2] 3/6/2"),
        scfg::<Data<Rect<[f64; 2]>>, Pm<2, 4, 1>>("rect+data [f64;2] 2/4/1"),
    ]
}

#[cfg(not(feature = "mini"))]
fn configs() -> Vec<SCfg> {
    vec![
        scfg::<Bare<Pt<[i32; 2]>>, Df>("point [i32;2] 3/6/2"),
        scfg::<Data<Pt<[f64; 2]>>, Df>("point+data [f64;2] 3/6/2"),
        scfg::<Data<Rect<[f64; 2]>>, Df>("rect+data [f64;2] 3/6/2"),
        scfg::<Data<Rect<[i64; 3]>>, Pm<2, 4, 1>>("rect+data [i64;3] 2/4/1"),
        scfg::<Data<Seg<[f64; 2]>>, Df>("line+data [f64;2] 3/6/2"),
        scfg::<Bare<Seg<[f32; 3]>>, Pm<5, 12, 3>>("line [f32;3] 5/12/3"),
        scfg::<Data<Cloud<[f32; 2]>>, Df>("cloud+data [f32;2] 3/6/2"),
        scfg::<Data<Rect<[W<i32>; 2]>>, Df>("rect+data [Wrapping<i32>;2] 3/6/2"),
        scfg::<Data<Pt<(i64, i64, i64)>>, Df>("point+data (i64,i64,i64) 3/6/2"),
        scfg::<Data<Rect<mint::Point2<f64>>>, Pm<10, 20, 5>>("rect+data mint::Point2<f64> 10/20/5"),
        scfg::<Data<Pt<Custom3<i64>>>, Df>("point+data Custom3<i64> 3/6/2"),
        scfg::<Pwd<[f64; 2]>, Df>("PointWithData [f64;2] 3/6/2"),
        scfg::<Cached<Data<Rect<[f64; 2]>>>, Pm<3, 6, 0>>("CachedEnvelope<rect+data> [f64;2] 3/6/0"),
        scfg::<Cached<Data<Cloud<[i32; 2]>>>, Df>("CachedEnvelope<cloud+data> [i32;2] 3/6/2"),
        scfg::<Shared<Cached<Data<Rect<[i64; 2]>>>>, Df>("Arc<CachedEnvelope<rect+data>> [i64;2] 3/6/2"),
        scfg::<Wrap<Data<Rect<[i16; 2]>>>, Pm<20, 64, 20>>("GeomWithData<rect+data> [i16;2] 20/64/20"),
        scfg::<Bare<Cloud<[i128; 2]>>, Pm<4, 8, 0>>("cloud [i128;2] 4/8/0"),
        scfg::<Data<Rect<[f64; 5]>>, Df>("rect+data [f64;5] 3/6/2"),
    ]
}

fn trees(ctx: &mut Ctx) {
    let cs = configs();
    let i = ctx.rng.below(cs.len());
    let c = &cs[i];
    let f = c.formats[ctx.index % c.formats.len()];
    let n = match ctx.rng.below(12) {
        0 => 0,
        1 => 1,
        2 if ctx.thorough => 5000,
        2 => 1500,
        _ => pick_n(&mut ctx.rng, 250),
    };
    let mut w = World::new(ctx, &c.cfg);
    w.build(n);
    if w.ctx.rng.bit() {
        let mut mix = MIX;
        mix.leak = usize::from(w.ctx.rng.chance(1, 12));
        w.churn(30, &mix, n, &mut |_| {});
    }
    for round in 0..2 {
        let before = canonical(&w.sut.dump());
        let (t, bytes) = match (c.round)(&*w.sut, f) {
            Ok(x) => x,
            Err(e) => viol!("{:?}: {}", f, e),
        };
        w.ctx.count("bytes", bytes as u64);
        w.ctx.count("round_trips", 1);
        w.ctx.distinct("formats", f as u64);
        w.ctx.distinct("configs", i as u64);
        w.ctx.distinct("config_and_format", (i * 10 + f as usize) as u64);
        let after = canonical(&w.sut.dump());
        ensure!(before == after, "{:?}: serializing changed the tree", f);
        let n = t.size();
        ensure!(n == w.len(), "{:?}: the deserialized tree has size {} instead of {}", f, n, w.len());
        ensure!(canonical(&t.dump()) == before, "{:?}: the deserialized tree has another structure", f);
        // Both go on separately
        let original = std::mem::replace(&mut w.sut, t);
        w.check_contents();
        w.check_structure();
        w.check_payloads();
        w.check_queries(4);
        let model = w.model.clone();
        let payload = w.payload.clone();
        w.churn(25, &MIX, n, &mut |_| {});
        w.check_contents();
        w.check_structure();
        w.check_queries(2);
        w.fingerprint();
        if round == 0 && w.ctx.rng.bit() {
            // The original is unaffected
            w.sut = original;
            w.model = model;
            w.payload = payload;
            w.touch();
            w.check_contents();
            w.check_payloads();
            w.check_queries(1);
        }
    }
    let s = format!("{:?}, {}", f, w.ctx.sample);
    w.ctx.sample = s;
    // To the end
    if w.ctx.rng.bit() {
        w.drain(&DrainQ::Q(Query::All), None, End::Drop);
        w.check_contents();
    }
}

// ---- geometries -------------------------------------------------------------------------------

fn scalar<S: HScalar>(rng: &mut Rng) -> S {
    let bits = rng.next();
    if S::FLOAT {
        let v = match rng.below(4) {
            0 => (bits as i32 >> 8) as f64 / 64.0,
            1 => rng.unit() * 1e3 - 500.0,
            2 => (rng.unit() - 0.5) * 10f64.powi(rng.range(-30, 30) as i32),
            _ => rng.range(-9, 9) as f64,
        };
        // Through the grid machinery this would be exact only
        num(v)
    } else {
        HScalar::from_grid(rng.range(-2, 2), harness::scalar::Grid { exp: 0 })
    }
}
fn num<S: HScalar>(v: f64) -> S {
    // S is f32 or f64 here
    let s: Box<dyn std::any::Any> = if std::any::TypeId::of::<S>() == std::any::TypeId::of::<f32>() {
        Box::new(v as f32)
    } else {
        Box::new(v)
    };
    *s.downcast::<S>().expect("harness: float")
}

fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(ctx: &mut Ctx, t: &T, formats: &[Format]) -> T {
    let mut last = None;
    for f in formats {
        match through(t, *f) {
            Err(e) => viol!("{:?} of {:?}: {}", f, t, e),
            Ok((u, _)) => {
                ensure!(&u == t, "{:?}: {:?} came back as {:?}", f, t, u);
                last = Some(u);
                ctx.evals += 1;
                ctx.count("geometry_round_trips", 1);
            }
        }
    }
    last.unwrap()
}

fn alike<T>(a: &T, b: &T, p: &<T::Envelope as Envelope>::Point)
where
    T: PointDistance + Debug,
    T::Envelope: PartialEq + Debug,
    <<T::Envelope as Envelope>::Point as Point>::Scalar: Debug,
{
    ensure!(a.envelope() == b.envelope(), "{:?} and its copy have different boxes {:?} {:?}", a, a.envelope(), b.envelope());
    ensure!(a.distance_2(p) == b.distance_2(p), "{:?} and its copy have different distances", a);
    ensure!(a.contains_point(p) == b.contains_point(p), "{:?} and its copy contain different points", a);
}

fn geometry<P>(ctx: &mut Ctx)
where
    P: Point + Serialize + DeserializeOwned + Debug + 'static,
    P::Scalar: HScalar + Serialize + DeserializeOwned,
    P: PointDistance + RTreeObject<Envelope = AABB<P>>,
{
    let fs: &[Format] = if std::mem::size_of::<P::Scalar>() > 8 { &[Format::Json, Format::Cbor, Format::Binary] } else { &FORMATS };
    let pt = |ctx: &mut Ctx| -> P { P::generate(|_| scalar(&mut ctx.rng)) };
    for _ in 0..4 {
        let (a, b, q) = (pt(ctx), pt(ctx), pt(ctx));
        let bx = AABB::from_corners(a.clone(), b.clone());
        let c = same(ctx, &bx, fs);
        ensure!(c.lower() == bx.lower() && c.upper() == bx.upper(), "corners of a box changed");
        ensure!(c.distance_2(&q) == bx.distance_2(&q), "distance to a box changed");
        same(ctx, &AABB::<P>::new_empty(), fs);
        same(ctx, &a, fs);
        let r = Rectangle::from_corners(a.clone(), b.clone());
        let c = same(ctx, &r, fs);
        alike(&r, &c, &q);
        let l = Line::new(a.clone(), b.clone());
        let c = same(ctx, &l, fs);
        ensure!(c.from == a && c.to == b, "the ends of a line changed");
        ensure!(c.envelope() == l.envelope(), "the box of a line changed");
        let g = GeomWithData::new(r.clone(), (ctx.rng.next() as u32, String::from("däta \"\\\n")));
        let c = same(ctx, &g, fs);
        ensure!(c.data == g.data && c.geom() == g.geom(), "{:?} came back as {:?}", g, c);
        alike(&g, &c, &q);
        #[allow(deprecated)]
        let g = PointWithData::new(ctx.rng.next() as u32, a.clone());
        let c = same(ctx, &g, fs);
        ensure!(c.data == g.data && c.position() == g.position(), "{:?} came back as {:?}", g, c);
        let g = CachedEnvelope::new(GeomWithData::new(r.clone(), 5u8));
        let c = same(ctx, &g, fs);
        alike(&g, &c, &q);
        ensure!(c.data == 5 && *c.geom() == r, "{:?} came back as {:?}", g, c);
        let g = GeomWithData::new(CachedEnvelope::new(l.clone()), Some(vec![1u8, 2]));
        let c = same(ctx, &g, fs);
        ensure!(c.envelope() == g.envelope(), "the cached box changed");
        let g = CachedEnvelope::new(a.clone());
        let c = same(ctx, &g, fs);
        alike(&g, &c, &q);
        ensure!(*c == a, "the point in a CachedEnvelope changed");
    }
    ctx.distinct("geometry_point_types", hash_bytes(std::any::type_name::<P>().as_bytes()));
    ctx.fingerprints.push(combine(ctx.seed, 1));
    ctx.sample = format!("geometries over {}", std::any::type_name::<P>());
}

fn geometries(ctx: &mut Ctx) {
    let fs: [CaseFn; 14] = [
        geometry::<[f64; 2]>,
        geometry::<[f32; 2]>,
        geometry::<[f64; 3]>,
        geometry::<[f32; 4]>,
        geometry::<[i8; 2]>,
        geometry::<[i32; 3]>,
        geometry::<[i64; 2]>,
        geometry::<[i128; 2]>,
        geometry::<[W<i32>; 2]>,
        geometry::<(f64, f64)>,
        geometry::<(i16, i16, i16, i16)>,
        geometry::<mint::Point2<f64>>,
        geometry::<mint::Point3<f32>>,
        geometry::<[f64; 9]>,
    ];
    fs[ctx.index % fs.len()](ctx)
}

/// Trees of arbitrary floating point numbers come back with exactly the same coordinates
fn raw_floats(ctx: &mut Ctx) {
    fn go<S: HScalar + Serialize + DeserializeOwned, R: RTreeParams>(ctx: &mut Ctx)
    where
        S: rstar::RTreeNum,
    {
        let n = pick_n(&mut ctx.rng, 200);
        let v: Vec<[S; 2]> = (0..n).map(|_| [scalar(&mut ctx.rng), scalar(&mut ctx.rng)]).collect();
        let t: RTree<[S; 2], R> = if ctx.rng.bit() {
            RTree::bulk_load_with_params(v.clone())
        } else {
            let mut t = RTree::new_with_params();
            v.iter().for_each(|p| t.insert(*p));
            t
        };
        for f in FORMATS {
            let (u, _): (RTree<[S; 2], R>, usize) = match through(&t, f) {
                Ok(x) => x,
                Err(e) => viol!("{:?}: {}", f, e),
            };
            ensure!(u.size() == t.size(), "{:?}: size changed", f);
            ensure!(u.root().envelope() == t.root().envelope(), "{:?}: the box of the tree changed from {:?} to {:?}", f, t.root().envelope(), u.root().envelope());
            let key = |t: &RTree<[S; 2], R>| {
                let mut v: Vec<[S; 2]> = t.iter().take(2 * n + 9).copied().collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v
            };
            ensure!(key(&u) == key(&t), "{:?}: elements changed", f);
            for p in v.iter().take(50) {
                ensure!(u.contains(p), "{:?}: {:?} is not found any more", f, p);
                ensure!(u.locate_at_point(*p).is_some(), "{:?}: {:?} is not located any more", f, p);
            }
            for _ in 0..5 {
                let p = [scalar(&mut ctx.rng), scalar(&mut ctx.rng)];
                let a = t.nearest_neighbor_with_distance_2(p).map(|x| x.1);
                let b = u.nearest_neighbor_with_distance_2(p).map(|x| x.1);
                ensure!(a == b, "{:?}: the nearest neighbor of {:?} changed", f, p);
            }
            ctx.evals += 1;
            ctx.count("raw_round_trips", 1);
        }
        if n > 6 {
            ctx.fingerprints.push(combine(ctx.seed, n as u64));
        }
        ctx.sample = format!("{n} points of arbitrary {}", S::NAME);
    }
    if ctx.rng.bit() {
        go::<f64, Df>(ctx)
    } else {
        go::<f32, Pm<2, 5, 1>>(ctx)
    }
}

fn main() {
    let _ = gen::PATTERNS;
    harness::runner::main(vec![Property {
        id: "C14",
        rule: "hash of contents and seed of round-tripped trees of at least two levels; seeds of geometry and raw-float cases",
        scenarios: vec![
            sc("trees", 3000, 50_000, trees),
            sc("geometries", 1400, 20_000, geometries),
            sc("raw-floats", 600, 10_000, raw_floats),
        ],
        required: &[
            ("round_trips", 1500),
            ("formats", 6),
            ("configs", 18),
            ("config_and_format", 90),
            ("geometry_round_trips", 5000),
            ("geometry_point_types", 14),
            ("raw_round_trips", 500),
            ("tree_shapes", 500),
        ],
    }]);
}
