//! C20 under an interpreter that reports undefined behaviour: small histories of every operation.
//! `run PROP --seed N --tier T --out FILE --slots FILE --stop-after SECS --shard I` or
//! `case PROP SCENARIO SEED INDEX TIER`
use rstar::primitives::*;
use rstar::*;
use std::rc::Rc;
use std::time::Instant;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 16) as usize % n
    }
}

/// Elements carry memory of their own; reading a stale one is undefined behaviour
#[derive(Clone, Debug, PartialEq)]
struct Heap<P: Point> {
    lo: P,
    hi: P,
    name: Box<str>,
    extra: Rc<Vec<u32>>,
}
impl<P: Point> RTreeObject for Heap<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.lo.clone(), self.hi.clone())
    }
}
impl<P: Point> PointDistance for Heap<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        self.envelope().distance_2(p)
    }
}

trait Make: PointDistance<Envelope = AABB<Self::P>> + PartialEq + Clone + std::fmt::Debug {
    type P: Point<Scalar = Self::S> + Copy;
    type S: RTreeNum;
    fn num(v: usize) -> Self::S;
    fn make(r: &mut Rng) -> Self;
    fn touch(&self) -> usize;
}
fn pt<M: Make>(r: &mut Rng) -> M::P {
    M::P::generate(|_| M::num(r.below(12)))
}
macro_rules! make {
    ($t:ty, $p:ty, $s:ty, $r:ident => $e:expr, $x:ident => $touch:expr) => {
        impl Make for $t {
            type P = $p;
            type S = $s;
            fn num(v: usize) -> $s {
                v as $s
            }
            fn make($r: &mut Rng) -> Self {
                $e
            }
            fn touch(&self) -> usize {
                let $x = self;
                $touch
            }
        }
    };
}
fn heap<P: Point>(r: &mut Rng, num: fn(usize) -> P::Scalar) -> Heap<P> {
    let lo = P::generate(|_| num(r.below(12)));
    let hi = P::generate(|i| lo.nth(i) + num(r.below(3)));
    Heap {
        lo,
        hi,
        name: format!("e{}", r.below(100)).into(),
        extra: Rc::new(vec![r.below(9) as u32; 3]),
    }
}
make!(Heap<[f64; 2]>, [f64; 2], f64, r => heap(r, |v| v as f64), x => x.name.len() + x.extra[2] as usize);
make!(Heap<[i32; 3]>, [i32; 3], i32, r => heap(r, |v| v as i32), x => x.name.len() + x.extra[2] as usize);
make!([f32; 2], [f32; 2], f32, r => [r.below(12) as f32, r.below(12) as f32], x => x[0] as usize);
make!(GeomWithData<CachedEnvelope<Rectangle<(i64, i64)>>, String>, (i64, i64), i64,
    r => { let a = (r.below(9) as i64, r.below(9) as i64); GeomWithData::new(CachedEnvelope::new(Rectangle::from_corners(a, (a.0 + 2, a.1 + 1))), format!("{a:?}")) },
    x => x.data.len());
make!(Line<[f64; 2]>, [f64; 2], f64,
    r => { let a = [r.below(9) as f64, r.below(9) as f64]; Line::new(a, [a[0] + 2.0, a[1]]) },
    x => x.from[0] as usize);

struct Small;
impl RTreeParams for Small {
    const MIN_SIZE: usize = 2;
    const MAX_SIZE: usize = 4;
    const REINSERTION_COUNT: usize = 1;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}
impl Clone for Small {
    fn clone(&self) -> Self {
        Small
    }
}

struct Nth(usize);
impl<M: Make> SelectionFunction<M> for Nth {
    fn should_unpack_parent(&self, _: &M::Envelope) -> bool {
        true
    }
    fn should_unpack_leaf(&self, t: &M) -> bool {
        t.touch() % self.0 == 0
    }
}

fn history<M: Make>(r: &mut Rng, steps: usize) -> usize
where
    AABB<M::P>: Clone,
{
    let n = r.below(40);
    let v: Vec<M> = (0..n).map(|_| M::make(r)).collect();
    let mut n = n;
    let mut t: RTree<M, Small> = if r.below(2) == 0 {
        RTree::bulk_load_with_params(v)
    } else {
        let mut t = RTree::new_with_params();
        v.into_iter().for_each(|x| t.insert(x));
        t
    };
    let mut sum = 0;
    for _ in 0..steps {
        let p = pt::<M>(r);
        let q = AABB::from_corners(pt::<M>(r), pt::<M>(r));
        let k = r.below(n + 2);
        match r.below(15) {
            0..=2 => {
                for _ in 0..1 + r.below(5) {
                    t.insert(M::make(r));
                    n += 1;
                }
            }
            3 => n -= t.remove(&M::make(r)).map_or(0, |x| (sum += x.touch(), 1).1),
            4 => n -= t.remove_at_point(p).map_or(0, |x| (sum += x.touch(), 1).1),
            5 => n -= t.pop_nearest_neighbor(p).map_or(0, |x| (sum += x.touch(), 1).1),
            6 => n -= t.drain_in_envelope_intersecting(q).take(k).map(|x| sum += x.touch()).count(),
            7 => n -= t.drain_within_distance(p, M::num(9)).take(k).map(|x| sum += x.touch()).count(),
            8 => n -= t.drain_with_selection_function(Nth(2)).take(k).map(|x| sum += x.touch()).count(),
            9 => {
                sum += t.locate_in_envelope(q.clone()).chain(t.locate_all_at_point(p)).chain(t.locate_within_distance(p, M::num(5))).map(M::touch).sum::<usize>();
                sum += t.locate_in_envelope_mut(q.clone()).map(|x| x.touch()).sum::<usize>();
                sum += t.locate_in_envelope_intersecting_mut(q).map(|x| x.touch()).sum::<usize>();
                let all: Vec<&mut M> = t.iter_mut().collect();
                assert_eq!(all.len(), n);
                sum += all.into_iter().map(|x| x.touch()).sum::<usize>();
            }
            10 => {
                let v: Vec<_> = t.nearest_neighbor_iter_with_distance_2(p).take(k).collect();
                assert_eq!(v.len(), k.min(n));
                sum += v.iter().map(|x| x.0.touch()).sum::<usize>();
                sum += t.nearest_neighbor(p).map_or(0, M::touch);
                sum += t.nearest_neighbors(&p).into_iter().map(M::touch).sum::<usize>();
            }
            11 => {
                let c = t.clone();
                sum += c.into_iter().take(k).map(|x| x.touch()).sum::<usize>();
            }
            12 => {
                sum += format!("{t:?}").len();
                let u: RTree<M> = RTree::bulk_load(t.iter().take(6).cloned().collect());
                sum += t.intersection_candidates_with_other_tree(&u).map(|(a, b)| a.touch() + b.touch()).sum::<usize>();
            }
            13 => {
                let mut m = 0;
                let b = t.locate_in_envelope_int_mut(q, |x| {
                    m += x.touch();
                    if m > 20 {
                        std::ops::ControlFlow::Break(m)
                    } else {
                        std::ops::ControlFlow::Continue(())
                    }
                });
                sum += matches!(b, std::ops::ControlFlow::Break(_)) as usize;
                sum += t.locate_at_point_mut(p).map_or(0, |x| x.touch());
            }
            _ => {
                if r.below(4) == 0 {
                    // Memory is leaked here, deliberately
                    let mut d = t.drain();
                    let got = d.by_ref().take(k).count();
                    if got < k {
                        n = 0;
                    } else {
                        std::mem::forget(d);
                        n = 0;
                    }
                } else {
                    let got = t.drain().take(k).count();
                    assert_eq!(got, k.min(n));
                    n -= got;
                }
            }
        }
        assert_eq!(t.size(), n, "size");
        assert_eq!(t.iter().count(), n, "contents");
    }
    sum
}

fn case(seed: u64, index: usize, steps: usize) -> usize {
    let mut r = Rng(seed);
    match index % 5 {
        0 => history::<Heap<[f64; 2]>>(&mut r, steps),
        1 => history::<Heap<[i32; 3]>>(&mut r, steps),
        2 => history::<[f32; 2]>(&mut r, steps),
        3 => history::<GeomWithData<CachedEnvelope<Rectangle<(i64, i64)>>, String>>(&mut r, steps),
        _ => history::<Line<[f64; 2]>>(&mut r, steps),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |k: &str| {
        let i = args.iter().position(|a| a == k).expect("usage");
        args[i + 1].clone()
    };
    if args[1] == "case" {
        let (seed, index) = (args[4].parse().unwrap(), args[5].parse().unwrap());
        let thorough = args[6] == "thorough";
        match std::panic::catch_unwind(|| case(seed, index, if thorough { 40 } else { 20 })) {
            Ok(_) => println!("CASE-OK"),
            Err(_) => {
                println!("CASE-VIOLATION unexpected panic under the interpreter");
                std::process::exit(1);
            }
        }
        return;
    }
    let thorough = arg("--tier") == "thorough";
    let seed: u64 = arg("--seed").parse().unwrap();
    let shard: usize = arg("--shard").parse().unwrap();
    let stop: f64 = arg("--stop-after").parse().unwrap();
    let (out, slots) = (arg("--out"), arg("--slots"));
    let planned = if thorough { 400 } else { 10 };
    let steps = if thorough { 40 } else { 20 };
    let start = Instant::now();
    let mut done = 0;
    let mut failed = None;
    for i in 0..planned {
        if start.elapsed().as_secs_f64() > stop {
            break;
        }
        let mut r = Rng(seed ^ (shard as u64) << 40 ^ (i as u64) << 20);
        let cs = r.next();
        std::fs::write(&slots, format!("interpreted {cs} {i}\n")).unwrap();
        if std::panic::catch_unwind(|| case(cs, i, steps)).is_err() {
            failed = Some((cs, i));
            break;
        }
        done += 1;
    }
    let v = match failed {
        Some((cs, i)) => format!(
            "{{\"scenario\":\"interpreted\",\"case_seed\":{cs},\"index\":{i},\"message\":\"unexpected panic under the interpreter\",\"history\":[]}}"
        ),
        None => "null".into(),
    };
    let evals = done * steps;
    let text = format!(
        "{{\"cases\":{done},\"planned\":{planned},\"evals\":{evals},\"distinct\":{done},\"rule\":\"a history of operations interpreted with checks for undefined behaviour; distinct by seed\",\"wall\":{:.1},\"scenarios\":{{\"interpreted\":{done}}},\"counters\":{{\"interpreted_operations\":{evals}}},\"maxima\":{{}},\"distinct_sets\":{{}},\"samples\":[],\"missing\":[],\"violation\":{v},\"hang\":null}}\n",
        start.elapsed().as_secs_f64()
    );
    std::fs::write(out, text).unwrap();
}
