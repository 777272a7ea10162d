//! C12: joins of trees with different element types, parameters, sizes and depths
use harness::gen;
use harness::kinds::*;
use harness::rng::combine;
use harness::runner::*;
use harness::scalar::{span, Grid, HScalar};
use harness::spec::*;
use harness::sut::{obs, Registry};
use harness::world::pick_n;
use harness::{ensure, viol};
use rstar::{DefaultParams, Point, RTree, RTreeParams};

type P2<S> = [S; 2];
type P3<S> = [S; 3];

struct Side<K: Kind, R: RTreeParams> {
    tree: RTree<K::T, R>,
    specs: Vec<Spec>,
}

/// A reachable tree together with what it holds
fn side<K: Kind, R: RTreeParams>(ctx: &mut Ctx, reg: &mut Registry, g: Grid, n: usize, d: usize, e: i64) -> Side<K, R> {
    let pattern = ctx.rng.below(gen::PATTERNS.len());
    let extra = if ctx.rng.chance(1, 3) { n / 2 } else { 0 };
    let mut specs: Vec<Spec> = gen::elements(&mut ctx.rng, K::G::SHAPE, pattern, n + extra, d, e, 2)
        .into_iter()
        .map(|s| reg.add(s, K::TAGGED))
        .collect();
    let mut tree: RTree<K::T, R> = match ctx.rng.below(3) {
        0 => RTree::bulk_load_with_params(specs.iter().map(|s| K::build(s, g)).collect()),
        1 => {
            let mut t = RTree::new_with_params();
            specs.iter().for_each(|s| t.insert(K::build(s, g)));
            t
        }
        _ => {
            let k = ctx.rng.below(specs.len() + 1);
            let mut t = RTree::bulk_load_with_params(specs[..k].iter().map(|s| K::build(s, g)).collect());
            specs[k..].iter().for_each(|s| t.insert(K::build(s, g)));
            t
        }
    };
    for _ in 0..extra {
        let s = specs.swap_remove(ctx.rng.below(specs.len()));
        let got = tree.remove(&K::build(&s, g));
        let Some(t) = got else { viol!("remove found nothing although an equal element is stored") };
        let key = obs::<K>(reg, g, &t);
        if key != s.key {
            // An equal element was removed instead
            let i = specs.iter().position(|x| x.key == key).unwrap_or_else(|| viol!("remove returned an element which is not stored"));
            specs[i] = s;
        }
    }
    Side { tree, specs }
}

fn judge(ctx: &mut Ctx, what: &str, mut got: Vec<(u32, u32)>, a: &[Spec], b: &[Spec], d: usize) -> usize {
    let mut expect = vec![];
    for s in a {
        for o in b {
            if (0..d).all(|i| s.lo[i] <= o.hi[i] && o.lo[i] <= s.hi[i]) {
                expect.push((s.key, o.key));
            }
        }
    }
    got.sort_unstable();
    expect.sort_unstable();
    if got != expect {
        let miss = expect.iter().find(|p| got.binary_search(p).is_err());
        let extra = got.iter().find(|p| expect.binary_search(p).is_err());
        viol!(
            "{}: join of {} with {} elements yields {} pairs instead of {}; missing {:?}, not intersecting {:?}",
            what, a.len(), b.len(), got.len(), expect.len(), miss, extra
        );
    }
    ctx.evals += 1;
    ctx.count("joins", 1);
    ctx.count("join_pairs", expect.len() as u64);
    expect.len()
}

fn pair<K1: Kind, K2: Kind, R: RTreeParams>(ctx: &mut Ctx)
where
    K2::G: Geo<P = <K1::G as Geo>::P>,
    K1::T: rstar::RTreeObject<Envelope = rstar::AABB<<K1::G as Geo>::P>>,
    K2::T: rstar::RTreeObject<Envelope = rstar::AABB<<K1::G as Geo>::P>>,
{
    let d = <<K1::G as Geo>::P as Point>::DIMENSIONS;
    let lines = K1::G::SHAPE == ShapeKind::Line || K2::G::SHAPE == ShapeKind::Line;
    let e = span::<Sc<<K1::G as Geo>::P>>(d, R::MAX_SIZE.max(6), lines);
    let (x, y) = <Sc<<K1::G as Geo>::P> as HScalar>::EXP_RANGE;
    let g = Grid { exp: ctx.rng.range(x as i64, y as i64) as i32 };
    let mut reg = Registry::default();
    // Depths differ most if one side is tiny
    let (n, m) = match ctx.rng.below(5) {
        0 => (ctx.rng.below(8), 100 + ctx.rng.below(900)),
        1 => (100 + ctx.rng.below(900), ctx.rng.below(8)),
        2 => (1, 1 + ctx.rng.below(300)),
        _ => (pick_n(&mut ctx.rng, 200), pick_n(&mut ctx.rng, 200)),
    };
    let a = side::<K1, R>(ctx, &mut reg, g, n, d, e);
    let b = side::<K2, DefaultParams>(ctx, &mut reg, g, m, d, e);
    ctx.sample = format!("{} elements of {} with {} of {}", a.specs.len(), std::any::type_name::<K1::T>(), b.specs.len(), std::any::type_name::<K2::T>());
    let limit = (a.specs.len() + 8) * (b.specs.len() + 8);
    let got: Vec<_> = a
        .tree
        .intersection_candidates_with_other_tree(&b.tree)
        .take(limit)
        .map(|(s, t)| (obs::<K1>(&reg, g, s), obs::<K2>(&reg, g, t)))
        .collect();
    ensure!(got.len() < limit, "a join does not end");
    let pairs = judge(ctx, "mixed", got, &a.specs, &b.specs, d);
    // The first pairs only
    let k = ctx.rng.below(pairs + 2);
    let got = a.tree.intersection_candidates_with_other_tree(&b.tree).take(k).count();
    ensure!(got == k.min(pairs), "the first {} of {} pairs are {}", k, pairs, got);
    // With itself
    let limit = (b.specs.len() + 8) * (b.specs.len() + 8);
    if b.specs.len() <= 400 {
        let got: Vec<_> = b
            .tree
            .intersection_candidates_with_other_tree(&b.tree)
            .take(limit)
            .map(|(s, t)| (obs::<K2>(&reg, g, s), obs::<K2>(&reg, g, t)))
            .collect();
        ensure!(got.len() < limit, "a join does not end");
        judge(ctx, "with itself", got, &b.specs, &b.specs, d);
        ctx.count("self_joins", 1);
    }
    // Swapped and with an empty tree
    let swapped: RTree<K1::T> = RTree::bulk_load(a.specs.iter().map(|s| K1::build(s, g)).collect());
    let limit = (a.specs.len() + 8) * (b.specs.len() + 8);
    let got: Vec<_> = b
        .tree
        .intersection_candidates_with_other_tree(&swapped)
        .take(limit)
        .map(|(s, t)| (obs::<K2>(&reg, g, s), obs::<K1>(&reg, g, t)))
        .collect();
    judge(ctx, "swapped", got, &b.specs, &a.specs, d);
    let empty: RTree<K1::T> = RTree::new();
    ensure!(b.tree.intersection_candidates_with_other_tree(&empty).next().is_none(), "a join with an empty tree yields something");
    ensure!(empty.intersection_candidates_with_other_tree(&b.tree).next().is_none(), "a join of an empty tree yields something");
    let (h1, h2) = (height(a.tree.root()), height(b.tree.root()));
    ctx.max("max_depth_difference", h1.abs_diff(h2) as u64);
    ctx.distinct("depth_pairs", combine(h1, h2));
    if h1 != h2 {
        ctx.count("joins_of_different_depth", 1);
    }
    if pairs > 0 && h1.max(h2) > 1 {
        ctx.fingerprints.push(combine(ctx.seed, pairs as u64));
    }
}

fn height<T: rstar::RTreeObject>(n: &rstar::ParentNode<T>) -> u64 {
    match n.children().first() {
        Some(rstar::RTreeNode::Parent(p)) => 1 + height(p),
        _ => 1,
    }
}

fn mixed(ctx: &mut Ctx) {
    type Df = DefaultParams;
    let fs: [CaseFn; 14] = [
        pair::<Data<Pt<P2<f64>>>, Data<Rect<P2<f64>>>, Df>,
        pair::<Data<Rect<P2<f64>>>, Bare<Pt<P2<f64>>>, Pm<2, 4, 1>>,
        pair::<Data<Rect<P2<f64>>>, Data<Seg<P2<f64>>>, Df>,
        pair::<Bare<Rect<P2<f64>>>, Data<Cloud<P2<f64>>>, Pm<5, 12, 3>>,
        pair::<Data<Cloud<P2<i32>>>, Bare<Rect<P2<i32>>>, Df>,
        pair::<Data<Rect<P2<i32>>>, Cached<Data<Rect<P2<i32>>>>, Pm<1, 4, 0>>,
        pair::<Shared<Data<Rect<P3<f32>>>>, Data<Pt<P3<f32>>>, Df>,
        pair::<Data<Rect<P3<i64>>>, Data<Cloud<P3<i64>>>, Pm<2, 30, 2>>,
        pair::<Pwd<P3<i64>>, Data<Rect<P3<i64>>>, Pm<3, 5, 1>>,
        pair::<Data<Rect<[f64; 5]>>, Data<Pt<[f64; 5]>>, Df>,
        pair::<Data<Rect<(i64, i64)>>, Data<Pt<(i64, i64)>>, Df>,
        pair::<Data<Rect<mint::Point2<f64>>>, Bare<Rect<mint::Point2<f64>>>, Df>,
        pair::<Data<Rect<P2<f64>>>, Borrowed<Data<Rect<P2<f64>>>>, Pm<16, 40, 10>>,
        pair::<Data<Rect<P2<std::num::Wrapping<i32>>>>, Data<Pt<P2<std::num::Wrapping<i32>>>>, Df>,
    ];
    fs[ctx.index % fs.len()](ctx)
}

fn main() {
    harness::runner::main(vec![Property {
        id: "C12",
        rule: "seed and number of pairs of joins of non-empty trees, at least one of several levels, with at least one intersecting pair",
        scenarios: vec![sc("mixed-types", 5600, 100_000, mixed)],
        required: &[("joins", 3000), ("join_pairs", 10_000), ("joins_of_different_depth", 300), ("depth_pairs", 10), ("self_joins", 300)],
    }]);
}
