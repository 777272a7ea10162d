//! The configurations histories run on: element kind x point type x scalar x dimension x parameters
#![cfg_attr(feature = "mini", allow(unused_imports, dead_code))]
use harness::custom::{Amount, Fixed};
use harness::kinds::*;
use harness::sut::{cfg, Cfg};
use mint::{Point2, Point3};
use rstar::DefaultParams as Df;
use std::num::Wrapping as W;

type A<S, const N: usize> = [S; N];
type T4<S> = (S, S, S, S);
type T10<S> = (S, S, S, S, S, S, S, S, S, S);

/// A few, for the build without debug assertions
#[cfg(feature = "mini")]
pub fn configs() -> Vec<Cfg> {
    vec![
        cfg::<Data<Pt<A<i32, 2>>>, Df>("point+data [i32;2] 3/6/2"),
        cfg::<Data<Rect<A<f64, 2>>>, Df>("rect+data [f64;2] 3/6/2"),
        cfg::<Data<Rect<A<i64, 3>>>, Pm<2, 4, 1>>("rect+data [i64;3] 2/4/1"),
        cfg::<Data<Rect<A<f64, 2>>>, Pm<1, 8, 6>>("rect+data [f64;2] 1/8/6"),
        cfg::<Bare<Cloud<A<f32, 2>>>, Pm<10, 20, 1>>("cloud [f32;2] 10/20/1"),
        cfg::<Data<Rect<A<i32, 2>>>, Pm<100, 300, 80>>("rect+data [i32;2] 100/300/80"),
    ]
}

#[cfg(not(feature = "mini"))]
pub fn configs() -> Vec<Cfg> {
    vec![
        cfg::<Data<Pt<A<i32, 2>>>, Df>("point+data [i32;2] 3/6/2"),
        cfg::<Data<Rect<A<f64, 2>>>, Df>("rect+data [f64;2] 3/6/2"),
        cfg::<Data<Rect<A<i64, 3>>>, Pm<2, 4, 1>>("rect+data [i64;3] 2/4/1"),
        cfg::<Data<Cloud<A<f64, 2>>>, Df>("cloud+data [f64;2] 3/6/2"),
        cfg::<Bare<Pt<A<f32, 2>>>, Df>("point [f32;2] 3/6/2"),
        cfg::<Bare<Pt<A<i32, 2>>>, Pm<1, 4, 0>>("point [i32;2] 1/4/0"),
        cfg::<Data<Pt<A<f64, 3>>>, Pm<1, 4, 2>>("point+data [f64;3] 1/4/2"),
        cfg::<Data<Rect<A<f64, 4>>>, Pm<3, 5, 1>>("rect+data [f64;4] 3/5/1"),
        cfg::<Data<Rect<A<i64, 2>>>, Pm<10, 20, 1>>("rect+data [i64;2] 10/20/1"),
        cfg::<Data<Pt<A<i16, 2>>>, Pm<2, 40, 1>>("point+data [i16;2] 2/40/1"),
        cfg::<Data<Rect<A<f64, 2>>>, Pm<20, 64, 20>>("rect+data [f64;2] 20/64/20"),
        cfg::<Data<Cloud<A<i64, 5>>>, Df>("cloud+data [i64;5] 3/6/2"),
        cfg::<Bare<Rect<A<f64, 7>>>, Df>("rect [f64;7] 3/6/2"),
        cfg::<Data<Pt<T10<i64>>>, Df>("point+data (i64;10) 3/6/2"),
        cfg::<Data<Rect<A<i8, 2>>>, Pm<2, 4, 1>>("rect+data [i8;2] 2/4/1"),
        cfg::<Data<Rect<A<W<i32>, 2>>>, Df>("rect+data [Wrapping<i32>;2] 3/6/2"),
        cfg::<Bare<Rect<(f64, f64)>>, Pm<1, 10, 1>>("rect (f64,f64) 1/10/1"),
        cfg::<Data<Pt<Point2<f32>>>, Df>("point+data mint::Point2<f32> 3/6/2"),
        cfg::<Data<Rect<Point3<i64>>>, Pm<4, 7, 2>>("rect+data mint::Point3<i64> 4/7/2"),
        cfg::<Data<Pt<Custom3<i64>>>, Df>("point+data Custom3<i64> 3/6/2"),
        cfg::<Cached<Data<Rect<A<f64, 2>>>>, Pm<3, 6, 0>>("CachedEnvelope<rect+data> [f64;2] 3/6/0"),
        cfg::<Shared<Data<Cloud<A<i32, 2>>>>, Df>("Arc<cloud+data> [i32;2] 3/6/2"),
        cfg::<Borrowed<Data<Rect<A<f64, 2>>>>, Pm<5, 9, 3>>("ObjectRef<rect+data> [f64;2] 5/9/3"),
        cfg::<RcShared<Cached<Data<Cloud<A<f64, 3>>>>>, Df>("Rc<CachedEnvelope<cloud+data>> [f64;3] 3/6/2"),
        cfg::<Wrap<Shared<Data<Pt<T4<f32>>>>>, Pm<1, 5, 1>>("GeomWithData<Arc<point+data>> (f32;4) 1/5/1"),
        cfg::<Data<Seg<A<f64, 2>>>, Df>("line+data [f64;2] 3/6/2"),
        cfg::<Data<Seg<A<f64, 3>>>, Pm<4, 8, 3>>("line+data [f64;3] 4/8/3"),
        cfg::<Pwd<A<f64, 2>>, Df>("PointWithData [f64;2] 3/6/2"),
        cfg::<Bare<Cloud<A<i128, 2>>>, Pm<4, 8, 0>>("cloud [i128;2] 4/8/0"),
        cfg::<Data<Rect<A<isize, 3>>>, Pm<6, 12, 5>>("rect+data [isize;3] 6/12/5"),
        cfg::<Data<Rect<A<f64, 2>>>, Pm<1, 8, 6>>("rect+data [f64;2] 1/8/6"),
        cfg::<Data<Pt<A<i32, 2>>>, Pm<2, 16, 13>>("point+data [i32;2] 2/16/13"),
        cfg::<Bare<Rect<A<i64, 2>>>, Pm<7, 13, 5>>("rect [i64;2] 7/13/5"),
        cfg::<Data<Rect<A<Amount, 2>>>, Df>("rect+data [Amount;2] 3/6/2"),
        cfg::<Data<Cloud<(Fixed, Fixed)>>, Pm<2, 6, 2>>("cloud+data (Fixed,Fixed) 2/6/2"),
        cfg::<Data<Rect<A<i32, 2>>>, Pm<100, 300, 80>>("rect+data [i32;2] 100/300/80"),
    ]
}
