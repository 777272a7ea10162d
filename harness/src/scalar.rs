//! Scalars of the trees under test and their exact correspondence to grid coordinates.
use crate::spec::{D2, D2_INF, FRAC, NEG, POS};
use crate::viol;
use rstar::RTreeNum;
use std::num::Wrapping;

/// The grid of a tree: coordinate = grid value * 2^exp (exp is 0 for integers)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Grid {
    pub exp: i32,
}

pub trait HScalar: RTreeNum + Send + Sync + 'static {
    const FLOAT: bool;
    /// Largest value of the type (for floats: the largest at which the grid is exact)
    const LIMIT: i128;
    const NAME: &'static str;
    const EXP_RANGE: (i32, i32) = (0, 0);
    fn from_grid(v: i64, g: Grid) -> Self;
    /// Reads back a coordinate; NEG/POS for the extreme values of the type
    fn to_grid(self, g: Grid) -> i64;
    fn dist(d: D2, g: Grid) -> Self;
    fn to_d2(self, g: Grid) -> D2;
    fn as_f64(self) -> f64;
}

fn pow2(e: i32) -> f64 {
    f64::powi(2.0, e)
}

macro_rules! float {
    ($t:ty, $mant:expr, $range:expr) => {
        impl HScalar for $t {
            const FLOAT: bool = true;
            const LIMIT: i128 = 1 << $mant;
            const NAME: &'static str = stringify!($t);
            const EXP_RANGE: (i32, i32) = $range;
            fn as_f64(self) -> f64 {
                self as f64
            }
            fn from_grid(v: i64, g: Grid) -> Self {
                match v {
                    NEG => {
                        if g.exp & 1 == 0 {
                            <$t>::NEG_INFINITY
                        } else {
                            <$t>::MIN
                        }
                    }
                    POS => {
                        if g.exp & 1 == 0 {
                            <$t>::INFINITY
                        } else {
                            <$t>::MAX
                        }
                    }
                    v => (v as f64 * pow2(g.exp)) as $t,
                }
            }
            fn to_grid(self, g: Grid) -> i64 {
                if self <= <$t>::MIN {
                    return NEG;
                }
                if self >= <$t>::MAX {
                    return POS;
                }
                let v = self as f64 / pow2(g.exp);
                if v != v.trunc() || v.abs() > 9e15 {
                    viol!("a stored coordinate is {:?}, which is not any coordinate put in (grid 2^{})", self, g.exp);
                }
                v as i64
            }
            fn dist(d: D2, g: Grid) -> Self {
                if d == D2_INF {
                    return if g.exp & 1 == 0 { <$t>::INFINITY } else { <$t>::MAX };
                }
                (d as f64 / (1u64 << FRAC) as f64 * pow2(g.exp) * pow2(g.exp)) as $t
            }
            fn to_d2(self, g: Grid) -> D2 {
                let v = self as f64 / pow2(g.exp) / pow2(g.exp) * (1u64 << FRAC) as f64;
                if v != v.trunc() {
                    viol!("a reported squared distance is {:?}, which cannot be the distance of any element (grid 2^{})", self, g.exp);
                }
                v as i128
            }
        }
    };
}
float!(f32, 23, (-12, 12));
float!(f64, 52, (-40, 40));

macro_rules! int {
    ($($t:ty),*) => {$(
        impl HScalar for $t {
            const FLOAT: bool = false;
            const LIMIT: i128 = <$t>::MAX as i128;
            const NAME: &'static str = stringify!($t);
            fn as_f64(self) -> f64 {
                self as f64
            }
            fn from_grid(v: i64, _: Grid) -> Self {
                match v {
                    NEG => <$t>::MIN,
                    POS => <$t>::MAX,
                    v => v as $t,
                }
            }
            fn to_grid(self, _: Grid) -> i64 {
                match self {
                    <$t>::MIN => NEG,
                    <$t>::MAX => POS,
                    v => v as i64,
                }
            }
            fn dist(d: D2, _: Grid) -> Self {
                if d == D2_INF {
                    return <$t>::MAX;
                }
                (d >> FRAC) as $t
            }
            fn to_d2(self, _: Grid) -> D2 {
                (self as i128) << FRAC
            }
        }
    )*};
}
int!(i8, i16, i32, i64, isize, i128);

macro_rules! wrapping {
    ($($t:ty),*) => {$(
        impl HScalar for Wrapping<$t> {
            const FLOAT: bool = false;
            const LIMIT: i128 = <$t>::MAX as i128;
            const NAME: &'static str = concat!("Wrapping<", stringify!($t), ">");
            fn as_f64(self) -> f64 {
                self.0 as f64
            }
            fn from_grid(v: i64, g: Grid) -> Self {
                Wrapping(<$t as HScalar>::from_grid(v, g))
            }
            fn to_grid(self, g: Grid) -> i64 {
                self.0.to_grid(g)
            }
            fn dist(d: D2, g: Grid) -> Self {
                Wrapping(<$t as HScalar>::dist(d, g))
            }
            fn to_d2(self, g: Grid) -> D2 {
                HScalar::to_d2(self.0, g)
            }
        }
    )*};
}
wrapping!(i8, i16, i32, i64, i128, isize);

/// The largest extent E such that coordinates in -E/2..=E/2 and query points in -E..=E cannot
/// overflow (integers) or round (floats) in distance computations, and cannot overflow in the
/// area and overlap computations of integer trees.
pub fn span<S: HScalar>(d: usize, max_size: usize, lines: bool) -> i64 {
    let root = |x: i128, k: u32| -> i128 {
        let mut r = (x as f64).powf(1.0 / k as f64) as i128 + 2;
        while r > 0 && r.checked_pow(k).is_none_or(|v| v > x) {
            r -= 1;
        }
        r
    };
    let dist = root(S::LIMIT / (4 * d as i128), 2);
    let e = if S::FLOAT {
        dist
    } else {
        let width = max_size.max(1 << d) as i128 + 2;
        dist.min(root(S::LIMIT / width, d as u32))
    };
    let cap = if lines { 1 << 11 } else { 1 << 20 };
    e.clamp(1, cap) as i64
}
