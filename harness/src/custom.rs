//! User-defined scalars: rstar accepts every type with the num-traits interface.
use crate::scalar::{Grid, HScalar};
use crate::spec::{D2, D2_INF, FRAC, NEG, POS};
use num_traits::{Bounded, Num, One, Signed, Zero};
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

/// An amount within declared bounds. Every result outside of them is a panic, so that nothing may be computed with the
/// extreme values and no intermediate result may be larger than needed.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Amount(i64);
const AMOUNT_MAX: i64 = 1 << 40;

/// A fixed-point number with 20 fractional bits
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Fixed(i128);
const BITS: u32 = 20;

fn amount(x: Option<i64>) -> Amount {
    match x {
        Some(v) if v.abs() <= AMOUNT_MAX => Amount(v),
        _ => panic!("an amount is out of its bounds"),
    }
}
macro_rules! ops {
    ($t:ident, $a:ident, $b:ident, $add:expr, $sub:expr, $mul:expr, $div:expr, $rem:expr, $zero:expr, $one:expr, $min:expr, $max:expr) => {
        impl Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                let ($a, $b) = (self.0, o.0);
                $add
            }
        }
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                let ($a, $b) = (self.0, o.0);
                $sub
            }
        }
        impl Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                let ($a, $b) = (self.0, o.0);
                $mul
            }
        }
        impl Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                let ($a, $b) = (self.0, o.0);
                $div
            }
        }
        impl Rem for $t {
            type Output = $t;
            fn rem(self, o: $t) -> $t {
                let ($a, $b) = (self.0, o.0);
                $rem
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t(-self.0)
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $t($zero)
            }
            fn is_zero(&self) -> bool {
                self.0 == $zero
            }
        }
        impl One for $t {
            fn one() -> $t {
                $t($one)
            }
        }
        impl Bounded for $t {
            fn min_value() -> $t {
                $t($min)
            }
            fn max_value() -> $t {
                $t($max)
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$t, ()> {
                Err(())
            }
        }
        impl Signed for $t {
            fn abs(&self) -> $t {
                $t(self.0.abs())
            }
            fn abs_sub(&self, o: &$t) -> $t {
                if self <= o {
                    $t($zero)
                } else {
                    *self - *o
                }
            }
            fn signum(&self) -> $t {
                $t(self.0.signum() * $one)
            }
            fn is_positive(&self) -> bool {
                self.0 > $zero
            }
            fn is_negative(&self) -> bool {
                self.0 < $zero
            }
        }
    };
}
ops!(Amount, a, b, amount(a.checked_add(b)), amount(a.checked_sub(b)), amount(a.checked_mul(b)), amount(a.checked_div(b)), amount(a.checked_rem(b)), 0, 1, -AMOUNT_MAX, AMOUNT_MAX);
ops!(Fixed, a, b, Fixed(a + b), Fixed(a - b), Fixed((a * b) >> BITS), Fixed((a << BITS) / b), Fixed(a % b), 0, 1 << BITS, -(1i128 << 100), 1i128 << 100);

impl HScalar for Amount {
    const FLOAT: bool = false;
    const LIMIT: i128 = AMOUNT_MAX as i128;
    const NAME: &'static str = "Amount";
    fn from_grid(v: i64, _: Grid) -> Self {
        match v {
            NEG => Amount(-AMOUNT_MAX),
            POS => Amount(AMOUNT_MAX),
            v => Amount(v),
        }
    }
    fn to_grid(self, _: Grid) -> i64 {
        match self.0 {
            v if v == -AMOUNT_MAX => NEG,
            v if v == AMOUNT_MAX => POS,
            v => v,
        }
    }
    fn dist(d: D2, _: Grid) -> Self {
        if d == D2_INF {
            return Amount(AMOUNT_MAX);
        }
        Amount((d >> FRAC) as i64)
    }
    fn to_d2(self, _: Grid) -> D2 {
        (self.0 as i128) << FRAC
    }
    fn as_f64(self) -> f64 {
        self.0 as f64
    }
}

fn shift(v: i128, by: i32) -> i128 {
    if by >= 0 {
        v << by
    } else {
        crate::ensure!(v & ((1 << -by) - 1) == 0, "a fixed-point number is not on its grid");
        v >> -by
    }
}
/// Coordinates are multiples of 2^exp
impl HScalar for Fixed {
    const FLOAT: bool = false;
    const LIMIT: i128 = 1 << 52;
    const NAME: &'static str = "Fixed";
    const EXP_RANGE: (i32, i32) = (-8, 8);
    fn from_grid(v: i64, g: Grid) -> Self {
        match v {
            NEG => Fixed::min_value(),
            POS => Fixed::max_value(),
            v => Fixed(shift(v as i128, BITS as i32 + g.exp)),
        }
    }
    fn to_grid(self, g: Grid) -> i64 {
        if self == Fixed::min_value() {
            return NEG;
        }
        if self == Fixed::max_value() {
            return POS;
        }
        shift(self.0, -(BITS as i32) - g.exp) as i64
    }
    fn dist(d: D2, g: Grid) -> Self {
        if d == D2_INF {
            return Fixed::max_value();
        }
        Fixed(shift(d >> FRAC, BITS as i32 + 2 * g.exp))
    }
    fn to_d2(self, g: Grid) -> D2 {
        shift(self.0, -(BITS as i32) - 2 * g.exp) << FRAC
    }
    fn as_f64(self) -> f64 {
        self.0 as f64 / (1u64 << BITS) as f64
    }
}
