//! A user-supplied number type: an f64 whose conversions may fail and whose arithmetic is a fault point.
use crate::cx;
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy, Debug, Default)]
pub struct SimVal(pub f64);
impl qlab_math::value::Value for SimVal {}

impl fmt::Display for SimVal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq for SimVal {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for SimVal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        cx::arith();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! bin {
    ($t:ident $f:ident $ta:ident $fa:ident) => {
        impl $t for SimVal {
            type Output = SimVal;
            fn $f(self, o: SimVal) -> SimVal {
                cx::arith();
                SimVal($t::$f(self.0, o.0))
            }
        }
        impl $ta for SimVal {
            fn $fa(&mut self, o: SimVal) {
                cx::arith();
                $ta::$fa(&mut self.0, o.0);
            }
        }
    };
}
bin!(Add add AddAssign add_assign);
bin!(Sub sub SubAssign sub_assign);
bin!(Mul mul MulAssign mul_assign);
bin!(Div div DivAssign div_assign);
bin!(Rem rem RemAssign rem_assign);
impl Neg for SimVal {
    type Output = SimVal;
    fn neg(self) -> SimVal {
        cx::arith();
        SimVal(-self.0)
    }
}
impl Zero for SimVal {
    fn zero() -> Self {
        SimVal(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for SimVal {
    fn one() -> Self {
        SimVal(1.0)
    }
}
impl Num for SimVal {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(SimVal)
    }
}
impl std::iter::Sum for SimVal {
    fn sum<I: Iterator<Item = SimVal>>(i: I) -> SimVal {
        i.fold(SimVal(0.0), |a, b| a + b)
    }
}
impl ToPrimitive for SimVal {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
fn conv(n: i64, v: f64) -> Option<SimVal> {
    if cx::cast_ok(n) {
        Some(SimVal(v))
    } else {
        None
    }
}
impl FromPrimitive for SimVal {
    fn from_i64(n: i64) -> Option<Self> {
        conv(n, n as f64)
    }
    fn from_u64(n: u64) -> Option<Self> {
        conv(n.min(i64::MAX as u64) as i64, n as f64)
    }
    fn from_f64(n: f64) -> Option<Self> {
        conv(n as i64, n)
    }
    fn from_f32(n: f32) -> Option<Self> {
        conv(n as i64, n as f64)
    }
}
impl NumCast for SimVal {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        let v = n.to_f64()?;
        conv(v as i64, v)
    }
}
macro_rules! un {
    ($($f:ident)*) => { $(fn $f(self) -> Self { cx::arith(); SimVal(Real::$f(self.0)) })* };
}
macro_rules! un2 {
    ($($f:ident)*) => { $(fn $f(self, o: Self) -> Self { cx::arith(); SimVal(Real::$f(self.0, o.0)) })* };
}
impl Real for SimVal {
    fn min_value() -> Self {
        SimVal(f64::MIN)
    }
    fn min_positive_value() -> Self {
        SimVal(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Self {
        SimVal(f64::EPSILON)
    }
    fn max_value() -> Self {
        SimVal(f64::MAX)
    }
    un!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    un2!(powf log max min abs_sub hypot atan2);
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        cx::arith();
        SimVal(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        cx::arith();
        SimVal(self.0.powi(n))
    }
    fn sin_cos(self) -> (Self, Self) {
        let (a, b) = self.0.sin_cos();
        (SimVal(a), SimVal(b))
    }
}
