//! A coordinate type that counts the operations done on it.
use num_traits::{Bounded, Float, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn tick() {
    OPS.with(|c| c.set(c.get() + 1));
}
pub fn ops() -> u64 {
    OPS.with(|c| c.get())
}

#[derive(Clone, Copy, Debug)]
pub struct Counted(pub f64);

impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &Self) -> bool {
        tick();
        self.0 < o.0
    }
    fn le(&self, o: &Self) -> bool {
        tick();
        self.0 <= o.0
    }
    fn gt(&self, o: &Self) -> bool {
        tick();
        self.0 > o.0
    }
    fn ge(&self, o: &Self) -> bool {
        tick();
        self.0 >= o.0
    }
}
impl Add for Counted {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        tick();
        Counted(self.0 + o.0)
    }
}
impl Sub for Counted {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        tick();
        Counted(self.0 - o.0)
    }
}
impl Mul for Counted {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        tick();
        Counted(self.0 * o.0)
    }
}
impl Div for Counted {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        tick();
        Counted(self.0 / o.0)
    }
}
impl Rem for Counted {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        tick();
        Counted(self.0 % o.0)
    }
}
impl Neg for Counted {
    type Output = Self;
    fn neg(self) -> Self {
        Counted(-self.0)
    }
}
impl Zero for Counted {
    fn zero() -> Self {
        Counted(0.0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0.0
    }
}
impl One for Counted {
    fn one() -> Self {
        Counted(1.0)
    }
}
impl Num for Counted {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(Counted)
    }
}
impl ToPrimitive for Counted {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_u32(&self) -> Option<u32> {
        self.0.to_u32()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Counted {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(Counted)
    }
}
impl FromPrimitive for Counted {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Counted(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Counted(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Counted(n))
    }
}
impl Bounded for Counted {
    fn min_value() -> Self {
        Counted(f64::MIN)
    }
    fn max_value() -> Self {
        Counted(f64::MAX)
    }
}
impl Signed for Counted {
    fn abs(&self) -> Self {
        tick();
        Counted(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        tick();
        Counted((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Self {
        tick();
        Counted(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        tick();
        Signed::is_positive(&self.0)
    }
    fn is_negative(&self) -> bool {
        tick();
        Signed::is_negative(&self.0)
    }
}
impl Sum for Counted {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Counted(0.0), |a, b| a + b)
    }
}
impl Float for Counted {
    fn nan() -> Self {
        Counted(f64::NAN)
    }
    fn infinity() -> Self {
        Counted(f64::INFINITY)
    }
    fn neg_infinity() -> Self {
        Counted(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Self {
        Counted(-0.0)
    }
    fn min_value() -> Self {
        Counted(f64::MIN)
    }
    fn min_positive_value() -> Self {
        Counted(f64::MIN_POSITIVE)
    }
    fn max_value() -> Self {
        Counted(f64::MAX)
    }
    fn epsilon() -> Self {
        Counted(f64::EPSILON)
    }
    fn is_nan(self) -> bool {
        self.0.is_nan()
    }
    fn is_infinite(self) -> bool {
        self.0.is_infinite()
    }
    fn is_finite(self) -> bool {
        self.0.is_finite()
    }
    fn is_normal(self) -> bool {
        self.0.is_normal()
    }
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn floor(self) -> Self {
        tick();
        Counted(self.0.floor())
    }
    fn ceil(self) -> Self {
        tick();
        Counted(self.0.ceil())
    }
    fn round(self) -> Self {
        tick();
        Counted(self.0.round())
    }
    fn trunc(self) -> Self {
        tick();
        Counted(self.0.trunc())
    }
    fn fract(self) -> Self {
        tick();
        Counted(self.0.fract())
    }
    fn abs(self) -> Self {
        tick();
        Counted(self.0.abs())
    }
    fn signum(self) -> Self {
        tick();
        Counted(self.0.signum())
    }
    fn recip(self) -> Self {
        tick();
        Counted(self.0.recip())
    }
    fn sqrt(self) -> Self {
        tick();
        Counted(self.0.sqrt())
    }
    fn exp(self) -> Self {
        tick();
        Counted(self.0.exp())
    }
    fn exp2(self) -> Self {
        tick();
        Counted(self.0.exp2())
    }
    fn ln(self) -> Self {
        tick();
        Counted(self.0.ln())
    }
    fn log2(self) -> Self {
        tick();
        Counted(self.0.log2())
    }
    fn log10(self) -> Self {
        tick();
        Counted(self.0.log10())
    }
    fn cbrt(self) -> Self {
        tick();
        Counted(self.0.cbrt())
    }
    fn sin(self) -> Self {
        tick();
        Counted(self.0.sin())
    }
    fn cos(self) -> Self {
        tick();
        Counted(self.0.cos())
    }
    fn tan(self) -> Self {
        tick();
        Counted(self.0.tan())
    }
    fn asin(self) -> Self {
        tick();
        Counted(self.0.asin())
    }
    fn acos(self) -> Self {
        tick();
        Counted(self.0.acos())
    }
    fn atan(self) -> Self {
        tick();
        Counted(self.0.atan())
    }
    fn exp_m1(self) -> Self {
        tick();
        Counted(self.0.exp_m1())
    }
    fn ln_1p(self) -> Self {
        tick();
        Counted(self.0.ln_1p())
    }
    fn sinh(self) -> Self {
        tick();
        Counted(self.0.sinh())
    }
    fn cosh(self) -> Self {
        tick();
        Counted(self.0.cosh())
    }
    fn tanh(self) -> Self {
        tick();
        Counted(self.0.tanh())
    }
    fn asinh(self) -> Self {
        tick();
        Counted(self.0.asinh())
    }
    fn acosh(self) -> Self {
        tick();
        Counted(self.0.acosh())
    }
    fn atanh(self) -> Self {
        tick();
        Counted(self.0.atanh())
    }
    fn powf(self, o: Self) -> Self {
        tick();
        Counted(self.0.powf(o.0))
    }
    fn log(self, o: Self) -> Self {
        tick();
        Counted(self.0.log(o.0))
    }
    fn atan2(self, o: Self) -> Self {
        tick();
        Counted(self.0.atan2(o.0))
    }
    fn hypot(self, o: Self) -> Self {
        tick();
        Counted(self.0.hypot(o.0))
    }
    fn min(self, o: Self) -> Self {
        tick();
        Counted(self.0.min(o.0))
    }
    fn max(self, o: Self) -> Self {
        tick();
        Counted(self.0.max(o.0))
    }
    fn abs_sub(self, o: Self) -> Self {
        tick();
        Counted((self.0 - o.0).max(0.0))
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        tick();
        Counted(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        tick();
        Counted(self.0.powi(n))
    }
    fn sin_cos(self) -> (Self, Self) {
        tick();
        (Counted(self.0.sin()), Counted(self.0.cos()))
    }
    fn to_degrees(self) -> Self {
        tick();
        Counted(self.0.to_degrees())
    }
    fn to_radians(self) -> Self {
        tick();
        Counted(self.0.to_radians())
    }
    fn copysign(self, s: Self) -> Self {
        Counted(self.0.copysign(s.0))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.0.integer_decode()
    }
}
impl std::fmt::Display for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl crate::num::Num for Counted {
    const BITS: u32 = 24;
    const REAL_BITS: u32 = 50;
    const MAX_SCALE: i32 = 200;
    const DEEP: (i32, i32) = (-530, 400);
    const NAME: &'static str = "counted f64";
    fn of_f64(x: f64) -> Self {
        Counted(x)
    }
    fn f64(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn rand_bits(r: u64) -> Self {
        Counted(f64::from_bits(r))
    }
    fn eps() -> f64 {
        f64::EPSILON
    }
    fn next_up(self) -> Self {
        Counted(self.0.next_up())
    }
    fn next_down(self) -> Self {
        Counted(self.0.next_down())
    }
    fn max_fin() -> Self {
        Counted(f64::MAX)
    }
    fn min_sub() -> Self {
        Counted(f64::from_bits(1))
    }
}
