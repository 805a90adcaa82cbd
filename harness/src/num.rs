//! The coordinate types under test and the exact mapping from integers.
use magog::Coordinate;

pub trait Num: Coordinate + std::fmt::Display + 'static {
    /// |integer| <= 2^BITS keeps every product of magog's primitives exact.
    const BITS: u32;
    /// Integers up to 2^REAL_BITS are represented exactly.
    const REAL_BITS: u32;
    /// Admissible |s| for the scale 2^s.
    const MAX_SCALE: i32;
    /// Scales at which products of two differences stay exact, though they may be subnormal
    /// or close to overflow.
    const DEEP: (i32, i32);
    const NAME: &'static str;
    fn of_f64(x: f64) -> Self;
    fn f64(self) -> f64;
    fn bits(self) -> u64;
    fn rand_bits(r: u64) -> Self;
    fn eps() -> f64;
    fn next_up(self) -> Self;
    fn next_down(self) -> Self;
    fn max_fin() -> Self;
    fn min_sub() -> Self;
}

impl Num for f64 {
    const BITS: u32 = 24;
    const REAL_BITS: u32 = 50;
    const MAX_SCALE: i32 = 200;
    const DEEP: (i32, i32) = (-530, 400);
    const NAME: &'static str = "f64";
    fn of_f64(x: f64) -> Self { x }
    fn f64(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
    fn rand_bits(r: u64) -> Self { f64::from_bits(r) }
    fn eps() -> f64 { f64::EPSILON }
    fn next_up(self) -> Self { f64::next_up(self) }
    fn next_down(self) -> Self { f64::next_down(self) }
    fn max_fin() -> Self { f64::MAX }
    fn min_sub() -> Self { f64::from_bits(1) }
}

impl Num for f32 {
    const BITS: u32 = 10;
    const REAL_BITS: u32 = 22;
    const MAX_SCALE: i32 = 25;
    const DEEP: (i32, i32) = (-70, 40);
    const NAME: &'static str = "f32";
    fn of_f64(x: f64) -> Self { x as f32 }
    fn f64(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn rand_bits(r: u64) -> Self { f32::from_bits(r as u32) }
    fn eps() -> f64 { f32::EPSILON as f64 }
    fn next_up(self) -> Self { f32::next_up(self) }
    fn next_down(self) -> Self { f32::next_down(self) }
    fn max_fin() -> Self { f32::MAX }
    fn min_sub() -> Self { f32::from_bits(1) }
}

/// 2^s exactly (powi need not be).
pub fn pow2(s: i32) -> f64 {
    match s {
        1024.. => f64::INFINITY,
        -1022..=1023 => f64::from_bits(((1023 + s) as u64) << 52),
        -1074..=-1023 => f64::from_bits(1 << (s + 1074)),
        _ => 0.0,
    }
}

/// v * 2^s, exactly (asserted).
pub fn scaled<T: Num>(v: i64, s: i32) -> T {
    let p = pow2(s);
    let x = v as f64 * p;
    debug_assert!(x / p == v as f64);
    let t = T::of_f64(x);
    assert!(t.f64() == x, "harness: {} * 2^{} not representable as {}", v, s, T::NAME);
    t
}
