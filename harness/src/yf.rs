//! A scalar type for the generic code under test whose every arithmetic operation and comparison is a point where a scheduler may step in.
use num_traits::{AsPrimitive, FromPrimitive, MulAdd, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::fmt;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

thread_local! { static HOOK: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) }; }
/// runs f with `hook` called at every operation on this thread
pub fn with_hook<R>(hook: &dyn Fn(), f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G { fn drop(&mut self) { HOOK.with(|h| h.set(None)) } }
    let p: *const dyn Fn() = unsafe { std::mem::transmute::<&dyn Fn(), &'static dyn Fn()>(hook) };
    HOOK.with(|h| h.set(Some(p)));
    let _g = G;
    f()
}
#[inline]
fn op() { if let Some(h) = HOOK.with(|h| h.get()) { unsafe { (*h)() } } }

#[derive(Clone, Copy, Default)]
pub struct Yf(pub f64);
impl PartialEq for Yf { fn eq(&self, o: &Yf) -> bool { op(); self.0 == o.0 } }
impl PartialOrd for Yf { fn partial_cmp(&self, o: &Yf) -> Option<std::cmp::Ordering> { op(); self.0.partial_cmp(&o.0) } }
impl fmt::Display for Yf { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl fmt::Debug for Yf { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
macro_rules! bin { ($($t:ident $m:ident $ta:ident $ma:ident;)*) => { $(
    impl $t for Yf { type Output = Yf; fn $m(self, o: Yf) -> Yf { op(); Yf(self.0.$m(o.0)) } }
    impl $ta for Yf { fn $ma(&mut self, o: Yf) { op(); self.0.$ma(o.0) } }
    impl<'a> $ta<&'a Yf> for Yf { fn $ma(&mut self, o: &'a Yf) { op(); self.0.$ma(o.0) } }
)* } }
bin! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
impl Neg for Yf { type Output = Yf; fn neg(self) -> Yf { Yf(-self.0) } }
impl Zero for Yf { fn zero() -> Yf { Yf(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Yf { fn one() -> Yf { Yf(1.0) } }
impl Num for Yf { type FromStrRadixErr = <f64 as Num>::FromStrRadixErr; fn from_str_radix(s: &str, r: u32) -> Result<Yf, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(Yf) } }
impl ToPrimitive for Yf { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.0) } fn to_f32(&self) -> Option<f32> { self.0.to_f32() } }
impl FromPrimitive for Yf { fn from_i64(n: i64) -> Option<Yf> { Some(Yf(n as f64)) } fn from_u64(n: u64) -> Option<Yf> { Some(Yf(n as f64)) } fn from_f64(n: f64) -> Option<Yf> { Some(Yf(n)) } }
impl NumCast for Yf { fn from<T: ToPrimitive>(n: T) -> Option<Yf> { n.to_f64().map(Yf) } }
impl AsPrimitive<usize> for Yf { fn as_(self) -> usize { self.0 as usize } }
impl MulAdd for Yf { type Output = Yf; fn mul_add(self, a: Yf, b: Yf) -> Yf { op(); Yf(f64::mul_add(self.0, a.0, b.0)) } }
impl Sum for Yf { fn sum<I: Iterator<Item = Yf>>(it: I) -> Yf { it.fold(Yf(0.0), |a, b| a + b) } }
impl<'a> Sum<&'a Yf> for Yf { fn sum<I: Iterator<Item = &'a Yf>>(it: I) -> Yf { it.fold(Yf(0.0), |a, b| a + *b) } }
impl Signed for Yf { fn abs(&self) -> Yf { op(); Yf(self.0.abs()) } fn abs_sub(&self, o: &Yf) -> Yf { Yf((self.0 - o.0).max(0.0)) } fn signum(&self) -> Yf { Yf(self.0.signum()) } fn is_positive(&self) -> bool { self.0.is_sign_positive() } fn is_negative(&self) -> bool { self.0.is_sign_negative() } }
impl approx::AbsDiffEq for Yf { type Epsilon = Yf; fn default_epsilon() -> Yf { Yf(f64::EPSILON) } fn abs_diff_eq(&self, o: &Yf, e: Yf) -> bool { f64::abs_diff_eq(&self.0, &o.0, e.0) } }
impl ndarray::ScalarOperand for Yf {}
macro_rules! fl { (c: $($c:ident)*; p: $($p:ident)*; u: $($u:ident)*; b: $($b:ident)*) => {
    impl num_traits::Float for Yf {
        $( fn $c() -> Yf { Yf(<f64 as num_traits::Float>::$c()) } )*
        $( fn $p(self) -> bool { self.0.$p() } )*
        $( fn $u(self) -> Yf { op(); Yf(<f64 as num_traits::Float>::$u(self.0)) } )*
        $( fn $b(self, o: Yf) -> Yf { op(); Yf(<f64 as num_traits::Float>::$b(self.0, o.0)) } )*
        fn epsilon() -> Yf { Yf(f64::EPSILON) }
        fn classify(self) -> FpCategory { self.0.classify() }
        fn mul_add(self, a: Yf, b: Yf) -> Yf { op(); Yf(f64::mul_add(self.0, a.0, b.0)) }
        fn powi(self, n: i32) -> Yf { op(); Yf(self.0.powi(n)) }
        fn sin_cos(self) -> (Yf, Yf) { op(); let (s, c) = self.0.sin_cos(); (Yf(s), Yf(c)) }
        fn integer_decode(self) -> (u64, i16, i8) { num_traits::Float::integer_decode(self.0) }
    }
} }
fl! { c: nan infinity neg_infinity neg_zero min_value min_positive_value max_value; p: is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
      u: floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
      b: powf log max min abs_sub hypot atan2 }
impl sparseglm::Float for Yf { type Lapack = f64; }
impl harness::real::Fl for Yf { fn f(x: f64) -> Yf { Yf(x) } fn d(self) -> f64 { self.0 } }
