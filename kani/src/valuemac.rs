//! Trait plumbing shared by the harness number types: everything `Value`
//! demands that the code under test is not expected to use.
#[macro_export]
macro_rules! value_boilerplate {
    ($t:ty) => {
        impl AddAssign for $t {
            fn add_assign(&mut self, o: Self) {
                *self = *self + o;
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - o;
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: Self) {
                *self = *self * o;
            }
        }
        impl DivAssign for $t {
            fn div_assign(&mut self, o: Self) {
                *self = *self / o;
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> {
                panic!("unsupported: conversion to a primitive")
            }
            fn to_u64(&self) -> Option<u64> {
                panic!("unsupported: conversion to a primitive")
            }
        }
        impl NumCast for $t {
            fn from<T: ToPrimitive>(n: T) -> Option<Self> {
                n.to_i64().and_then(<$t as FromPrimitive>::from_i64)
            }
        }
        $crate::real_boilerplate!($t);
        impl Value for $t {}
    };
}
/// `Real`, with `exp` taken from an inherent `exp_`.
#[macro_export]
macro_rules! real_boilerplate {
    ($t:ty) => {
        $crate::real_impl!($t, min_value max_value min_positive_value epsilon,
            floor ceil round trunc fract sqrt exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh,
            powf log hypot atan2 abs_sub);
    };
}
#[macro_export]
macro_rules! real_impl {
    ($t:ty, $($k:ident)*, $($u:ident)*, $($b:ident)*) => {
        impl Real for $t {
            $(fn $k() -> Self { panic!("unsupported: constant") })*
            $(fn $u(self) -> Self { panic!("unsupported: unary function") })*
            $(fn $b(self, _: Self) -> Self { panic!("unsupported: binary function") })*
            fn exp(self) -> Self { <$t as $crate::valuemac::Exp>::exp_(self) }
            fn abs(self) -> Self { if self < Self::zero() { -self } else { self } }
            fn signum(self) -> Self { if self < Self::zero() { -Self::one() } else { Self::one() } }
            fn is_sign_positive(self) -> bool { !(self < Self::zero()) }
            fn is_sign_negative(self) -> bool { self < Self::zero() }
            fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
            fn recip(self) -> Self { Self::one() / self }
            fn powi(self, n: i32) -> Self {
                let mut r = Self::one();
                let mut i = 0;
                while i < n.unsigned_abs() { r = r * self; i += 1; }
                if n < 0 { Self::one() / r } else { r }
            }
            fn max(self, o: Self) -> Self { if self > o { self } else { o } }
            fn min(self, o: Self) -> Self { if self < o { self } else { o } }
            fn sin_cos(self) -> (Self, Self) { panic!("unsupported: sin_cos") }
        }
    };
}
pub trait Exp: Sized {
    fn exp_(self) -> Self {
        panic!("unsupported: exp")
    }
}
impl Exp for crate::frac::Frac {}
