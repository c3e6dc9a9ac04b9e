//! A `Value` for sums of discounted payments: the field of 251 elements. An
//! identity of the code's field operations with rational coefficients holds in
//! it as in the reals; `exp` is a function with three values.
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::ops::*;
pub const P: u32 = 251;
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct F251(pub u32);
impl F251 {
    pub fn new(n: i64) -> Self {
        F251(n.rem_euclid(P as i64) as u32)
    }
}
impl PartialOrd for F251 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self == o {
            return Some(Ordering::Equal);
        }
        panic!("unsupported: order")
    }
}
impl Add for F251 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let s = self.0 + o.0;
        F251(if s >= P { s - P } else { s })
    }
}
impl Neg for F251 {
    type Output = Self;
    fn neg(self) -> Self {
        F251(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
impl Sub for F251 {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self + (-o)
    }
}
impl Mul for F251 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        F251(self.0 * o.0 % P)
    }
}
impl Div for F251 {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if o.0 == 0 {
            panic!("unsupported: division by zero")
        }
        // o^(P-2)
        let b = |x: F251| x * x;
        let o2 = b(o);
        let o4 = b(o2);
        let o8 = b(o4);
        let o16 = b(o8);
        let o32 = b(o16);
        let o64 = b(o32);
        let o128 = b(o64);
        self * (o128 * o64 * o32 * o16 * o8 * o) // 249 = 128 + 64 + 32 + 16 + 8 + 1
    }
}
impl Rem for F251 {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("unsupported: rem")
    }
}
impl Zero for F251 {
    fn zero() -> Self {
        F251(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for F251 {
    fn one() -> Self {
        F251(1)
    }
}
impl FromPrimitive for F251 {
    fn from_i64(n: i64) -> Option<Self> {
        Some(F251::new(n))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(F251((n % P as u64) as u32))
    }
    fn from_f64(_: f64) -> Option<Self> {
        panic!("unsupported: from_f64")
    }
}
impl crate::valuemac::Exp for F251 {
    fn exp_(self) -> Self {
        match self.0 {
            0 => F251(0),
            250 => F251(1),
            1 => F251(2),
            _ => panic!("unsupported: exp"),
        }
    }
}
crate::value_boilerplate!(F251);
