//! A `Value` that only knows whether a payment is there: a multiple of rate or
//! face (`Amount`), another number (`Scalar`, possibly zero) or the zero of the
//! number type. Numbers made from day counts need no evaluation that way.
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum Present {
    #[default]
    Nil,
    Scalar,
    Amount,
}
use Present::*;
impl PartialOrd for Present {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        panic!("unsupported: order")
    }
}
impl Add for Present {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        match (self, o) {
            (Nil, x) | (x, Nil) => x,
            (Amount, _) | (_, Amount) => Amount,
            _ => Scalar,
        }
    }
}
impl Sub for Present {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        match (self, o) {
            (Nil, x) | (x, Nil) => x,
            (Amount, _) | (_, Amount) => Amount,
            _ => Scalar,
        }
    }
}
impl Neg for Present {
    type Output = Self;
    fn neg(self) -> Self {
        self
    }
}
impl Mul for Present {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        match (self, o) {
            (Nil, _) | (_, Nil) => Nil,
            (Amount, _) | (_, Amount) => Amount,
            _ => Scalar,
        }
    }
}
impl Div for Present {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if o == Nil {
            panic!("unsupported: division by nothing")
        }
        self
    }
}
impl Rem for Present {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("unsupported: rem")
    }
}
impl Zero for Present {
    fn zero() -> Self {
        Nil
    }
    fn is_zero(&self) -> bool {
        *self == Nil
    }
}
impl One for Present {
    fn one() -> Self {
        Scalar
    }
}
impl FromPrimitive for Present {
    fn from_i64(_: i64) -> Option<Self> {
        Some(Scalar)
    }
    fn from_u64(_: u64) -> Option<Self> {
        Some(Scalar)
    }
    fn from_f64(_: f64) -> Option<Self> {
        Some(Scalar)
    }
}
impl crate::valuemac::Exp for Present {
    // The curve's yield is 1 and its time 1 to the probe date, 0 to any other.
    fn exp_(self) -> Self {
        self
    }
}
crate::value_boilerplate!(Present);
