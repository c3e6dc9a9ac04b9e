//! `Value`s for valuation code: integers modulo a power of two, with a tag for
//! "exponential of". An identity of the code's ring operations for all real
//! numbers holds here for all residues; `exp` is kept formal, so that products
//! of exponentials add exponents. Anything else is refused (the check then has
//! no verdict rather than a wrong one).
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::ops::*;

macro_rules! ring {
    ($t:ident, $u:ty) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $t {
            pub exp: bool,
            pub v: $u,
        }
        impl $t {
            pub const fn n(v: $u) -> Self {
                $t { exp: false, v }
            }
            pub const fn e(v: $u) -> Self {
                $t { exp: true, v }
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                if self == o {
                    return Some(Ordering::Equal);
                }
                panic!("unsupported: order")
            }
        }
        impl Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                if self.exp || o.exp {
                    panic!("unsupported: sum of exponentials")
                }
                $t::n(self.v.wrapping_add(o.v))
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                if self.exp {
                    panic!("unsupported: negated exponential")
                }
                $t::n(self.v.wrapping_neg())
            }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self + (-o)
            }
        }
        impl Mul for $t {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                match (self.exp, o.exp) {
                    (true, true) => $t::e(self.v.wrapping_add(o.v)),
                    (false, false) => $t::n(self.v.wrapping_mul(o.v)),
                    (true, false) if o.v == 1 => self,
                    (false, true) if self.v == 1 => o,
                    _ => panic!("unsupported: multiple of an exponential"),
                }
            }
        }
        impl Div for $t {
            type Output = Self;
            fn div(self, o: Self) -> Self {
                match (self.exp, o.exp) {
                    (true, true) => $t::e(self.v.wrapping_sub(o.v)),
                    (false, true) if self.v == 1 => $t::e(o.v.wrapping_neg()),
                    _ => panic!("unsupported: division"),
                }
            }
        }
        impl Rem for $t {
            type Output = Self;
            fn rem(self, _: Self) -> Self {
                panic!("unsupported: rem")
            }
        }
        impl Default for $t {
            fn default() -> Self {
                $t::n(0)
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                $t::n(0)
            }
            fn is_zero(&self) -> bool {
                *self == $t::n(0)
            }
        }
        impl One for $t {
            fn one() -> Self {
                $t::n(1)
            }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<Self> {
                Some($t::n(n as $u))
            }
            fn from_u64(n: u64) -> Option<Self> {
                Some($t::n(n as $u))
            }
            fn from_f64(_: f64) -> Option<Self> {
                panic!("unsupported: from_f64")
            }
        }
        impl crate::valuemac::Exp for $t {
            fn exp_(self) -> Self {
                if self.exp {
                    panic!("unsupported: exponential of an exponential")
                }
                $t::e(self.v)
            }
        }
        crate::value_boilerplate!($t);
    };
}
ring!(R8, u8);
ring!(R32, u32);
