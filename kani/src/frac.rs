//! An exact fraction of two 64-bit integers with no reduction: a `Value` whose
//! arithmetic the solver can follow. Operations a day count has no use for
//! are refused (and would make the check inconclusive, not quiet).
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub struct Frac {
    pub num: i64,
    pub den: i64,
}
fn m(a: i64, b: i64) -> i64 {
    a.checked_mul(b).expect("unsupported: overflow")
}
fn s(a: i64, b: i64) -> i64 {
    a.checked_add(b).expect("unsupported: overflow")
}
impl Frac {
    pub const fn int(n: i64) -> Self {
        Frac { num: n, den: 1 }
    }
    /// Equal to `n / d`.
    pub fn is(self, n: i64, d: i64) -> bool {
        self.den != 0 && ((self.num == n && self.den == d) || m(self.num, d) == m(n, self.den))
    }
    fn norm(num: i64, den: i64) -> Self {
        if den < 0 {
            Frac { num: -num, den: -den }
        } else {
            Frac { num, den }
        }
    }
}
impl Default for Frac {
    fn default() -> Self {
        Self::int(0)
    }
}
impl PartialEq for Frac {
    fn eq(&self, o: &Self) -> bool {
        m(self.num, o.den) == m(o.num, self.den)
    }
}
impl PartialOrd for Frac {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        m(self.num, o.den).partial_cmp(&m(o.num, self.den))
    }
}
impl Add for Frac {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.den == o.den {
            return Frac { num: s(self.num, o.num), den: self.den };
        }
        Frac { num: s(m(self.num, o.den), m(o.num, self.den)), den: m(self.den, o.den) }
    }
}
impl Neg for Frac {
    type Output = Self;
    fn neg(self) -> Self {
        Frac { num: -self.num, den: self.den }
    }
}
impl Sub for Frac {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self + (-o)
    }
}
impl Mul for Frac {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Frac { num: m(self.num, o.num), den: m(self.den, o.den) }
    }
}
impl Div for Frac {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        assert!(o.num != 0, "division by zero");
        Self::norm(m(self.num, o.den), m(self.den, o.num))
    }
}
impl Rem for Frac {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("unsupported: rem")
    }
}
crate::value_boilerplate!(Frac);
impl Zero for Frac {
    fn zero() -> Self {
        Self::int(0)
    }
    fn is_zero(&self) -> bool {
        self.num == 0
    }
}
impl One for Frac {
    fn one() -> Self {
        Self::int(1)
    }
}
impl FromPrimitive for Frac {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Self::int(n))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Self::int(n as i64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        if n == 360.0 {
            Some(Self::int(360))
        } else if n == 365.0 {
            Some(Self::int(365))
        } else {
            panic!("unsupported: from_f64")
        }
    }
}
