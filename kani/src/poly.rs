//! A `Value` for bond amounts: a formal polynomial in the coupon rate R and the
//! face value F with rational coefficients, so that equality means equality
//! for every rate and face.
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cmp::Ordering;
use std::ops::*;
/// (one + r R + f F + rf R F) / den
#[derive(Clone, Copy, Debug)]
pub struct Poly {
    pub one: i32,
    pub r: i32,
    pub f: i32,
    pub rf: i32,
    pub den: i32,
}
fn m(a: i32, b: i32) -> i32 {
    if a == 0 || b == 0 {
        return 0;
    }
    if a == 1 {
        return b;
    }
    if b == 1 {
        return a;
    }
    a.checked_mul(b).expect("unsupported: overflow")
}
fn s(a: i32, b: i32) -> i32 {
    a.checked_add(b).expect("unsupported: overflow")
}
impl Poly {
    pub const fn int(n: i32) -> Self {
        Poly { one: n, r: 0, f: 0, rf: 0, den: 1 }
    }
    pub const RATE: Poly = Poly { one: 0, r: 1, f: 0, rf: 0, den: 1 };
    pub const FACE: Poly = Poly { one: 0, r: 0, f: 1, rf: 0, den: 1 };
    fn nil(self) -> bool {
        self.one == 0 && self.r == 0 && self.f == 0 && self.rf == 0
    }
    /// Equal to `(f F + rf R F) / den`.
    pub fn is(self, f: i32, rf: i32, den: i32) -> bool {
        self.one == 0
            && self.r == 0
            && (self.f as i64) * den as i64 == f as i64 * self.den as i64
            && (self.rf as i64) * den as i64 == rf as i64 * self.den as i64
    }
    fn scale(self, k: i32) -> Self {
        Poly { one: m(self.one, k), r: m(self.r, k), f: m(self.f, k), rf: m(self.rf, k), den: self.den }
    }
}
impl PartialEq for Poly {
    fn eq(&self, o: &Self) -> bool {
        let a = self.scale(o.den);
        let b = o.scale(self.den);
        a.one == b.one && a.r == b.r && a.f == b.f && a.rf == b.rf
    }
}
impl PartialOrd for Poly {
    fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
        panic!("unsupported: order")
    }
}
impl Default for Poly {
    fn default() -> Self {
        Poly::int(0)
    }
}
impl Add for Poly {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.nil() {
            return o;
        }
        if o.nil() {
            return self;
        }
        let (a, b, den) = if self.den == o.den { (self, o, self.den) } else { (self.scale(o.den), o.scale(self.den), m(self.den, o.den)) };
        Poly { one: s(a.one, b.one), r: s(a.r, b.r), f: s(a.f, b.f), rf: s(a.rf, b.rf), den }
    }
}
impl Neg for Poly {
    type Output = Self;
    fn neg(self) -> Self {
        self.scale(-1)
    }
}
impl Sub for Poly {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self + (-o)
    }
}
impl Mul for Poly {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        if self.nil() || o.nil() {
            return Poly::int(0);
        }
        let sq = m(self.r, o.r) != 0 || m(self.f, o.f) != 0 || m(self.rf, s(s(o.r, o.f), o.rf)) != 0 || m(o.rf, s(s(self.r, self.f), self.rf)) != 0;
        if sq {
            panic!("unsupported: power of rate or face");
        }
        Poly {
            one: m(self.one, o.one),
            r: s(m(self.one, o.r), m(self.r, o.one)),
            f: s(m(self.one, o.f), m(self.f, o.one)),
            rf: s(s(m(self.one, o.rf), m(self.rf, o.one)), s(m(self.r, o.f), m(self.f, o.r))),
            den: m(self.den, o.den),
        }
    }
}
impl Div for Poly {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        if o.r != 0 || o.f != 0 || o.rf != 0 {
            panic!("unsupported: division by rate or face");
        }
        assert!(o.one != 0, "division by zero");
        let t = self.scale(o.den);
        let d = m(self.den, o.one);
        if d < 0 {
            Poly { den: -d, ..t.scale(-1) }
        } else {
            Poly { den: d, ..t }
        }
    }
}
impl Rem for Poly {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        panic!("unsupported: rem")
    }
}
impl Zero for Poly {
    fn zero() -> Self {
        Poly::int(0)
    }
    fn is_zero(&self) -> bool {
        self.nil()
    }
}
impl One for Poly {
    fn one() -> Self {
        Poly::int(1)
    }
}
impl FromPrimitive for Poly {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Poly::int(i32::try_from(n).expect("unsupported: overflow")))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Poly::int(i32::try_from(n).expect("unsupported: overflow")))
    }
    fn from_f64(_: f64) -> Option<Self> {
        panic!("unsupported: from_f64")
    }
}
impl crate::valuemac::Exp for Poly {
    // The curve's yield is 1 and its time 1 to the probe date, 0 to any other:
    // exp of minus one stands for 1, exp of zero for 0.
    fn exp_(self) -> Self {
        if self.nil() {
            Poly::int(0)
        } else if self.one == -1 && self.den == 1 {
            Poly::int(1)
        } else {
            panic!("unsupported: exp")
        }
    }
}
crate::value_boilerplate!(Poly);
