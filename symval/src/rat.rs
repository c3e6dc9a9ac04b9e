//! Exact rational constants. Overflow of 128 bits is refused, never wrapped.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
fn ck(v: Option<i128>) -> i128 {
    v.expect("unsupported: constant too large")
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "unsupported: constant division by zero");
        let g = gcd(n, d).max(1) * d.signum();
        Rat { n: n / g, d: d / g }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn add(self, o: Rat) -> Rat {
        let g = gcd(self.d, o.d);
        let (a, b) = (o.d / g, self.d / g);
        Rat::new(ck(ck(self.n.checked_mul(a)).checked_add(ck(o.n.checked_mul(b)))), ck(self.d.checked_mul(a)))
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn mul(self, o: Rat) -> Rat {
        let (g1, g2) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        Rat::new(ck((self.n / g1).checked_mul(o.n / g2)), ck((self.d / g2).checked_mul(o.d / g1)))
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn cmp(self, o: Rat) -> Ordering {
        self.add(o.neg()).n.cmp(&0)
    }
    pub fn f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        let mut d = 1i128;
        let mut x = v;
        for _ in 0..90 {
            if x == x.trunc() && x.abs() < 1e30 {
                return Some(Rat::new(x as i128, d));
            }
            x *= 2.0;
            d = d.checked_mul(2)?;
        }
        None
    }
    pub fn smt(self) -> String {
        let a = |n: i128| if n < 0 { format!("(- {}.0)", n.unsigned_abs()) } else { format!("{n}.0") };
        if self.d == 1 {
            a(self.n)
        } else {
            format!("(/ {} {}.0)", a(self.n), self.d)
        }
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
