//! C10, the float side: no list of points and no query, infinities and NaN
//! included, makes an interpolator panic.
//!
//! Under Kani a float is abstracted to its place in the order (or NaN), and
//! the result of arithmetic is arbitrary: every behaviour of `f64` comparisons
//! is covered. A counterexample is replayed with `f64` itself.
use crate::sym;
use crate::{harnesses, witness};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, hermite::Hermite, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;

#[cfg(kani)]
mod abs {
    use crate::sym;
    use num_traits::real::Real;
    use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
    use qlab_math::value::Value;
    use std::cmp::Ordering;
    use std::ops::*;
    #[derive(Clone, Copy, Debug)]
    pub struct Ab {
        at: i8,
        nan: bool,
    }
    pub fn float(at: i8, nan: bool) -> Ab {
        Ab { at, nan }
    }
    impl PartialEq for Ab {
        fn eq(&self, o: &Self) -> bool {
            !self.nan && !o.nan && self.at == o.at
        }
    }
    impl PartialOrd for Ab {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            if self.nan || o.nan {
                None
            } else {
                Some(self.at.cmp(&o.at))
            }
        }
    }
    fn any() -> Ab {
        Ab { at: kani::any(), nan: kani::any() }
    }
    macro_rules! op { ($($t:ident $f:ident),*) => { $(impl $t for Ab { type Output = Ab; fn $f(self, _: Ab) -> Ab { any() } })* } }
    op!(Add add, Sub sub, Mul mul, Div div, Rem rem);
    impl Neg for Ab {
        type Output = Ab;
        fn neg(self) -> Ab {
            Ab { at: !self.at, nan: self.nan }
        }
    }
    impl Default for Ab {
        fn default() -> Ab {
            Ab::zero()
        }
    }
    impl Zero for Ab {
        fn zero() -> Ab {
            float(0, false)
        }
        fn is_zero(&self) -> bool {
            *self == Ab::zero()
        }
    }
    impl One for Ab {
        fn one() -> Ab {
            float(1, false)
        }
    }
    impl FromPrimitive for Ab {
        fn from_i64(n: i64) -> Option<Ab> {
            Some(float(n as i8, false))
        }
        fn from_u64(n: u64) -> Option<Ab> {
            Some(float(n as i8, false))
        }
        fn from_f64(_: f64) -> Option<Ab> {
            Some(any())
        }
    }
    crate::value_boilerplate!(Ab);
    impl crate::valuemac::Exp for Ab {
        fn exp_(self) -> Ab {
            let _ = sym::bool_;
            any()
        }
    }
}
#[cfg(kani)]
use abs::{float, Ab as F};
#[cfg(not(kani))]
type F = f64;
#[cfg(not(kani))]
fn float(at: i8, nan: bool) -> f64 {
    match (nan, at) {
        (true, _) => f64::NAN,
        (_, i8::MAX) => f64::INFINITY,
        (_, i8::MIN) => f64::NEG_INFINITY,
        (_, n) => n as f64,
    }
}
fn any() -> F {
    let at = sym::i8_();
    float(at, sym::bool_())
}

// All inputs are read before any code runs, so that they come first among the
// values of a counterexample (results of abstract arithmetic follow).
type P2 = [(F, F); 4];
fn points() -> ([(F, F, F); 4], P2, F) {
    let t = [(any(), any(), any()), (any(), any(), any()), (any(), any(), any()), (any(), any(), any())];
    let p = [(t[0].0, t[0].1), (t[1].0, t[1].1), (t[2].0, t[2].1), (t[3].0, t[3].1)];
    (t, p, any())
}
fn two<I: Interpolator<Value = F>>(p: &[(F, F)], q: F) -> bool {
    match I::default().try_fit(p) {
        Ok(f) => f.try_value(q).is_ok(),
        Err(_) => false,
    }
}
fn herm(p: &[(F, F, F)], q: F) -> bool {
    match Hermite::try_new(p) {
        Ok(f) => f.try_value(q).is_ok(),
        Err(_) => false,
    }
}

harnesses! {
    #[unwind(6)]
    fn c10_nan_linear() {
        let (_, p, q) = points();
        two::<Linear<F>>(&p[..0], q);
        two::<Linear<F>>(&p[..1], q);
        two::<Linear<F>>(&p[..2], q);
        let a = two::<Linear<F>>(&p[..3], q);
        let b = two::<Linear<F>>(&p, q);
        witness!(a);
        witness!(!a && b);
    }
    #[unwind(6)]
    fn c10_nan_hermite() {
        let (p, _, q) = points();
        herm(&p[..0], q);
        herm(&p[..2], q);
        let a = herm(&p[..3], q);
        let b = herm(&p, q);
        witness!(a && b);
        witness!(!a && b);
    }
    #[unwind(6)]
    fn c10_nan_catmull_rom() {
        let (_, p, q) = points();
        two::<CatmullRom<F>>(&p[..0], q);
        two::<CatmullRom<F>>(&p[..2], q);
        let a = two::<CatmullRom<F>>(&p[..3], q);
        let b = two::<CatmullRom<F>>(&p, q);
        witness!(a && b);
        witness!(!a && b);
    }
    #[unwind(6)]
    fn c10_nan_natural_cubic() {
        let (_, p, q) = points();
        two::<NaturalCubic<F>>(&p[..0], q);
        two::<NaturalCubic<F>>(&p[..2], q);
        let a = two::<NaturalCubic<F>>(&p[..3], q);
        let b = two::<NaturalCubic<F>>(&p, q);
        witness!(a && b);
        witness!(!a && b);
    }
}
