//! C16, C17: yield curves over arbitrary day counts and interpolators.
use crate::dates::{any_date, Y0, Y1};
use crate::ring::{R32, R8};
use crate::sym;
use crate::{harnesses, witness};
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::DayCount;

/// One harness runs at a time and sets this up before calling the code.
#[derive(Clone, Copy)]
struct World {
    settle: (i32, u32, u32),
    d: [(i32, u32, u32); 2],
    t: [u8; 2],
    y: [u8; 2],
    dc_fails: [bool; 2],
    fit_fails: bool,
    y_fails: [bool; 2],
    other: u8,
    // C17
    fit_len: usize,
    fit: [(u32, u32); 5],
    dates: [Option<Date>; 6], // settlement, then maturities
    codes: [u32; 6],
    code_fails: [bool; 6],
}
static mut W: World = World {
    settle: (0, 0, 0), d: [(0, 0, 0); 2], t: [0; 2], y: [0; 2], dc_fails: [false; 2], fit_fails: false, y_fails: [false; 2],
    other: 0, fit_len: 0, fit: [(0, 0); 5], dates: [None; 6], codes: [0; 6], code_fails: [false; 6],
};
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { &mut W }
}
fn key(d: Date) -> (i32, u32, u32) {
    (d.year(), d.month(), d.day())
}
fn refuse() -> QLabError {
    QLabError::ComputeError(ComputeError::ZeroDivisionError)
}

/// An arbitrary function of (settlement, date) for the dates in play.
#[derive(Clone, Copy)]
struct AnyCount;
impl DayCount for AnyCount {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let w = w();
        let i = if key(a) != w.settle {
            2
        } else if key(b) == w.d[0] {
            0
        } else if key(b) == w.d[1] {
            1
        } else {
            2
        };
        if i < 2 && w.dc_fails[i] {
            return Err(refuse());
        }
        let v = if i < 2 { w.t[i] } else { w.other };
        Ok(V::from_u8(v).unwrap())
    }
}
/// An arbitrary function of time for the times in play.
#[derive(Default)]
struct AnyCurve {
    fitted: bool,
}
impl Interpolator for AnyCurve {
    type Value = R8;
    fn try_fit(self, _: &[(R8, R8)]) -> Result<Self, InterpolationError<R8>> {
        Ok(AnyCurve { fitted: true })
    }
    fn try_value(&self, t: R8) -> Result<R8, InterpolationError<R8>> {
        let w = w();
        if !self.fitted {
            return Err(InterpolationError::InsufficientPointsError(0));
        }
        let i = if t == R8::n(w.t[0]) {
            0
        } else if t == R8::n(w.t[1]) {
            1
        } else {
            2
        };
        if i < 2 {
            if w.y_fails[i] {
                return Err(InterpolationError::OutOfUpperBound(t));
            }
            return Ok(R8::n(w.y[i]));
        }
        Ok(R8::n(w.other))
    }
}

/// Settlement, two dates, and arbitrary (consistent) day counts and yields.
fn world() -> (Date, Date, Date) {
    let (s, a, b, c) = any_date(Y0, Y1);
    let (d1, e, f, g) = any_date(Y0, Y1);
    let (d2, h, i, j) = any_date(Y0, Y1);
    let w = w();
    w.settle = (a, b, c);
    w.d = [(e, f, g), (h, i, j)];
    w.t = [sym::u8_(), sym::u8_()];
    w.y = [sym::u8_(), sym::u8_()];
    w.dc_fails = [sym::bool_(), sym::bool_()];
    w.y_fails = [sym::bool_(), sym::bool_()];
    w.other = sym::u8_();
    if d1 == d2 {
        sym::assume(w.t[0] == w.t[1] && w.dc_fails[0] == w.dc_fails[1]);
    }
    if w.t[0] == w.t[1] {
        sym::assume(w.y[0] == w.y[1] && w.y_fails[0] == w.y_fails[1]);
    }
    (s, d1, d2)
}

harnesses! {
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(6)]
    fn c16_discount() {
        let (s, d1, d2) = world();
        let c = YieldCurve::<AnyCount, AnyCurve>::new(s, &[], &[]).unwrap();
        // From settlement the first date's count and yield are not needed, nor need they exist.
        let w = *w();
        sym::assume(d1 != s || !w.dc_fails[0]);
        let r = c.discount_factor(d1, d2);
        let invalid = d2 < d1 || d1 < s || d2 < s;
        let first = w.dc_fails[0] || w.y_fails[0];
        let second = w.dc_fails[1] || w.y_fails[1];
        let fails = second || (d1 != s && first);
        assert!(r.is_ok() == (!invalid && !fails));
        if let Ok(v) = r {
            let e2 = w.t[1].wrapping_mul(w.y[1]);
            let e1 = if d1 == s { 0 } else { w.t[0].wrapping_mul(w.y[0]) };
            assert!(v == R8::e(e1.wrapping_sub(e2)));
        }
        witness!(!invalid && !fails && d1 != s && d1 != d2);
        witness!(!invalid && !fails && d1 == s && first);
        witness!(!invalid && first);
        witness!(invalid && d1 < d2);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(5)]
    fn c17_fit_3() {
        let ok = fit(3, 3);
        witness!(ok);
        witness!(!ok && !w().fit_fails);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(4)]
    fn c17_fit_2() {
        let ok = fit(2, 2);
        witness!(ok);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(3)]
    fn c17_fit_1() {
        let ok = fit(1, 1);
        witness!(ok);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(3)]
    fn c17_fit_0() {
        let ok = fit(0, 0);
        witness!(ok);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(5)]
    fn c17_lengths() {
        assert!(!fit(0, 1));
        assert!(!fit(1, 0));
        assert!(!fit(2, 1));
        assert!(!fit(1, 3));
        assert!(!fit(3, 2));
        witness!(!w().fit_fails);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(6)]
    fn c17t_fit_4() {
        let ok = fit(4, 4);
        witness!(ok);
    }
}

/// Builds a curve of `n` maturities and `ny` yields and checks what was fitted.
fn fit(n: usize, ny: usize) -> bool {
    let (s, _, _, _) = any_date(Y0, Y1);
    let w = w();
    w.fit_len = 99;
    w.fit_fails = sym::bool_();
    w.codes = [sym::u32_(), sym::u32_(), sym::u32_(), sym::u32_(), sym::u32_(), sym::u32_()];
    w.code_fails = [sym::bool_(), sym::bool_(), sym::bool_(), sym::bool_(), sym::bool_(), sym::bool_()];
    w.dates = [Some(s), None, None, None, None, None];
    let mut ms = [s; 5];
    let mut ys = [R32::n(0); 5];
    let mut dc_fails = false;
    let mut i = 0;
    while i < n || i < ny {
        let (d, _, _, _) = any_date(Y0, Y1);
        ms[i] = d;
        ys[i] = R32::n(sym::u32_());
        w.dates[i + 1] = Some(d);
        dc_fails |= w.code_fails[place(d)];
        i += 1;
    }
    let r = YieldCurve::<DateCount, Recorder>::new(s, &ms[..n], &ys[..ny]);
    let w = *w;
    if n == ny {
        assert!(r.is_ok() == (!dc_fails && !w.fit_fails));
    }
    if let Ok(curve) = &r {
        assert!(w.fit_len == n);
        let mut t = 0;
        while t < n {
            assert!(w.fit[t] == (w.codes[place(ms[t])], ys[t].v));
            t += 1;
        }
        // It is the fitted interpolator that is used.
        assert!(curve.discount_factor(s, s).is_ok() || w.code_fails[0]);
    }
    r.is_ok()
}

/// An arbitrary function of (settlement, date).
fn place(d: Date) -> usize {
    let w = w();
    // No loop, so that the unwinding bound can follow the number of points.
    let at = |i: usize| w.dates[i] == Some(d);
    if at(0) {
        0
    } else if at(1) {
        1
    } else if at(2) {
        2
    } else if at(3) {
        3
    } else if at(4) {
        4
    } else {
        5
    }
}
#[derive(Clone, Copy)]
struct DateCount;
impl DayCount for DateCount {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let i = place(b);
        if w().code_fails[i] {
            return Err(refuse());
        }
        Ok(V::from_u32(if Some(a) == w().dates[0] { w().codes[i] } else { w().codes[5] }).unwrap())
    }
}
#[derive(Default)]
struct Recorder {
    fitted: bool,
}
impl Interpolator for Recorder {
    type Value = R32;
    fn try_fit(self, p: &[(R32, R32)]) -> Result<Self, InterpolationError<R32>> {
        let w = w();
        w.fit_len = p.len();
        let mut at = |i: usize| {
            if i < p.len() {
                w.fit[i] = (p[i].0.v, p[i].1.v);
            }
        };
        at(0);
        at(1);
        at(2);
        at(3);
        if w.fit_fails {
            Err(InterpolationError::PointOrderError)
        } else {
            Ok(Recorder { fitted: true })
        }
    }
    fn try_value(&self, _: R32) -> Result<R32, InterpolationError<R32>> {
        if self.fitted {
            Ok(R32::n(0))
        } else {
            Err(InterpolationError::InsufficientPointsError(0))
        }
    }
}
