//! C20: the value of a given bond for any settlement, curve and failure.
use crate::bonds::{date, next, plus, rolled, Ymd};
use crate::field::F251;
use crate::sym;
use crate::{harnesses, witness};
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::DayCount;
use qlab_time::frequency::Frequency;

const N: usize = 4;
static mut FAILS: Option<Date> = None;
static mut TIMES: [(Option<Date>, u8); N + 1] = [(None, 0); N + 1];
/// A time of 0 or 1, arbitrary, for each payment date and for the settlement,
/// so that discount factors are 0, 1 or 2 (the value is linear in them).
#[derive(Clone, Copy)]
struct Times;
impl DayCount for Times {
    fn calculate_day_count_fraction<V: Value>(_: Date, b: Date) -> QLabResult<V> {
        if unsafe { FAILS } == Some(b) {
            return Err(QLabError::ComputeError(ComputeError::ZeroDivisionError));
        }
        let mut i = 0;
        while i <= N {
            let (d, t) = unsafe { TIMES[i] };
            if d == Some(b) {
                return Ok(V::from_u8(t).unwrap());
            }
            i += 1;
        }
        Ok(V::from_u8(0).unwrap())
    }
}
struct Yield;
impl Default for Yield {
    fn default() -> Self {
        Yield
    }
}
impl Interpolator for Yield {
    type Value = F251;
    fn try_fit(self, _: &[(F251, F251)]) -> Result<Self, InterpolationError<F251>> {
        Ok(self)
    }
    fn try_value(&self, t: F251) -> Result<F251, InterpolationError<F251>> {
        Ok(if t == F251(0) { t } else { F251(1) })
    }
}
/// A given bond; any settlement, curve and failure.
fn value(issue: Ymd, first: Ymd, maturity: Ymd, coupon: [(i32, i32); N], penult_late: u32) {
    let d = |d: Ymd| Date::from_ymd(d.0, d.1, d.2).unwrap();
    let k = N as i32 - 1;
    let mut penult = plus(first, 6 * (k - 1));
    let mut i = 0;
    while i < penult_late {
        penult = next(penult);
        i += 1;
    }
    let settle = date(issue.0 - 1, maturity.0 + 1);
    let curve_from = date(issue.0 - 1, maturity.0 + 1);
    let fails = date(issue.0 - 1, maturity.0 + 1);
    let mut due = [maturity; N];
    let mut pay = due;
    let mut i = 0;
    while i < N - 1 {
        due[i] = plus(first, 6 * i as i32);
        pay[i] = rolled(due[i]);
        i += 1;
    }
    unsafe {
        FAILS = Some(fails.0);
        let mut i = 0;
        while i < N {
            TIMES[i] = (Some(d(pay[i])), sym::bool_() as u8);
            i += 1;
        }
        TIMES[N] = (Some(settle.0), sym::bool_() as u8);
    }
    // Amounts are the subject of C19; here they are given numbers.
    let (rate, face) = (F251(17), F251(101));
    let c = YieldCurve::<Times, Yield>::new(curve_from.0, &[], &[]).unwrap();
    let b = Bond::new("b", d(issue), d(first), d(penult), d(maturity), Frequency::SA, rate, face).unwrap();
    let got = b.discounted_value(settle.0, &c);
    let half = rate * face * F251(126); // 2 * 126 = 1
    let mut want = Some(F251(0));
    let mut i = 0;
    while i < N {
        if due[i] > settle.1 {
            let (n, m) = coupon[i];
            let amount = half * (F251::new(n as i64) / F251::new(m as i64)) + if i == N - 1 { face } else { F251(0) };
            want = match (want, c.discount_factor(settle.0, d(pay[i]))) {
                (Some(w), Ok(f)) => Some(w + amount * f),
                _ => None,
            };
        }
        i += 1;
    }
    assert!(got.ok() == want);
    witness!(want.is_none() && curve_from.1 <= settle.1);
    witness!(want.is_none() && curve_from.1 > settle.1);
    witness!(settle.1 >= maturity && want == Some(F251(0)));
    witness!(settle.1 < first && want.is_some());
    witness!(settle.1 >= due[N - 2] && settle.1 < pay[N - 2] && want.is_some());
}

harnesses! {
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(6)]
    fn c20_value() {
        // 31 August 2024 is a Saturday; 62 days instead of 184, then 28 more than 181.
        value((2023, 6, 30), (2023, 8, 31), (2025, 3, 28), [(62, 184), (1, 1), (1, 1), (181 + 28, 181)], 0);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(7)]
    fn c20_other() {
        // A long first period (31 days of the 183 before), the penultimate payment five days late,
        // the last period short; 30 June and 30 December 2029 fall on a weekend, maturity on a Sunday.
        value((2028, 5, 30), (2028, 12, 30), (2030, 6, 9), [(183 + 31, 183), (1, 1), (1, 1), (156, 181)], 5);
    }
}

