//! C18, C19: bonds, observed through `discounted_value` with a curve
//! whose discount factor is 1 to one arbitrary probe date and 0 to any other.
use crate::dates::{any_date, Y0, Y1};
use crate::poly::Poly;
use crate::presence::Present;
use crate::refcal as rc;
use crate::sym;
use crate::{harnesses, witness};
use qlab_error::{InterpolationError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::DayCount;
use qlab_time::frequency::Frequency;
use qlab_time::period::months::Months;
use std::marker::PhantomData;

static mut PROBE: Option<Date> = None;
fn probe(d: Date) {
    unsafe { PROBE = Some(d) }
}

#[derive(Clone, Copy)]
struct Indicator;
impl DayCount for Indicator {
    fn calculate_day_count_fraction<V: Value>(_: Date, b: Date) -> QLabResult<V> {
        Ok(if unsafe { PROBE } == Some(b) { V::one() } else { V::zero() })
    }
}
struct One<V>(PhantomData<V>);
impl<V> Default for One<V> {
    fn default() -> Self {
        One(PhantomData)
    }
}
impl<V: Value> Interpolator for One<V> {
    type Value = V;
    fn try_fit(self, _: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        Ok(self)
    }
    fn try_value(&self, _: V) -> Result<V, InterpolationError<V>> {
        Ok(V::one())
    }
}
type Curve<V> = YieldCurve<Indicator, One<V>>;

pub type Ymd = (i32, u32, u32);
/// `d` plus `n` months, the day clamped.
pub fn plus(d: Ymd, n: i32) -> Ymd {
    let t = d.0 * 12 + d.1 as i32 - 1 + n;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1);
    (y, m, d.2.min(rc::dim(y, m)))
}
pub fn next(d: Ymd) -> Ymd {
    if d.2 < rc::dim(d.0, d.1) {
        (d.0, d.1, d.2 + 1)
    } else if d.1 < 12 {
        (d.0, d.1 + 1, 1)
    } else {
        (d.0 + 1, 1, 1)
    }
}
pub fn serial(d: Ymd) -> i32 {
    rc::serial(d.0, d.1, d.2)
}
pub fn rolled(d: Ymd) -> Ymd {
    // 400 years are a whole number of weeks
    match rc::weekday_of_serial(serial((d.0.rem_euclid(400) + 400, d.1, d.2))) {
        5 => next(next(d)),
        6 => next(d),
        _ => d,
    }
}

/// Stub for the time between two dates: in a calendar whose months all have 31
/// days. Any additive, strictly increasing count of days serves: amounts are
/// quotients of such counts.
pub fn apart(a: chrono::NaiveDate, b: chrono::NaiveDate) -> chrono::TimeDelta {
    use chrono::Datelike;
    let n = |d: chrono::NaiveDate| d.year() as i64 * 372 + (d.month0() * 31 + d.day0()) as i64;
    chrono::TimeDelta::try_seconds(n(a) - n(b)).unwrap()
}

struct Terms {
    issue: (Date, Ymd),
    first: (Date, Ymd),
    penult: (Date, Ymd),
    maturity: (Date, Ymd),
}
pub fn date(lo: i32, hi: i32) -> (Date, Ymd) {
    let (d, a, b, c) = any_date(lo, hi);
    (d, (a, b, c))
}
/// One regular coupon, any date: the first coupon is the penultimate payment.
fn single(lo: i32, hi: i32) -> Terms {
    let first = date(lo, hi);
    let t = Terms { issue: date(lo, hi), first, penult: first, maturity: date(lo, hi) };
    sym::assume(t.issue.1 < t.first.1 && t.first.1 < t.maturity.1);
    t
}
/// `k` regular coupons from a given date (so that the loop over them is concrete).
fn from(first: Ymd, k: i32, late: u32) -> Terms {
    let d = |d: Ymd| (Date::from_ymd(d.0, d.1, d.2).unwrap(), d);
    let mut penult = plus(first, 6 * (k - 1));
    let mut i = 0;
    while i < late {
        penult = next(penult);
        i += 1;
    }
    let (lo, hi) = (first.0 - 3, penult.0 + 3);
    let t = Terms { issue: date(lo, hi), first: d(first), penult: d(penult), maturity: date(lo, hi) };
    sym::assume(t.issue.1 < t.first.1 && t.penult.1 < t.maturity.1);
    t
}
fn bond<V: Value>(t: &Terms, rate: V, face: V) -> Option<Bond<V>> {
    Bond::new("b", t.issue.0, t.first.0, t.penult.0, t.maturity.0, Frequency::SA, rate, face)
}

/// One payment date at most carries several payments: the probe is an
/// arbitrary date after an arbitrary settlement.
fn schedule(t: Terms, k: i32) {
    let (lo, hi) = (t.first.1 .0 - 3, t.penult.1 .0 + 3);
    let settle = date(lo, hi);
    let p = date(lo, hi + 1);
    sym::assume(p.1 > settle.1);
    probe(p.0);
    let b = bond::<Present>(&t, Present::Amount, Present::Amount);
    assert!(b.is_some());
    let c = Curve::<Present>::new(settle.0, &[], &[]).unwrap();
    let v = b.unwrap().discounted_value(settle.0, &c).unwrap();
    let mut want = t.maturity.1 > settle.1 && t.maturity.1 == p.1;
    let mut i = 0;
    while i < k {
        let due = plus(t.first.1, 6 * i);
        want |= due > settle.1 && rolled(due) == p.1;
        i += 1;
    }
    assert!((v == Present::Amount) == want);
    witness!(want && t.maturity.1 != p.1);
    witness!(want && t.maturity.1 == p.1);
}

/// Amount on a probe date on which exactly the payment asked for is made.
fn paid(t: &Terms, p: Ymd) -> Poly {
    let settle = plus(t.first.1, -60);
    let (settle, p) = (Date::from_ymd(settle.0, settle.1, settle.2).unwrap(), Date::from_ymd(p.0, p.1, p.2).unwrap());
    probe(p);
    let c = Curve::<Poly>::new(settle, &[], &[]).unwrap();
    bond::<Poly>(t, Poly::RATE, Poly::FACE).unwrap().discounted_value(settle, &c).unwrap()
}
/// The first coupon.
fn first(t: Terms, _: i32) {
    let f = t.first.1;
    let (p, pp) = (plus(f, -6), plus(plus(f, -6), -6));
    let (num, den) = if t.issue.1 >= p {
        (serial(f) - serial(t.issue.1), serial(f) - serial(p))
    } else {
        (serial(p) - serial(t.issue.1) + serial(p) - serial(pp), serial(p) - serial(pp))
    };
    sym::assume(rolled(f) != t.maturity.1);
    assert!(paid(&t, rolled(f)).is(0, num, 2 * den));
    witness!(t.issue.1 > p);
    witness!(t.issue.1 < pp);
    witness!(t.issue.1 == p);
}
/// The one after it.
fn regular(t: Terms, _: i32) {
    let r = rolled(plus(t.first.1, 6));
    sym::assume(r != t.maturity.1);
    assert!(paid(&t, r).is(0, 1, 2));
    witness!(t.issue.1 < t.first.1);
}
/// The last one, with the face value.
fn last(t: Terms, k: i32) {
    let (u, m) = (t.penult.1, t.maturity.1);
    let (n, nn) = (plus(u, 6), plus(plus(u, 6), 6));
    let (num, den) = if m <= n {
        (serial(m) - serial(u), serial(n) - serial(u))
    } else {
        (serial(m) - serial(n) + serial(nn) - serial(n), serial(nn) - serial(n))
    };
    sym::assume(m > rolled(u) && m > rolled(plus(t.first.1, 6 * (k - 1))));
    assert!(paid(&t, m).is(2 * den, num, 2 * den));
    witness!(m > nn);
    witness!(m < n);
    witness!(m == n);
}

/// Stubs: month arithmetic and the weekend roll as the checks of C04 and C06
/// establish them.
pub fn add_months(d: Date, m: Months) -> Option<Date> {
    let n: u32 = unsafe { std::mem::transmute(m) };
    shift(d, n as i32)
}
pub fn sub_months(d: Date, m: Months) -> Option<Date> {
    let n: u32 = unsafe { std::mem::transmute(m) };
    shift(d, -(n as i32))
}
fn shift(d: Date, n: i32) -> Option<Date> {
    assert!(-2400 <= n && n <= 2400);
    let p = plus((d.year(), d.month(), d.day()), n);
    Date::from_ymd(p.0, p.1, p.2)
}
pub fn weekend_roll(d: Date) -> Option<Date> {
    let p = rolled((d.year(), d.month(), d.day()));
    Date::from_ymd(p.0, p.1, p.2)
}

/// Any dates, in any order, with at most one regular coupon.
fn total(lo: i32, hi: i32) {
    let d = |p: (Date, Ymd)| p;
    let t = Terms { issue: d(date(lo, hi)), first: d(date(lo, hi)), penult: d(date(lo, hi)), maturity: d(date(lo, hi)) };
    sym::assume(t.penult.1 .0 * 12 + t.penult.1 .1 as i32 <= t.first.1 .0 * 12 + t.first.1 .1 as i32 + 5);
    let b = bond::<Present>(&t, Present::Amount, Present::Amount);
    witness!(b.is_some());
    witness!(b.is_none());
}

harnesses! {
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[stub(qlab_time::date::Date::checked_add_months, crate::bonds::add_months)]
    #[stub(qlab_time::date::Date::checked_sub_months, crate::bonds::sub_months)]
    #[stub(qlab_time::date::Date::weekend_roll, crate::bonds::weekend_roll)]
    #[unwind(4)]
    fn c18_total() {
        total(-262143, 262142);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[stub(qlab_time::date::Date::checked_add_months, crate::bonds::add_months)]
    #[stub(qlab_time::date::Date::checked_sub_months, crate::bonds::sub_months)]
    #[stub(qlab_time::date::Date::weekend_roll, crate::bonds::weekend_roll)]
    #[unwind(4)]
    fn c18t_any() {
        schedule(single(1901, 2199), 1);
    }
}

macro_rules! anchored {
    ($($name:ident $f:ident($first:expr, $k:literal, $late:literal) $u:literal)*) => {
        harnesses! { ANCHORED $(
            #[stub(alloc::fmt::format, crate::daycount::no_format)]
            #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
            #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
            #[unwind($u)]
            fn $name() {
                $f(from($first, $k, $late), $k);
            }
        )* }
    };
}
anchored! {
    c18_aug31 schedule((2023, 8, 31), 4, 0) 6
    c18_leap schedule((2024, 2, 29), 5, 0) 7
    c18_one schedule((2021, 5, 15), 1, 0) 4
    c18_late schedule((2022, 12, 30), 3, 40) 42
    c18t_dec31 schedule((2029, 12, 31), 10, 0) 12
    c18t_feb28 schedule((2043, 2, 28), 10, 179) 181
    c18t_aug30 schedule((2099, 8, 30), 8, 100) 102
    c19_first_leap first((2024, 2, 29), 1, 0) 4
    c19_first_aug31 first((2023, 8, 31), 2, 0) 4
    c19_regular regular((2023, 8, 31), 3, 0) 5
    c19_last_leap last((2024, 2, 29), 1, 0) 4
    c19_last_aug31 last((2023, 8, 31), 2, 0) 4
    c19_last_late last((2033, 10, 15), 3, 3) 5
    c19t_last_late last((2022, 12, 30), 2, 40) 42
    c19t_first_oct15 first((2033, 10, 15), 3, 0) 5
    c19t_first_may31 first((2096, 5, 31), 1, 0) 4
    c19t_last_may31 last((2096, 5, 31), 4, 0) 6
    c19t_regular regular((2099, 2, 28), 5, 0) 7
}
