//! C05, C07, C22, C23: behaviour over an arbitrary calendar.
use crate::dates::{any_date, Y0, Y1};
use crate::refcal as rc;
use crate::sym;
use crate::{harnesses, witness};
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Market;
use chrono::{Datelike, NaiveDate, Weekday};
use qlab_time::calendar::Calendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::period::{days::Days, months::Months, years::Years, Period};

/// An arbitrary holiday pattern: one solver-chosen bit per day of month, for
/// odd and even months (so that any two adjacent months are independent).
#[derive(Clone, Copy, Debug)]
pub struct Mask(pub u64);
impl Mask {
    pub fn open(self, m: u32, d: u32) -> bool {
        self.0 >> ((m & 1) * 32 + d) & 1 == 1
    }
}
pub struct DateMask(pub Mask);
impl Calendar for DateMask {
    fn is_business_day(&self, date: Date) -> bool {
        self.0.open(date.month(), date.day())
    }
}
impl Market for Mask {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.open(date.month(), date.day())
    }
}

/// A period that takes every date to a fixed one, or fails.
#[derive(Clone, Copy)]
struct To(Option<Date>);
impl Period for To {
    fn checked_add(self, _: Date) -> Option<Date> {
        self.0
    }
}

const W: u32 = 6;

fn after(c: &DateMask, mut d: Date) -> Option<Date> {
    let mut i = 0;
    while i <= W {
        if c.is_business_day(d) {
            return Some(d);
        }
        d = d.succ_opt()?;
        i += 1;
    }
    None
}
fn before(c: &DateMask, mut d: Date) -> Option<Date> {
    let mut i = 0;
    while i <= W {
        if c.is_business_day(d) {
            return Some(d);
        }
        d = d.pred_opt()?;
        i += 1;
    }
    None
}

fn setup() -> (Date, Date, DateMask, Option<Date>, Option<Date>) {
    let (s, _, _, _) = any_date(Y0, Y1);
    let (u, _, _, _) = any_date(Y0, Y1);
    let c = DateMask(Mask(sym::u64_()));
    let f = after(&c, u);
    let p = before(&c, u);
    (s, u, c, f, p)
}

pub fn naive(lo: i32, hi: i32) -> (NaiveDate, i32, u32, u32) {
    let y = sym::i32_in(lo, hi);
    let m = sym::u32_in(1, 12);
    let d = sym::u32_in(1, 31);
    sym::assume(d <= rc::dim(y, m));
    (NaiveDate::from_ymd_opt(y, m, d).unwrap(), y, m, d)
}

harnesses! {
    // ---- C05
    #[unwind(10)]
    fn c05_following() {
        let (s, u, c, f, _) = setup();
        sym::assume(f.is_some());
        assert!(s.checked_roll(To(Some(u)), &c, DateRolling::Following) == f);
        witness!(f != Some(u));
    }
    #[unwind(10)]
    fn c05_preceding() {
        let (s, u, c, _, p) = setup();
        sym::assume(p.is_some());
        assert!(s.checked_roll(To(Some(u)), &c, DateRolling::Preceding) == p);
        witness!(p != Some(u));
    }
    #[unwind(10)]
    fn c05_modified_following() {
        let (s, u, c, f, p) = setup();
        sym::assume(f.is_some() && p.is_some());
        let same = f.unwrap().month() == u.month();
        let want = if same { f } else { p };
        assert!(s.checked_roll(To(Some(u)), &c, DateRolling::ModifiedFollowing) == want);
        witness!(!same && s.month() == u.month());
        witness!(same && s.month() != u.month());
        witness!(!same && f.unwrap().month() == s.month());
    }
    #[unwind(10)]
    fn c05_modified_preceding() {
        let (s, u, c, f, p) = setup();
        sym::assume(f.is_some() && p.is_some());
        let same = p.unwrap().month() == u.month();
        let want = if same { p } else { f };
        assert!(s.checked_roll(To(Some(u)), &c, DateRolling::ModifiedPreceding) == want);
        witness!(!same && s.month() == u.month());
        witness!(same && s.month() != u.month());
        witness!(!same && p.unwrap().month() == s.month());
    }
    #[unwind(10)]
    fn c05_unadjusted_and_failure() {
        let (s, u, c, _, _) = setup();
        assert!(s.checked_roll(To(Some(u)), &c, DateRolling::Unadjusted) == Some(u));
        assert!(s.checked_roll(To(None), &c, DateRolling::Unadjusted).is_none());
        assert!(s.checked_roll(To(None), &c, DateRolling::Following).is_none());
        assert!(s.checked_roll(To(None), &c, DateRolling::ModifiedFollowing).is_none());
        assert!(s.checked_roll(To(None), &c, DateRolling::Preceding).is_none());
        assert!(s.checked_roll(To(None), &c, DateRolling::ModifiedPreceding).is_none());
        witness!(!c.is_business_day(u));
    }
    #[unwind(10)]
    fn c05_periods() {
        let (s, _, _, _) = any_date(Y0, Y1);
        let c = DateMask(Mask(0));
        let n = sym::u32_in(0, 400);
        assert!(s.checked_roll(Days::new(n as u64), &c, DateRolling::Unadjusted) == s.checked_add_days(Days::new(n as u64)));
        assert!(s.checked_roll(Months::new(n), &c, DateRolling::Unadjusted) == s.checked_add_months(Months::new(n)));
        let k = n as i32 - 200;
        assert!(s.checked_roll(Years::new(k), &c, DateRolling::Unadjusted) == s.checked_add_years(Years::new(k)));
        witness!(n == 400);
    }
    // ---- C07
    #[unwind(10)]
    fn c07_adapter() {
        let (d, y, m, day) = any_date(Y0, Y1);
        let n = NaiveDate::from_ymd_opt(y, m, day).unwrap();
        assert!(Date::from(n) == d);
        let c = Mask(sym::u64_());
        let open = c.open(m, day);
        assert!(Calendar::is_business_day(&c, d) == open);
        assert!(Calendar::is_holiday(&c, d) != open);
        assert!(Market::is_holiday(&c, n) != open);
        assert!(DateMask(c).is_holiday(d) != open);
        witness!(open);
        witness!(!open);
    }
    #[unwind(10)]
    fn c07_markets() {
        let (d, y, m, day) = any_date(Y0, Y1);
        let n = NaiveDate::from_ymd_opt(y, m, day).unwrap();
        let t = calendar::target::Target;
        assert!(Calendar::is_business_day(&t, d) == Market::is_business_day(&t, n));
        assert!(Calendar::is_holiday(&t, d) == !Market::is_business_day(&t, n));
        let u = calendar::ukraine::Ukraine;
        assert!(Calendar::is_business_day(&u, d) == Market::is_business_day(&u, n));
        assert!(Calendar::is_holiday(&u, d) == !Market::is_business_day(&u, n));
        witness!(Calendar::is_holiday(&u, d) && !Calendar::is_holiday(&t, d));
    }
    // ---- C22
    #[solver(kissat)]
    #[unwind(10)]
    fn c22_weekend() {
        let (n, y, m, d) = naive(Y0, Y1);
        let c = Mask(sym::u64_());
        let w = rc::weekday_of_serial(rc::serial(y, m, d));
        let weekend = w >= 5;
        assert!(Market::is_weekend(&c, n) == weekend);
        let wo = calendar::weekendsonly::WeekendsOnly;
        assert!(Market::is_business_day(&wo, n) == !weekend);
        assert!(Market::is_holiday(&wo, n) == weekend);
        witness!(weekend);
    }
    #[unwind(36)]
    fn c22_month_end() {
        let (n, y, m, d) = naive(Y0, Y1);
        let c = Mask(sym::u64_());
        let l = c.last_day_of_month(n);
        assert!(l.year() == y && l.month() == m && l.day() == rc::dim(y, m));
        witness!(d == 1);
    }
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(12)]
    fn c22_end_of_month() {
        let (n, y, m, d) = naive(Y0, Y1);
        let c = Mask(sym::u64_());
        let last = rc::dim(y, m);
        // A business day among the last eight days of the month.
        let mut want = 0;
        let mut k = 0;
        while k < 8 {
            if want == 0 && c.open(m, last - k) {
                want = last - k;
            }
            k += 1;
        }
        sym::assume(want != 0);
        let e = c.end_of_month(n);
        assert!(e.year() == y && e.month() == m && e.day() == want);
        witness!(want < last && d > want);
    }
    #[unwind(10)]
    fn c22_joint() {
        let (n, _, m, d) = naive(Y0, Y1);
        let a = Mask(sym::u64_());
        let b = Mask(sym::u64_());
        let j = JointCalendar::new(a, b);
        assert!(Market::is_business_day(&j, n) == (a.open(m, d) && b.open(m, d)));
        assert!(Market::is_holiday(&j, n) == !(a.open(m, d) && b.open(m, d)));
        witness!(a.open(m, d) && !b.open(m, d));
        witness!(!a.open(m, d) && b.open(m, d));
        witness!(Market::is_business_day(&j, n));
    }
    #[unwind(10)]
    fn c22_parts() {
        let (n, y, m, d) = naive(Y0, Y1);
        let (kd, kw, km, ky, kdd) = Mask(0).naive_date_to_dkmy(n);
        assert!(kd == d && km == m && ky == y && kdd == rc::before_month(y, m) + d);
        assert!(kw == n.weekday());
        witness!(kw == Weekday::Mon);
    }
    // ---- C23
    // The function calls itself with the dates exchanged, so a symbolic order of
    // the dates is explored to the unwinding depth: few days, every date.
    #[solver(kissat)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(4)]
    fn c23_near() {
        let (from, _, _, _) = naive(Y0, Y1);
        let n = sym::u32_in(0, 2);
        let c = Mask(sym::u64_());
        let first = flag(sym::u32_in(0, 2));
        let last = flag(sym::u32_in(0, 2));
        let d1 = from.succ_opt().unwrap();
        let d2 = d1.succ_opt().unwrap();
        let to = if n == 0 { from } else if n == 1 { d1 } else { d2 };
        let f = first.unwrap_or(true);
        let l = last.unwrap_or(false);
        let open = |d: NaiveDate| c.open(d.month(), d.day()) as i64;
        let want = if n == 0 {
            if f && l { open(from) } else { 0 }
        } else {
            f as i64 * open(from) + l as i64 * open(to) + if n == 2 { open(d1) } else { 0 }
        };
        assert!(c.business_days_between(from, to, first, last) == want);
        witness!(n == 2 && want == 3);
        witness!(n == 0 && want == 1);
    }
    // Longer ranges and both orders, from fixed dates around month and year
    // ends, over every holiday pattern.
    #[unwind(20)]
    fn c23_ranges() {
        ranges(2, &[0, 1, 2, 5, 9]);
    }
    #[unwind(32)]
    fn c23t_ranges() {
        ranges(3, &[0, 1, 3, 6, 12, 20]);
    }
}

fn flag(v: u32) -> Option<bool> {
    match v {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    }
}

fn ranges(count: usize, ns: &[u32]) {
    let c = Mask(sym::u64_());
    let starts = [(2023, 12, 27), (2024, 2, 26), (2000, 4, 1)];
    let mut s = 0;
    while s < count {
        let (y, m, d) = starts[s];
        let from = NaiveDate::from_ymd_opt(y, m, d).unwrap();
        let mut inner = 0; // open days strictly between
        let mut to = from;
        let mut n = 0;
        let mut i = 0;
        while i < ns.len() {
            let open = |d: NaiveDate| c.open(d.month(), d.day()) as i64;
            if n < ns[i] {
                if n > 0 {
                    inner += open(to);
                }
                to = to.succ_opt().unwrap();
                n += 1;
                continue;
            }
            let mut v = 0;
            while v < 5 {
                let (first, last) = match v {
                    0 => (None, None),
                    1 => (Some(false), Some(false)),
                    2 => (Some(false), Some(true)),
                    3 => (Some(true), Some(false)),
                    _ => (Some(true), Some(true)),
                };
                let f = first.unwrap_or(true);
                let l = last.unwrap_or(false);
                let want = if n == 0 {
                    if f && l { open(from) } else { 0 }
                } else {
                    f as i64 * open(from) + inner + l as i64 * open(to)
                };
                assert!(c.business_days_between(from, to, first, last) == want);
                if n > 0 && (v == 0 || v == 2) {
                    assert!(c.business_days_between(to, from, first, last) == -want);
                }
                v += 1;
            }
            i += 1;
        }
        witness!(inner == 5);
        s += 1;
    }
}
