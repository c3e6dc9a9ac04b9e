//! C01-C04, C06: dates and date arithmetic.
use crate::refcal as rc;
use crate::sym;
use crate::{harnesses, witness};
use qlab_time::date::Date;
use qlab_time::period::{days::Days, months::Months, years::Years};

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;

/// An arbitrary date of the years `lo..=hi`, with its components.
pub fn any_date(lo: i32, hi: i32) -> (Date, i32, u32, u32) {
    let y = sym::i32_in(lo, hi);
    let m = sym::u32_in(1, 12);
    let d = sym::u32_in(1, 31);
    sym::assume(d <= rc::dim(y, m));
    (Date::from_ymd(y, m, d).unwrap(), y, m, d)
}

// A change of unit inside chrono's `TimeDelta` (days kept where chrono keeps
// 86400 * days seconds), so that the solver need not invert a multiplication
// by 86400. Sound for code that only converts whole days in and out.
pub fn num_days(t: &chrono::TimeDelta) -> i64 {
    t.num_seconds()
}
pub fn try_days(d: i64) -> Option<chrono::TimeDelta> {
    chrono::TimeDelta::try_seconds(d)
}

/// Year and day of year, `n` days after day `o` of year `y` (up to `k` year ends).
fn forward(mut y: i32, mut o: u32, k: u32) -> (i32, u32) {
    let mut i = 0;
    while i < k {
        let l = if rc::leap(y) { 366 } else { 365 };
        if o > l {
            o -= l;
            y += 1;
        }
        i += 1;
    }
    (y, o)
}

fn backward(mut y: i32, mut o: i32, k: u32) -> (i32, i32) {
    let mut i = 0;
    while i < k {
        if o < 1 {
            y -= 1;
            o += if rc::leap(y) { 366 } else { 365 };
        }
        i += 1;
    }
    (y, o)
}

fn ordinal(y: i32, m: u32, d: u32) -> u32 {
    rc::before_month(y, m) + d
}

harnesses! {
    // ---- C01
    #[unwind(8)]
    fn c01_construct() {
        let y = sym::i32_in(-262_143, 262_142);
        let m = sym::u32_();
        let d = sym::u32_();
        let r = Date::from_ymd(y, m, d);
        assert!(r.is_some() == rc::valid(y, m, d));
        if let Some(r) = r {
            assert!(r.year() == y && r.month() == m && r.day() == d);
            assert!(r.leap_year() == rc::leap(y));
        }
        witness!(r.is_some());
        witness!(r.is_none());
    }
    #[unwind(8)]
    fn c01_order() {
        let (a, y, m, d) = any_date(-9999, 9999);
        let (b, y2, m2, d2) = any_date(-9999, 9999);
        let ka = (y as i64 + 10000) * 512 + (m * 32 + d) as i64;
        let kb = (y2 as i64 + 10000) * 512 + (m2 * 32 + d2) as i64;
        assert!((a < b) == (ka < kb));
        assert!((a == b) == (ka == kb));
        assert!((a <= b) == (ka <= kb));
        witness!(a < b);
        witness!(a == b);
    }
    // ---- C02
    #[solver(kissat)]
    #[unwind(8)]
    fn c02_serial() {
        let (a, y, m, d) = any_date(1, 9999);
        assert!(a.serial_date() == rc::serial(y, m, d));
        witness!(d == 31);
    }
    #[solver(kissat)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(8)]
    fn c02_sub() {
        let (a, _, _, _) = any_date(Y0, Y1);
        let (b, _, _, _) = any_date(Y0, Y1);
        let diff = a - b;
        assert!(diff == (a.serial_date() - b.serial_date()) as i64);
        witness!(diff < 0);
        witness!(diff > 100_000);
    }
    // ---- C03
    #[solver(kissat)]
    #[unwind(8)]
    fn c03_succ() {
        let (a, y, m, d) = any_date(-9999, 9999);
        let b = a.succ_opt().unwrap();
        let (y2, o2) = forward(y, ordinal(y, m, d) + 1, 1);
        assert!(b.year() == y2 && ordinal(y2, b.month(), b.day()) == o2);
        assert!(b.pred_opt() == Some(a));
        witness!(b.day() == 1);
    }
    #[solver(kissat)]
    #[unwind(8)]
    fn c03_add() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::u64_in(0, 800);
        let b = a.checked_add_days(Days::new(n)).unwrap();
        let (y2, o2) = forward(y, ordinal(y, m, d) + n as u32, 3);
        assert!(b.year() == y2);
        assert!(ordinal(y2, b.month(), b.day()) == o2);
        witness!(b.year() > y + 1);
    }
    #[solver(kissat)]
    #[unwind(8)]
    fn c03_sub() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::u64_in(0, 800);
        let b = a.checked_sub_days(Days::new(n)).unwrap();
        let (y2, o2) = backward(y, ordinal(y, m, d) as i32 - n as i32, 3);
        assert!(b.year() == y2);
        assert!(ordinal(y2, b.month(), b.day()) as i32 == o2);
        witness!(b.year() + 1 < y);
    }
    #[unwind(8)]
    fn c03_total() {
        let (a, _, _, _) = any_date(-262_143, 262_142);
        let n = sym::u64_();
        let up = a.checked_add_days(Days::new(n));
        let down = a.checked_sub_days(Days::new(n));
        if n > 191_500_000 {
            assert!(up.is_none() && down.is_none());
        }
        if let Some(b) = up {
            assert!(b >= a && (b == a) == (n == 0));
        }
        if let Some(b) = down {
            assert!(b <= a && (b == a) == (n == 0));
        }
        witness!(up.is_none() && down.is_none());
        witness!(up.is_some() && n > 100_000_000);
    }
    #[solver(kissat)]
    #[unwind(110)]
    fn c03t_add_long() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::u64_in(0, 36_525);
        let b = a.checked_add_days(Days::new(n)).unwrap();
        assert!(rc::serial(b.year(), b.month(), b.day()) == rc::serial(y, m, d) + n as i32);
        witness!(b.year() > y + 99);
    }
    // ---- C04
    #[unwind(8)]
    fn c04_add_months() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::u32_in(0, 2400);
        let b = a.checked_add_months(Months::new(n)).unwrap();
        let t = y as u32 * 12 + (m - 1) + n;
        let (ty, tm) = ((t / 12) as i32, t % 12 + 1);
        assert!(b.year() == ty && b.month() == tm);
        assert!(b.day() == d.min(rc::dim(ty, tm)));
        witness!(b.day() < d);
    }
    #[unwind(8)]
    fn c04_sub_months() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::u32_in(0, 2400);
        let b = a.checked_sub_months(Months::new(n)).unwrap();
        let t = y as u32 * 12 + (m - 1) - n;
        let (ty, tm) = ((t / 12) as i32, t % 12 + 1);
        assert!(b.year() == ty && b.month() == tm);
        assert!(b.day() == d.min(rc::dim(ty, tm)));
        witness!(b.day() < d);
        witness!(b.year() < y);
    }
    #[unwind(8)]
    fn c04_years() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let n = sym::i32_in(-1000, 1000);
        let b = a.checked_add_years(Years::new(n)).unwrap();
        assert!(b.year() == y + n && b.month() == m);
        assert!(b.day() == d.min(rc::dim(y + n, m)));
        witness!(b.day() < d);
    }
    #[unwind(8)]
    fn c04_total() {
        let (a, y, m, d) = any_date(-262_143, 262_142);
        let n = sym::i32_();
        let b = a.checked_add_years(Years::new(n));
        let ty = y as i64 + n as i64;
        let ok = (-262_143..=262_142).contains(&ty);
        assert!(b.is_some() == ok);
        if let Some(b) = b {
            assert!(b.year() as i64 == ty && b.month() == m && b.day() == d.min(rc::dim(ty as i32, m)));
        }
        witness!(b.is_none());
        witness!(n == i32::MAX);
    }
    #[unwind(8)]
    fn c04_total_months() {
        let (a, y, m, d) = any_date(-262_143, 262_142);
        let n = sym::u32_();
        let t = (y as i64 + 300_000) * 12 + (m as i64 - 1);
        let lo = (300_000 - 262_143) * 12;
        let hi = (300_000 + 262_142) * 12 + 11;
        let up = a.checked_add_months(Months::new(n));
        assert!(up.is_some() == (t + n as i64 <= hi));
        if let Some(b) = up {
            assert!((b.year() as i64 + 300_000) * 12 + (b.month() as i64 - 1) == t + n as i64);
            assert!(b.day() <= d);
        }
        let down = a.checked_sub_months(Months::new(n));
        assert!(down.is_some() == (t - n as i64 >= lo));
        if let Some(b) = down {
            assert!((b.year() as i64 + 300_000) * 12 + (b.month() as i64 - 1) == t - n as i64);
            assert!(b.day() <= d);
        }
        witness!(up.is_none());
        witness!(down.is_some());
    }
    // ---- C06
    #[solver(kissat)]
    #[unwind(8)]
    fn c06_weekend_roll() {
        let (a, y, m, d) = any_date(Y0, Y1);
        let w = rc::weekday_of_serial(rc::serial(y, m, d));
        let b = a.weekend_roll().unwrap();
        let shift = if w >= 5 { 7 - w } else { 0 };
        let (y2, o2) = forward(y, ordinal(y, m, d) + shift, 1);
        assert!(b.year() == y2);
        assert!(ordinal(y2, b.month(), b.day()) == o2);
        witness!(w == 5 && b.month() != m);
        witness!(w == 6 && b.year() != y);
    }
}
