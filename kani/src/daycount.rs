//! C08, C09: day-count fractions, observed through an exact fraction type.
use crate::dates::{any_date, Y0, Y1};
use crate::frac::Frac;
use crate::sym;
use crate::{harnesses, witness};
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};

harnesses! {
    #[solver(kissat)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(8)]
    fn c08_act360() {
        let (a, _, _, _) = any_date(Y0, Y1);
        let (b, _, _, _) = any_date(Y0, Y1);
        let f: Frac = Act360::calculate_day_count_fraction(a, b).unwrap();
        assert!(f.is((b.serial_date() - a.serial_date()) as i64, 360));
        witness!(f.num < 0);
        witness!(f.num > 100_000);
    }
    #[solver(kissat)]
    #[stub(chrono::TimeDelta::num_days, crate::dates::num_days)]
    #[stub(chrono::TimeDelta::try_days, crate::dates::try_days)]
    #[unwind(8)]
    fn c08_act365() {
        let (a, _, _, _) = any_date(Y0, Y1);
        let (b, _, _, _) = any_date(Y0, Y1);
        let f: Frac = Act365::calculate_day_count_fraction(a, b).unwrap();
        assert!(f.is((b.serial_date() - a.serial_date()) as i64, 365));
        witness!(f.num < 0);
        witness!(f.num > 100_000);
    }
    #[stub(alloc::fmt::format, crate::daycount::no_format)]
    #[unwind(8)]
    fn c09_thirty() {
        let (a, y1, m1, d1) = any_date(Y0, Y1);
        let (b, y2, m2, d2) = any_date(Y0, Y1);
        let r = Thirty360::calculate_day_count_fraction::<Frac>(a, b);
        let ordered = (y1, m1, d1) <= (y2, m2, d2);
        assert!(r.is_ok() == ordered);
        if let Ok(f) = r {
            let days = 360 * (y2 - y1) as i64 + 30 * (m2 as i64 - m1 as i64) + d2.min(30) as i64 - d1.min(30) as i64;
            assert!(f.is(days, 360));
        }
        witness!(!ordered);
        witness!(ordered && m2 < m1);
        witness!(ordered && d2 == 31 && d1 == 31);
    }
}

/// Error messages are not the subject; formatting is cut out.
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
    let _ = sym::bool_;
    String::new()
}
