//! C21, C24-C29: market calendars against their documented rules, for every
//! day of the years of the Easter tables.
pub mod america;
pub mod easter;
pub mod eastasia;
pub mod europe;
pub mod nordic;
pub mod southasia;
pub mod south;
pub mod lists;

use crate::sym;
use calendar::weekendsonly::WeekendsOnly;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};

pub const MON: u32 = 0;
pub const TUE: u32 = 1;
pub const WED: u32 = 2;
pub const THU: u32 = 3;
pub const FRI: u32 = 4;
pub const SAT: u32 = 5;
pub const SUN: u32 = 6;

/// A day, described for the rules.
#[derive(Clone, Copy)]
pub struct Day {
    pub date: NaiveDate,
    pub y: i32,
    pub m: u32,
    pub d: u32,
    /// Weekday, Monday = 0.
    pub w: u32,
    /// Day of year.
    pub n: u32,
    /// Days of the year of Easter Monday (C21 decides that they are right).
    pub em: u32,
    pub oem: u32,
}
pub fn any_day() -> Day {
    let (_, y, m, d) = crate::dates::any_date(1901, 2199);
    day(y, m, d)
}
pub fn day(y: i32, m: u32, d: u32) -> Day {
    let date = NaiveDate::from_ymd_opt(y, m, d).unwrap();
    Day {
        date,
        y,
        m,
        d,
        w: date.weekday().num_days_from_monday(),
        n: date.ordinal(),
        em: WeekendsOnly.easter_monday(y),
        oem: WeekendsOnly.orthodox_easter_monday(y),
    }
}
impl Day {
    pub fn weekend(&self) -> bool {
        self.w == SAT || self.w == SUN
    }
    /// The fixed date.
    pub fn on(&self, m: u32, d: u32) -> bool {
        self.m == m && self.d == d
    }
    /// That day only.
    pub fn is(&self, y: i32, m: u32, d: u32) -> bool {
        self.y == y && self.on(m, d)
    }
    pub fn between(&self, m: u32, a: u32, b: u32) -> bool {
        self.m == m && a <= self.d && self.d <= b
    }
    /// `off` days after Easter Monday.
    pub fn easter(&self, off: i32) -> bool {
        self.n as i32 == self.em as i32 + off
    }
    pub fn orthodox(&self, off: i32) -> bool {
        self.n as i32 == self.oem as i32 + off
    }
    /// The `k`-th weekday `w` of month `m`.
    pub fn nth(&self, k: u32, w: u32, m: u32) -> bool {
        self.m == m && self.w == w && 7 * (k - 1) < self.d && self.d <= 7 * k
    }
    /// The last weekday `w` of month `m`.
    pub fn last(&self, w: u32, m: u32) -> bool {
        self.m == m && self.w == w && self.d + 7 > crate::refcal::dim(self.y, m)
    }
    /// The fixed date, or the Monday after it if it is on a weekend.
    pub fn or_monday(&self, m: u32, d: u32) -> bool {
        self.on(m, d) || (self.w == MON && (self.on(m, d + 1) || self.on(m, d + 2)))
    }
    /// The fixed date, or the Monday after it if it is a Sunday.
    pub fn sunday_to_monday(&self, m: u32, d: u32) -> bool {
        self.on(m, d) || (self.w == MON && self.on(m, d + 1))
    }
    /// The first weekday `w` on or after the date.
    pub fn first_from(&self, w: u32, m: u32, d: u32) -> bool {
        self.w == w && self.m == m && d <= self.d && self.d < d + 7
    }
    /// Years `a` to `b`.
    pub fn years(&self, a: i32, b: i32) -> bool {
        a <= self.y && self.y <= b
    }
}

/// `c` closes exactly on weekends and where `closed` says.
pub fn judge(c: &impl Calendar, t: &Day, closed: bool) {
    assert!(c.is_business_day(t.date) != closed);
    assert!(c.is_holiday(t.date) == closed);
    crate::witness!(closed && !t.weekend());
    crate::witness!(!closed);
    let _ = sym::assume;
}

#[macro_export]
macro_rules! calendars {
    ($($name:ident $(/ $s:ident)? ($t:ident) $b:block)*) => {
        $crate::harnesses! { $(
            $(#[solver($s)])?
            #[unwind(10)]
            fn $name() { let $t = &$crate::cal::any_day(); $b }
        )* }
    };
}
