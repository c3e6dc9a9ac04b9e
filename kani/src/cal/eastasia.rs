//! C27: East Asia.
use super::lists;
use super::*;
use calendar::{china::*, hongkong::*, japan::*, southkorea::*, taiwan::*};

/// Day of March (September) of the equinox: the almanac's formula, whose
/// constants are given for 1900 to 1979, 1980 to 2099 and 2100 to 2150.
fn equinox(y: i32, early: i32, middle: i32, late: i32, otherwise: u32) -> u32 {
    let c = match y {
        1900..=1979 => early,
        1980..=2099 => middle,
        2100..=2150 => late,
        _ => return otherwise,
    };
    // In hundredths of a ten-thousandth of a day; leap days counted from 1980.
    let n = y - 1980;
    let leaps = n.div_euclid(4);
    let units = c * 100 + 242_194 * n - 1_000_000 * leaps;
    (units / 1_000_000) as u32
}
pub fn japan(t: &Day) -> bool {
    let vernal = equinox(t.y, 208_357, 208_431, 218_510, 20);
    let autumnal = equinox(t.y, 232_588, 232_488, 242_488, 23);
    let coming_of_age = if t.y >= 2000 { t.nth(2, MON, 1) } else { t.sunday_to_monday(1, 15) };
    let emperor = (t.y >= 2020 && t.sunday_to_monday(2, 23)) || (t.years(1989, 2018) && t.sunday_to_monday(12, 23));
    let golden_week = t.between(5, 3, 5) || (t.on(5, 6) && t.w <= WED);
    let marine = match t.y {
        2020 => t.on(7, 23),
        2021 => t.on(7, 22),
        1996..=2002 => t.sunday_to_monday(7, 20),
        _ => t.y >= 2003 && t.nth(3, MON, 7),
    };
    let mountain = match t.y {
        2020 => t.on(8, 10),
        2021 => t.on(8, 9),
        _ => t.y >= 2016 && t.sunday_to_monday(8, 11),
    };
    let aged = if t.y >= 2003 { t.nth(3, MON, 9) } else { t.sunday_to_monday(9, 15) };
    // A Tuesday between the third Monday of September and the equinox
    let between = t.y >= 2003 && t.m == 9 && t.w == TUE && t.d >= 16 && t.d <= 22 && t.d + 1 == autumnal;
    let sports = match t.y {
        2020 => t.on(7, 24),
        2021 => t.on(7, 23),
        _ if t.y < 2000 => t.sunday_to_monday(10, 10),
        _ => t.nth(2, MON, 10),
    };
    let one_off = t.is(1959, 4, 10)
        || t.is(1989, 2, 24)
        || t.is(1990, 11, 12)
        || t.is(1993, 6, 9)
        || t.is(2019, 4, 30)
        || t.is(2019, 5, 1)
        || t.is(2019, 5, 2)
        || t.is(2019, 10, 22);
    t.weekend()
        || t.between(1, 1, 3)
        || coming_of_age
        || t.sunday_to_monday(2, 11)
        || emperor
        || t.sunday_to_monday(3, vernal)
        || t.sunday_to_monday(4, 29)
        || golden_week
        || marine
        || mountain
        || aged
        || between
        || t.sunday_to_monday(9, autumnal)
        || sports
        || t.sunday_to_monday(11, 3)
        || t.sunday_to_monday(11, 23)
        || t.on(12, 31)
        || one_off
}
/// Before the years of the official announcements, the fixed dates.
pub fn china(t: &Day) -> bool {
    let weeks = t.y <= 2007 && (t.between(5, 1, 7) || t.between(10, 1, 7));
    let festivals = t.y <= 2008 && (t.on(4, 4) || t.on(6, 9) || t.on(9, 15));
    t.weekend() || t.on(1, 1) || weeks || festivals
}
pub fn hong_kong(t: &Day) -> bool {
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || t.easter(-3)
        || t.easter(0)
        || t.sunday_to_monday(5, 1)
        || t.sunday_to_monday(7, 1)
        || t.sunday_to_monday(10, 1)
        || t.between(12, 25, 26)
        || (t.on(12, 27) && (t.w == MON || t.w == TUE))
}
pub fn taiwan(t: &Day) -> bool {
    let on_the_4th = t.y == 2008 || t.y == 2009 || t.y == 2012 || t.y == 2017;
    t.weekend()
        || t.on(1, 1)
        || t.on(2, 28)
        || (t.on(4, 5) && !on_the_4th)
        || t.on(5, 1)
        || t.on(10, 10)
}
pub fn south_korea(t: &Day) -> bool {
    // On a weekend, the Monday instead, since then.
    let instead = |since: i32, m: u32, d: u32| t.on(m, d) || (t.y >= since && t.or_monday(m, d));
    t.weekend()
        || t.on(1, 1)
        || instead(2022, 3, 1)
        || (t.y <= 2005 && t.on(4, 5))
        || t.on(5, 1)
        || instead(2014, 5, 5)
        || t.on(6, 6)
        || (t.y <= 2007 && t.on(7, 17))
        || instead(2021, 8, 15)
        || instead(2021, 10, 3)
        || (t.y >= 2013 && instead(2021, 10, 9))
        || instead(2023, 12, 25)
}

crate::calendars! {
    c27_japan(t) { judge(&Japan, t, japan(t)); }
    c27_china(t) { judge(&China, t, china(t) || lists::china(t)); }
    c27_hongkong(t) { judge(&HongKong, t, hong_kong(t) || lists::hongkong(t)); }
    c27_taiwan(t) { judge(&Taiwan, t, taiwan(t) || lists::taiwan(t)); }
    c27_southkorea(t) { judge(&SouthKorea, t, south_korea(t) || lists::southkorea(t)); }
}
