//! C29: Oceania, Africa and the Middle East.
use super::*;
use calendar::{australia::*, botswana::*, israel::*, newzealand::*, southafrica::*, turkey::*};

/// Christmas and Boxing Day; on a weekend, the 27th or 28th instead.
fn christmas(t: &Day) -> bool {
    t.between(12, 25, 26) || (t.between(12, 27, 28) && (t.w == MON || t.w == TUE))
}
fn australia(t: &Day) -> bool {
    t.weekend()
        || t.or_monday(1, 1)
        || t.or_monday(1, 26)
        || t.easter(-3)
        || t.easter(0)
        || t.on(4, 25)
        || t.nth(2, MON, 6)
        || christmas(t)
        || t.is(2022, 9, 22)
}
fn australia_settlement(t: &Day) -> bool {
    australia(t) || t.nth(1, MON, 8) || t.nth(1, MON, 10)
}
/// The government's calendar of Matariki.
fn matariki(t: &Day) -> bool {
    match t.y {
        2022 | 2033 | 2044 => t.on(6, 24),
        2023 | 2028 => t.on(7, 14),
        2024 => t.on(6, 28),
        2025 => t.on(6, 20),
        2026 | 2037 => t.on(7, 10),
        2027 | 2038 | 2049 => t.on(6, 25),
        2029 | 2040 => t.on(7, 6),
        2030 | 2052 => t.on(6, 21),
        2031 | 2042 => t.on(7, 11),
        2032 => t.on(7, 2),
        2034 | 2045 => t.on(7, 7),
        2035 | 2046 => t.on(6, 29),
        2036 => t.on(7, 18),
        2039 | 2050 => t.on(7, 15),
        2041 | 2047 => t.on(7, 19),
        2043 | 2048 => t.on(7, 3),
        2051 => t.on(6, 30),
        _ => false,
    }
}
fn new_zealand(t: &Day) -> bool {
    let instead = t.m == 1 && (t.d == 3 || t.d == 4) && (t.w == MON || t.w == TUE);
    let mondayised = t.y > 2013;
    t.weekend()
        || t.between(1, 1, 2)
        || instead
        || t.first_from(MON, 1, 19)
        || t.on(2, 6)
        || (mondayised && t.or_monday(2, 6))
        || t.easter(-3)
        || t.easter(0)
        || t.on(4, 25)
        || (mondayised && t.or_monday(4, 25))
        || t.nth(1, MON, 6)
        || matariki(t)
        || t.nth(4, MON, 10)
        || christmas(t)
}
fn south_africa(t: &Day) -> bool {
    let one_off = t.is(2004, 4, 14) || t.is(2009, 4, 22) || t.is(2016, 8, 3) || t.is(2021, 11, 1) || t.is(2022, 12, 27);
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || t.easter(-3)
        || t.easter(0)
        || t.sunday_to_monday(3, 21)
        || t.sunday_to_monday(4, 27)
        || t.sunday_to_monday(5, 1)
        || t.sunday_to_monday(6, 16)
        || t.sunday_to_monday(8, 9)
        || t.sunday_to_monday(9, 24)
        || t.sunday_to_monday(12, 16)
        || t.on(12, 25)
        || t.sunday_to_monday(12, 26)
        || one_off
}
fn botswana(t: &Day) -> bool {
    // Also the Tuesday, when the 1st is a Sunday.
    let new_year = t.sunday_to_monday(1, 1) || (t.on(1, 3) && t.w == TUE);
    let botswana_day = t.sunday_to_monday(10, 1) || (t.on(10, 3) && t.w == TUE);
    t.weekend()
        || new_year
        || t.easter(-3)
        || t.easter(0)
        || t.sunday_to_monday(5, 1)
        || t.easter(38)
        || t.sunday_to_monday(7, 1)
        || t.nth(3, MON, 7)
        || t.on(9, 30)
        || botswana_day
        || t.on(12, 25)
        || t.sunday_to_monday(12, 26)
}

/// The Hebrew calendar's arithmetic: days elapsed before the year's first new moon.
const fn elapsed(y: i32) -> i32 {
    let months = (235 * y - 234) / 19;
    let parts = 12084 + 13753 * months;
    let day = 29 * months + parts / 25920;
    if 3 * (day + 1) % 7 < 3 { day + 1 } else { day }
}
/// Days before 1 January of year `y`, from 1 January of year 1.
const fn before(y: i32) -> i32 {
    let z = y - 1;
    365 * z + z / 4 - z / 100 + z / 400
}
/// Rosh Hashana of Hebrew year `y`; counted as `before`.
const fn rosh_hashana(y: i32) -> i32 {
    let (a, b, c) = (elapsed(y - 1), elapsed(y), elapsed(y + 1));
    let late = if c - b == 356 {
        2
    } else if b - a == 382 {
        1
    } else {
        0
    };
    b + late - 1_373_428
}
/// Of a year: the days of the year of the first day of Passover, of
/// Independence Day, of the fast of the Ninth of Av and of Rosh Hashana.
const HEBREW: [[i32; 4]; 32] = {
    let mut table = [[0; 4]; 32];
    let mut k = 0;
    while k < 32 {
        let y = 2013 + k as i32;
        let r = rosh_hashana(y + 3761);
        let p = r - 163;
        let i = p + 20;
        // Friday and Saturday are avoided, and Monday, since memorial day is the day before.
        let i = match i % 7 {
            4 => i - 1,
            5 => i - 2,
            0 => i + 1,
            _ => i,
        };
        let f = r - 51;
        let f = if f % 7 == 5 { f + 1 } else { f };
        let b = before(y) - 1;
        table[k] = [p - b, i - b, f - b, r - b];
        k += 1;
    }
    table
};
fn israel(t: &Day) -> bool {
    let moon = t.years(2013, 2044) && {
        let [p, i, f, r] = HEBREW[(t.y - 2013) as usize];
        let n = t.n as i32;
        // The eves are listed as holidays until 2020 (that of Yom Kippur always).
        let eve = t.y <= 2020 && (n == p - 1 || n == p + 5 || n == p + 49 || n == r - 1);
        n == p - 30
            || n == p
            || n == p + 6
            || n == i - 1
            || n == i
            || n == p + 50
            || n == f
            || n == r
            || n == r + 1
            || n == r + 8
            || n == r + 9
            || n == r + 13
            || n == r + 14
            || n == r + 20
            || n == r + 21
            || eve
    };
    t.w == FRI || t.w == SAT || moon
}

/// Sacrifice and Ramadan feasts, as recorded.
fn feasts(t: &Day) -> bool {
    match t.y {
        2004 => t.between(2, 1, 4) || t.between(11, 14, 16),
        2005 => t.between(1, 19, 21) || t.between(11, 2, 5),
        2006 => t.between(1, 10, 13) || t.between(10, 23, 25) || t.on(12, 31),
        2007 => t.between(1, 1, 3) || t.between(10, 12, 14) || t.between(12, 20, 23),
        2008 => t.on(9, 30) || t.between(10, 1, 2) || t.between(12, 8, 11),
        2009 => t.between(9, 20, 22) || t.between(11, 27, 30),
        2010 => t.between(9, 9, 11) || t.between(11, 16, 19),
        2011 => t.on(10, 1) || t.between(11, 9, 13),
        2012 => t.between(8, 18, 21) || t.between(10, 24, 28),
        2013 => t.between(8, 7, 10) || t.between(10, 14, 18) || t.on(10, 28),
        2014 => t.between(7, 27, 30) || t.between(10, 4, 7),
        2015 => t.between(7, 17, 19) || t.between(9, 24, 27),
        2016 => t.between(7, 5, 7) || t.between(9, 12, 15),
        2017 => t.between(6, 25, 27) || t.between(9, 1, 4),
        2018 => t.between(6, 15, 17) || t.between(8, 21, 24),
        2019 => t.between(6, 4, 6) || t.between(8, 11, 14),
        2020 => t.between(5, 24, 26) || t.on(7, 31) || t.between(8, 1, 3),
        2021 => t.between(5, 13, 15) || t.between(7, 20, 23),
        2022 => t.between(5, 2, 4) || t.between(7, 9, 12),
        2023 => t.between(4, 21, 23) || t.between(6, 28, 30),
        2024 => t.between(4, 10, 12) || t.between(6, 17, 19),
        2025 => t.on(3, 31) || t.between(4, 1, 2) || t.between(6, 6, 9),
        2026 => t.between(3, 20, 22) || t.between(5, 26, 29),
        2027 => t.between(3, 10, 12) || t.between(5, 16, 19),
        2028 => t.between(2, 27, 29) || t.between(5, 4, 7),
        2029 => t.between(2, 15, 17) || t.between(4, 23, 26),
        2030 => t.between(2, 5, 7) || t.between(4, 13, 16),
        2031 => t.between(1, 25, 27) || t.between(4, 2, 5),
        2032 => t.between(1, 14, 16) || t.between(3, 21, 24),
        2033 => t.between(1, 3, 5) || t.on(12, 23) || t.between(3, 11, 14),
        2034 => t.between(12, 12, 14) || t.on(2, 28) || t.between(3, 1, 3),
        _ => false,
    }
}
fn turkey(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(4, 23)
        || t.on(5, 1)
        || t.on(5, 19)
        || (t.y >= 2017 && t.on(7, 15))
        || t.on(8, 30)
        || t.on(10, 29)
        || feasts(t)
}

crate::calendars! {
    c29_australia(t) {
        judge(&Australia { market: Some(AustraliaMarket::Settlement) }, t, australia_settlement(t));
        judge(&Australia { market: Some(AustraliaMarket::ASX) }, t, australia(t));
        judge(&Australia::default(), t, australia_settlement(t));
    }
    c29_newzealand(t) { judge(&NewZealand, t, new_zealand(t)); }
    c29_southafrica(t) { judge(&SouthAfrica, t, south_africa(t)); }
    c29_botswana(t) { judge(&Botswana, t, botswana(t)); }
    c29_israel(t) { judge(&Israel, t, israel(t)); }
    c29_turkey(t) { judge(&Turkey, t, turkey(t)); }
}
