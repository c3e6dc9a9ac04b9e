//! Reference calendar arithmetic, written from the Gregorian rules and
//! independent of chrono.

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn dim(y: i32, m: u32) -> u32 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn valid(y: i32, m: u32, d: u32) -> bool {
    m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m)
}

/// Days before the first of month `m` in year `y`.
pub fn before_month(y: i32, m: u32) -> u32 {
    let b = match m {
        1 => 0,
        2 => 31,
        3 => 59,
        4 => 90,
        5 => 120,
        6 => 151,
        7 => 181,
        8 => 212,
        9 => 243,
        10 => 273,
        11 => 304,
        _ => 334,
    };
    if m > 2 && leap(y) {
        b + 1
    } else {
        b
    }
}

/// Days since the Common Era: 1 January of year 1 is day 1. For `y >= 1`.
pub fn serial(y: i32, m: u32, d: u32) -> i32 {
    let p = (y - 1) as u32;
    (365 * p + p / 4 - p / 100 + p / 400 + before_month(y, m) + d) as i32
}

/// Weekday of a serial day number, Monday = 0 (1 January of year 1 was a Monday).
pub fn weekday_of_serial(s: i32) -> u32 {
    ((s - 1) as u32) % 7
}
