//! C21: the Easter tables against the computus.
use super::*;
use crate::refcal as rc;
use calendar::target::Target;

/// Month and day of Easter Sunday, Gregorian calendar (anonymous algorithm).
fn western(y: i32) -> (u32, u32) {
    let a = y % 19;
    let (b, c) = (y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let g = (8 * b + 13) / 25;
    let h = (19 * a + b - d - g + 15) % 30;
    let mu = (a + 11 * h) / 319;
    let (i, k) = (c / 4, c % 4);
    let l = (2 * e + 2 * i - k - h + mu + 32) % 7;
    let m = (h - mu + l + 90) / 25;
    let p = (h - mu + l + m + 19) % 32;
    (m as u32, p as u32)
}
/// Day of the Gregorian year of Easter Sunday of the Julian calendar.
fn orthodox(y: i32) -> u32 {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b + 34 - d) % 7;
    let after = d + e; // days after 22 March, Julian
    let shift = y / 100 - y / 400 - 2;
    rc::before_month(y, 3) + 22 + (after + shift) as u32
}

crate::harnesses! {
    #[unwind(4)]
    fn c21_western() {
        let y = sym::i32_in(1901, 2199);
        let (m, d) = western(y);
        assert!(Target.easter_monday(y) == rc::before_month(y, m) + d + 1);
        crate::witness!(m == 3 && d == 23);
        crate::witness!(m == 4 && d == 25);
    }
    #[unwind(4)]
    fn c21_orthodox() {
        let y = sym::i32_in(1901, 2199);
        assert!(Target.orthodox_easter_monday(y) == orthodox(y) + 1);
        crate::witness!(orthodox(y) > 125);
    }
}
