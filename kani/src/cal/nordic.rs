//! C25: Nordic countries and eastern Europe.
use super::*;
use calendar::{czechrepublic::*, denmark::*, finland::*, hungary::*, iceland::*, norway::*, poland::*, romania::*, russia::*, slovakia::*, sweden::*, ukraine::*};

fn denmark(t: &Day) -> bool {
    t.weekend()
        || t.easter(-4)
        || t.easter(-3)
        || t.easter(0)
        || (t.y < 2024 && t.easter(25))
        || t.easter(38)
        || (t.y > 2008 && t.easter(39))
        || t.easter(49)
        || t.on(1, 1)
        || t.on(6, 5)
        || t.between(12, 24, 26)
        || t.on(12, 31)
}
fn finland(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(1, 6)
        || t.easter(-3)
        || t.easter(0)
        || t.easter(38)
        || t.on(5, 1)
        || t.first_from(FRI, 6, 19)
        || t.on(12, 6)
        || t.between(12, 24, 26)
}
fn iceland(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.easter(-4)
        || t.easter(-3)
        || t.easter(0)
        || t.first_from(THU, 4, 19)
        || t.easter(38)
        || t.easter(49)
        || t.on(5, 1)
        || t.on(6, 17)
        || t.nth(1, MON, 8)
        || t.between(12, 25, 26)
}
fn norway(t: &Day) -> bool {
    t.weekend()
        || t.easter(-4)
        || t.easter(-3)
        || t.easter(0)
        || t.easter(38)
        || t.easter(49)
        || t.on(1, 1)
        || t.on(5, 1)
        || t.on(5, 17)
        || (t.y > 2001 && t.on(12, 24))
        || t.between(12, 25, 26)
}
fn sweden(t: &Day) -> bool {
    t.weekend()
        || t.easter(-3)
        || t.easter(0)
        || t.easter(38)
        || if t.y < 2005 { t.easter(49) } else { t.on(6, 6) }
        || t.on(1, 1)
        || t.on(1, 6)
        || t.on(5, 1)
        || t.first_from(FRI, 6, 19)
        || t.between(12, 24, 26)
        || t.on(12, 31)
}
fn czech(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || (t.y > 2015 && t.easter(-3))
        || t.easter(0)
        || t.on(5, 1)
        || t.on(5, 8)
        || t.between(7, 5, 6)
        || t.on(9, 28)
        || t.on(10, 28)
        || t.on(11, 17)
        || t.between(12, 24, 26)
        || t.is(2004, 1, 2)
        || t.is(2004, 12, 31)
}
fn hungary(t: &Day) -> bool {
    t.weekend()
        || (t.y > 2016 && t.easter(-3))
        || t.easter(0)
        || t.easter(49)
        || t.on(1, 1)
        || t.on(3, 15)
        || t.on(5, 1)
        || t.on(8, 20)
        || t.on(10, 23)
        || t.on(11, 1)
        || t.between(12, 25, 26)
}
fn poland(t: &Day) -> bool {
    t.weekend()
        || t.easter(0)
        || t.easter(59)
        || t.on(1, 1)
        || (t.y > 2010 && t.on(1, 6))
        || t.on(5, 1)
        || t.on(5, 3)
        || t.on(8, 15)
        || t.on(11, 1)
        || t.on(11, 11)
        || t.between(12, 25, 26)
}
fn romania(t: &Day) -> bool {
    t.weekend()
        || t.between(1, 1, 2)
        || t.on(1, 24)
        || t.orthodox(0)
        || t.on(5, 1)
        || t.orthodox(49)
        || (t.y > 2016 && t.on(6, 1))
        || t.on(8, 15)
        || t.on(11, 30)
        || t.on(12, 1)
        || t.between(12, 25, 26)
}
fn slovakia(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(1, 6)
        || t.easter(-3)
        || t.easter(0)
        || t.on(5, 1)
        || t.on(5, 8)
        || t.on(7, 5)
        || t.on(8, 29)
        || t.on(9, 1)
        || t.on(9, 15)
        || t.on(11, 1)
        || t.on(11, 17)
        || t.between(12, 24, 26)
        || (t.years(2004, 2005) && t.between(12, 24, 31))
}
fn ukraine(t: &Day) -> bool {
    t.weekend()
        || t.or_monday(1, 1)
        || t.or_monday(1, 7)
        || t.or_monday(3, 8)
        || t.orthodox(0)
        || t.orthodox(49)
        // 1 and 2 May; the Monday after either
        || t.or_monday(5, 1)
        || t.on(5, 2)
        || t.or_monday(5, 9)
        || t.on(6, 28)
        || t.on(8, 24)
        || (t.y > 2014 && t.on(10, 14))
}
fn russia(t: &Day) -> bool {
    let new_year = t.between(1, 1, if t.y < 2005 { 2 } else { 5 }) || t.is(2012, 1, 6);
    let extra = match t.y {
        2017 => t.on(2, 24) || t.on(5, 8) || t.on(11, 6),
        2018 => t.on(3, 9) || t.on(4, 30) || t.on(5, 2) || t.on(6, 11) || t.on(12, 31),
        2019 => t.on(5, 2) || t.on(5, 3) || t.on(5, 9),
        2020 => t.between(3, 30, 31) || t.between(4, 1, 3),
        _ => false,
    };
    t.weekend()
        || new_year
        || t.or_monday(1, 7)
        || t.or_monday(2, 23)
        || t.or_monday(3, 8)
        || t.or_monday(5, 1)
        || t.or_monday(5, 9)
        || t.or_monday(6, 12)
        || t.or_monday(11, 4)
        || extra
}
fn moscow_exchange(t: &Day) -> bool {
    let works = match t.y {
        2012 => t.on(3, 11) || t.on(4, 28) || t.on(5, 5) || t.on(5, 12) || t.on(6, 9),
        2016 => t.on(2, 20),
        2018 => t.on(4, 28) || t.on(6, 9) || t.on(12, 29),
        _ => false,
    };
    let extra = match t.y {
        2012 => t.on(1, 2) || t.on(3, 9) || t.on(4, 30) || t.on(6, 11),
        2013 => t.between(1, 1, 4) || t.on(1, 7),
        2014 => t.between(1, 1, 3) || t.on(1, 7),
        2015 => t.between(1, 1, 2) || t.on(1, 7),
        2016 => t.on(1, 1) || t.between(1, 7, 8) || t.between(5, 2, 3) || t.on(6, 13) || t.on(12, 30),
        2017 => t.on(1, 2) || t.on(5, 8),
        2018 => t.between(1, 1, 2) || t.on(1, 8) || t.on(12, 31),
        2019 => t.between(1, 1, 2) || t.on(1, 7) || t.on(12, 31),
        2020 => t.between(1, 1, 2) || t.on(1, 7) || t.on(2, 24) || t.on(6, 24) || t.on(7, 1),
        _ => false,
    };
    let yearly = t.on(2, 23) || t.or_monday(3, 8) || t.on(5, 1) || t.or_monday(5, 9) || t.on(6, 12) || t.or_monday(11, 4) || t.on(12, 31);
    !works && (t.weekend() || extra || yearly)
}

crate::calendars! {
    c25_denmark(t) { judge(&Denmark, t, denmark(t)); }
    c25_finland(t) { judge(&Finland, t, finland(t)); }
    c25_iceland(t) { judge(&Iceland, t, iceland(t)); }
    c25_norway(t) { judge(&Norway, t, norway(t)); }
    c25_sweden(t) { judge(&Sweden, t, sweden(t)); }
    c25_czechrepublic(t) { judge(&CzechRepublic, t, czech(t)); }
    c25_hungary(t) { judge(&Hungary, t, hungary(t)); }
    c25_poland(t) { judge(&Poland, t, poland(t)); }
    c25_romania(t) { judge(&Romania, t, romania(t)); }
    c25_slovakia(t) { judge(&Slovakia, t, slovakia(t)); }
    c25_ukraine(t) { judge(&Ukraine, t, ukraine(t)); }
    c25_russia(t) {
        judge(&Russia { market: Some(RussiaMarket::Settlement) }, t, russia(t));
        judge(&Russia::default(), t, russia(t));
    }
    c25_russia_exchange(t) {
        judge(&Russia { market: Some(RussiaMarket::Exchange) }, t, moscow_exchange(t));
    }
}
