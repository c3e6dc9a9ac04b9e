//! C26: the Americas.
use super::*;
use calendar::{argentina::*, brazil::*, canada::*, chile::*, mexico::*, unitedstates::*};

impl Day {
    /// The date; the Monday after if it is a Sunday, the Friday before if it is a Saturday.
    fn adjusted(&self, m: u32, d: u32) -> bool {
        self.sunday_to_monday(m, d) || (self.w == FRI && self.on(m, d - 1))
    }
}
fn washington(t: &Day) -> bool {
    if t.y < 1971 { t.adjusted(2, 22) } else { t.nth(3, MON, 2) }
}
fn memorial(t: &Day) -> bool {
    if t.y < 1971 { t.adjusted(5, 30) } else { t.last(MON, 5) }
}
fn juneteenth(t: &Day) -> bool {
    t.y > 2021 && t.adjusted(6, 19)
}
fn labor(t: &Day) -> bool {
    t.nth(1, MON, 9)
}
fn columbus(t: &Day) -> bool {
    t.y > 1970 && t.nth(2, MON, 10)
}
fn veterans(t: &Day) -> bool {
    if t.years(1971, 1977) { t.nth(4, MON, 10) } else { t.adjusted(11, 11) }
}
fn veterans_no_saturday(t: &Day) -> bool {
    if t.years(1971, 1977) { t.nth(4, MON, 10) } else { t.sunday_to_monday(11, 11) }
}
fn thanksgiving(t: &Day) -> bool {
    t.nth(4, THU, 11)
}
fn king(t: &Day, since: i32) -> bool {
    t.y >= since && t.nth(3, MON, 1)
}
fn settlement(t: &Day) -> bool {
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || (t.on(12, 31) && t.w == FRI)
        || king(t, 1983)
        || washington(t)
        || memorial(t)
        || juneteenth(t)
        || t.adjusted(7, 4)
        || labor(t)
        || columbus(t)
        || veterans(t)
        || thanksgiving(t)
        || t.adjusted(12, 25)
}
fn libor(t: &Day) -> bool {
    // Since 2015 Independence Day is not made up for when it is on a weekend.
    let open = t.y >= 2015 && !t.weekend() && t.adjusted(7, 4) && !t.on(7, 4);
    !open && settlement(t)
}
fn nyse(t: &Day) -> bool {
    let election = (t.y <= 1968 || (t.y <= 1980 && t.y % 4 == 0)) && t.nth(1, TUE, 11);
    let special = match t.y {
        2018 => t.on(12, 5),
        2012 => t.between(10, 29, 30),
        2007 => t.on(1, 2),
        2004 => t.on(6, 11),
        2001 => t.between(9, 11, 14),
        1994 => t.on(4, 27),
        1985 => t.on(9, 27),
        1977 => t.on(7, 14),
        1973 => t.on(1, 25),
        1972 => t.on(12, 28),
        1969 => t.on(7, 21) || t.on(3, 31) || t.on(2, 10),
        // Closed on Wednesdays from 12 June (day 164 of a leap year; 163, the 11th, is a Tuesday)
        1968 => t.on(7, 5) || t.on(4, 9) || (t.w == WED && (t.m > 6 || (t.m == 6 && t.d >= 12))),
        1963 => t.on(11, 25),
        1961 => t.on(5, 29),
        1958 => t.on(12, 26),
        1954 | 1956 | 1965 => t.on(12, 24),
        _ => false,
    };
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || king(t, 1998)
        || washington(t)
        || t.easter(-3)
        || memorial(t)
        || juneteenth(t)
        || t.adjusted(7, 4)
        || labor(t)
        || thanksgiving(t)
        || t.adjusted(12, 25)
        || election
        || special
}
fn government_bond(t: &Day) -> bool {
    let half_day = t.y == 2015 || t.y == 2021 || t.y == 2023;
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || king(t, 1983)
        || washington(t)
        || (t.easter(-3) && !half_day)
        || memorial(t)
        || juneteenth(t)
        || t.adjusted(7, 4)
        || labor(t)
        || columbus(t)
        || veterans_no_saturday(t)
        || thanksgiving(t)
        || t.adjusted(12, 25)
        || t.is(2018, 12, 5)
        || t.is(2012, 10, 30)
        || t.is(2004, 6, 11)
}
fn nerc(t: &Day) -> bool {
    t.weekend()
        || t.sunday_to_monday(1, 1)
        || memorial(t)
        || t.sunday_to_monday(7, 4)
        || labor(t)
        || thanksgiving(t)
        || t.sunday_to_monday(12, 25)
}
fn federal_reserve(t: &Day) -> bool {
    nerc(t) || king(t, 1983) || washington(t) || juneteenth(t) || columbus(t) || veterans_no_saturday(t)
}
fn canada(t: &Day) -> bool {
    let reconciliation = t.on(9, 30) || (t.w == MON && t.between(10, 1, 2));
    // Christmas or Boxing Day on a weekend, made up for on the 27th or 28th
    let instead = t.between(12, 27, 28) && (t.w == MON || t.w == TUE);
    t.weekend()
        || t.or_monday(1, 1)
        || (t.y >= 2008 && t.nth(3, MON, 2))
        || t.easter(-3)
        || t.first_from(MON, 5, 18)
        || t.or_monday(7, 1)
        || t.nth(1, MON, 8)
        || t.nth(1, MON, 9)
        || (t.y >= 2021 && reconciliation)
        || t.nth(2, MON, 10)
        || t.between(12, 25, 26)
        || instead
}
fn mexico(t: &Day) -> bool {
    let moved = if t.y < 2006 {
        t.on(2, 5) || t.on(3, 21) || t.on(11, 20)
    } else {
        t.nth(1, MON, 2) || t.nth(3, MON, 3) || t.nth(3, MON, 11)
    };
    t.weekend()
        || moved
        || t.on(1, 1)
        || t.easter(-4)
        || t.easter(-3)
        || t.on(5, 1)
        || t.on(9, 16)
        || t.on(11, 2)
        || t.on(12, 12)
        || t.on(12, 25)
}
fn brazil(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(4, 21)
        || t.on(5, 1)
        || t.on(9, 7)
        || t.on(10, 12)
        || t.on(11, 2)
        || t.on(11, 15)
        || t.on(12, 25)
        || t.easter(-3)
        || t.easter(-49)
        || t.easter(-48)
        || t.easter(59)
}
fn sao_paulo(t: &Day) -> bool {
    // The last business day of the year: the 31st or a Friday before.
    let last = t.on(12, 31) || (t.w == FRI && t.between(12, 29, 30));
    brazil(t) || t.on(1, 25) || t.on(7, 9) || (t.y >= 2007 && t.on(11, 20)) || t.on(12, 24) || last
}
fn argentina(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.easter(-4)
        || t.easter(-3)
        || t.on(5, 1)
        || t.on(5, 25)
        || t.nth(3, MON, 6)
        || t.on(7, 9)
        || t.nth(3, MON, 8)
        || (t.w == MON && (t.between(10, 10, 12) || t.between(10, 15, 16)))
        || t.on(12, 8)
        || t.on(12, 24)
        || t.on(12, 31)
        || (t.w == FRI && t.on(12, 30))
}
fn chile(t: &Day) -> bool {
    let independence = t.on(9, 18) || (t.on(9, 17) && ((t.w == MON && t.y >= 2007) || (t.w == FRI && t.y >= 2017)));
    let army = t.on(9, 19) || (t.on(9, 20) && t.w == FRI && t.y >= 2007);
    // 31 October; a Tuesday moves to the Friday before, a Wednesday to the Friday after.
    let reformation = (t.on(10, 31) && t.w != TUE && t.w != WED) || (t.w == FRI && (t.on(10, 27) || t.on(11, 2)));
    t.weekend()
        || t.on(1, 1)
        || (t.y >= 2017 && t.on(1, 2) && t.w == MON)
        || t.easter(-3)
        || t.easter(-2)
        || t.on(5, 1)
        || t.on(5, 21)
        || (t.y >= 2021 && t.on(6, 21))
        || (t.w == MON && (t.between(6, 26, 29) || t.on(7, 2)))
        || t.on(7, 16)
        || t.on(8, 15)
        || independence
        || army
        || (t.w == MON && (t.between(10, 9, 12) || t.on(10, 15)))
        || (t.y >= 2008 && reformation)
        || t.on(11, 1)
        || t.on(12, 8)
        || t.on(12, 25)
}
fn us(market: UnitedStatesMarket) -> UnitedStates {
    UnitedStates { market: Some(market) }
}

crate::calendars! {
    c26_us_settlement(t) {
        judge(&us(UnitedStatesMarket::Settlement), t, settlement(t));
        judge(&UnitedStates::default(), t, settlement(t));
    }
    c26_us_libor(t) { judge(&us(UnitedStatesMarket::Libor), t, libor(t)); }
    c26_us_nyse(t) { judge(&us(UnitedStatesMarket::NYSE), t, nyse(t)); }
    c26_us_bond(t) { judge(&us(UnitedStatesMarket::GovernmentBond), t, government_bond(t)); }
    c26_us_sofr(t) { judge(&us(UnitedStatesMarket::SOFR), t, government_bond(t) || t.is(2023, 4, 7)); }
    c26_us_nerc(t) { judge(&us(UnitedStatesMarket::NERC), t, nerc(t)); }
    c26_us_reserve(t) { judge(&us(UnitedStatesMarket::FederalReserve), t, federal_reserve(t)); }
    c26_canada(t) {
        judge(&Canada { market: Some(CanadaMarket::Settlement) }, t, canada(t) || t.or_monday(11, 11));
        judge(&Canada { market: Some(CanadaMarket::TSX) }, t, canada(t));
        judge(&Canada::default(), t, canada(t) || t.or_monday(11, 11));
    }
    c26_mexico(t) { judge(&Mexico, t, mexico(t)); }
    c26_brazil(t) {
        judge(&Brazil { market: Some(BrazilMarket::Settlement) }, t, brazil(t));
        judge(&Brazil { market: Some(BrazilMarket::Exchange) }, t, sao_paulo(t));
        judge(&Brazil::default(), t, brazil(t));
    }
    c26_argentina(t) { judge(&Argentina, t, argentina(t)); }
    c26_chile(t) { judge(&Chile, t, chile(t)); }
}
