//! C24: western Europe.
use super::*;
use calendar::{austria::*, france::*, germany::*, italy::*, switzerland::*, target::*, unitedkingdom::*};

fn target(t: &Day) -> bool {
    let new_year = t.on(1, 1);
    let since_2000 = t.easter(-3) || t.easter(0) || t.on(5, 1) || t.on(12, 26);
    let year_end = t.is(1998, 12, 31) || t.is(1999, 12, 31) || t.is(2001, 12, 31);
    t.weekend() || new_year || t.on(12, 25) || (t.y >= 2000 && since_2000) || year_end
}
fn christmas_eve_to_boxing_day(t: &Day) -> bool {
    t.between(12, 24, 26)
}
fn frankfurt(t: &Day) -> bool {
    t.weekend() || t.on(1, 1) || t.easter(-3) || t.easter(0) || t.on(5, 1) || christmas_eve_to_boxing_day(t)
}
fn germany(t: &Day) -> bool {
    frankfurt(t) || t.easter(38) || t.easter(49) || t.easter(59) || t.on(10, 3)
}
fn france(t: &Day, ascension: bool, pentecost: bool) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.easter(0)
        || t.on(5, 1)
        || t.on(5, 8)
        || ascension
        || pentecost
        || t.on(7, 14)
        || t.on(8, 15)
        || t.on(11, 1)
        || t.on(11, 11)
        || t.on(12, 25)
}
fn paris(t: &Day) -> bool {
    t.weekend() || t.on(1, 1) || t.easter(-3) || t.easter(0) || t.on(5, 1) || t.between(12, 24, 26) || t.on(12, 31)
}
fn italy(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(1, 6)
        || t.easter(0)
        || t.on(4, 25)
        || t.on(5, 1)
        || (t.y >= 2000 && t.on(6, 2))
        || t.on(8, 15)
        || t.on(11, 1)
        || t.on(12, 8)
        || t.between(12, 25, 26)
        || t.is(1999, 12, 31)
}
fn milan(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.easter(-3)
        || t.easter(0)
        || t.on(5, 1)
        || t.on(8, 15)
        || t.between(12, 24, 26)
        || t.on(12, 31)
}
fn national_day(t: &Day) -> bool {
    (t.y >= 1967 && t.on(10, 26)) || (t.years(1919, 1934) && t.on(11, 12))
}
fn austria(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.on(1, 6)
        || t.easter(0)
        || t.easter(38)
        || t.easter(49)
        || t.easter(59)
        || t.on(5, 1)
        || t.on(8, 15)
        || national_day(t)
        || t.on(11, 1)
        || t.on(12, 8)
        || t.between(12, 25, 26)
}
fn vienna(t: &Day) -> bool {
    t.weekend()
        || t.on(1, 1)
        || t.easter(-3)
        || t.easter(0)
        || t.easter(49)
        || t.on(5, 1)
        || national_day(t)
        || t.between(12, 24, 26)
        || t.on(12, 31)
}
fn switzerland(t: &Day) -> bool {
    t.weekend()
        || t.between(1, 1, 2)
        || t.easter(-3)
        || t.easter(0)
        || t.easter(38)
        || t.easter(49)
        || t.on(5, 1)
        || t.on(8, 1)
        || t.between(12, 25, 26)
}
fn united_kingdom(t: &Day) -> bool {
    let moved_early_may = t.y == 1995 || t.y == 2020;
    let early_may = if moved_early_may { t.on(5, 8) } else { t.nth(1, MON, 5) };
    let spring = match t.y {
        2002 => t.between(6, 3, 4),
        2012 => t.between(6, 4, 5),
        2022 => t.between(6, 2, 3),
        _ => t.last(MON, 5),
    };
    let once = t.is(2011, 4, 29) || t.is(2022, 9, 19) || t.is(2023, 5, 8) || t.is(1999, 12, 31);
    // Christmas or Boxing Day on a weekend are made up for on the 27th or 28th,
    // if these are a Monday or a Tuesday.
    let instead = t.between(12, 27, 28) && (t.w == MON || t.w == TUE);
    t.weekend()
        || t.or_monday(1, 1)
        || t.easter(-3)
        || t.easter(0)
        || early_may
        || spring
        || t.last(MON, 8)
        || once
        || t.between(12, 25, 26)
        || instead
}

crate::calendars! {
    c24_target(t) {
        judge(&Target, t, target(t));
    }
    c24_germany(t) {
        let m = |market| Germany { market };
        judge(&m(Some(GermanyMarket::Settlement)), t, germany(t));
        judge(&m(Some(GermanyMarket::FrankfurtStockExchange)), t, frankfurt(t));
        judge(&m(Some(GermanyMarket::Xetra)), t, frankfurt(t));
        judge(&m(Some(GermanyMarket::Eurex)), t, frankfurt(t) || t.on(12, 31));
        judge(&m(Some(GermanyMarket::Euwax)), t, frankfurt(t) || t.easter(49));
        judge(&m(None), t, frankfurt(t));
        judge(&Germany::default(), t, frankfurt(t));
    }
    c24_france(t) {
        // Known finding: 10 and 21 May stand for Ascension and Whit Monday. Each
        // day must be as documented or as recorded.
        let right = france(t, t.easter(38), t.easter(49));
        let recorded = france(t, t.on(5, 10), t.on(5, 21));
        for c in [France { market: Some(FranceMarket::Settlement) }, France::default()] {
            let got = c.is_holiday(t.date);
            assert!(got == right || got == recorded);
            assert!(c.is_business_day(t.date) != got);
            crate::finding!("FINDING france-settlement-ascension-pentecost", got != right);
            crate::witness!(got && !t.weekend());
            crate::witness!(!got);
        }
        judge(&France { market: Some(FranceMarket::Exchange) }, t, paris(t));
    }
    c24_italy(t) {
        judge(&Italy { market: Some(ItalyMarket::Settlement) }, t, italy(t));
        judge(&Italy { market: Some(ItalyMarket::Exchange) }, t, milan(t));
        judge(&Italy::default(), t, italy(t));
    }
    c24_austria(t) {
        judge(&Austria { market: Some(AustriaMarket::Settlement) }, t, austria(t));
        judge(&Austria { market: Some(AustriaMarket::Exchange) }, t, vienna(t));
        judge(&Austria::default(), t, austria(t));
    }
    c24_switzerland(t) {
        judge(&Switzerland, t, switzerland(t));
    }
    c24_unitedkingdom(t) {
        judge(&UnitedKingdom { market: Some(UnitedKingdomMarket::Settlement) }, t, united_kingdom(t));
        judge(&UnitedKingdom { market: Some(UnitedKingdomMarket::Exchange) }, t, united_kingdom(t));
        judge(&UnitedKingdom { market: Some(UnitedKingdomMarket::Metals) }, t, united_kingdom(t));
        judge(&UnitedKingdom::default(), t, united_kingdom(t));
    }
}
