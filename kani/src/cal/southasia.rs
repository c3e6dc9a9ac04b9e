//! C28: South and South-East Asia.
use super::lists;
use super::*;
use calendar::{india::*, indonesia::*, singapore::*, thailand::*};

pub fn india(t: &Day) -> bool {
    t.weekend() || t.on(1, 26) || t.easter(-3) || t.on(4, 14) || t.on(5, 1) || t.on(8, 15) || t.on(10, 2) || t.on(12, 25)
}
pub fn indonesia(t: &Day) -> bool {
    t.weekend() || t.on(1, 1) || t.easter(-3) || t.easter(38) || t.on(8, 17) || t.on(12, 25)
}
pub fn singapore(t: &Day) -> bool {
    t.weekend() || t.sunday_to_monday(1, 1) || t.easter(-3) || t.on(5, 1) || t.sunday_to_monday(8, 9) || t.on(12, 25)
}
pub fn thailand(t: &Day) -> bool {
    t.weekend()
        || t.or_monday(1, 1)
        || t.or_monday(4, 6)
        || t.between(4, 13, 15)
        || (t.on(4, 16) && (t.w == MON || t.w == TUE))
        || t.or_monday(5, 1)
        || (t.y >= 2017 && t.or_monday(7, 28))
        || t.or_monday(8, 12)
        || (t.y >= 2017 && t.or_monday(10, 13))
        || t.or_monday(12, 5)
        || t.or_monday(12, 10)
        || t.on(12, 31)
}

crate::calendars! {
    c28_india(t) { judge(&India, t, india(t) || lists::india(t)); }
    c28_indonesia(t) { judge(&Indonesia, t, indonesia(t) || lists::indonesia(t)); }
    c28_singapore(t) { judge(&Singapore, t, singapore(t) || lists::singapore(t)); }
    c28_thailand(t) { judge(&Thailand, t, thailand(t) || lists::thailand(t)); }
}
