//! Closed weekdays that follow no yearly rule, year by year.
use super::Day;

pub fn china(t: &Day) -> bool {
    match t.y {
        2004 => t.between(1, 19, 23)
            || t.between(1, 26, 28),
        2005 => t.on(1, 3)
            || t.between(2, 7, 11)
            || t.between(2, 14, 15),
        2006 => t.between(1, 2, 3)
            || t.between(1, 26, 27)
            || t.between(1, 30, 31)
            || t.between(2, 1, 3),
        2007 => t.between(1, 2, 3)
            || t.between(2, 19, 23)
            || t.on(12, 31),
        2008 => t.between(2, 6, 8)
            || t.between(2, 11, 12)
            || t.between(5, 1, 2)
            || t.between(9, 29, 30)
            || t.between(10, 1, 3),
        2009 => t.on(1, 2)
            || t.between(1, 26, 30)
            || t.on(4, 6)
            || t.on(5, 1)
            || t.between(5, 28, 29)
            || t.between(10, 1, 2)
            || t.between(10, 5, 8),
        2010 => t.between(2, 15, 19)
            || t.on(4, 5)
            || t.on(5, 3)
            || t.between(6, 14, 16)
            || t.between(9, 22, 24)
            || t.on(10, 1)
            || t.between(10, 4, 7),
        2011 => t.on(1, 3)
            || t.between(2, 2, 4)
            || t.between(2, 7, 8)
            || t.between(4, 4, 5)
            || t.on(5, 2)
            || t.on(6, 6)
            || t.on(9, 12)
            || t.between(10, 3, 7),
        2012 => t.between(1, 2, 3)
            || t.between(1, 23, 27)
            || t.between(4, 2, 4)
            || t.on(4, 30)
            || t.on(5, 1)
            || t.on(6, 22)
            || t.between(10, 1, 5),
        2013 => t.between(1, 2, 3)
            || t.between(2, 11, 15)
            || t.between(4, 4, 5)
            || t.between(4, 29, 30)
            || t.on(5, 1)
            || t.between(6, 10, 12)
            || t.between(9, 19, 20)
            || t.between(10, 1, 4)
            || t.on(10, 7),
        2014 => t.on(1, 31)
            || t.between(2, 3, 6)
            || t.on(4, 7)
            || t.between(5, 1, 2)
            || t.on(6, 2)
            || t.on(9, 8)
            || t.between(10, 1, 3)
            || t.between(10, 6, 7),
        2015 => t.on(1, 2)
            || t.between(2, 18, 20)
            || t.between(2, 23, 24)
            || t.on(4, 6)
            || t.on(5, 1)
            || t.on(6, 22)
            || t.between(9, 3, 4)
            || t.between(10, 1, 2)
            || t.between(10, 5, 7),
        2016 => t.between(2, 8, 12)
            || t.on(4, 4)
            || t.on(5, 2)
            || t.between(6, 9, 10)
            || t.between(9, 15, 16)
            || t.between(10, 3, 7),
        2017 => t.on(1, 2)
            || t.on(1, 27)
            || t.between(1, 30, 31)
            || t.between(2, 1, 2)
            || t.between(4, 3, 4)
            || t.on(5, 1)
            || t.between(5, 29, 30)
            || t.between(10, 2, 6),
        2018 => t.between(2, 15, 16)
            || t.between(2, 19, 21)
            || t.between(4, 5, 6)
            || t.on(4, 30)
            || t.on(5, 1)
            || t.on(6, 18)
            || t.on(9, 24)
            || t.between(10, 1, 5)
            || t.on(12, 31),
        2019 => t.between(2, 4, 8)
            || t.on(4, 5)
            || t.between(5, 1, 3)
            || t.on(6, 7)
            || t.on(9, 13)
            || t.between(10, 1, 4)
            || t.on(10, 7),
        2020 => t.on(1, 24)
            || t.between(1, 27, 31)
            || t.on(4, 6)
            || t.on(5, 1)
            || t.between(5, 4, 5)
            || t.between(6, 25, 26)
            || t.between(10, 1, 2)
            || t.between(10, 5, 8),
        2021 => t.between(2, 11, 12)
            || t.between(2, 15, 17)
            || t.on(4, 5)
            || t.between(5, 3, 5)
            || t.on(6, 14)
            || t.between(9, 20, 21)
            || t.on(10, 1)
            || t.between(10, 4, 7),
        2022 => t.on(1, 3)
            || t.on(1, 31)
            || t.between(2, 1, 4)
            || t.between(4, 4, 5)
            || t.between(5, 2, 4)
            || t.on(6, 3)
            || t.on(9, 12)
            || t.between(10, 3, 7),
        2023 => t.on(1, 2)
            || t.between(1, 23, 27)
            || t.on(4, 5)
            || t.between(5, 1, 3)
            || t.between(6, 22, 23)
            || t.on(9, 29)
            || t.between(10, 2, 6),
        _ => false,
    }
}
pub fn hongkong(t: &Day) -> bool {
    match t.y {
        2004 => t.between(1, 22, 23)
            || t.on(4, 5)
            || t.on(5, 26)
            || t.on(6, 22)
            || t.on(9, 29)
            || t.on(10, 22),
        2005 => t.between(2, 9, 11)
            || t.on(4, 5)
            || t.on(5, 16)
            || t.on(9, 19)
            || t.on(10, 11),
        2006 => t.between(1, 30, 31)
            || t.on(4, 5)
            || t.on(5, 5)
            || t.on(5, 31)
            || t.on(10, 30),
        2007 => t.between(2, 19, 20)
            || t.on(4, 5)
            || t.on(5, 24)
            || t.on(6, 19)
            || t.on(9, 26)
            || t.on(10, 19),
        2008 => t.between(2, 7, 8)
            || t.on(4, 4)
            || t.on(5, 12)
            || t.on(6, 9)
            || t.on(9, 15)
            || t.on(10, 7),
        2009 => t.between(1, 26, 28)
            || t.on(5, 28)
            || t.on(10, 26),
        2010 => t.between(2, 15, 16)
            || t.on(4, 6)
            || t.on(5, 21)
            || t.on(6, 16)
            || t.on(9, 23),
        2011 => t.between(2, 3, 4)
            || t.on(4, 5)
            || t.on(5, 10)
            || t.on(6, 6)
            || t.on(9, 13)
            || t.on(10, 5),
        2012 => t.between(1, 23, 25)
            || t.on(4, 4)
            || t.on(10, 2)
            || t.on(10, 23),
        2013 => t.between(2, 11, 13)
            || t.on(4, 4)
            || t.on(5, 17)
            || t.on(6, 12)
            || t.on(9, 20)
            || t.on(10, 14),
        2014 => t.on(1, 31)
            || t.on(2, 3)
            || t.on(5, 6)
            || t.on(6, 2)
            || t.on(9, 9)
            || t.on(10, 2),
        2015 => t.between(2, 19, 20)
            || t.on(4, 7)
            || t.on(5, 25)
            || t.on(9, 3)
            || t.on(9, 28)
            || t.on(10, 21),
        2016 => t.between(2, 8, 10)
            || t.on(4, 4)
            || t.on(6, 9)
            || t.on(9, 16)
            || t.on(10, 10),
        2017 => t.between(1, 30, 31)
            || t.on(4, 4)
            || t.on(5, 3)
            || t.on(5, 30)
            || t.on(10, 5),
        2018 => t.on(2, 16)
            || t.on(2, 19)
            || t.on(4, 5)
            || t.on(5, 22)
            || t.on(6, 18)
            || t.on(9, 25)
            || t.on(10, 17),
        2019 => t.between(2, 5, 7)
            || t.on(4, 5)
            || t.on(5, 13)
            || t.on(6, 7)
            || t.on(10, 7),
        2020 => t.between(1, 27, 28)
            || t.on(4, 30)
            || t.on(6, 25)
            || t.on(10, 2)
            || t.on(10, 26),
        2021 => t.on(2, 12)
            || t.on(2, 15)
            || t.on(4, 6)
            || t.on(5, 19)
            || t.on(6, 14)
            || t.on(9, 22)
            || t.on(10, 14),
        2022 => t.between(2, 1, 3)
            || t.on(4, 5)
            || t.on(5, 9)
            || t.on(6, 3)
            || t.on(9, 12)
            || t.on(10, 4),
        2023 => t.between(1, 23, 25)
            || t.on(4, 5)
            || t.on(5, 26)
            || t.on(6, 22)
            || t.on(10, 23),
        2024 => t.between(2, 12, 13)
            || t.on(4, 4)
            || t.on(5, 15)
            || t.on(6, 10)
            || t.on(9, 18)
            || t.on(10, 11),
        _ => false,
    }
}
pub fn taiwan(t: &Day) -> bool {
    match t.y {
        2002 => t.between(2, 11, 15),
        2003 => t.on(1, 31)
            || t.between(2, 3, 5)
            || t.on(6, 4)
            || t.on(9, 11),
        2004 => t.between(1, 21, 23)
            || t.on(1, 26)
            || t.on(6, 22)
            || t.on(9, 28),
        2005 => t.between(2, 7, 11)
            || t.on(5, 2),
        2006 => t.between(1, 30, 31)
            || t.between(2, 1, 3)
            || t.on(5, 31)
            || t.on(10, 6),
        2007 => t.between(2, 19, 23)
            || t.on(4, 6)
            || t.between(6, 18, 19)
            || t.between(9, 24, 25),
        2008 => t.between(2, 4, 8)
            || t.on(2, 11)
            || t.on(4, 4),
        2009 => t.on(1, 2)
            || t.between(1, 26, 30)
            || t.between(5, 28, 29),
        2010 => t.between(2, 15, 19)
            || t.on(6, 16)
            || t.on(9, 22),
        2011 => t.between(2, 2, 4)
            || t.on(2, 7)
            || t.on(4, 4)
            || t.on(5, 2)
            || t.on(6, 6)
            || t.on(9, 12),
        2012 => t.between(1, 23, 27)
            || t.on(2, 27)
            || t.on(4, 4)
            || t.on(12, 31),
        2013 => t.between(2, 11, 15)
            || t.on(4, 4)
            || t.on(6, 12)
            || t.between(9, 19, 20),
        2014 => t.between(1, 28, 31)
            || t.between(2, 3, 4)
            || t.on(4, 4)
            || t.on(6, 2)
            || t.on(9, 8),
        2015 => t.on(1, 2)
            || t.between(2, 18, 20)
            || t.on(2, 23)
            || t.on(2, 27)
            || t.on(4, 3)
            || t.on(4, 6)
            || t.on(6, 19)
            || t.on(9, 28)
            || t.on(10, 9),
        2016 => t.between(2, 8, 12)
            || t.on(2, 29)
            || t.on(4, 4)
            || t.on(5, 2)
            || t.between(6, 9, 10)
            || t.between(9, 15, 16),
        2017 => t.on(1, 2)
            || t.on(1, 27)
            || t.between(1, 30, 31)
            || t.on(2, 1)
            || t.on(2, 27)
            || t.between(4, 3, 4)
            || t.between(5, 29, 30)
            || t.on(10, 4)
            || t.on(10, 9),
        2018 => t.between(2, 15, 16)
            || t.between(2, 19, 20)
            || t.on(4, 4)
            || t.on(4, 6)
            || t.on(6, 18)
            || t.on(9, 24)
            || t.on(12, 31),
        2019 => t.between(2, 4, 8)
            || t.on(3, 1)
            || t.on(4, 4)
            || t.on(6, 7)
            || t.on(9, 13)
            || t.on(10, 11),
        2020 => t.between(1, 23, 24)
            || t.between(1, 27, 29)
            || t.between(4, 2, 3)
            || t.between(6, 25, 26)
            || t.between(10, 1, 2)
            || t.on(10, 9),
        2021 => t.between(2, 10, 12)
            || t.between(2, 15, 16)
            || t.on(3, 1)
            || t.on(4, 2)
            || t.on(4, 30)
            || t.on(6, 14)
            || t.between(9, 20, 21)
            || t.on(10, 11)
            || t.on(12, 31),
        2022 => t.on(1, 31)
            || t.between(2, 1, 4)
            || t.on(4, 4)
            || t.on(5, 2)
            || t.on(6, 3)
            || t.on(9, 9),
        2023 => t.on(1, 2)
            || t.on(1, 20)
            || t.between(1, 23, 27)
            || t.on(2, 27)
            || t.between(4, 3, 4)
            || t.between(6, 22, 23)
            || t.on(9, 29)
            || t.on(10, 9),
        2024 => t.between(2, 8, 9)
            || t.between(2, 12, 14)
            || t.on(4, 4)
            || t.on(6, 10)
            || t.on(9, 17),
        _ => false,
    }
}
pub fn southkorea(t: &Day) -> bool {
    match t.y {
        2004 => t.between(1, 21, 23)
            || t.on(4, 15)
            || t.on(5, 26)
            || t.between(9, 27, 29),
        2005 => t.between(2, 8, 10)
            || t.on(9, 19),
        2006 => t.on(1, 30)
            || t.on(5, 31)
            || t.between(10, 5, 6),
        2007 => t.on(2, 19)
            || t.on(5, 24)
            || t.between(9, 24, 26)
            || t.on(12, 19),
        2008 => t.between(2, 6, 8)
            || t.on(4, 9)
            || t.on(5, 12)
            || t.on(9, 15),
        2009 => t.between(1, 26, 27)
            || t.on(10, 2),
        2010 => t.on(2, 15)
            || t.on(5, 21)
            || t.on(6, 2)
            || t.between(9, 21, 23),
        2011 => t.between(2, 2, 4)
            || t.on(5, 10)
            || t.between(9, 12, 13),
        2012 => t.between(1, 23, 24)
            || t.on(4, 11)
            || t.on(5, 28)
            || t.on(10, 1)
            || t.on(12, 19),
        2013 => t.on(2, 11)
            || t.on(5, 17)
            || t.between(9, 18, 20),
        2014 => t.between(1, 30, 31)
            || t.on(5, 6)
            || t.on(6, 4)
            || t.between(9, 8, 10),
        2015 => t.between(2, 18, 20)
            || t.on(5, 25)
            || t.on(8, 14)
            || t.between(9, 28, 29),
        2016 => t.between(2, 8, 10)
            || t.on(4, 13)
            || t.between(9, 14, 16),
        2017 => t.on(1, 27)
            || t.on(1, 30)
            || t.on(5, 3)
            || t.on(5, 9)
            || t.between(10, 4, 6),
        2018 => t.between(2, 15, 16)
            || t.on(5, 22)
            || t.on(6, 13)
            || t.between(9, 24, 26),
        2019 => t.between(2, 4, 6)
            || t.between(9, 12, 13),
        2020 => t.on(1, 24)
            || t.on(1, 27)
            || t.on(4, 15)
            || t.on(4, 30)
            || t.on(8, 17)
            || t.on(9, 30)
            || t.between(10, 1, 2),
        2021 => t.between(2, 11, 12)
            || t.on(5, 19)
            || t.between(9, 20, 22),
        2022 => t.on(1, 31)
            || t.between(2, 1, 2)
            || t.on(3, 9)
            || t.on(6, 1)
            || t.on(9, 9)
            || t.on(9, 12),
        2023 => t.between(1, 23, 24)
            || t.on(5, 29)
            || t.between(9, 28, 29)
            || t.on(10, 2),
        2024 => t.on(2, 9)
            || t.on(2, 12)
            || t.on(4, 10)
            || t.on(5, 15)
            || t.between(9, 16, 18),
        2025 => t.between(1, 28, 30)
            || t.on(5, 6)
            || t.between(10, 6, 8),
        2026 => t.between(2, 16, 18)
            || t.on(5, 25)
            || t.between(9, 24, 25),
        2027 => t.between(2, 8, 9)
            || t.on(5, 13)
            || t.between(9, 14, 16),
        2028 => t.between(1, 26, 28)
            || t.on(5, 2)
            || t.on(10, 2)
            || t.between(10, 4, 5),
        2029 => t.between(2, 12, 14)
            || t.on(5, 21)
            || t.on(9, 21)
            || t.on(9, 24),
        2030 => t.between(2, 4, 5)
            || t.on(5, 9)
            || t.between(9, 11, 13),
        2031 => t.between(1, 22, 24)
            || t.on(5, 28)
            || t.on(9, 30)
            || t.between(10, 1, 2),
        2032 => t.between(2, 10, 12)
            || t.on(5, 17)
            || t.between(9, 20, 21),
        2033 => t.on(1, 31)
            || t.between(2, 1, 2)
            || t.on(5, 6)
            || t.between(9, 7, 9),
        2034 => t.between(2, 20, 21)
            || t.on(5, 25)
            || t.between(9, 26, 28),
        2035 => t.between(2, 7, 9)
            || t.on(5, 15)
            || t.between(9, 17, 18),
        2036 => t.between(1, 28, 30)
            || t.on(5, 6)
            || t.between(10, 6, 7),
        2037 => t.between(2, 16, 17)
            || t.on(5, 22)
            || t.between(9, 23, 25),
        2038 => t.between(2, 3, 5)
            || t.on(5, 11)
            || t.between(9, 13, 15),
        2039 => t.between(1, 24, 26)
            || t.on(5, 2)
            || t.between(10, 4, 5),
        2040 => t.between(2, 13, 14)
            || t.on(5, 18)
            || t.between(9, 20, 21),
        2041 => t.on(1, 31)
            || t.on(2, 1)
            || t.on(5, 7)
            || t.between(9, 9, 11),
        2042 => t.between(1, 21, 23)
            || t.on(5, 26)
            || t.between(9, 29, 30),
        2043 => t.between(2, 9, 11)
            || t.on(5, 18)
            || t.between(9, 16, 18),
        2044 => t.on(1, 29)
            || t.on(2, 1)
            || t.on(5, 6)
            || t.between(10, 4, 6),
        2045 => t.between(2, 16, 17)
            || t.on(5, 24)
            || t.between(9, 25, 27),
        2046 => t.between(2, 5, 7)
            || t.on(5, 14)
            || t.on(9, 14)
            || t.on(9, 17),
        2047 => t.on(1, 25)
            || t.on(1, 28)
            || t.on(5, 2)
            || t.on(10, 4)
            || t.on(10, 7),
        2048 => t.between(2, 13, 14)
            || t.on(5, 20)
            || t.between(9, 21, 23),
        2049 => t.between(2, 1, 3)
            || t.on(5, 10)
            || t.on(9, 10)
            || t.on(9, 13),
        2050 => t.between(1, 24, 25)
            || t.on(5, 30)
            || t.between(9, 29, 30),
        _ => false,
    }
}
pub fn india(t: &Day) -> bool {
    match t.y {
        2005 => t.on(1, 21)
            || t.on(9, 7)
            || t.on(10, 12)
            || t.on(11, 1)
            || t.on(11, 3)
            || t.on(11, 15),
        2006 => t.on(1, 11)
            || t.on(2, 9)
            || t.on(3, 15)
            || t.on(4, 6)
            || t.on(4, 11)
            || t.between(10, 24, 25),
        2007 => t.on(1, 1)
            || t.on(1, 30)
            || t.on(2, 16)
            || t.on(3, 27)
            || t.on(5, 2)
            || t.on(11, 9)
            || t.on(12, 21),
        2008 => t.on(3, 6)
            || t.on(3, 20)
            || t.on(4, 18)
            || t.on(5, 19)
            || t.on(9, 3)
            || t.on(10, 9)
            || t.on(10, 28)
            || t.on(10, 30)
            || t.on(11, 13)
            || t.on(12, 9),
        2009 => t.on(1, 8)
            || t.on(2, 23)
            || t.between(3, 10, 11)
            || t.on(4, 3)
            || t.on(4, 7)
            || t.on(9, 21)
            || t.on(9, 28)
            || t.on(10, 19)
            || t.on(11, 2)
            || t.on(12, 28),
        2010 => t.on(1, 1)
            || t.on(2, 12)
            || t.on(3, 1)
            || t.on(3, 24)
            || t.on(9, 10)
            || t.on(11, 5)
            || t.on(11, 17)
            || t.on(12, 17),
        2011 => t.on(3, 2)
            || t.on(4, 12)
            || t.on(8, 31)
            || t.on(9, 1)
            || t.on(10, 6)
            || t.between(10, 26, 27)
            || t.on(11, 7)
            || t.on(11, 10)
            || t.on(12, 6),
        2012 => t.on(2, 20)
            || t.on(3, 8)
            || t.on(4, 5)
            || t.on(8, 20)
            || t.on(9, 19)
            || t.on(10, 24)
            || t.on(11, 14)
            || t.on(11, 28),
        2013 => t.on(3, 27)
            || t.on(4, 19)
            || t.on(4, 24)
            || t.on(8, 9)
            || t.on(9, 9)
            || t.on(10, 16)
            || t.on(11, 4)
            || t.on(11, 14),
        2014 => t.on(2, 27)
            || t.on(3, 17)
            || t.on(4, 8)
            || t.on(7, 29)
            || t.on(8, 29)
            || t.on(10, 3)
            || t.on(10, 6)
            || t.on(10, 24)
            || t.on(11, 4)
            || t.on(11, 6),
        2019 => t.on(2, 19)
            || t.on(3, 4)
            || t.on(3, 21)
            || t.on(4, 1)
            || t.on(4, 17)
            || t.on(4, 29)
            || t.on(6, 5)
            || t.on(8, 12)
            || t.on(9, 2)
            || t.on(9, 10)
            || t.on(10, 8)
            || t.on(10, 21)
            || t.on(10, 28)
            || t.on(11, 12),
        2020 => t.on(2, 19)
            || t.on(2, 21)
            || t.on(3, 10)
            || t.on(3, 25)
            || t.between(4, 1, 2)
            || t.on(4, 6)
            || t.on(5, 7)
            || t.on(5, 25)
            || t.on(10, 30)
            || t.on(11, 16)
            || t.on(11, 30),
        2021 => t.on(2, 19)
            || t.on(3, 11)
            || t.on(3, 29)
            || t.on(4, 13)
            || t.on(4, 21)
            || t.on(5, 26)
            || t.on(7, 21)
            || t.on(9, 10)
            || t.on(10, 15)
            || t.on(10, 19)
            || t.on(11, 5)
            || t.on(11, 19),
        2022 => t.on(3, 1)
            || t.on(3, 18)
            || t.on(5, 3)
            || t.on(5, 16)
            || t.on(8, 31)
            || t.on(10, 5)
            || t.on(10, 26)
            || t.on(11, 8),
        2023 => t.on(3, 8)
            || t.on(3, 22)
            || t.on(3, 30)
            || t.on(4, 4)
            || t.on(5, 5)
            || t.on(6, 28)
            || t.on(9, 19)
            || t.on(9, 28)
            || t.on(10, 24)
            || t.on(11, 14)
            || t.on(11, 27),
        2024 => t.on(2, 19)
            || t.on(3, 8)
            || t.on(3, 25)
            || t.on(4, 9)
            || t.on(4, 17)
            || t.on(5, 23)
            || t.on(6, 17)
            || t.on(8, 27)
            || t.on(9, 16)
            || t.on(11, 15),
        2025 => t.on(2, 19)
            || t.on(2, 26)
            || t.on(3, 14)
            || t.on(3, 31)
            || t.on(4, 10)
            || t.on(5, 12)
            || t.on(9, 5)
            || t.on(10, 22)
            || t.on(11, 5),
        _ => false,
    }
}
pub fn indonesia(t: &Day) -> bool {
    match t.y {
        2005 => t.on(1, 21)
            || t.between(2, 9, 10)
            || t.on(3, 11)
            || t.on(4, 22)
            || t.on(5, 24)
            || t.on(9, 2)
            || t.between(11, 2, 4)
            || t.between(11, 7, 8)
            || t.on(12, 26),
        2006 => t.on(1, 10)
            || t.on(1, 31)
            || t.on(3, 30)
            || t.on(4, 10)
            || t.on(8, 21)
            || t.between(10, 23, 27),
        2007 => t.on(3, 19)
            || t.on(5, 18)
            || t.on(6, 1)
            || t.on(10, 12)
            || t.between(10, 15, 16)
            || t.on(10, 24)
            || t.on(12, 20),
        2008 => t.between(1, 10, 11)
            || t.between(2, 7, 8)
            || t.on(3, 7)
            || t.on(3, 20)
            || t.on(5, 20)
            || t.on(7, 30)
            || t.on(8, 18)
            || t.on(9, 30)
            || t.between(10, 1, 3)
            || t.on(12, 8)
            || t.on(12, 29)
            || t.on(12, 31),
        2009 => t.on(1, 2)
            || t.on(1, 26)
            || t.on(3, 9)
            || t.on(3, 26)
            || t.on(4, 9)
            || t.on(7, 20)
            || t.on(9, 18)
            || t.between(9, 21, 23)
            || t.on(11, 27)
            || t.on(12, 18)
            || t.on(12, 24)
            || t.on(12, 31),
        2010 => t.on(2, 26)
            || t.on(3, 16)
            || t.on(5, 28)
            || t.between(9, 8, 10)
            || t.between(9, 13, 14)
            || t.on(11, 17)
            || t.on(12, 7)
            || t.on(12, 24)
            || t.on(12, 31),
        2011 => t.on(2, 3)
            || t.on(2, 15)
            || t.on(5, 17)
            || t.on(6, 29)
            || t.between(8, 29, 31)
            || t.between(9, 1, 2)
            || t.on(12, 26),
        2012 => t.on(1, 23)
            || t.on(3, 23)
            || t.between(8, 20, 22)
            || t.on(10, 26)
            || t.between(11, 15, 16)
            || t.on(12, 24)
            || t.on(12, 31),
        2013 => t.on(1, 24)
            || t.on(3, 12)
            || t.on(6, 6)
            || t.between(8, 5, 9)
            || t.between(10, 14, 15)
            || t.on(11, 5)
            || t.on(12, 26)
            || t.on(12, 31),
        2014 => t.on(1, 14)
            || t.on(1, 31)
            || t.on(3, 31)
            || t.on(5, 1)
            || t.on(5, 15)
            || t.on(5, 27)
            || t.between(7, 28, 31)
            || t.on(8, 1)
            || t.on(12, 26)
            || t.on(12, 31),
        _ => false,
    }
}
pub fn singapore(t: &Day) -> bool {
    match t.y {
        2004 => t.between(1, 22, 23)
            || t.on(2, 2)
            || t.on(6, 2)
            || t.on(11, 11)
            || t.on(11, 15),
        2005 => t.on(1, 21)
            || t.between(2, 9, 10)
            || t.on(11, 1)
            || t.on(11, 3),
        2006 => t.on(1, 10)
            || t.between(1, 30, 31)
            || t.on(5, 12)
            || t.on(10, 24),
        2007 => t.on(1, 2)
            || t.between(2, 19, 20)
            || t.on(5, 31)
            || t.on(11, 8)
            || t.on(12, 20),
        2008 => t.between(2, 7, 8)
            || t.on(10, 1)
            || t.on(10, 28)
            || t.on(12, 8),
        2009 => t.between(1, 26, 27)
            || t.on(9, 21)
            || t.on(11, 16)
            || t.on(11, 27),
        2010 => t.between(2, 15, 16)
            || t.on(5, 28)
            || t.on(9, 10)
            || t.on(11, 5)
            || t.on(11, 17),
        2012 => t.between(1, 23, 24)
            || t.on(8, 20)
            || t.on(10, 26)
            || t.on(11, 13),
        2013 => t.between(2, 11, 12)
            || t.on(5, 24)
            || t.on(8, 8)
            || t.on(10, 15),
        2014 => t.on(1, 31)
            || t.on(5, 13)
            || t.on(7, 28)
            || t.on(10, 6)
            || t.on(10, 23),
        2019 => t.between(2, 5, 6)
            || t.on(5, 20)
            || t.on(6, 5)
            || t.on(8, 12)
            || t.on(10, 28),
        2020 => t.on(1, 27)
            || t.on(5, 7)
            || t.on(5, 25)
            || t.on(7, 31),
        2021 => t.on(2, 12)
            || t.on(5, 13)
            || t.on(5, 26)
            || t.on(7, 20)
            || t.on(11, 4),
        2022 => t.between(2, 1, 2)
            || t.between(5, 2, 3)
            || t.on(5, 16)
            || t.on(7, 11)
            || t.on(10, 24)
            || t.on(12, 26),
        2023 => t.between(1, 23, 24)
            || t.on(6, 2)
            || t.on(6, 29)
            || t.on(11, 13),
        _ => false,
    }
}
pub fn thailand(t: &Day) -> bool {
    match t.y {
        2000 => t.on(2, 21)
            || t.on(5, 5)
            || t.on(5, 17)
            || t.on(7, 17)
            || t.on(10, 23),
        2001 => t.on(2, 8)
            || t.between(5, 7, 8)
            || t.on(7, 6)
            || t.on(10, 23),
        2005 => t.on(2, 23)
            || t.on(5, 5)
            || t.on(5, 23)
            || t.on(7, 1)
            || t.on(7, 22)
            || t.on(10, 24),
        2006 => t.on(2, 13)
            || t.on(4, 19)
            || t.on(5, 5)
            || t.on(5, 12)
            || t.between(6, 12, 13)
            || t.on(7, 11)
            || t.on(10, 23),
        2007 => t.on(3, 5)
            || t.on(5, 7)
            || t.on(5, 31)
            || t.on(7, 30)
            || t.on(10, 23)
            || t.on(12, 24),
        2008 => t.on(2, 21)
            || t.on(5, 5)
            || t.on(5, 19)
            || t.on(7, 1)
            || t.on(7, 17)
            || t.on(10, 23),
        2009 => t.on(1, 2)
            || t.on(2, 9)
            || t.on(5, 5)
            || t.on(5, 8)
            || t.on(7, 1)
            || t.between(7, 6, 7)
            || t.on(10, 23),
        2010 => t.on(3, 1)
            || t.on(5, 5)
            || t.between(5, 20, 21)
            || t.on(5, 28)
            || t.on(7, 1)
            || t.on(7, 26)
            || t.on(8, 13)
            || t.on(10, 25),
        2011 => t.on(2, 18)
            || t.on(5, 5)
            || t.between(5, 16, 17)
            || t.on(7, 1)
            || t.on(7, 15)
            || t.on(10, 24),
        2012 => t.on(1, 3)
            || t.on(3, 7)
            || t.on(4, 9)
            || t.on(5, 7)
            || t.on(6, 4)
            || t.on(8, 2)
            || t.on(10, 23),
        2013 => t.on(2, 25)
            || t.on(5, 6)
            || t.on(5, 24)
            || t.on(7, 1)
            || t.on(7, 22)
            || t.on(10, 23)
            || t.on(12, 30),
        2014 => t.on(2, 14)
            || t.on(5, 5)
            || t.on(5, 13)
            || t.on(7, 1)
            || t.on(7, 11)
            || t.on(8, 11)
            || t.on(10, 23),
        2015 => t.on(1, 2)
            || t.on(3, 4)
            || t.between(5, 4, 5)
            || t.on(6, 1)
            || t.on(7, 1)
            || t.on(7, 30)
            || t.on(10, 23),
        2016 => t.on(2, 22)
            || t.between(5, 5, 6)
            || t.on(5, 20)
            || t.on(7, 1)
            || t.between(7, 18, 19)
            || t.on(10, 24),
        2017 => t.on(2, 13)
            || t.on(5, 10)
            || t.on(7, 10)
            || t.on(10, 23)
            || t.on(10, 26),
        2018 => t.on(3, 1)
            || t.on(5, 29)
            || t.on(7, 27)
            || t.on(10, 23),
        _ => false,
    }
}
