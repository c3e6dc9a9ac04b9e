"""What each check runs, its bounds and assumptions (used for the evidence and the manifest)."""

CHRONO = "chrono is encoded together with the repository's code, except where a stub is named"
UNIT = ("stub: chrono::TimeDelta keeps whole days in place of 86400 seconds each "
        "(try_days/num_days replaced together); counterexamples are replayed without it")
DEV = "Kani models the dev profile (overflow checks on), 64-bit"
PROPS = {}


def P(id, engines, bounds, outside="", assumptions=(), **kw):
    PROPS[id] = dict(engines=engines.split(), bounds=bounds, outside=outside,
                     assumptions=[DEV, CHRONO] * ("kani" in engines) + list(assumptions), **kw)


P("C01", "kani", "construction: all i32 years -262143..262142, all u32 months and days; order: pairs of dates of years -9999..9999",
  "years not representable by the date type")
P("C02", "kani", "serial: every date of years 1..9999; difference: every pair of dates of years 1901..2199",
  "differences involving other years", [UNIT])
P("C03", "kani", "exact result: every date of years 1901..2199, n <= 800 (thorough: n <= 36525); no panic, bounds and direction: every date, every u64 n; succ/pred: years -9999..9999",
  "the exact result of larger shifts")
P("C04", "kani", "every date of years 1901..2199 with 0..2400 months, -1000..1000 years; every date and amount for totality and the resulting year and month",
  "the day of month for years outside 1901..2199 when adding months (only bounded there)")
P("C06", "kani", "every date of years 1901..2199")
P("C05", "kani", "every start and period-added date of years 1901..2199, every holiday pattern with a business day within 6 days either side, each convention; day, month and year periods up to 400 days and months and -200..200 years",
  "gaps of more than 6 days without a business day")
P("C07", "kani", "every date of years 1901..2199; an arbitrary market calendar, and the TARGET and Ukrainian ones")
P("C08", "kani", "every pair of dates of years 1901..2199, exact fractions", "rounding of f32 and f64", [UNIT])
P("C09", "kani", "every pair of dates of years 1901..2199, exact fractions", "rounding of f32 and f64",
  ["stub: alloc::fmt::format returns an empty string (error messages are not the subject)"])
REAL = ("exact real arithmetic stands in for floats (rounding is outside the claim); a possibly zero divisor is an error of the code, "
        "or an arbitrary value where points need not increase")
P("C10", "symval kani", "0 to 7 points (natural cubic: 5 for the domain; thorough: 12 and 6), every abscissa, ordinate, slope and query over the reals; floats with infinities and NaN: 0, 2, 3 and 4 points",
  "more points", [REAL, "Kani part: a float is its place in the order or NaN, arithmetic gives an arbitrary float"])
P("C11", "symval", "0 to 7 points (thorough: 12), every real value", "more points", [REAL])
P("C12", "symval", "2 to 12 points (thorough: 32), every strictly increasing abscissae, ordinates and query inside", "more points", [REAL])
P("C13", "symval", "3 to 9 points (thorough: 20), every strictly increasing abscissae, ordinates, slopes and query inside", "more points", [REAL])
P("C14", "symval", "3 to 9 points (thorough: 20), every strictly increasing abscissae, ordinates and query inside", "more points", [REAL])
P("C15", "symval", "3 to 5 points with every strictly increasing abscissae; 5, 6 and 8 points on fixed uneven grids, and 6 points with one abscissa free (thorough: 10 and 12 points, one abscissa free up to 9); every ordinate and query inside",
  "all abscissae free for more than 5 points", [REAL])
FMT = "stub: alloc::fmt::format returns an empty string (error messages are not the subject)"
AMOUNTS = ("symbolic numbers: exact real arithmetic stands in for floats, exp and ln are any values with exp > 0 and exp(x) compared with 1 as x with 0")
P("C16", "symval kani", "symbolic dates: every settlement and pair of dates of years 1901..2199; arbitrary day count and interpolator answers and failures; arithmetic modulo 256, exp kept formal; all real fractions and yields at 11 given pairs of dates, also composed with the linear interpolator",
  "rounding", [FMT, AMOUNTS])
P("C17", "symval kani", "symbolic dates: 0 to 3 maturities (thorough: 4) of years 1901..2199 and up to 4 yields, every value, arbitrary day count and fit failures; all real fractions and yields with 0 to 6 given maturities and 0 to 6 yields", "more points", [FMT, AMOUNTS])
MONTHS = ("stub in c18_total and c18t_any: Date::checked_add_months, checked_sub_months and weekend_roll by their specification (decided by C04 and C06)")
P("C18", "kani", "schedule: given first and penultimate coupon dates (31 August, 29 February, 15 May, 30 December; 1 to 5 coupons, one with a late penultimate date; thorough: 8 to 10 coupons and any single-coupon bond of years 1901..2199), every issue, maturity, settlement and probed date within years of them; no panic: every four dates the date type has, with at most one coupon",
  "other schedules of several coupons; panics with more than one coupon at the ends of the date range", [UNIT, FMT, MONTHS,
  "value: presence of a payment only (amounts: C19)"])
P("C19", "symval kani", "symbolic dates: given first and penultimate dates as for C18, every issue and maturity date within three years of them; every rate and face value (polynomials); all real rates, face values, yields and fractions for given bonds",
  "rounding; other first and penultimate dates", [UNIT, FMT, AMOUNTS])
P("C20", "symval kani", "two given bonds of four payments; every settlement, curve settlement and failing date within a year of their life, discount factors 0, 1 or 2 for each payment (the value is linear in them); all real rates, face values, yields and fractions for ten given bonds",
  "other bonds", [UNIT, FMT, AMOUNTS, "Kani part: amounts in the field of 251 elements"])
P("C21", "kani", "every year 1901..2199")
P("C22", "kani", "every date of years 1901..2199 and every holiday pattern (with a business day among the month's last eight days for end_of_month)", "",
  [UNIT])
P("C23", "kani", "every date of years 1901..2199 and the 0, 1 or 2 days after it; both orders from month- and year-end dates up to 9 (thorough: 20) days apart; every holiday pattern and flag",
  "longer ranges", [UNIT])
DAYS = "every day of years 1901..2199, each market"
RULE = "the rules are transcribed from the calendars' documentation; Easter Monday is taken from the tables (decided by C21)"
P("C24", "kani", DAYS, "", [RULE])
LISTS = "holidays that follow no yearly rule are compared with a committed list (kani/src/cal/lists.rs)"
P("C25", "kani", DAYS, "", [RULE])
P("C26", "kani", DAYS, "", [RULE])
P("C27", "kani", DAYS, "", [RULE, LISTS])
P("C28", "kani", DAYS, "", [RULE, LISTS])
P("C29", "kani", DAYS, "", [RULE, "Turkey's feasts are compared with a committed list; Israel's moon-dependent holidays (2013 to 2044) with the Hebrew calendar's arithmetic"])
